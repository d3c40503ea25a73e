// C29: graph partitioning returns a complete, compact and reproducible partition
// technique: property-based testing: random graph families (paths, cycles, grids, trees, stars, random, clustered, disconnected), invariants of the partition checked by the harness, metamorphic relations on diagonal and values
// modules: partition
#include "solve.hpp"
#include "partition.hpp"
using pbt::S;

namespace
{
struct Graph { int n; std::vector<std::set<int>> nb; const char* kind; Graph(int n) : n(n), nb(n), kind("") {} void edge(int i, int j) { if (i != j) { nb[i].insert(j); nb[j].insert(i); } } size_t edges() const { size_t e = 0; for (auto& s : nb) { e += s.size(); } return e / 2; } };

Graph graph(S& s, int big)
{
    int n = big > 150 ? s.i(150, big) : s.chance(0.8) ? s.i(1, 12) : s.i(1, big); Graph g(n); int k = s.weighted({2, 1, 2, 2, 1, 4, 2, 1, 1});
    switch (k)
    {
        case 0: g.kind = "path"; for (int i = 0; i + 1 < n; ++i) { g.edge(i, i + 1); } break;
        case 1: g.kind = "cycle"; for (int i = 0; i < n; ++i) { g.edge(i, (i + 1) % n); } break;
        case 2: { g.kind = "grid"; int w = std::max(1, s.i(1, 8)); for (int i = 0; i < n; ++i) { if (i % w + 1 < w && i + 1 < n) { g.edge(i, i + 1); } if (i + w < n) { g.edge(i, i + w); } } break; }
        case 3: g.kind = "tree"; for (int i = 1; i < n; ++i) { g.edge(i, s.u(i - 1)); } break;
        case 4: g.kind = "star"; for (int i = 1; i < n; ++i) { g.edge(i, 0); } break;
        case 5: { g.kind = "random"; int m = s.i(0, 3 * n); for (int e = 0; e < m; ++e) { g.edge(s.u(n - 1), s.u(n - 1)); } break; }
        case 6: { g.kind = "connected random"; for (int i = 1; i < n; ++i) { g.edge(i, s.u(i - 1)); } int m = s.i(0, 2 * n); for (int e = 0; e < m; ++e) { g.edge(s.u(n - 1), s.u(n - 1)); } break; }
        case 7: g.kind = "complete"; if (n < 20) { for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) { g.edge(i, j); } } break;
        default: g.kind = "no edges"; break;
    }
    if (s.chance(0.3)) { std::vector<int> q = s.permutation(n); Graph h(n); h.kind = g.kind; for (int i = 0; i < n; ++i) for (int j : g.nb[i]) { h.edge(q[i], q[j]); } return h; }
    return g;
}
int components(const Graph& g, const std::vector<int>& label)
{
    std::vector<int> seen(g.n, 0); int c = 0;
    for (int r = 0; r < g.n; ++r) { if (seen[r]) { continue; } ++c; std::vector<int> st(1, r); seen[r] = 1; while (!st.empty()) { int v = st.back(); st.pop_back(); for (int w : g.nb[v]) { if (!seen[w] && label[w] == label[v]) { seen[w] = 1; st.push_back(w); } } } }
    return c;
}
// the matrix of a graph: symmetric pattern, with or without a diagonal, values symmetric
template <typename T>
la::SparseMatrix<T> matrix(const Graph& g, int diag, pbt::Rng r, bool simple, bool unit, int flip)
{
    std::vector<int> p(1, 0), x; std::vector<T> d; std::map<std::pair<int, int>, T> val;
    for (int i = 0; i < g.n; ++i)
    {
        std::set<int> cols(g.nb[i]); if (diag == 1 || (diag == 2 && r.below(2))) { cols.insert(i); }
        for (int j : cols) { auto key = std::minmax(i, j); auto it = val.find(key); if (it == val.end()) { T v = simple || unit ? T(1) : (T) (1 + (int) r.below(9)); if (flip && r.below(2)) { v = -v; } if (flip == 2) { int w = r.below(4); v = w == 0 ? T(0) : w == 1 ? (T) (v * T(0.125)) : w == 2 ? (T) (v * T(100000)) : v; } it = val.insert({key, v}).first; } x.push_back(j); d.push_back(it->second); }
        p.push_back((int) x.size());
    }
    return la::SparseMatrix<T>(std::move(p), std::move(x), std::move(d), g.n, g.n);
}
std::string show(const Graph& g) { std::ostringstream o; o << g.kind << " n=" << g.n << " edges"; for (int i = 0; i < g.n; ++i) for (int j : g.nb[i]) { if (i < j) { o << " " << i << "-" << j; } } return o.str(); }

template <typename T>
std::vector<int> run(const la::SparseMatrix<T>& m, int parts, double ub, bool contig, bool weighted, int dflt)
{
    Quiet q; if (dflt == 1) { return la::Partition(m, parts); } if (dflt == 2) { return la::Partition(m, parts, ub); } if (dflt == 3) { return la::Partition(m, parts, ub, contig); } return la::Partition(m, parts, ub, contig, weighted);
}

template <typename T>
void partition(S& s, int big = 150)
{
    Graph g = graph(s, big); int parts = s.chance(0.15) ? g.n : s.i(1, std::min(g.n, s.chance(0.8) ? 5 : 30)); double ub = s.pick({1.0, 1.01, 1.3, 1.5, 2.0, 5.0}); int dflt = s.weighted({6, 1, 1, 2}); bool contig = s.chance(0.6), weighted = s.chance(0.4);
    if (dflt == 1) { ub = 1.0; } if (dflt && dflt < 3) { contig = true; } if (dflt) { weighted = false; }
    bool simple; pbt::Rng r = s.bulk(simple); int diag = s.u(2); s.note([&](std::ostream & o) { o << show(g) << " parts " << parts << " unbalance " << ub << " contig " << contig << " weighted " << weighted << " diagonal " << diag; });
    la::SparseMatrix<T> m = matrix<T>(g, diag, r, simple, false, 0); la::SparseMatrix<T> m0(m); s.nontrivial(parts > 1 && g.edges() > 1); s.label(g.kind); s.label("no diagonal", diag == 0);
    std::vector<int> one(g.n, 0); bool connected = components(g, one) == 1; s.label("disconnected", !connected); s.label("parts == vertices", parts == g.n);
    std::vector<int> p = run(m, parts, ub, contig, weighted, dflt);
    CHECK((int) p.size() == g.n, p.size() << " labels for " << g.n << " vertices"); std::set<int> used(p.begin(), p.end()); CHECK(*used.begin() == 0 && *used.rbegin() + 1 == (int) used.size(), "labels have gaps: " << ::show(p)); CHECK((int) used.size() <= parts, used.size() << " parts, " << parts << " requested: " << ::show(p));
    if (contig && connected && parts > 1) { int c = components(g, p); CHECK(c == (int) used.size(), "contiguity requested, but the " << used.size() << " parts fall into " << c << " connected pieces: " << ::show(p)); }
    CHECK(run(m, parts, ub, contig, weighted, dflt) == p, "the same call gives another partition"); CHECK(m.GetIndptr() == m0.GetIndptr() && m.GetIndices() == m0.GetIndices() && m.GetData() == m0.GetData(), "the matrix changed");
    la::SparseMatrix<T> d = matrix<T>(g, (diag + 1) % 2, r, simple, false, 0);
    if (!weighted)
    {
        CHECK(run(d, parts, ub, contig, false, dflt) == p, "the diagonal influences the partition"); CHECK(run(matrix<T>(g, 2, r, simple, false, 1), parts, ub, contig, false, dflt) == p, "the values influence the partition without weights");
        CHECK(run(matrix<T>(g, diag, r, false, false, 2), parts, ub, contig, false, dflt) == p, "the values (zeros, fractions, large numbers) influence the partition without weights");
        CHECK(run(matrix<T>(g, diag, r, simple, true, 0), parts, ub, contig, true, 0) == p, "unit weights give another partition than no weights");
    }
    else
    {
        // the same weights with other signs and another diagonal
        la::SparseMatrix<T> f(m); std::vector<T> w(f.GetData()); for (size_t k = 0; k < w.size(); ++k) { if (r.below(2)) { w[k] = -w[k]; } }
        CHECK(run(la::SparseMatrix<T>(f.GetIndptr(), f.GetIndices(), w, g.n, g.n), parts, ub, contig, true, 0) == p, "the sign of the values influences the partition");
        std::vector<int> q(1, 0), x; std::vector<T> v; for (int i = 0; i < g.n; ++i) { if (diag == 0) { x.push_back(i); v.push_back(T(1000)); } for (int k = m.GetIndptr()[i]; k < m.GetIndptr()[i + 1]; ++k) { if (m.GetIndices()[k] != i) { x.push_back(m.GetIndices()[k]); v.push_back(m.GetData()[k]); } } q.push_back((int) x.size()); }
        CHECK(run(la::SparseMatrix<T>(q, x, v, g.n, g.n), parts, ub, contig, true, 0) == p, "the diagonal influences the weighted partition");
    }
    // unrelated work in between (other graphs, other sizes) does not change the answer
    Graph h = graph(s, 20); { Quiet quiet; la::Partition(matrix<T>(h, 1, r, simple, false, 0), std::min(h.n, 3), 1.5, false); } CHECK(run(m, parts, ub, contig, weighted, dflt) == p, "the answer depends on earlier calls");
}

// sizeable graphs: every requested part is used and none is much larger than its share
void balance(S& s)
{
    int parts = s.i(2, 6), n = parts * s.i(30, 150); Graph g(n); int k = s.u(3), w = 0;
    if (k == 0) { g.kind = "path"; for (int i = 0; i + 1 < n; ++i) { g.edge(i, i + 1); } } else if (k == 1) { g.kind = "cycle"; for (int i = 0; i < n; ++i) { g.edge(i, (i + 1) % n); } }
    else if (k == 2) { g.kind = "grid"; w = s.i(5, 12); for (int i = 0; i < n; ++i) { if (i % w + 1 < w && i + 1 < n) { g.edge(i, i + 1); } if (i + w < n) { g.edge(i, i + w); } } }
    else { g.kind = "connected random"; pbt::Rng r(s.u(1 << 20)); for (int i = 0; i < n; ++i) { g.edge(i, (i + 1) % n); g.edge(i, (int) r.below(n)); } }
    double ub = s.pick({1.0, 1.05, 1.3}); bool contig = s.chance(0.6), weighted = s.chance(0.3); bool simple; pbt::Rng r = s.bulk(simple); s.note([&](std::ostream & o) { o << g.kind << " n=" << n << " width " << w << " parts " << parts << " unbalance " << ub << " contig " << contig << " weighted " << weighted; }); s.nontrivial(); s.label(g.kind);
    std::vector<int> p = run(matrix<double>(g, s.u(2), r, simple, true, 0), parts, ub, contig, weighted, 0); std::map<int, int> size; for (int v : p) { ++size[v]; }
    CHECK((int) size.size() == parts, "only " << size.size() << " of " << parts << " parts are used on a connected graph of " << n << " vertices"); double share = (double) n / parts;
    for (auto& e : size) { CHECK(e.second <= share * std::max(ub, 1.05) * 1.35 + 3, "part " << e.first << " has " << e.second << " vertices, an equal share is " << share << ", unbalance factor " << ub); }
}
// groups of vertices that are strongly tied inside and weakly to each other are not torn apart
template <typename T>
void groups(S& s)
{
    int k = s.i(2, 4), m = s.i(8, 20), n = k * m; bool weighted = s.chance(0.6), contig = s.chance(0.5); std::vector<int> q = s.permutation(n); pbt::Rng r(s.u(1 << 20)); std::vector<std::map<int, T>> rows(n); const T heavy = weighted ? T(500) : T(1);
    auto edge = [&](int i, int j, T v) { if (i == j || rows[q[i]].count(q[j])) { return; } if (r.below(4) == 0) { v = -v; } rows[q[i]][q[j]] = v; rows[q[j]][q[i]] = v; };
    // inside: heavy (all pairs without weights); between: light edges along a ring of groups, with weights as many as inside
    for (int a = 0; a < k; ++a) for (int i = 0; i < m; ++i) for (int j = 0; j < i; ++j) { if (!weighted || j + 1 == i || r.below(3) == 0) { edge(a * m + i, a * m + j, heavy); } }
    for (int a = 0; a + 1 < k; ++a) { edge(a * m + m - 1, (a + 1) * m, T(1)); } if (weighted) { for (int e = 0; e < n; ++e) { int i = (int) r.below(n), j = (int) r.below(n); if (i / m != j / m) { edge(i, j, T(1)); } } }
    bool diag = s.chance(0.5); if (diag) { for (int i = 0; i < n; ++i) { rows[i][i] = T(7); } }
    std::vector<int> p(1, 0), x; std::vector<T> d; for (auto& row : rows) { for (auto& e : row) { x.push_back(e.first); d.push_back(e.second); } p.push_back((int) x.size()); }
    s.note([&](std::ostream & o) { o << k << " groups of " << m << " weighted " << weighted << " contig " << contig << " diagonal " << diag << " order " << ::show(q); }); s.nontrivial();
    std::vector<int> got = run(la::SparseMatrix<T>(p, x, d, n, n), k, s.pick({1.0, 1.2, 1.5}), contig, weighted, 0);
    for (int a = 0; a < k; ++a) for (int i = 1; i < m; ++i) { CHECK(got[q[a * m + i]] == got[q[a * m]], "group " << a << " is torn apart: vertices " << q[a * m] << " and " << q[a * m + i] << " are in parts " << got[q[a * m]] << " and " << got[q[a * m + i]]); }
}

void remove_empty(S& s, bool many = false)
{
    int n = many ? s.i(30, 1500) : s.i(1, 30), hi = many ? s.i(0, 900) : s.i(0, 12); std::vector<int> p(n); for (auto& v : p) { v = s.u(hi); if (s.chance(0.05)) { v *= 50; } } std::vector<int> q(p); s.note([&](std::ostream & o) { o << ::show(p); });
    la::RemoveEmpty(q); std::set<int> used(p.begin(), p.end()); std::vector<int> order(used.begin(), used.end()); s.nontrivial((int) order.size() < order.back() + 1);
    CHECK(q.size() == p.size(), q.size() << " labels, expected " << p.size()); for (int i = 0; i < n; ++i) { int want = (int) (std::lower_bound(order.begin(), order.end(), p[i]) - order.begin()); CHECK(q[i] == want, "vertex " << i << " of part " << p[i] << " got label " << q[i] << ", expected " << want << ": " << ::show(q)); }
}

template <typename T>
void adjacency(S& s)
{
    Graph g = graph(s, 40); bool simple; pbt::Rng r = s.bulk(simple); int diag = s.u(2); bool weighted = s.chance(0.5); la::SparseMatrix<T> m = matrix<T>(g, diag, r, simple, false, 1); s.note([&](std::ostream & o) { o << show(g) << " diagonal " << diag; }); s.nontrivial(g.edges() > 1); s.label("no diagonal", diag == 0);
    auto a = la::MakeAdjacencyInfo<T, idx_t>(m, weighted); auto& ptr = std::get<0>(a); auto& ind = std::get<1>(a); auto& wgt = std::get<2>(a); CHECK((int) ptr.size() == g.n + 1 && ptr[0] == 0 && ind.size() == wgt.size() && ptr.back() == (idx_t) ind.size(), "sizes of the adjacency arrays");
    for (int i = 0; i < g.n; ++i) { std::map<int, T> want; for (int k = m.GetIndptr()[i]; k < m.GetIndptr()[i + 1]; ++k) { if (m.GetIndices()[k] != i) { want[m.GetIndices()[k]] = m.GetData()[k]; } } CHECK(ptr[i + 1] - ptr[i] == (idx_t) want.size(), "vertex " << i << " has " << ptr[i + 1] - ptr[i] << " neighbours, expected " << want.size()); for (idx_t k = ptr[i]; k < ptr[i + 1]; ++k) { auto it = want.find((int) ind[k]); CHECK(it != want.end(), "vertex " << i << " has neighbour " << ind[k]); CHECK(wgt[k] == (weighted ? (idx_t) std::fabs((double) it->second) : 1), "edge " << i << "-" << ind[k] << " has weight " << wgt[k]); want.erase(it); } }
}
}

LAW(partition_double, 4000, 60000, "more than one part and more than one edge") { partition<double>(s); }
LAW(partition_int, 2500, 30000, "more than one part and more than one edge") { partition<int>(s); }
LAW(remove_empty, 20000, 200000, "some label unused") { remove_empty(s); }
LAW(adjacency_double, 8000, 80000, "more than one edge") { adjacency<double>(s); }
LAW(adjacency_int, 4000, 40000, "more than one edge") { adjacency<int>(s); }
LAW(partition_large, 80, 1000, "more than one part and more than one edge") { partition<double>(s, 1200); }
LAW(balance, 300, 5000, "every case") { balance(s); }
LAW(groups_double, 600, 10000, "every case") { groups<double>(s); }
LAW(groups_int, 300, 5000, "every case") { groups<int>(s); }
LAW(remove_empty_many, 300, 3000, "some label unused") { remove_empty(s, true); }

PBT_MAIN
