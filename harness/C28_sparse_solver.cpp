// C28: the direct sparse solver solves nonsingular systems over its whole lifetime
// technique: stateful property testing: random nonsingular systems, residual oracle in long double, and random histories of copies, moves, swaps, assignments and destructions over a pool of solvers
// modules: sparsesolver
#include "gen.hpp"
#include "sparsesolve.hpp"
using pbt::S;

namespace
{
struct Sys { Csr<double> a; bool set = false; };

// well conditioned after row scaling: a permuted, row scaled, diagonally dominant matrix; or triangular; or a single cycle
Csr<double> nonsingular(S& s, int n)
{
    std::vector<std::map<int, double>> row(n); std::vector<int> q = s.permutation(n); int kind = s.weighted({6, 2, 1}); double p = s.pick({0.05, 0.2, 0.5, 1.0}); bool ints = s.chance(0.3); bool scale = s.chance(0.3);
    for (int i = 0; i < n; ++i)
    {
        double sum = 0;
        if (kind != 2) for (int j = 0; j < n; ++j) { if (j == i || (kind == 1 && j > i) || !s.chance(n > 20 ? std::min(p, 8.0 / n) : p)) { continue; } double v = s.chance(0.1) ? 0.0 : ints ? s.sgn_int(5) : value<double>(s, REAL, 8); row[i][j] = v; sum += std::fabs(v); }
        double d = sum * s.pick({1.25, 2.0, 5.0}) + (sum == 0 ? s.i(1, 9) : 0); row[i][i] = s.chance(0.5) ? d : -d;
    }
    Csr<double> m; m.r = m.c = n; std::vector<int> u = s.permutation(n); bool shuffle = s.chance(0.5);
    for (int k = 0; k < n; ++k)
    {
        std::vector<std::pair<int, double>> w; double f = scale ? std::ldexp(1.0, s.sgn_int(12)) : 1; for (auto& e : row[u[k]]) { w.push_back({q[e.first], e.second * f}); }
        if (shuffle) { std::vector<int> o = s.permutation((int) w.size()); auto c = w; for (size_t t = 0; t < w.size(); ++t) { w[t] = c[o[t]]; } } else { std::sort(w.begin(), w.end()); }
        for (auto& e : w) { m.x.push_back(e.first); m.d.push_back(e.second); } m.p.push_back((int) m.x.size());
    }
    return m;
}

void solve(S& s, const SparseSolver& A, const Sys& sys, bool at, const char* when)
{
    int n = sys.set ? sys.a.r : 0; CHECK(A.Rows() == n && A.Cols() == n, when << ": the solver is " << A.Rows() << "x" << A.Cols() << ", its matrix " << n << "x" << n);
    la::Vector<double> b = vec<double>(s, n, s.chance(0.5) ? INT : REAL), b0(b), x(n, std::nan("")); std::vector<double> frame(n + 2, 7.25);
    int how = s.u(3); la::VectorView<double> w(frame.data() + 1, n);
    if (at) { if (how == 0) { A.MultAT(b, w); for (int i = 0; i < n; ++i) { x[i] = w[i]; } } else if (how == 1) { const la::Operator& o = A; x = o.MultAT(b); } else { A.MultAT(b, static_cast<la::VectorView<double>&>(x)); } }
    else { if (how == 0) { A.Mult(b, w); for (int i = 0; i < n; ++i) { x[i] = w[i]; } } else if (how == 1) { x = A.Mult(b); } else { A.Mult(b, static_cast<la::VectorView<double>&>(x)); } }
    CHECK(x.size() == n, when << ": the solution has " << x.size() << " entries"); CHECK(frame[0] == 7.25 && frame[n + 1] == 7.25, when << ": wrote outside the output"); for (int i = 0; i < n; ++i) { CHECK(b[i] == b0[i], when << ": the right-hand side changed"); }
    if (n == 0) { return; }
    Ref a = sys.a.ref(); if (at) { a = a.T(); } auto ax = mulv(a, ldv(x)), mag = mulv(a.abs(), absv(ldv(x))); ld top = 0, xmax = 0; for (int i = 0; i < n; ++i) { CHECK(std::isfinite(x[i]), when << ": solution entry " << i << " is " << x[i]); xmax = std::max(xmax, (ld) std::fabs(x[i])); }
    for (int i = 0; i < n; ++i) { ld rn = 0; for (int j = 0; j < n; ++j) { rn += std::fabs(a(i, j)); } top = at ? std::max(top, rn * xmax) : rn * xmax; ld tol = 1e-10L * (std::max(at ? top : mag[i], at ? top : rn * xmax) + std::fabs((ld) b[i])); if (!at) { CHECK(std::fabs(ax[i] - b[i]) <= tol, when << ": row " << i << " of A x is " << (double) ax[i] << ", b is " << b[i]); } }
    if (at) { ld bmax = 0; for (int i = 0; i < n; ++i) { bmax = std::max(bmax, (ld) std::fabs(b[i])); } for (int i = 0; i < n; ++i) { CHECK(std::fabs(ax[i] - b[i]) <= 1e-10L * (top + bmax), when << ": row " << i << " of A^T x is " << (double) ax[i] << ", b is " << b[i]); } }
}

void system(S& s, int n)
{
    Sys sys; sys.a = nonsingular(s, n); sys.set = true; s.nontrivial(n > 1); s.label("unsorted", is_unsorted(sys.a)); s.note([&](std::ostream & o) { o << sys.a.show(); });
    std::unique_ptr<la::SparseMatrix<double>> m(new la::SparseMatrix<double>(sys.a.mat())); SparseSolver A(*m); CHECK(same_csr(*m, sys.a), "constructing the solver changed the matrix");
    if (s.chance(0.5)) { if (s.chance(0.5)) { *m *= 0.0; } m.reset(); }
    int k = s.i(1, 4); for (int i = 0; i < k; ++i) { solve(s, A, sys, s.chance(0.4), "solve"); }
}

void lifetime(S& s)
{
    struct Item { std::unique_ptr<SparseSolver> p; Sys sys; }; std::vector<Item> pool; int solves = 0, moves = 0;
    auto fresh = [&]
    {
        Item it; int k = s.weighted({5, 1, 1}); if (k == 1) { it.p.reset(new SparseSolver); s.say("default"); } else { it.sys.a = nonsingular(s, k == 2 ? 0 : s.i(1, 6)); it.sys.set = true; la::SparseMatrix<double> m = it.sys.a.mat(); s.say("solver of order " + std::to_string(it.sys.a.r)); if (s.chance(0.5)) { it.p.reset(new SparseSolver(m)); m *= -3.0; } else { it.p.reset(new SparseSolver(std::move(m))); } }
        return it;
    };
    pool.push_back(fresh()); int n = s.size(1, 20);
    for (int k = 0; k < n; ++k)
    {
        int i = s.u((int) pool.size() - 1), j = s.u((int) pool.size() - 1); auto tag = [&](const char* t) { s.say(t + std::string(" ") + std::to_string(i) + " " + std::to_string(j)); };
        switch (s.weighted({3, 3, 2, 2, 3, 2, 2, 6, 2}))
        {
            case 0: pool.push_back(fresh()); break;
            case 1: { tag("copy"); Item it; it.sys = pool[i].sys; it.p.reset(new SparseSolver(*pool[i].p)); pool.push_back(std::move(it)); ++moves; break; }
            case 2: { tag("move out of"); Item it; it.sys = pool[i].sys; it.p.reset(new SparseSolver(std::move(*pool[i].p))); int what = s.u(1); if (what == 0) { pool[i] = std::move(it); } else { int src = s.u((int) pool.size() - 1); if (src != i) { *pool[i].p = *pool[src].p; pool[i].sys = pool[src].sys; pool.push_back(std::move(it)); } else { pool[i] = std::move(it); } } ++moves; break; }
            case 3: { tag("swap"); using std::swap; swap(*pool[i].p, *pool[j].p); std::swap(pool[i].sys, pool[j].sys); ++moves; break; }
            case 4: tag("assign"); *pool[i].p = *pool[j].p; pool[i].sys = pool[j].sys; ++moves; break; // i == j included
            case 5: { tag("assign a new one to"); Item it = fresh(); *pool[i].p = std::move(*it.p); pool[i].sys = it.sys; ++moves; break; }
            case 6: if (pool.size() > 1) { tag("destroy"); pool.erase(pool.begin() + i); } break;
            default: tag("solve"); solve(s, *pool[i].p, pool[i].sys, s.chance(0.4), "during the history"); ++solves; break;
        }
        if (pool.size() > 8) { pool.erase(pool.begin()); }
    }
    s.nontrivial(solves > 0 && moves > 1);
    for (auto& it : pool) { solve(s, *it.p, it.sys, false, "at the end"); solve(s, *it.p, it.sys, true, "at the end"); }
}
// large banded or random dominant systems; residuals evaluated through the stored entries
void big_system(S& s, int n)
{
    bool simple; pbt::Rng g = s.bulk(simple); int kind = s.u(2); std::vector<std::map<int, double>> row(n); double scale = s.chance(0.3) ? std::ldexp(1.0, s.pick({-200, -30, 30, 200})) : 1;
    for (int i = 0; i < n; ++i)
    {
        double t = 0; auto put = [&](int j, double v) { if (j >= 0 && j < n && j != i) { row[i][j] = v; } };
        if (kind == 0) { put(i - 1, -1); put(i + 1, -1); } else if (kind == 1) { for (int k = 0; k < 3; ++k) { put((int) g.below(n), (double) ((int) g.below(9) - 4)); } } else { for (int k = 1; k < 6; ++k) { put(i - k * k, 1.0 / k); put(i + k, (double) ((int) g.below(5) - 2)); } }
        for (auto& e : row[i]) { t += std::fabs(e.second); } row[i][i] = (t * 1.25 + 1) * (g.below(2) ? -1 : 1);
    }
    std::vector<int> q = s.permutation(n), u = s.permutation(n); Csr<double> a; a.r = a.c = n; for (int k = 0; k < n; ++k) { for (auto& e : row[u[k]]) { a.x.push_back(q[e.first]); a.d.push_back(e.second * scale); } a.p.push_back((int) a.x.size()); }
    s.nontrivial(n > 1); s.note([&](std::ostream & o) { o << "order " << n << " kind " << kind << " scale " << scale; }); la::SparseMatrix<double> m = a.mat(); SparseSolver A(m), B; if (s.chance(0.5)) { B = A; } else { swap(A, B); A = B; }
    for (int t = 0; t < 4; ++t)
    {
        bool at = t & 1; const SparseSolver& v = t < 2 ? A : B; la::Vector<double> b = vec<double>(s, n, INT), x(n, std::nan("")), b0(b); if (at) { v.MultAT(b, static_cast<la::VectorView<double>&>(x)); } else { v.Mult(b, static_cast<la::VectorView<double>&>(x)); }
        std::vector<ld> r(n, 0), mag(n, 0); ld xm = 0, bm = 0; for (int i = 0; i < n; ++i) { CHECK(std::isfinite(x[i]), "entry " << i << " of the solution is " << x[i]); CHECK(b[i] == b0[i], "the right-hand side was changed"); xm = std::max(xm, (ld) std::fabs(x[i])); bm = std::max(bm, (ld) std::fabs(b[i])); }
        for (int i = 0; i < n; ++i) for (int k = a.p[i]; k < a.p[i + 1]; ++k) { int y = at ? a.x[k] : i, z = at ? i : a.x[k]; r[y] += (ld) a.d[k] * x[z]; mag[y] += std::fabs((ld) a.d[k]); }
        ld top = 0; for (ld w : mag) { top = std::max(top, w); } for (int i = 0; i < n; ++i) { CHECK(std::fabs(r[i] - b[i]) <= 1e-10L * (top * xm + bm), (at ? "row of A^T x " : "row of A x ") << i << " is " << (double) r[i] << ", expected " << b[i]); }
    }
}
}

// the residual bound assumes a moderate condition number
static bool moderate = extreme_values() = false;

LAW(systems, 12000, 150000, "order at least 2") { system(s, s.size(0, 10)); }
LAW(large, 200, 3000, "order at least 2") { system(s, s.i(15, 60)); }
LEAK_LAW(histories, 10000, 120000, "several copies, moves or assignments and at least one solve") { lifetime(s); }
LAW(large_sparse, 250, 3000, "order at least 2") { big_system(s, s.weighted({2, 1}) == 0 ? s.i(40, 300) : s.i(300, 1500)); }

PBT_MAIN
