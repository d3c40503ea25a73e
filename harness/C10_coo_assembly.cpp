// C10: COO assembly represents the sum of all added entries
// technique: stateful property-based testing: random sequences of Add overloads, permutations, eliminations and conversions against a triplet-list model
#include "gen.hpp"
#include "huge.hpp"
using pbt::S;

namespace
{
template <typename T>
struct Model
{
    bool sized = false; int r = 0, c = 0;         // r, c: the declared size, or the largest index + 1
    int lo_r = 0, lo_c = 0;
    std::vector<std::tuple<int, int, T>> e;
    void add(int i, int j, T v) { e.emplace_back(i, j, v); if (!sized) { r = std::max(r, i + 1); c = std::max(c, j + 1); } }
    Ref ref(int rr, int cc) const { Ref o(rr, cc); for (auto& t : e) { o(std::get<0>(t), std::get<1>(t)) += std::get<2>(t); } return o; }
    Ref mag(int rr, int cc) const { Ref o(rr, cc); for (auto& t : e) { o(std::get<0>(t), std::get<1>(t)) += std::fabs((ld) std::get<2>(t)); } return o; }
    std::string show() const { std::ostringstream o; for (auto& t : e) { o << "(" << std::get<0>(t) << "," << std::get<1>(t) << ")=" << std::get<2>(t) << " "; } return o.str(); }
};

template <typename T>
void compare(S& s, const la::CooMatrix<T>& m, Model<T>& o, bool eliminated, double f)
{
    la::DenseMatrix d = m.ToDense();
    // an unsized matrix is exactly as large as its largest indices require; without
    // entries, and after eliminations (which may or may not shrink it), only consistency is required
    int need_r = 0, need_c = 0;
    for (auto& t : o.e) { need_r = std::max(need_r, std::get<0>(t) + 1); need_c = std::max(need_c, std::get<1>(t) + 1); }
    if (o.sized) { CHECK(d.Rows() == o.r && d.Cols() == o.c, "ToDense is " << d.Rows() << "x" << d.Cols() << ", the matrix was declared " << o.r << "x" << o.c); }
    else if (o.e.empty()) { CHECK(d.Rows() <= std::max(1, o.r) && d.Cols() <= std::max(1, o.c), "ToDense of a matrix without entries is " << d.Rows() << "x" << d.Cols()); }
    else if (eliminated) { CHECK(d.Rows() >= need_r && d.Cols() >= need_c && d.Rows() <= o.r && d.Cols() <= o.c, "ToDense is " << d.Rows() << "x" << d.Cols()); }
    else { CHECK(d.Rows() == o.r && d.Cols() == o.c, "ToDense is " << d.Rows() << "x" << d.Cols() << ", the largest indices require " << o.r << "x" << o.c); }
    int r = d.Rows(), c = d.Cols();
    CHECK(m.Rows() == r && m.Cols() == c, "Rows and Cols are " << m.Rows() << "x" << m.Cols() << ", ToDense is " << r << "x" << c);
    if (f > 0) { f += fac((int) o.e.size()); }                    // any number of the additions may fall on one entry
    Ref want = o.ref(r, c), mag = o.mag(r, c);
    expect_mat(d, want, mag, f, "ToDense");
    la::DenseMatrix out = stale(s); m.ToDense(out); expect_mat(out, want, mag, f, "ToDense(output)");
    la::SparseMatrix<T> sp = m.ToSparse();
    expect_sparse(sp, want, mag, f, "ToSparse");
    std::set<std::pair<int, int>> pat; for (auto& t : o.e) { pat.insert({std::get<0>(t), std::get<1>(t)}); }
    CHECK(pattern(sp) == pat, "ToSparse stores " << sp.nnz() << " positions, " << pat.size() << " were added");
    la::SparseMatrix<double> sd = m.template ToSparse<double>();
    expect_sparse(sd, want, mag, f, "ToSparse<double>");
    la::Vector<double> x = vec<double>(s, c, INT), y = vec<double>(s, r, INT), x0(x), y0(y);
    std::vector<ld> wx = mulv(want, ldv(x)), wy = mulv(want.T(), ldv(y)), mx = mulv(mag, absv(ldv(x))), my = mulv(mag.T(), absv(ldv(y)));
    double g = f;
    std::vector<double> b1(r + 2, 777.0), b2(c + 2, 777.0);
    m.Mult(x, la::VectorView<double>(b1.data() + 1, r)); m.MultAT(y, la::VectorView<double>(b2.data() + 1, c));
    CHECK(b1[0] == 777.0 && b1[r + 1] == 777.0 && b2[0] == 777.0 && b2[c + 1] == 777.0, "Mult or MultAT wrote outside of its output");
    expect_vec(std::vector<double>(b1.begin() + 1, b1.end() - 1), wx, mx, g, "Mult"); expect_vec(std::vector<double>(b2.begin() + 1, b2.end() - 1), wy, my, g, "MultAT");
    const la::Operator& op = m;
    expect_vec(op.Mult(x), wx, mx, g, "Operator Mult"); expect_vec(op.MultAT(y), wy, my, g, "Operator MultAT");
    CHECK(std::equal(x.begin(), x.end(), x0.begin()) && std::equal(y.begin(), y.end(), y0.begin()), "an input vector was modified");
}

template <typename T>
void assembly(S& s, Mode mode, int maxdim)
{
    Model<T> o; bool eliminated = false;
    int R = s.i(1, maxdim), C = s.i(1, maxdim);
    la::CooMatrix<T> m;
    int how = s.i(0, 3);
    if (how == 1) { m = la::CooMatrix<T>(R, C); o.sized = true; o.r = R; o.c = C; }
    if (how == 2) { m = la::CooMatrix<T>(R); C = R; o.sized = true; o.r = o.c = R; }
    if (how == 3 && s.chance(0.3)) { R = s.i(0, 1) * R; C = s.i(0, 1) * C; la::CooMatrix<T> t(R, C); swap(t, m); o.sized = true; o.r = R; o.c = C; }
    s.say(o.sized ? "sized " + std::to_string(R) + "x" + std::to_string(C) : "unsized");
    int steps = s.i(1, 12); bool dup = false;
    auto idx = [&](int n) { return s.i(0, n - 1); };
    auto idxs = [&](int n) { std::vector<int> v(s.chance(0.02) ? s.i(5, 40) : s.size(0, 4)); for (auto& k : v) { k = idx(n); } return v; };
    double f = mode == INT ? 0 : 64;
    for (int st = 0; st < steps; ++st)
    {
        if (R == 0 || C == 0) { break; }
        size_t before = o.e.size();
        int op = s.weighted({6, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1});
        switch (op)
        {
            case 0: { int i = idx(R), j = idx(C); T v = value<T>(s, mode); m.Add(i, j, v); o.add(i, j, v); break; }
            case 1: { int n = std::min(R, C), i = idx(n), j = idx(n); T v = value<T>(s, mode); m.AddSym(i, j, v); o.add(i, j, v); if (i != j) { o.add(j, i, v); } break; }
            case 2: { std::vector<int> x = idxs(std::min(R, C)); la::DenseMatrix d = dense(s, x.size(), x.size(), mode); m.Add(x, d); for (size_t i = 0; i < x.size(); ++i) for (size_t j = 0; j < x.size(); ++j) { o.add(x[i], x[j], (T) d(i, j)); } break; }
            case 3: { std::vector<int> x = idxs(R), y = idxs(C); la::DenseMatrix d = dense(s, x.size(), y.size(), mode); m.Add(x, y, d); for (size_t i = 0; i < x.size(); ++i) for (size_t j = 0; j < y.size(); ++j) { o.add(x[i], y[j], (T) d(i, j)); } break; }
            case 4: { std::vector<int> x = idxs(std::min(R, C)); T a = (T) s.sgn_int(4); la::DenseMatrix d = dense(s, x.size(), x.size(), mode); m.Add(x, a, d); for (size_t i = 0; i < x.size(); ++i) for (size_t j = 0; j < x.size(); ++j) { o.add(x[i], x[j], (T) (a * d(i, j))); } break; }
            case 5: { std::vector<int> x = idxs(R), y = idxs(C); T a = (T) s.sgn_int(4); la::DenseMatrix d = dense(s, x.size(), y.size(), mode); m.Add(x, y, a, d); for (size_t i = 0; i < x.size(); ++i) for (size_t j = 0; j < y.size(); ++j) { o.add(x[i], y[j], (T) (a * d(i, j))); } break; }
            case 6: { std::vector<int> x = idxs(R); int j = idx(C); la::Vector<T> v = vec<T>(s, x.size(), mode); m.Add(x, j, v); for (size_t i = 0; i < x.size(); ++i) { o.add(x[i], j, v[i]); } break; }
            case 7: { std::vector<int> x = idxs(C); int i = idx(R); la::Vector<T> v = vec<T>(s, x.size(), mode); m.Add(i, x, v); for (size_t j = 0; j < x.size(); ++j) { o.add(i, x[j], v[j]); } break; }
            case 8: { std::vector<int> x = idxs(R); int j = idx(C); T a = (T) s.sgn_int(4); la::Vector<T> v = vec<T>(s, x.size(), mode); m.Add(x, j, a, v); for (size_t i = 0; i < x.size(); ++i) { o.add(x[i], j, a * v[i]); } break; }
            case 9: { std::vector<int> x = idxs(C); int i = idx(R); T a = (T) s.sgn_int(4); la::Vector<T> v = vec<T>(s, x.size(), mode); m.Add(i, x, a, v); for (size_t j = 0; j < x.size(); ++j) { o.add(i, x[j], a * v[j]); } break; }
            case 10: { std::vector<int> x = idxs(R), y; for (size_t k = 0; k < x.size(); ++k) { y.push_back(idx(C)); } std::vector<T> v = values<T>(s, x.size(), mode); m.Add(x, y, v); for (size_t k = 0; k < x.size(); ++k) { o.add(x[k], y[k], v[k]); } break; }
            case 11: { std::vector<int> x = idxs(R), y; for (size_t k = 0; k < x.size(); ++k) { y.push_back(idx(C)); } T a = (T) s.sgn_int(4); std::vector<T> v = values<T>(s, x.size(), mode); m.Add(x, y, a, v); for (size_t k = 0; k < x.size(); ++k) { o.add(x[k], y[k], a * v[k]); } break; }
            case 12: case 13: case 14:
            {
                if (eliminated && !o.sized) { break; }
                if (!o.sized && o.e.empty()) { break; }
                std::vector<int> p = s.permutation(o.r), q = s.permutation(o.c);
                if (op == 12) { m.PermuteRows(p); } else if (op == 13) { m.PermuteCols(q); } else { m.PermuteRowsCols(p, q); }
                for (auto& t : o.e) { if (op != 13) { std::get<0>(t) = p[std::get<0>(t)]; } if (op != 12) { std::get<1>(t) = q[std::get<1>(t)]; } }
                if (!o.sized) { o.r = o.c = 0; for (auto& t : o.e) { o.r = std::max(o.r, std::get<0>(t) + 1); o.c = std::max(o.c, std::get<1>(t) + 1); } }
                s.say("permute rows" + show(p) + " cols" + show(q)); s.label("permuted");
                break;
            }
            case 15:
            {
                double tol = s.pick({0.0, 0.0, 1.0, 3.0}); bool dflt = s.chance(0.3); if (dflt) { tol = 0; }
                if (dflt) { m.EliminateZeros(); } else { m.EliminateZeros(tol); }
                std::vector<std::tuple<int, int, T>> k; for (auto& t : o.e) { if (std::fabs((double) std::get<2>(t)) > tol) { k.push_back(t); } }
                if (k.size() != o.e.size()) { eliminated = true; s.label("eliminated"); }
                o.e = k; s.say("EliminateZeros " + std::to_string(tol)); break;
            }
            default:
            {
                int which = s.i(0, 2);
                if (which == 0) { m.Reserve(s.i(0, 100)); }
                else if (which == 1) { la::CooMatrix<T> t(m); m = t; }
                else if (!o.sized) { R = std::max(R, o.r); C = std::max(C, o.c); m.SetSize(R, C); o.sized = true; o.r = R; o.c = C; s.say("SetSize"); s.label("sized later"); }
            }
        }
        (void) before;
        if (s.chance(0.25)) { compare(s, m, o, eliminated, f); }
    }
    std::set<std::pair<int, int>> seen; for (auto& t : o.e) { if (!seen.insert({std::get<0>(t), std::get<1>(t)}).second) { dup = true; } }
    s.say(o.show());
    s.label("unsized", !o.sized); s.label("duplicates", dup);
    s.nontrivial(o.e.size() >= 2);
    compare(s, m, o, eliminated, f);
    compare(s, m, o, eliminated, f);
}
}

LAW(assembly_double, 60000, 700000, "at least two entries added") { assembly<double>(s, INT, 7); }
LAW(assembly_double_real, 30000, 300000, "at least two entries added") { assembly<double>(s, REAL, 7); }
LAW(assembly_int, 30000, 300000, "at least two entries added") { assembly<int>(s, INT, 7); }

LAW(assembly_many, 4000, 40000, "at least two entries added")
{
    int R = s.i(1, 60), C = s.i(1, 60), n = s.i(0, 600); bool sized = s.chance(0.5), simple; pbt::Rng g = s.bulk(simple);
    la::CooMatrix<double> m; Model<double> o; if (sized) { m = la::CooMatrix<double>(R, C); o.sized = true; o.r = R; o.c = C; }
    for (int k = 0; k < n; ++k) { int i = g.below(R), j = g.below(C); double v = (int) g.below(19) - 9; m.Add(i, j, v); o.add(i, j, v); }
    s.nontrivial(n >= 2);
    compare(s, m, o, false, 0);
}

// assembling in any order gives the same matrix
LAW(order_independent, 20000, 200000, "at least two entries")
{
    int R = s.i(1, 6), C = s.i(1, 6), n = s.size(0, 14); std::vector<std::tuple<int, int, int>> e;
    for (int k = 0; k < n; ++k) { e.emplace_back(s.i(0, R - 1), s.i(0, C - 1), s.sgn_int(9)); }
    std::vector<int> p = s.permutation(n);
    la::CooMatrix<double> a(R, C), b(R, C); la::CooMatrix<int> c(R, C);
    for (int k = 0; k < n; ++k) { a.Add(std::get<0>(e[k]), std::get<1>(e[k]), std::get<2>(e[k])); auto& t = e[p[k]]; b.Add(std::get<0>(t), std::get<1>(t), std::get<2>(t)); c.Add(std::get<0>(t), std::get<1>(t), std::get<2>(t)); }
    Ref w = ref(a.ToDense());
    CHECK(ref(b.ToDense()) == w && ref(c.ToDense()) == w, "the order of additions changes the matrix");
    CHECK(ref(b.ToSparse()) == w && ref(c.ToSparse()) == w && ref(a.ToSparse()) == w, "the order of additions changes the sparse matrix");
    s.nontrivial(n >= 2);
}

// shapes whose number of positions exceeds the range of int
LAW(assembly_huge, 400, 6000, "at least two entries added")
{
    Shape q = huge::shape(s); std::vector<int> rp = huge::pool(s, q.r), cp = huge::pool(s, q.c); bool sized = s.chance(0.6); la::CooMatrix<double> A = sized ? la::CooMatrix<double>(q.r, q.c) : la::CooMatrix<double>(); huge::Map m; int n = s.i(1, 60), R = 0, C = 0;
    for (int k = 0; k < n; ++k) { int i = rp[s.u((int) rp.size() - 1)], j = cp[s.u((int) cp.size() - 1)]; double v = s.sgn_int(9); A.Add(i, j, v); m[ {i, j}] += v; R = std::max(R, i + 1); C = std::max(C, j + 1); }
    int line = s.weighted({30, 1, 1}); s.label("full column or row", line > 0);       // a whole column or row, entry by entry
    if (line > 0)
    {
        int f = line == 1 ? cp[0] : rp[0], len = line == 1 ? q.r : q.c, rep = s.i(1, 2);
        for (int k = 0; k < len; ++k) for (int t = 0; t < rep; ++t) { int e = t ? len - 1 - k : k, i = line == 1 ? e : f, j = line == 1 ? f : e; double v = e % 7 - 2; A.Add(i, j, v); m[ {i, j}] += v; R = std::max(R, i + 1); C = std::max(C, j + 1); }
    }
    if (sized) { R = q.r; C = q.c; }
    s.note([&](std::ostream & o) { o << (sized ? "sized " : "unsized ") << q.r << "x" << q.c << " " << huge::show(m); }); s.nontrivial(n > 1);
    CHECK(A.Rows() == R && A.Cols() == C, "the matrix is " << A.Rows() << "x" << A.Cols() << ", expected " << R << "x" << C);
    la::SparseMatrix<double> B = A.ToSparse(); huge::expect(B, R, C, m, "ToSparse"); CHECK(B.nnz() == (int) m.size(), "ToSparse stores " << B.nnz() << " positions, " << m.size() << " were added"); huge::expect(A.template ToSparse<double>(), R, C, m, "ToSparse<double>");
    la::Vector<double> x = huge::vec(s, C), y = huge::vec(s, R), u(R, 1.0), v(C, 1.0); const la::Operator& op = A;
    op.Mult(x, u); huge::same(u, huge::times(m, R, ldv(x)), "Mult"); op.MultAT(y, v); huge::same(v, huge::times(huge::transposed(m), C, ldv(y)), "MultAT");
}

PBT_MAIN
