// C11: linked-list assembly represents the sum of all added entries
// technique: stateful property-based testing: random interleavings of additions, SetSize, eliminations and conversions against a triplet-list model
#include "gen.hpp"
#include "huge.hpp"
using pbt::S;

namespace
{
template <typename T>
struct Model
{
    bool sized = false; int r = 0, c = 0;
    std::vector<std::tuple<int, int, T>> e;
    void add(int i, int j, T v) { e.emplace_back(i, j, v); if (!sized) { r = std::max(r, i + 1); c = std::max(c, j + 1); } }
    Ref ref(int rr, int cc) const { Ref o(rr, cc); for (auto& t : e) { o(std::get<0>(t), std::get<1>(t)) += std::get<2>(t); } return o; }
    Ref mag(int rr, int cc) const { Ref o(rr, cc); for (auto& t : e) { o(std::get<0>(t), std::get<1>(t)) += std::fabs((ld) std::get<2>(t)); } return o; }
    std::string show() const { std::ostringstream o; for (auto& t : e) { o << "(" << std::get<0>(t) << "," << std::get<1>(t) << ")=" << std::get<2>(t) << " "; } return o.str(); }
};

template <typename T>
void compare(S& s, const la::LilMatrix<T>& m, Model<T>& o, bool eliminated, double f)
{
    int r = m.Rows(), c = m.Cols(), need_r = 0, need_c = 0;
    for (auto& t : o.e) { need_r = std::max(need_r, std::get<0>(t) + 1); need_c = std::max(need_c, std::get<1>(t) + 1); }
    if (o.sized) { CHECK(r == o.r && c == o.c, "Rows and Cols are " << r << "x" << c << ", the matrix was declared " << o.r << "x" << o.c); }
    else if (o.e.empty()) { CHECK(r <= std::max(1, o.r) && c <= std::max(1, o.c), "a matrix without entries is " << r << "x" << c); }
    else if (eliminated) { CHECK(r >= need_r && c >= need_c && r <= o.r && c <= o.c, "Rows and Cols are " << r << "x" << c); }
    else { CHECK(r == o.r && c == o.c, "Rows and Cols are " << r << "x" << c << ", the largest indices require " << o.r << "x" << o.c); }
    if (f > 0) { f += fac((int) o.e.size()); }                    // any number of the additions may fall on one entry
    Ref want = o.ref(r, c), mag = o.mag(r, c);
    int which = s.i(0, 1);
    for (int pass = 0; pass < 2; ++pass)
    {
        if (pass == which)
        {
            la::SparseMatrix<T> sp = m.ToSparse();
            expect_sparse(sp, want, mag, f, "ToSparse");
            std::set<std::pair<int, int>> pat; for (auto& t : o.e) { pat.insert({std::get<0>(t), std::get<1>(t)}); }
            CHECK(pattern(sp) == pat, "ToSparse stores " << sp.nnz() << " positions, " << pat.size() << " were added");
            for (int i = 0; i < sp.Rows(); ++i) for (int k = sp.GetIndptr()[i] + 1; k < sp.GetIndptr()[i + 1]; ++k) { CHECK(sp.GetIndices()[k - 1] < sp.GetIndices()[k], "row " << i << " of ToSparse is not sorted"); }
            la::SparseMatrix<double> sd = m.template ToSparse<double>();
            expect_sparse(sd, want, mag, f, "ToSparse<double>");
        }
        else
        {
            expect_mat(m.ToDense(), want, mag, f, "ToDense");
            la::DenseMatrix out = stale(s); m.ToDense(out); expect_mat(out, want, mag, f, "ToDense(output)");
        }
    }
    la::Vector<double> x = vec<double>(s, c, INT), y = vec<double>(s, r, INT), x0(x), y0(y);
    std::vector<ld> wx = mulv(want, ldv(x)), wy = mulv(want.T(), ldv(y)), mx = mulv(mag, absv(ldv(x))), my = mulv(mag.T(), absv(ldv(y)));
    double g = f;
    std::vector<double> b1(r + 2, 777.0), b2(c + 2, 777.0);
    m.Mult(x, la::VectorView<double>(b1.data() + 1, r)); m.MultAT(y, la::VectorView<double>(b2.data() + 1, c));
    CHECK(b1[0] == 777.0 && b1[r + 1] == 777.0 && b2[0] == 777.0 && b2[c + 1] == 777.0, "Mult or MultAT wrote outside of its output");
    expect_vec(std::vector<double>(b1.begin() + 1, b1.end() - 1), wx, mx, g, "Mult"); expect_vec(std::vector<double>(b2.begin() + 1, b2.end() - 1), wy, my, g, "MultAT");
    const la::Operator& op = m;
    expect_vec(op.Mult(x), wx, mx, g, "Operator Mult"); expect_vec(op.MultAT(y), wy, my, g, "Operator MultAT");
    CHECK(std::equal(x.begin(), x.end(), x0.begin()) && std::equal(y.begin(), y.end(), y0.begin()), "an input vector was modified");
}

template <typename T>
void assembly(S& s, Mode mode, int maxdim)
{
    Model<T> o; bool eliminated = false;
    int R = s.i(1, maxdim), C = s.i(1, maxdim);
    la::LilMatrix<T> m;
    int how = s.i(0, 3);
    if (how == 1) { m = la::LilMatrix<T>(R, C); o.sized = true; o.r = R; o.c = C; }
    if (how == 2) { m = la::LilMatrix<T>(R); C = R; o.sized = true; o.r = o.c = R; }
    if (how == 3) { int k = s.i(0, 5); if (k == 0) { R = 0; } if (k == 1) { C = 0; } m.SetSize(R, C); o.sized = true; o.r = R; o.c = C; }
    s.say(o.sized ? "sized " + std::to_string(R) + "x" + std::to_string(C) : "unsized");
    int steps = s.i(1, 14);
    auto idx = [&](int n) { return s.i(0, n - 1); };
    auto idxs = [&](int n) { std::vector<int> v(s.size(0, 4)); for (auto& k : v) { k = idx(n); } return v; };
    double f = mode == INT ? 0 : 64;
    for (int st = 0; st < steps; ++st)
    {
        if (R == 0 || C == 0) { break; }
        int op = s.weighted({7, 3, 1, 1, 1, 1});
        switch (op)
        {
            case 0: { int i = idx(R), j = idx(C); T v = value<T>(s, mode); m.Add(i, j, v); o.add(i, j, v); break; }
            case 1: { int n = std::min(R, C), i = idx(n), j = idx(n); T v = value<T>(s, mode); m.AddSym(i, j, v); o.add(i, j, v); if (i != j) { o.add(j, i, v); } break; }
            case 2: { std::vector<int> x = idxs(std::min(R, C)); la::DenseMatrix d = dense(s, x.size(), x.size(), mode); m.Add(x, d); for (size_t i = 0; i < x.size(); ++i) for (size_t j = 0; j < x.size(); ++j) { o.add(x[i], x[j], (T) d(i, j)); } break; }
            case 3: { std::vector<int> x = idxs(R), y = idxs(C); la::DenseMatrix d = dense(s, x.size(), y.size(), mode); m.Add(x, y, d); for (size_t i = 0; i < x.size(); ++i) for (size_t j = 0; j < y.size(); ++j) { o.add(x[i], y[j], (T) d(i, j)); } break; }
            case 4:
            {
                double tol = s.pick({0.0, 0.0, 1.0, 3.0}); bool dflt = s.chance(0.3); if (dflt) { tol = 0; }
                if (dflt) { m.EliminateZeros(); } else { m.EliminateZeros(tol); }
                std::vector<std::tuple<int, int, T>> k; for (auto& t : o.e) { if (std::fabs((double) std::get<2>(t)) > tol) { k.push_back(t); } }
                if (k.size() != o.e.size()) { eliminated = true; s.label("eliminated"); }
                o.e = k; s.say("EliminateZeros " + std::to_string(tol)); break;
            }
            default:
            {
                if (s.chance(0.5)) { la::LilMatrix<T> t(m); m = t; }
                else { R = std::max(R, o.r) + s.i(0, 2); C = std::max(C, o.c) + s.i(0, 2); m.SetSize(R, C); o.sized = true; o.r = R; o.c = C; s.say("SetSize"); s.label("sized later"); }
            }
        }
        if (s.chance(0.25)) { compare(s, m, o, eliminated, f); }
    }
    std::set<std::pair<int, int>> seen; bool dup = false; for (auto& t : o.e) { if (!seen.insert({std::get<0>(t), std::get<1>(t)}).second) { dup = true; } }
    s.say(o.show());
    s.label("unsized", !o.sized); s.label("duplicates", dup);
    s.nontrivial(o.e.size() >= 2);
    compare(s, m, o, eliminated, f);
    compare(s, m, o, eliminated, f);
}
}

LAW(assembly_double, 60000, 700000, "at least two entries added") { assembly<double>(s, INT, 7); }
LAW(assembly_double_real, 30000, 300000, "at least two entries added") { assembly<double>(s, REAL, 7); }
LAW(assembly_int, 30000, 300000, "at least two entries added") { assembly<int>(s, INT, 7); }

LAW(assembly_many, 3000, 30000, "at least two entries added")
{
    int R = s.i(1, 60), C = s.i(1, 60), n = s.i(0, 600); bool sized = s.chance(0.5), simple; pbt::Rng g = s.bulk(simple);
    la::LilMatrix<double> m; Model<double> o; if (sized) { m = la::LilMatrix<double>(R, C); o.sized = true; o.r = R; o.c = C; }
    for (int k = 0; k < n; ++k) { int i = g.below(R), j = g.below(C); double v = (int) g.below(19) - 9; m.Add(i, j, v); o.add(i, j, v); }
    s.nontrivial(n >= 2);
    compare(s, m, o, false, 0);
}

// a linked-list matrix and a coordinate matrix assembled alike are the same matrix
LAW(agrees_with_coo, 20000, 200000, "at least two entries")
{
    int R = s.i(1, 6), C = s.i(1, 6), n = s.size(1, 14); bool sized = s.chance(0.5);
    la::LilMatrix<double> a; la::CooMatrix<double> b; if (sized) { a = la::LilMatrix<double>(R, C); b = la::CooMatrix<double>(R, C); }
    for (int k = 0; k < n; ++k) { int i = s.i(0, R - 1), j = s.i(0, C - 1); double v = s.sgn_int(9); a.Add(i, j, v); b.Add(i, j, v); }
    la::SparseMatrix<double> x = a.ToSparse(), y = b.ToSparse();
    CHECK(ref(x) == ref(y), "LIL gives " << show(ref(x)) << ", COO gives " << show(ref(y)));
    CHECK(ref(a.ToDense()) == ref(b.ToDense()), "dense conversions differ");
    s.nontrivial(n >= 2);
}

// shapes whose number of positions exceeds the range of int
LAW(assembly_huge, 400, 6000, "at least two entries added")
{
    Shape q = huge::shape(s); std::vector<int> rp = huge::pool(s, q.r), cp = huge::pool(s, q.c); bool sized = s.chance(0.6); la::LilMatrix<double> A = sized ? la::LilMatrix<double>(q.r, q.c) : la::LilMatrix<double>(); huge::Map m; int n = s.i(1, 60), R = 0, C = 0;
    for (int k = 0; k < n; ++k) { int i = rp[s.u((int) rp.size() - 1)], j = cp[s.u((int) cp.size() - 1)]; double v = s.sgn_int(9); A.Add(i, j, v); m[ {i, j}] += v; R = std::max(R, i + 1); C = std::max(C, j + 1); }
    int line = s.weighted({30, 1, 1}); s.label("full column or row", line > 0);       // a whole column or row, entry by entry
    if (line > 0)
    {
        int f = line == 1 ? cp[0] : rp[0], len = line == 1 ? q.r : q.c, rep = s.i(1, 2);
        for (int k = 0; k < len; ++k) for (int t = 0; t < rep; ++t) { int e = t ? len - 1 - k : k, i = line == 1 ? e : f, j = line == 1 ? f : e; double v = e % 7 - 2; A.Add(i, j, v); m[ {i, j}] += v; R = std::max(R, i + 1); C = std::max(C, j + 1); }
    }
    if (sized) { R = q.r; C = q.c; }
    s.note([&](std::ostream & o) { o << (sized ? "sized " : "unsized ") << q.r << "x" << q.c << " " << huge::show(m); }); s.nontrivial(n > 1);
    CHECK(A.Rows() == R && A.Cols() == C, "the matrix is " << A.Rows() << "x" << A.Cols() << ", expected " << R << "x" << C);
    la::SparseMatrix<double> B = A.ToSparse(); huge::expect(B, R, C, m, "ToSparse"); CHECK(B.nnz() == (int) m.size(), "ToSparse stores " << B.nnz() << " positions, " << m.size() << " were added"); huge::expect(A.template ToSparse<double>(), R, C, m, "ToSparse<double>");
    la::Vector<double> x = huge::vec(s, C), y = huge::vec(s, R), u(R, 1.0), v(C, 1.0); const la::Operator& op = A;
    op.Mult(x, u); huge::same(u, huge::times(m, R, ldv(x)), "Mult"); op.MultAT(y, v); huge::same(v, huge::times(huge::transposed(m), C, ldv(y)), "MultAT");
}

PBT_MAIN
