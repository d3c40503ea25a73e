// C13: dense row, column and block access touches exactly the addressed entries
// technique: stateful property-based testing: random sequences of reads and writes on a matrix against an entry-by-entry model
#include "gen.hpp"
using pbt::S;

namespace
{
std::pair<int, int> range(S& s, int n) { int a = s.i(0, n), b = s.i(0, n); if (s.chance(0.15)) { b = a; } return {std::min(a, b), std::max(a, b)}; }
std::vector<int> idxs(S& s, int n) { std::vector<int> v; if (n > 0) { v.resize(s.size(0, 5)); for (auto& k : v) { k = s.i(0, n - 1); } } return v; }

Ref sub(const Ref& a, int i0, int j0, int i1, int j1) { Ref o(i1 - i0, j1 - j0); for (int i = 0; i < o.r; ++i) for (int j = 0; j < o.c; ++j) { o(i, j) = a(i0 + i, j0 + j); } return o; }

void session(S& s, int r, int c)
{
    la::DenseMatrix m = dense(s, r, c, INT); const la::DenseMatrix& cm = m; Ref a = ref(m);
    s.note([&](std::ostream & o) { o << show(a); });
    int steps = s.i(1, 10); bool wrote = false;
    for (int st = 0; st < steps; ++st)
    {
        std::string what;
        switch (s.i(0, 17))
        {
            case 0:
            {
                what = "GetRow/GetCol by index"; if (r == 0 || c == 0) { break; }
                int i = s.i(0, r - 1), j = s.i(0, c - 1);
                la::Vector<double> x = cm.GetRow(i), y = cm.GetCol(j); la::Vector<int> xi = cm.GetRow<int>(i), yi = cm.GetCol<int>(j);
                CHECK(x.size() == c && y.size() == r && xi.size() == c && yi.size() == r, "sizes of a row and a column");
                std::vector<double> bx(c + 2, 777.0), by(r + 2, 777.0); la::VectorView<double> vx(bx.data() + 1, c), vy(by.data() + 1, r);
                cm.GetRow(i, vx); cm.GetCol(j, vy);
                for (int k = 0; k < c; ++k) { CHECK(x[k] == a(i, k) && xi[k] == a(i, k) && vx[k] == a(i, k), "GetRow(" << i << ") entry " << k); }
                for (int k = 0; k < r; ++k) { CHECK(y[k] == a(k, j) && yi[k] == a(k, j) && vy[k] == a(k, j), "GetCol(" << j << ") entry " << k); }
                CHECK(bx[0] == 777 && bx[c + 1] == 777 && by[0] == 777 && by[r + 1] == 777, "written outside of the output");
                std::vector<double> bz(r + 2, 777.0); la::VectorView<double> vz(bz.data() + 1, r); m.GetCol(j, vz);      // non-const overload
                CHECK(vz.begin() == bz.data() + 1 || vz.begin() == m.GetData() + j * r, "GetCol redirected the view elsewhere");
                for (int k = 0; k < r; ++k) { CHECK(vz[k] == a(k, j), "GetCol (mutable) entry " << k); }
                break;
            }
            case 1:
            {
                what = "GetColView"; if (c == 0) { break; }
                int j = s.i(0, c - 1); la::VectorView<double> v = m.GetColView(j); const la::VectorView<double>& cv = cm.GetColView(j);
                CHECK(v.size() == r && cv.size() == r, "size of a column view");
                for (int k = 0; k < r; ++k) { CHECK(v[k] == a(k, j) && cv[k] == a(k, j) && &v[k] == &m(k, j) && &cv[k] == &m(k, j), "column view entry " << k); }
                if (r > 0) { int i = s.i(0, r - 1); double x = s.sgn_int(99); v[i] = x; a(i, j) = x; }
                if (s.chance(0.4)) { double x = s.sgn_int(99); v = x; for (int k = 0; k < r; ++k) { a(k, j) = x; } }
                wrote = true; break;
            }
            case 2: { what = "element write"; if (r * c == 0) { break; } int i = s.i(0, r - 1), j = s.i(0, c - 1); double x = s.sgn_int(99); m(i, j) = x; a(i, j) = x; CHECK(cm(i, j) == x, "element read back"); wrote = true; break; }
            case 3: { what = "SetRow by index"; if (r == 0) { break; } int i = s.i(0, r - 1); if (s.chance(0.5)) { la::Vector<double> v = vec<double>(s, c, INT); m.SetRow(i, v); for (int k = 0; k < c; ++k) { a(i, k) = v[k]; } } else { la::Vector<int> v = vec<int>(s, c, INT); m.SetRow(i, v); for (int k = 0; k < c; ++k) { a(i, k) = v[k]; } } wrote = true; break; }
            case 4: { what = "SetCol by index"; if (c == 0) { break; } int j = s.i(0, c - 1); if (s.chance(0.5)) { la::Vector<double> v = vec<double>(s, r, INT); m.SetCol(j, v); for (int k = 0; k < r; ++k) { a(k, j) = v[k]; } } else { la::Vector<int> v = vec<int>(s, r, INT); m.SetCol(j, v); for (int k = 0; k < r; ++k) { a(k, j) = v[k]; } } wrote = true; break; }
            case 5: { what = "GetRow by range"; auto p = range(s, r); Ref w = sub(a, p.first, 0, p.second, c); expect_mat_exact(cm.GetRow(p.first, p.second), w, "GetRow(range)"); la::DenseMatrix o = stale(s); cm.GetRow(p.first, p.second, o); expect_mat_exact(o, w, "GetRow(range, output)"); break; }
            case 6: { what = "GetCol by range"; auto p = range(s, c); Ref w = sub(a, 0, p.first, r, p.second); expect_mat_exact(cm.GetCol(p.first, p.second), w, "GetCol(range)"); la::DenseMatrix o = stale(s); cm.GetCol(p.first, p.second, o); expect_mat_exact(o, w, "GetCol(range, output)"); break; }
            case 7: { what = "GetSubMatrix by range"; auto p = range(s, r), q = range(s, c); Ref w = sub(a, p.first, q.first, p.second, q.second); expect_mat_exact(cm.GetSubMatrix(p.first, q.first, p.second, q.second), w, "GetSubMatrix(range)"); la::DenseMatrix o = stale(s); cm.GetSubMatrix(p.first, q.first, p.second, q.second, o); expect_mat_exact(o, w, "GetSubMatrix(range, output)"); break; }
            case 8:
            {
                what = "GetSubMatrix by lists"; std::vector<int> x = idxs(s, r), y = idxs(s, c); Ref w(x.size(), y.size());
                for (int i = 0; i < w.r; ++i) for (int j = 0; j < w.c; ++j) { w(i, j) = a(x[i], y[j]); }
                expect_mat_exact(cm.GetSubMatrix(x, y), w, "GetSubMatrix(lists)"); la::DenseMatrix o = stale(s); cm.GetSubMatrix(x, y, o); expect_mat_exact(o, w, "GetSubMatrix(lists, output)");
                break;
            }
            case 9:
            {
                what = "GetRow by list"; std::vector<int> x = idxs(s, r); Ref w(x.size(), c);
                for (int i = 0; i < w.r; ++i) for (int j = 0; j < c; ++j) { w(i, j) = a(x[i], j); }
                expect_mat_exact(cm.GetRow(x), w, "GetRow(list)"); la::DenseMatrix o(x.size(), c, std::vector<double>(x.size() * c, 777.0)); cm.GetRow(x, o); expect_mat_exact(o, w, "GetRow(list, output)");
                break;
            }
            case 10: { what = "SetRow by range"; auto p = range(s, r); la::DenseMatrix d = dense(s, p.second - p.first, c, INT); m.SetRow(p.first, d); for (int i = p.first; i < p.second; ++i) for (int j = 0; j < c; ++j) { a(i, j) = d(i - p.first, j); } wrote = true; break; }
            case 11: { what = "SetCol by range"; auto p = range(s, c); la::DenseMatrix d = dense(s, r, p.second - p.first, INT); m.SetCol(p.first, d); for (int i = 0; i < r; ++i) for (int j = p.first; j < p.second; ++j) { a(i, j) = d(i, j - p.first); } wrote = true; break; }
            case 12: case 13:
            {
                what = "SetSubMatrix"; auto p = range(s, r), q = range(s, c); bool explicit_end = s.chance(0.5); int er = explicit_end ? s.i(0, 2) : 0, ec = explicit_end ? s.i(0, 2) : 0;
                la::DenseMatrix d = dense(s, p.second - p.first + er, q.second - q.first + ec, INT), d0(d);
                if (explicit_end) { m.SetSubMatrix(p.first, q.first, p.second, q.second, d); } else { m.SetSubMatrix(p.first, q.first, d); }
                for (int i = p.first; i < p.second; ++i) for (int j = q.first; j < q.second; ++j) { a(i, j) = d(i - p.first, j - q.first); }
                CHECK(ref(d) == ref(d0), "the source block was modified");
                expect_mat_exact(cm.GetSubMatrix(p.first, q.first, p.second, q.second), sub(a, p.first, q.first, p.second, q.second), "block read back");
                wrote = true; break;
            }
            case 14:
            {
                what = "SetSubMatrixTranspose"; auto p = range(s, r), q = range(s, c); bool explicit_end = s.chance(0.5);
                la::DenseMatrix d = dense(s, q.second - q.first, p.second - p.first, INT);
                if (explicit_end) { m.SetSubMatrixTranspose(p.first, q.first, p.second, q.second, d); } else { m.SetSubMatrixTranspose(p.first, q.first, d); }
                for (int i = p.first; i < p.second; ++i) for (int j = q.first; j < q.second; ++j) { a(i, j) = d(j - q.first, i - p.first); }
                wrote = true; break;
            }
            case 15:
            {
                what = "AddSubMatrix"; std::vector<int> x = idxs(s, r), y = idxs(s, c); la::DenseMatrix d = dense(s, x.size(), y.size(), INT);
                m.AddSubMatrix(x, y, d); for (size_t i = 0; i < x.size(); ++i) for (size_t j = 0; j < y.size(); ++j) { a(x[i], y[j]) += d(i, j); }
                wrote = true; break;
            }
            case 16:
            {
                what = "SetSize"; int nr = s.chance(0.3) && r < 1000 ? r : s.size(0, 9), nc = s.size(0, 9); std::vector<double> old; m.CopyData(old); double fillv = 0; int how = s.i(0, 3);
                if (how == 0) { m.SetSize(nr, nc); } else if (how == 1) { fillv = s.sgn_int(9); m.SetSize(nr, nc, fillv); } else if (how == 2) { nc = nr; m.SetSize(nr); } else { nc = nr; fillv = s.sgn_int(9); m.SetSize(nr, fillv); }
                CHECK(m.Rows() == nr && m.Cols() == nc, "SetSize gives " << m.Rows() << "x" << m.Cols());
                std::vector<double> now; m.CopyData(now); CHECK((int) now.size() == nr * nc, "SetSize stores " << now.size() << " entries for " << nr << "x" << nc);
                for (int k = 0; k < nr * nc; ++k) { double w = k < (int) old.size() ? old[k] : fillv; CHECK(now[k] == w, "SetSize: stored value " << k << " is " << now[k] << ", expected " << w); }
                r = nr; c = nc; a = Ref(r, c); for (int j = 0; j < c; ++j) for (int i = 0; i < r; ++i) { a(i, j) = now[i + j * r]; }
                break;
            }
            default:
            {
                what = "raw data"; const double* p = cm.GetData(); double* q = m.GetData(); CHECK(p == q, "GetData overloads differ");
                for (int j = 0; j < c; ++j) for (int i = 0; i < r; ++i) { CHECK(p[i + j * r] == a(i, j), "column-major data at (" << i << "," << j << ")"); }
                if (r * c > 0) { int i = s.i(0, r - 1), j = s.i(0, c - 1); q[i + j * r] = 55; a(i, j) = 55; }
            }
        }
        s.say(what); s.label(what);
        expect_mat_exact(m, a, ("the matrix after " + what).c_str());
        for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { CHECK(cm(i, j) == a(i, j), "element (" << i << "," << j << ") after " << what); }
    }
    s.nontrivial(wrote && steps >= 2 && r * c > 0);
}
}

LAW(session, 120000, 1200000, "a nonempty matrix and at least two steps, one of them a write") { int r = s.size(0, 9), c = s.size(0, 9); session(s, r, c); }
LAW(session_long, 800, 10000, "a nonempty matrix and at least two steps, one of them a write") { Shape q = big_shape(s, 150); session(s, q.r, q.c); }
LAW(session_huge, 100, 1200, "a nonempty matrix and at least two steps, one of them a write") { Shape q = huge_shape(s); session(s, q.r, q.c); }
LAW(session_large, 4000, 40000, "a nonempty matrix and at least two steps, one of them a write") { session(s, s.i(10, 60), s.i(10, 60)); }

static void hstack(S& s, int r, int n, int maxc)
{
    int total = 0, with = 0; std::vector<la::DenseMatrix> v; std::vector<Ref> w;
    for (int k = 0; k < n; ++k) { int c = s.size(0, maxc); v.push_back(dense(s, r, c, INT)); w.push_back(ref(v.back())); total += c; with += c > 0; }
    Ref want(r, total); int off = 0; for (auto& x : w) { for (int i = 0; i < r; ++i) for (int j = 0; j < x.c; ++j) { want(i, off + j) = x(i, j); } off += x.c; }
    s.note([&](std::ostream & o) { for (auto& x : w) { o << show(x); } });
    expect_mat_exact(la::HStack(v), want, "HStack");
    la::DenseMatrix o = stale(s); la::HStack(v, o); expect_mat_exact(o, want, "HStack(output)");
    for (int k = 0; k < n; ++k) { CHECK(ref(v[k]) == w[k], "HStack changed block " << k); }
    s.nontrivial(with >= 2 && r > 0);
}
LAW(hstack, 40000, 400000, "at least two blocks with columns") { int r = s.size(0, 6), n = s.i(1, 5); hstack(s, r, n, 4); }
LAW(hstack_large, 1500, 15000, "at least two blocks with columns") { int r = s.chance(0.5) ? s.i(20, 600) : s.i(1, 8), n = s.i(1, 12); hstack(s, r, n, r > 20 ? 6 : 60); }

// writing the blocks of any partition of the matrix rebuilds it
LAW(tiling, 20000, 200000, "at least two tiles")
{
    int r = s.size(0, 10), c = s.size(0, 10); la::DenseMatrix A = dense(s, r, c, INT), B(r, c, std::vector<double>(r * c, 777.0)), C(c, r, std::vector<double>(r * c, 777.0));
    std::vector<int> ro{0}, co{0}; while (ro.back() < r) { ro.push_back(ro.back() + s.i(1, r - ro.back())); } while (co.back() < c) { co.push_back(co.back() + s.i(1, c - co.back())); }
    for (size_t i = 0; i + 1 < ro.size(); ++i) for (size_t j = 0; j + 1 < co.size(); ++j)
    { la::DenseMatrix t = A.GetSubMatrix(ro[i], co[j], ro[i + 1], co[j + 1]); B.SetSubMatrix(ro[i], co[j], t); C.SetSubMatrixTranspose(co[j], ro[i], t); }
    CHECK(ref(A) == ref(B), "tiles written back give " << show(ref(B))); CHECK(ref(A).T() == ref(C), "transposed tiles give " << show(ref(C)));
    s.nontrivial(ro.size() * co.size() > 4);
}

PBT_MAIN
