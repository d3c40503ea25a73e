// C08: sparse elimination and diagonal updates change exactly the addressed entries
// technique: stateful property-based testing: random sequences of eliminations and diagonal updates against an entry-by-entry CSR model
#include "gen.hpp"
#include "huge.hpp"
using pbt::S;

namespace
{
template <typename T>
std::vector<int> marks(S& s, int n) { std::vector<int> m(n); double p = s.pick({0.3, 0.0, 0.6, 1.0}); for (auto& x : m) { x = s.chance(p) ? s.pick({1, 1, 2, -3}) : 0; } return m; }

// one marker handed over as vector<int>, vector<bool>, vector<char>, view or Vector, possibly longer than needed
template <typename F>
void with_marker(S& s, const std::vector<int>& m, F f)
{
    int extra = s.i(0, 2);
    std::vector<int> vi(m); vi.resize(m.size() + extra, 1);
    switch (s.i(0, 4))
    {
        case 0: f(vi); break;
        case 1: { std::vector<bool> vb(vi.begin(), vi.end()); for (size_t k = 0; k < vi.size(); ++k) { vb[k] = vi[k] != 0; } f(vb); break; }
        case 2: { std::vector<char> vc(vi.size()); for (size_t k = 0; k < vi.size(); ++k) { vc[k] = vi[k] != 0; } f(vc); break; }
        case 3: { la::VectorView<int> v(vi); f(v); break; }
        default: { la::Vector<double> v(vi.size()); for (size_t k = 0; k < vi.size(); ++k) { v[k] = vi[k]; } f(v); }
    }
}

template <typename T>
void sequence(S& s, int r, int c, Mode mode)
{
    Csr<T> a = csr<T>(s, r, c, mode, CsrOpt{false, s.chance(0.4), true, 9});
    la::SparseMatrix<T> m = a.mat();
    s.note([&](std::ostream & o) { o << a.show(); });
    s.nontrivial(a.d.size() > 0);
    auto each = [&](std::function<void(int, int, T&)> f) { for (int i = 0; i < r; ++i) for (int k = a.p[i]; k < a.p[i + 1]; ++k) { f(i, a.x[k], a.d[k]); } };
    int steps = s.i(1, 5);
    for (int st = 0; st < steps; ++st)
    {
        std::string what; int op = s.i(0, 8);
        switch (op)
        {
            case 0: { if (r == 0) { break; } int x = s.i(0, r - 1); what = "EliminateRow " + std::to_string(x); m.EliminateRow(x); each([&](int i, int, T & d) { if (i == x) { d = 0; } }); break; }
            case 1: { if (c == 0) { break; } int x = s.i(0, c - 1); what = "EliminateCol " + std::to_string(x); m.EliminateCol(x); each([&](int, int j, T & d) { if (j == x) { d = 0; } }); break; }
            case 2: { if (std::min(r, c) == 0) { break; } int x = s.i(0, std::min(r, c) - 1); what = "EliminateRowCol " + std::to_string(x); m.EliminateRowCol(x); each([&](int i, int j, T & d) { if (i == x || j == x) { d = i == j ? 1 : 0; } }); break; }
            case 3: { std::vector<int> k = marks<T>(s, c); what = "EliminateCol marker" + show(k); with_marker(s, k, [&](const auto & z) { m.EliminateCol(z); }); each([&](int, int j, T & d) { if (k[j]) { d = 0; } }); break; }
            case 4:
            {
                if (r != c) { break; }
                std::vector<int> k = marks<T>(s, c); what = "EliminateRowCol marker" + show(k);
                with_marker(s, k, [&](const auto & z) { m.EliminateRowCol(z); });
                each([&](int i, int j, T & d) { if (k[i] || k[j]) { d = i == j ? 1 : 0; } });
                break;
            }
            case 5:
            {
                std::vector<int> k = marks<T>(s, c);
                la::Vector<double> x = vec<double>(s, c, mode), b = vec<double>(s, r, mode), x0(x), b0(b);
                what = "EliminateCol marker" + show(k) + " x" + show(x.data()) + " b" + show(b.data());
                int off = s.i(0, 2); std::vector<double> st_(r + off + 1, 777.0); la::VectorView<double> bv(st_.data() + off, r); bv = (const la::VectorView<double>&) b;
                with_marker(s, k, [&](const auto & z) { m.EliminateCol(z, x, bv); });
                std::vector<ld> wb = ldv(b0), mg = absv(wb);
                each([&](int i, int j, T & d) { if (k[j]) { wb[i] -= (ld) d * x0[j]; mg[i] += std::fabs((ld) d * x0[j]); d = 0; } });
                expect_vec(bv, wb, mg, mode == INT ? 0 : fac(c), "right-hand side after EliminateCol");
                for (int q = 0; q < (int) st_.size(); ++q) { if (q < off || q >= off + r) { CHECK(st_[q] == 777.0, "EliminateCol wrote outside of b"); } }
                CHECK(std::equal(x.begin(), x.end(), x0.begin()), "EliminateCol changed x");
                break;
            }
            case 6:
            {
                if (r != c) { break; }
                if (s.chance(0.5)) { T v = value<T>(s, INT); what = "AddDiag value"; m.AddDiag(v); each([&](int i, int j, T & d) { if (i == j) { d += v; } }); }
                else { std::vector<T> v = values<T>(s, r, INT); what = "AddDiag" + show(v); std::vector<T> v0(v); m.AddDiag(v); CHECK(v == v0, "AddDiag changed its argument"); each([&](int i, int j, T & d) { if (i == j) { d += v[i]; } }); }
                break;
            }
            default:
            {
                T tol = s.pick({0, 0, 1, 3}); bool dflt = s.chance(0.3); if (dflt) { tol = 0; }
                if (mode == REAL && s.chance(0.3)) { tol = (T) 0.25; if (dflt) { tol = 0; } }
                what = "EliminateZeros " + std::to_string(tol);
                if (dflt) { m.EliminateZeros(); } else { m.EliminateZeros(tol); }
                Csr<T> e; e.r = r; e.c = c;
                for (int i = 0; i < r; ++i) { for (int k = a.p[i]; k < a.p[i + 1]; ++k) { if (std::fabs((double) a.d[k]) > (double) tol) { e.x.push_back(a.x[k]); e.d.push_back(a.d[k]); } } e.p.push_back(e.x.size()); }
                a = e;
            }
        }
        if (what.empty()) { continue; }
        s.say(what); s.label("op " + what.substr(0, what.find(' ')));
        CHECK(m.Rows() == r && m.Cols() == c, "the shape changed to " << m.Rows() << "x" << m.Cols() << " after " << what);
        expect_csr(m, "edited matrix");
        CHECK(m.GetIndptr() == a.p && m.GetIndices() == a.x, "the sparsity structure is not the expected one after " << what);
        for (size_t k = 0; k < a.d.size(); ++k) { CHECK(m.GetData()[k] == a.d[k], "stored entry " << k << " is " << m.GetData()[k] << ", expected " << a.d[k] << " after " << what); }
    }
}
}

LAW(edits_double_int, 80000, 800000, "at least one stored entry") { int r = dim(s, 8, 30), c = s.chance(0.6) ? r : dim(s, 8, 30); sequence<double>(s, r, c, INT); }
LAW(edits_double_real, 50000, 500000, "at least one stored entry") { int r = dim(s, 8, 30), c = s.chance(0.6) ? r : dim(s, 8, 30); sequence<double>(s, r, c, REAL); }
LAW(edits_int, 50000, 500000, "at least one stored entry") { int r = dim(s, 8, 30), c = s.chance(0.6) ? r : dim(s, 8, 30); sequence<int>(s, r, c, INT); }
LAW(edits_long, 300, 5000, "at least one stored entry") { Shape q = big_shape(s, 100, 1500); sequence<double>(s, q.r, q.c, s.chance(0.5) ? REAL : INT); }
LAW(edits_large, 600, 9000, "at least one stored entry") { int r = s.i(30, 150), c = s.chance(0.6) ? r : s.i(30, 150); sequence<double>(s, r, c, REAL); }

// eliminating rows and columns of a system keeps its solution on the free unknowns:
// b - A x over the marked columns, then the product with the free part equals A x - (marked part)
LAW(elimination_identity, 30000, 300000, "a marked column with entries")
{
    int r = s.size(0, 10), c = s.size(0, 10);
    Csr<double> a = csr<double>(s, r, c, INT); la::SparseMatrix<double> m = a.mat();
    std::vector<int> k = marks<double>(s, c);
    la::Vector<double> x = vec<double>(s, c, INT), b(r, 0.0);
    m.Mult(x, b);
    std::vector<double> free_x(c); for (int j = 0; j < c; ++j) { free_x[j] = k[j] ? 123.0 : x[j]; }
    with_marker(s, k, [&](const auto & z) { m.EliminateCol(z, x, b); });
    la::VectorView<double> fx(free_x); la::Vector<double> y = m.Mult(fx);
    for (int i = 0; i < r; ++i) { CHECK(y[i] == b[i], "row " << i << ": A_free x is " << y[i] << ", b - A_marked x is " << b[i]); }
    for (int j = 0; j < c; ++j) { s.nontrivial(k[j] != 0 && a.d.size() > 0); }
}

// shapes whose number of positions exceeds the range of int
LAW(edits_huge, 400, 6000, "at least one stored entry")
{
    int n = huge::extent(s); std::vector<int> in = huge::pool(s, n); Csr<double> a = huge::csr<double>(s, n, n, in, in, true); la::SparseMatrix<double> A = a.mat(); huge::Map m = huge::entries(a);
    s.note([&](std::ostream & o) { o << n << "x" << n << " " << huge::show(m); }); s.nontrivial(!a.d.empty());
    for (int step = s.i(1, 4); step > 0; --step)
    {
        int k = in[s.u((int) in.size() - 1)], op = s.i(0, 3); std::vector<int> mark(n, 0); if (op >= 2) { for (int i : in) { if (s.chance(0.3)) { mark[i] = 1; } } }
        s.say("operation " + std::to_string(op) + " index " + std::to_string(k));
        if (op == 0) { A.EliminateRow(k); for (auto& e : m) { if (e.first.first == k) { e.second = 0; } } }
        else if (op == 1) { A.EliminateCol(k); for (auto& e : m) { if (e.first.second == k) { e.second = 0; } } }
        else if (op == 2) { A.EliminateCol(mark); for (auto& e : m) { if (mark[e.first.second]) { e.second = 0; } } }
        else
        {
            la::Vector<double> x = huge::vec(s, n), b = huge::vec(s, n); std::vector<ld> w = ldv(b); A.EliminateCol(mark, x, b);
            for (auto& e : m) { if (mark[e.first.second]) { w[e.first.first] -= e.second * (ld) x[e.first.second]; e.second = 0; } } huge::same(b, w, "right-hand side of EliminateCol");
        }
        huge::expect(A, n, n, m, "elimination");
    }
    A.EliminateZeros(); huge::expect(A, n, n, m, "EliminateZeros"); for (double v : A.GetData()) { CHECK(v != 0, "EliminateZeros keeps a zero"); }
}

PBT_MAIN
