// C09: sparse and dense scaling and scalar operations act entrywise
// technique: property-based testing: random matrices and factors against entrywise reference results, plus the metamorphic relation scale / inverse scale
#include "gen.hpp"
#include "huge.hpp"
using pbt::S;

namespace
{
template <typename T> std::vector<T> factors(S& s, int n, Mode m) { std::vector<T> v(n); for (auto& x : v) { x = s.chance(0.1) ? (T) 0 : value<T>(s, m); } return v; }
template <typename T> std::vector<T> nonzeros(S& s, int n, Mode m) { std::vector<T> v(n); for (auto& x : v) { x = nonzero<T>(s, m); } return v; }
std::vector<double> dyadics(S& s, int n) { std::vector<double> v(n); for (auto& x : v) { x = dyadic(s); } return v; }

template <typename T>
void compare(const la::SparseMatrix<T>& m, const Csr<T>& a, double f, const char* what)
{
    CHECK(m.Rows() == a.r && m.Cols() == a.c && m.GetIndptr() == a.p && m.GetIndices() == a.x, what << " changed the shape or structure");
    CHECK(m.GetData().size() == a.d.size(), what << ": " << m.GetData().size() << " values");
    for (size_t k = 0; k < a.d.size(); ++k) { CHECK(near((ld) m.GetData()[k], (ld) a.d[k], std::fabs((ld) a.d[k]), f), what << ": stored entry " << k << " is " << m.GetData()[k] << ", expected " << a.d[k]); }
}

template <typename T>
void sparse(S& s, int r, int c, Mode mode)
{
    Csr<T> a = csr<T>(s, r, c, mode), a0(a); la::SparseMatrix<T> m = a.mat();
    s.note([&](std::ostream & o) { o << a.show(); });
    s.nontrivial(a.d.size() > 0); s.label("rectangular", r != c); s.label("unsorted", is_unsorted(a));
    const double f = 4;
    auto each = [&](std::function<void(int, int, T&)> g) { for (int i = 0; i < r; ++i) for (int k = a.p[i]; k < a.p[i + 1]; ++k) { g(i, a.x[k], a.d[k]); } };
    bool diag = s.chance(0.4);
    switch (s.i(0, 9))
    {
        case 0: { std::vector<T> v = factors<T>(s, r, mode), v0(v); s.say("ScaleRows" + show(v)); if (diag) { la::SparseMatrix<T> D(v); m.ScaleRows(D); CHECK(D.GetData() == v0, "factors changed"); } else { m.ScaleRows(v); } CHECK(v == v0, "factors changed"); each([&](int i, int, T & d) { d *= v[i]; }); compare(m, a, 0, "ScaleRows"); break; }
        case 1: { std::vector<T> v = factors<T>(s, c, mode); s.say("ScaleCols" + show(v)); if (diag) { la::SparseMatrix<T> D(v); m.ScaleCols(D); } else { m.ScaleCols(v); } each([&](int, int j, T & d) { d *= v[j]; }); compare(m, a, 0, "ScaleCols"); break; }
        case 2: { std::vector<T> v = nonzeros<T>(s, r, mode); s.say("InverseScaleRows" + show(v)); if (diag) { la::SparseMatrix<T> D(v); m.InverseScaleRows(D); } else { m.InverseScaleRows(v); } each([&](int i, int, T & d) { d /= v[i]; }); compare(m, a, std::is_integral<T>::value ? 0 : f, "InverseScaleRows"); break; }
        case 3: { std::vector<T> v = nonzeros<T>(s, c, mode); s.say("InverseScaleCols" + show(v)); if (diag) { la::SparseMatrix<T> D(v); m.InverseScaleCols(D); } else { m.InverseScaleCols(v); } each([&](int, int j, T & d) { d /= v[j]; }); compare(m, a, std::is_integral<T>::value ? 0 : f, "InverseScaleCols"); break; }
        case 4:
        {
            std::vector<T> u = nonzeros<T>(s, r, mode), v = nonzeros<T>(s, c, mode);
            if (diag) { la::SparseMatrix<T> U(u), V(v); m.ScaleRows(U); m.ScaleCols(V); m.InverseScaleRows(U); m.InverseScaleCols(V); }
            else { m.ScaleRows(u); m.ScaleCols(v); m.InverseScaleRows(u); m.InverseScaleCols(v); }
            compare(m, a, 16, "scaling and scaling back"); break;
        }
        case 5:
        {
            T x = nonzero<T>(s, mode); s.say("scalar " + std::to_string(x));
            m *= x; each([&](int, int, T & d) { d *= x; }); compare(m, a, 0, "*=");
            la::SparseMatrix<T> p = m * x, q = x * m;
            compare(m, a, 0, "operator* (left operand)");
            m /= x; Csr<T> b(a); each([&](int, int, T & d) { d /= x; }); compare(m, a, std::is_integral<T>::value ? 0 : f, "/=");
            a = b; each([&](int, int, T & d) { d *= x; }); compare(p, a, 0, "matrix * scalar"); compare(q, a, 0, "scalar * matrix");
            break;
        }
        case 6:
        {
            T x = s.chance(0.2) ? (T) 0 : value<T>(s, mode); s.say("fill " + std::to_string(x));
            m = x; each([&](int, int, T & d) { d = x; }); compare(m, a, 0, "fill assignment"); break;
        }
        case 7:
        {
            T x = 0; m *= x; each([&](int, int, T & d) { d *= x; }); compare(m, a, 0, "*= 0"); break;
        }
        case 8:
        {
            // the scalar is a stored entry, the factors are the entries of the matrix itself
            if (!a.d.empty())
            {
                size_t k = s.u((unsigned) a.d.size() - 1); T x = a.d[k]; int sub = s.i(0, x == 0 ? 1 : 2); s.say("stored entry " + std::to_string(k) + " as scalar");
                if (sub == 0) { m *= m.GetData()[k]; each([&](int, int, T & d) { d *= x; }); compare(m, a, 0, "*= stored entry"); }
                else if (sub == 1) { m = m.GetData()[k]; each([&](int, int, T & d) { d = x; }); compare(m, a, 0, "fill with stored entry"); }
                else { m /= m.GetData()[k]; each([&](int, int, T & d) { d /= x; }); compare(m, a, std::is_integral<T>::value ? 0 : f, "/= stored entry"); }
            }
            std::vector<T> v = nonzeros<T>(s, r, mode), w(v); la::SparseMatrix<T> D(v); int sub = s.u(3);
            if (sub == 0) { D.ScaleRows(D); } else if (sub == 1) { D.ScaleCols(D); } else if (sub == 2) { D.InverseScaleRows(D); } else { D.InverseScaleCols(D); }
            for (auto& e : w) { e = sub < 2 ? e * e : (T) 1; }
            CHECK(D.GetData().size() == w.size(), "size"); for (int i = 0; i < r; ++i) { CHECK(near((ld) D.GetData()[i], (ld) w[i], std::fabs((ld) w[i]), 4), "diagonal matrix scaled by itself: entry " << i << " is " << D.GetData()[i] << ", expected " << w[i]); }
            break;
        }
        default:
        {
            ld sum = 0, abs = 0; for (T d : a.d) { sum += d; abs += std::fabs((ld) d); }
            double g = mode == INT ? 0 : fac(a.d.size());
            CHECK(near((ld) m.Sum(), sum, abs, g), "Sum is " << m.Sum() << ", expected " << (double) sum);
            CHECK(near((ld) m.MaxNorm(), abs, abs, g), "MaxNorm is " << m.MaxNorm() << ", expected " << (double) abs);
            compare(m, a, 0, "Sum/MaxNorm");
        }
    }
}
}

LAW(sparse_double, 90000, 900000, "at least one stored entry") { sparse<double>(s, dim(s, 9, 40), dim(s, 9, 40), s.chance(0.6) ? REAL : INT); }
LAW(sparse_int, 50000, 500000, "at least one stored entry") { sparse<int>(s, dim(s, 9, 30), dim(s, 9, 30), INT); }
LAW(sparse_large, 1500, 15000, "at least one stored entry") { sparse<double>(s, s.i(30, 200), s.i(30, 200), REAL); }

static void dense_scaling(S& s, int r, int c)
{
    Mode mode = s.chance(0.6) ? REAL : INT;
    la::DenseMatrix m = dense(s, r, c, mode); Ref A = ref(m), W(A);
    s.nontrivial(r * c > 0); s.label("rectangular", r != c);
    s.note([&](std::ostream & o) { o << show(A); });
    int op = s.i(0, 7), kind = s.i(0, 2); double f = 4;
    auto apply = [&](const std::vector<double>& v, auto g)
    {
        s.say("factors" + show(v));
        if (kind == 0) { g(v); } else if (kind == 1) { la::Vector<double> x(v); g(x); } else { std::vector<double> t(v); la::VectorView<double> x(t); g(x); CHECK(t == v, "factors changed"); }
    };
    const char* what = "";
    if (op == 0) { what = "ScaleRows"; std::vector<double> v = factors<double>(s, r, mode); apply(v, [&](const auto & x) { m.ScaleRows(x); }); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { W(i, j) *= v[i]; } }
    else if (op == 1) { what = "ScaleCols"; std::vector<double> v = factors<double>(s, c, mode); apply(v, [&](const auto & x) { m.ScaleCols(x); }); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { W(i, j) *= v[j]; } }
    else if (op == 2) { what = "InverseScaleRows"; std::vector<double> v = nonzeros<double>(s, r, mode); apply(v, [&](const auto & x) { m.InverseScaleRows(x); }); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { W(i, j) /= v[i]; } }
    else if (op == 3) { what = "InverseScaleCols"; std::vector<double> v = nonzeros<double>(s, c, mode); apply(v, [&](const auto & x) { m.InverseScaleCols(x); }); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { W(i, j) /= v[j]; } }
    else if (op == 4)
    {
        what = "scaling and scaling back"; std::vector<double> u = dyadics(s, r), v = dyadics(s, c);
        apply(u, [&](const auto & x) { m.ScaleRows(x); }); apply(v, [&](const auto & x) { m.ScaleCols(x); }); apply(u, [&](const auto & x) { m.InverseScaleRows(x); }); apply(v, [&](const auto & x) { m.InverseScaleCols(x); });
        f = 0;
    }
    else if (op == 5) { what = "scalar *= and /="; double x = nonzero<double>(s, mode); m *= x; m /= x; m *= x; for (auto& w : W.v) { w *= x; } f = 8; }
    else if (op == 6) { what = "fill"; double x = value<double>(s, mode); m = x; for (auto& w : W.v) { w = x; } f = 0; }
    else
    {
        what = "row and column scaling commute"; std::vector<double> u = factors<double>(s, r, mode), v = factors<double>(s, c, mode);
        la::DenseMatrix n(m); m.ScaleRows(u); m.ScaleCols(v); n.ScaleCols(v); n.ScaleRows(u);
        for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { W(i, j) *= (ld) u[i] * v[j]; }
        expect_mat(n, W, W.abs(), 8, what); f = 8;
    }
    expect_mat(m, W, W.abs(), f, what);
}
LAW(dense_scaling, 80000, 800000, "a nonempty matrix") { int r = dim(s, 9, 40), c = dim(s, 9, 40); dense_scaling(s, r, c); }
LAW(dense_scaling_large, 800, 10000, "a nonempty matrix") { Shape q = big_shape(s, 200); dense_scaling(s, q.r, q.c); }
LAW(sparse_long, 800, 10000, "at least one stored entry") { Shape q = big_shape(s, 100); sparse<double>(s, q.r, q.c, s.chance(0.6) ? REAL : INT); }

// integer factors on a real dense matrix
LAW(dense_int_factors, 15000, 150000, "a nonempty matrix")
{
    int r = s.size(0, 9), c = s.size(0, 9); la::DenseMatrix m = dense(s, r, c, INT); Ref W = ref(m);
    std::vector<int> u = nonzeros<int>(s, r, INT), v = nonzeros<int>(s, c, INT);
    m.ScaleRows(u); m.ScaleCols(v); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { W(i, j) *= u[i] * v[j]; }
    expect_mat_exact(m, W, "integer factors");
    m.InverseScaleCols(v); m.InverseScaleRows(u); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { W(i, j) /= u[i] * v[j]; }
    expect_mat_exact(m, W, "integer factors, inverse");
    s.nontrivial(r * c > 0);
}

// shapes whose number of positions exceeds the range of int
LAW(sparse_huge, 400, 6000, "at least one stored entry")
{
    Shape q = huge::shape(s); Csr<double> a = huge::csr<double>(s, q.r, q.c, true); la::SparseMatrix<double> A = a.mat(); huge::Map m = huge::entries(a);
    s.note([&](std::ostream & o) { o << q.r << "x" << q.c << " " << huge::show(m); }); s.nontrivial(!a.d.empty());
    auto f = [](int i) { return std::ldexp(i % 2 ? 1.0 : -1.0, i % 5); }; std::vector<double> r(q.r), c(q.c); for (int i = 0; i < q.r; ++i) { r[i] = f(i); } for (int j = 0; j < q.c; ++j) { c[j] = f(j + 1); }
    int op = s.i(0, 4);
    if (op == 0) { A.ScaleRows(r); for (auto& e : m) { e.second *= r[e.first.first]; } }
    else if (op == 1) { A.ScaleCols(c); for (auto& e : m) { e.second *= c[e.first.second]; } }
    else if (op == 2) { A.InverseScaleRows(r); for (auto& e : m) { e.second /= r[e.first.first]; } }
    else if (op == 3) { A.InverseScaleCols(c); for (auto& e : m) { e.second /= c[e.first.second]; } }
    else { A *= 0.5; for (auto& e : m) { e.second *= 0.5L; } }
    huge::expect(A, q.r, q.c, m, "scaling");
}

PBT_MAIN
