// C12: dense products and arithmetic equal the defined matrix operations
// technique: property-based testing: random dense operands (zero dimensions and stale outputs included) against long double reference results
#include "gen.hpp"
using pbt::S;

namespace
{
bool same(const la::DenseMatrix& m, const Ref& r) { return ref(m) == r; }

void products(S& s, int m, int k, int n, Mode mode)
{
    la::DenseMatrix A = dense(s, m, k, mode), At = dense(s, k, m, mode), B = dense(s, k, n, mode), Bt = dense(s, n, k, mode);
    Ref a = ref(A), at = ref(At), b = ref(B), bt = ref(Bt);
    double f = mode == INT ? 0 : fac(k);
    s.note([&](std::ostream & o) { o << "A=" << show(a) << " B=" << show(b); });
    s.nontrivial(m > 0 && n > 0 && k > 0); s.label("zero dimension", m * k * n == 0); s.label("inner dimension 0", k == 0 && m * n > 0);
    struct { const char* what; Ref want, mag; std::function<la::DenseMatrix()> ret; std::function<void(la::DenseMatrix&)> out; } t[] =
    {
        {"Mult", mul(a, b), mul(a.abs(), b.abs()), [&]() { return A.Mult(B); }, [&](la::DenseMatrix & o) { A.Mult(B, o); }},
        {"MultAT", mul(at.T(), b), mul(at.T().abs(), b.abs()), [&]() { return At.MultAT(B); }, [&](la::DenseMatrix & o) { At.MultAT(B, o); }},
        {"MultBT", mul(a, bt.T()), mul(a.abs(), bt.T().abs()), [&]() { return A.MultBT(Bt); }, [&](la::DenseMatrix & o) { A.MultBT(Bt, o); }},
        {"MultABT", mul(at.T(), bt.T()), mul(at.T().abs(), bt.T().abs()), [&]() { return At.MultABT(Bt); }, [&](la::DenseMatrix & o) { At.MultABT(Bt, o); }},
    };
    la::DenseMatrix o = stale(s);
    for (auto& p : t)
    {
        expect_mat(p.ret(), p.want, p.mag, f, p.what);
        if (s.chance(0.3)) { o = la::DenseMatrix(m, n, std::vector<double>(m * n, std::nan(""))); }
        p.out(o); expect_mat(o, p.want, p.mag, f, (std::string(p.what) + " into an existing matrix").c_str());
    }
    CHECK(same(A, a) && same(At, at) && same(B, b) && same(Bt, bt), "an operand was modified");
}

template <typename T, typename U>
void matvec(S& s, const la::DenseMatrix& A, const Ref& a, Mode mode, double f)
{
    la::Vector<T> x = vec<T>(s, a.c, mode), y = vec<T>(s, a.r, mode), x0(x), y0(y);
    std::vector<ld> wx = mulv(a, ldv(x)), wy = mulv(a.T(), ldv(y)), mx = mulv(a.abs(), absv(ldv(x))), my = mulv(a.T().abs(), absv(ldv(y)));
    std::vector<U> b1(a.r + 2, (U) 77), b2(a.c + 2, (U) 77);
    A.Mult(x, la::VectorView<U>(b1.data() + 1, a.r)); A.MultAT(y, la::VectorView<U>(b2.data() + 1, a.c));
    CHECK(b1[0] == 77 && b1.back() == 77 && b2[0] == 77 && b2.back() == 77, "written outside of the output");
    expect_vec(std::vector<U>(b1.begin() + 1, b1.end() - 1), wx, mx, f, "Mult(vector, view)"); expect_vec(std::vector<U>(b2.begin() + 1, b2.end() - 1), wy, my, f, "MultAT(vector, view)");
    la::Vector<double> r = A.Mult(x), q = A.MultAT(y);
    expect_vec(r, wx, mx, f, "Mult(vector)"); expect_vec(q, wy, my, f, "MultAT(vector)");
    CHECK(std::equal(x.begin(), x.end(), x0.begin()) && std::equal(y.begin(), y.end(), y0.begin()), "the input was modified");
}
}

LAW(products, 40000, 400000, "no dimension zero") { Mode mode = s.chance(0.5) ? REAL : INT; products(s, dim(s, 7, 30), dim(s, 7, 30), dim(s, 7, 30), mode); }
LAW(products_degenerate, 15000, 100000, "no dimension zero") { int a = s.pick({0, 1, 2, 5}), b = s.pick({0, 1, 2, 5}), c = s.pick({0, 1, 2, 5}); products(s, a, b, c, INT); }
LAW(products_long, 300, 3000, "no dimension zero")
{
    int d[3]; bool one = s.chance(0.5); for (int& v : d) { v = s.i(1, 7); } if (one) { d[s.i(0, 2)] = s.i(60, 1000); } else { int k = s.i(0, 2); for (int i = 0; i < 3; ++i) { if (i != k) { d[i] = s.i(40, 200); } } }
    products(s, d[0], d[1], d[2], s.chance(0.5) ? REAL : INT);
}
LAW(products_large, 500, 5000, "no dimension zero") { products(s, s.i(1, 90), s.i(1, 90), s.i(1, 90), s.chance(0.5) ? REAL : INT); }

// both factors are one and the same object
LAW(self_products, 15000, 150000, "a nonempty matrix")
{
    bool square = s.chance(0.5); int r = dim(s, 7, 30), c = square ? r : dim(s, 7, 30); Mode mode = s.chance(0.5) ? REAL : INT;
    la::DenseMatrix A = dense(s, r, c, mode); Ref a = ref(A), m = a.abs(); s.note([&](std::ostream & o) { o << "A=" << show(a); }); s.nontrivial(r > 0 && c > 0);
    double f = mode == INT ? 0 : fac(std::max(r, c)); la::DenseMatrix o = stale(s);
    expect_mat(A.MultAT(A), mul(a.T(), a), mul(m.T(), m), f, "A.MultAT(A)"); A.MultAT(A, o); expect_mat(o, mul(a.T(), a), mul(m.T(), m), f, "A.MultAT(A, output)");
    expect_mat(A.MultBT(A), mul(a, a.T()), mul(m, m.T()), f, "A.MultBT(A)"); A.MultBT(A, o); expect_mat(o, mul(a, a.T()), mul(m, m.T()), f, "A.MultBT(A, output)");
    if (square)
    {
        expect_mat(A.Mult(A), mul(a, a), mul(m, m), f, "A.Mult(A)"); A.Mult(A, o); expect_mat(o, mul(a, a), mul(m, m), f, "A.Mult(A, output)");
        expect_mat(A.MultABT(A), mul(a.T(), a.T()), mul(m.T(), m.T()), f, "A.MultABT(A)"); A.MultABT(A, o); expect_mat(o, mul(a.T(), a.T()), mul(m.T(), m.T()), f, "A.MultABT(A, output)");
        if (mode == INT && r <= 12) { la::DenseMatrix P = A; Ref p = a; int n = s.i(1, 3); for (int k = 0; k < n; ++k) { P = P.Mult(k == 0 ? P : A); p = mul(p, k == 0 ? p : a); } expect_mat(P, p, p.abs(), 0, "a power assigned to its own factor"); }
    }
    CHECK(same(A, a), "the operand was modified");
}

static void matrix_vector(S& s, int r, int c)
{
    Mode mode = s.chance(0.5) ? REAL : INT;
    la::DenseMatrix A = dense(s, r, c, mode); Ref a = ref(A); double f = mode == INT ? 0 : fac(std::max(r, c));
    s.note([&](std::ostream & o) { o << show(a); }); s.nontrivial(r * c > 0);
    matvec<double, double>(s, A, a, mode, f);
    matvec<int, double>(s, A, a, INT, f);
    if (mode == INT) { matvec<int, int>(s, A, a, INT, 0); matvec<double, int>(s, A, a, INT, 0); }
    // the resized-vector overloads and the base class
    la::Vector<double> x = vec<double>(s, c, mode), y = vec<double>(s, r, mode); const la::Operator& op = A;
    std::vector<ld> wx = mulv(a, ldv(x)), wy = mulv(a.T(), ldv(y)), mx = mulv(a.abs(), absv(ldv(x))), my = mulv(a.T().abs(), absv(ldv(y)));
    la::Vector<double> o(s.i(0, 9), 5.0), p(s.i(0, 9), std::nan(""));
    op.Mult(x, o); expect_vec(o, wx, mx, f, "Operator Mult into a vector of another size");
    op.MultAT(y, p); expect_vec(p, wy, my, f, "Operator MultAT into a vector of another size");
    op.Mult(x, p); expect_vec(p, wx, mx, f, "Operator Mult into a used vector");
    expect_vec(op.Mult(x), wx, mx, f, "Operator Mult"); expect_vec(op.MultAT(y), wy, my, f, "Operator MultAT");
    CHECK(same(A, a), "the matrix was modified");
}
LAW(matrix_vector, 60000, 600000, "a nonempty matrix") { int r = dim(s, 9, 60), c = dim(s, 9, 60); matrix_vector(s, r, c); }
LAW(matrix_vector_large, 800, 10000, "a nonempty matrix") { Shape q = big_shape(s, 200); matrix_vector(s, q.r, q.c); }

static void arithmetic(S& s, int r, int c)
{
    Mode mode = s.chance(0.5) ? REAL : INT; double f = 2;
    la::DenseMatrix A = dense(s, r, c, mode), B = dense(s, r, c, mode); Ref a = ref(A), b = ref(B), z(r, c), g(a.abs());
    for (size_t k = 0; k < g.v.size(); ++k) { g.v[k] += std::fabs(b.v[k]); }
    double v = nonzero<double>(s, mode);
    s.note([&](std::ostream & o) { o << "A=" << show(a) << " B=" << show(b) << " v=" << v; }); s.nontrivial(r * c > 0);
    auto map = [&](std::function<ld(ld, ld)> h) { Ref o(r, c); for (size_t k = 0; k < o.v.size(); ++k) { o.v[k] = h(a.v[k], b.v[k]); } return o; };
    Ref sum = map([](ld x, ld y) { return x + y; }), dif = map([](ld x, ld y) { return x - y; }), sc = map([&](ld x, ld) { return x * v; }), qu = map([&](ld x, ld) { return x / v; });
    expect_mat(A + B, sum, g, f, "A + B"); expect_mat(A - B, dif, g, f, "A - B");
    expect_mat(A * v, sc, sc.abs(), f, "A * v"); expect_mat(v * A, sc, sc.abs(), f, "v * A"); expect_mat(A / v, qu, qu.abs(), f, "A / v");
    la::DenseMatrix C(A); C += B; expect_mat(C, sum, g, f, "A += B"); C = A; C -= B; expect_mat(C, dif, g, f, "A -= B");
    C = A; la::DenseMatrix& ret = (C *= v); CHECK(&ret == &C, "*= does not return its left operand"); expect_mat(C, sc, sc.abs(), f, "A *= v"); C = A; C /= v; expect_mat(C, qu, qu.abs(), f, "A /= v");
    C = A; C += C; expect_mat(C, map([](ld x, ld) { return 2 * x; }), a.abs(), f, "A += A"); C -= C; expect_mat_exact(C, z, "A -= A");
    C = A; C = v; expect_mat_exact(C, map([&](ld, ld) { return (ld) v; }), "A = v");
    C = A; C *= 0.0; expect_mat_exact(C, z, "A *= 0");
    if (r * c > 0)   // the scalar is one of the entries
    {
        int i = s.i(0, r - 1), j = s.i(0, c - 1); ld e = a(i, j);
        C = A; C *= C(i, j); Ref w = map([&](ld x, ld) { return x * e; }); expect_mat(C, w, w.abs(), f, "A *= own entry");
        if (e != 0) { C = A; C /= C(i, j); w = map([&](ld x, ld) { return x / e; }); expect_mat(C, w, w.abs(), f, "A /= own entry"); }
        C = A; C = C(i, j); expect_mat_exact(C, map([&](ld, ld) { return e; }), "A = own entry");
    }
    // scalar divided by a matrix without zeros
    std::vector<double> nz(r * c); if (r * c > 5000) { double e = dyadic(s); for (size_t k = 0; k < nz.size(); ++k) { nz[k] = std::ldexp(e, (int) (k % 5) - 2); } } else { for (auto& x : nz) { x = dyadic(s); } } la::DenseMatrix D(r, c, nz); Ref d = ref(D);
    Ref vd(r, c); for (size_t k = 0; k < vd.v.size(); ++k) { vd.v[k] = (ld) v / d.v[k]; }
    expect_mat(v / D, vd, vd.abs(), f, "v / A");
    // transpose
    expect_mat_exact(A.Transpose(), a.T(), "Transpose"); la::DenseMatrix o = stale(s); A.Transpose(o); expect_mat_exact(o, a.T(), "Transpose(output)"); expect_mat_exact(A.Transpose().Transpose(), a, "Transpose twice");
    // reductions
    if (r * c > 0)
    {
        ld t = 0, m = 0, hi = a.v[0], lo = a.v[0]; for (ld x : a.v) { t += x; m += std::fabs(x); hi = std::max(hi, x); lo = std::min(lo, x); }
        CHECK(near(A.Sum(), t, m, mode == INT ? 0 : fac(r * c)), "Sum is " << A.Sum() << ", expected " << (double) t);
        CHECK(A.Max() == hi && A.Min() == lo, "Max/Min are " << A.Max() << ", " << A.Min() << ", expected " << (double) hi << ", " << (double) lo);
    }
    if (r == c)
    {
        std::vector<double> dg = A.GetDiag(), d2(r, 77.0); A.GetDiag(d2); CHECK((int) dg.size() == r && dg == d2, "GetDiag overloads differ");
        for (int i = 0; i < r; ++i) { CHECK(dg[i] == a(i, i), "diagonal entry " << i); }
    }
    CHECK(same(A, a) && same(B, b), "an operand was modified");
}
LAW(arithmetic, 80000, 800000, "a nonempty matrix") { int r = dim(s, 8, 30), c = dim(s, 8, 30); arithmetic(s, r, c); }
LAW(arithmetic_huge, 40, 500, "a nonempty matrix") { Shape q = huge_shape(s); arithmetic(s, q.r, q.c); }
LAW(matrix_vector_huge, 40, 500, "a nonempty matrix") { Shape q = huge_shape(s); matrix_vector(s, q.r, q.c); }
LAW(products_huge, 40, 500, "no dimension zero") { int d[3]; for (int& v : d) { v = s.i(1, 3); } d[s.i(0, 2)] = huge_length(s); products(s, d[0], d[1], d[2], s.chance(0.5) ? REAL : INT); }
LAW(arithmetic_large, 800, 10000, "a nonempty matrix") { Shape q = big_shape(s, 150); arithmetic(s, q.r, q.c); }
LAW(square_diag, 15000, 100000, "a nonempty matrix")
{
    int r = s.size(0, 20); la::DenseMatrix A = dense(s, r, r, REAL); std::vector<double> d = A.GetDiag(); CHECK((int) d.size() == r, "size"); for (int i = 0; i < r; ++i) { CHECK(d[i] == A(i, i), "diagonal entry " << i); }
    la::DenseMatrix Q(r); expect_mat_exact(Q, Ref(r, r), "construction from a size"); int c = s.size(0, 9); la::DenseMatrix Z(r, c); expect_mat_exact(Z, Ref(r, c), "construction from sizes");
    s.nontrivial(r > 0);
}

// algebraic laws that need no reference: distributivity, (AB)^T = B^T A^T, identity (exact on integers)
LAW(algebra, 20000, 200000, "no dimension zero")
{
    int m = s.size(0, 8), k = s.size(0, 8), n = s.size(0, 8);
    la::DenseMatrix A = dense(s, m, k, INT), B = dense(s, k, n, INT), C = dense(s, k, n, INT), I(k);
    for (int i = 0; i < k; ++i) { I(i, i) = 1; }
    CHECK(ref(A.Mult(B + C)) == ref(A.Mult(B) + A.Mult(C)), "A(B + C) differs from AB + AC");
    CHECK(ref(A.Mult(B).Transpose()) == ref(B.MultAT(A.Transpose())), "(AB)^T differs from B^T A^T");
    CHECK(ref(A.Mult(I)) == ref(A) && ref(I.Mult(B)) == ref(B), "product with the identity");
    CHECK(ref(A.Transpose().MultABT(B.Transpose())) == ref(A.Mult(B)), "MultABT on transposes");
    s.nontrivial(m > 0 && k > 0 && n > 0);
}

PBT_MAIN
