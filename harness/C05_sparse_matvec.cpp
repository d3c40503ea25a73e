// C05: sparse matrix times vector (and transpose) equals the defined product
// technique: property-based testing: random CSR matrices and vectors against a long double reference product, over every overload, with guarded output windows
#include "gen.hpp"
#include "huge.hpp"
using pbt::S;

namespace
{
// output window inside larger storage; everything around it must survive
template <typename T>
struct Window
{
    std::vector<T> store; int off, n; T fill;
    Window(S& s, int n_) : off(s.i(0, 3)), n(n_), fill((T) 777) { store.assign(n + off + s.i(0, 3) + 1, fill); }
    la::VectorView<T> view() { return la::VectorView<T>(store.data() + off, n); }
    std::vector<T> content() const { return std::vector<T>(store.begin() + off, store.begin() + off + n); }
    void check(const char* what) const
    {
        for (int k = 0; k < (int) store.size(); ++k)
        { if (k < off || k >= off + n) { CHECK(store[k] == fill, what << " wrote outside of its output, at offset " << k - off << " of " << n); } }
    }
};

template <typename T> Ref mag_of(const Csr<T>& a) { return a.ref().abs(); }

template <typename U, typename M>
void star(const M& m, const la::VectorView<U>& x, const std::vector<ld>& w, const std::vector<ld>& g, double f, std::true_type)
{ la::Vector<U> r = m * x; expect_vec(r, w, g, f, "operator*"); }
template <typename U, typename M>
void star(const M&, const la::VectorView<U>&, const std::vector<ld>&, const std::vector<ld>&, double, std::false_type) { }

template <typename T, typename U, typename V>
void templated(S& s, const la::SparseMatrix<T>& m, const Csr<T>& a, Mode mode, double f)
{
    Ref A = a.ref(), M = A.abs();
    std::vector<U> xv = values<U>(s, a.c, mode), yv = values<U>(s, a.r, mode);
    std::vector<U> x0(xv), y0(yv);
    la::VectorView<U> x(xv), y(yv);
    std::vector<ld> wx = mulv(A, ldv(xv)), mx = mulv(M, absv(ldv(xv)));
    std::vector<ld> wy = mulv(A.T(), ldv(yv)), my = mulv(M.T(), absv(ldv(yv)));
    Window<V> o(s, a.r), p(s, a.c);
    m.template Mult<U, V>(x, o.view());
    o.check("templated Mult"); expect_vec(o.content(), wx, mx, f, "templated Mult");
    m.template MultAT<U, V>(y, p.view());
    p.check("templated MultAT"); expect_vec(p.content(), wy, my, f, "templated MultAT");
    if (std::is_same<T, V>::value)
    {
        la::Vector<T> r = m.template Mult<U>(x); expect_vec(r, wx, mx, f, "Mult<U> returning a vector");
        la::Vector<T> q = m.template MultAT<U>(y); expect_vec(q, wy, my, f, "MultAT<U> returning a vector");
    }
    star<U>(m, x, wx, mx, f, std::is_same<T, U>());
    CHECK(xv == x0 && yv == y0, "the input vector was modified");
    CHECK(same_csr(m, a), "the matrix was modified");
}

void body(S& s, int r, int c)
{
    Mode mode = s.chance(0.5) ? REAL : INT;
    Csr<double> a = csr<double>(s, r, c, mode);
    la::SparseMatrix<double> m = a.mat();
    Ref A = a.ref(), M = A.abs();
    double f = mode == INT ? 0 : fac(std::max(r, c));
    la::Vector<double> x = vec<double>(s, c, mode), y = vec<double>(s, r, mode);
    la::Vector<double> x0(x), y0(y);
    std::vector<ld> wx = mulv(A, ldv(x)), mx = mulv(M, absv(ldv(x))), wy = mulv(A.T(), ldv(y)), my = mulv(M.T(), absv(ldv(y)));
    s.note([&](std::ostream & o) { o << a.show() << " x=" << show(x.data()) << " y=" << show(y.data()); });
    s.label("empty row", has_empty_row(a)); s.label("unsorted", is_unsorted(a)); s.label(mode == INT ? "integer data" : "real data");
    s.nontrivial(a.d.size() > 0);
    const la::Operator& op = m;
    {
        la::Vector<double> o = m.Mult(x); expect_vec(o, wx, mx, f, "Mult returning a vector");
        la::Vector<double> p = m.MultAT(y); expect_vec(p, wy, my, f, "MultAT returning a vector");
        la::Vector<double> q = m * (const la::VectorView<double>&) x; expect_vec(q, wx, mx, f, "operator*");
        la::Vector<double> t = op.Mult(x); expect_vec(t, wx, mx, f, "Operator Mult");
        la::Vector<double> u = op.MultAT(y); expect_vec(u, wy, my, f, "Operator MultAT");
    }
    {
        la::Vector<double> o(s.i(0, 8), 777.0), p(s.i(0, 8), std::nan(""));
        m.Mult(x, o); expect_vec(o, wx, mx, f, "Mult into a vector of another size");
        m.MultAT(y, p); expect_vec(p, wy, my, f, "MultAT into a vector of another size");
        m.Mult(x, o); expect_vec(o, wx, mx, f, "repeated Mult"); m.MultAT(y, p); expect_vec(p, wy, my, f, "repeated MultAT");
        op.Mult(x, p); expect_vec(p, wx, mx, f, "Operator Mult into a vector of another size");
        op.MultAT(y, o); expect_vec(o, wy, my, f, "Operator MultAT into a vector of another size");
    }
    {
        Window<double> o(s, r), p(s, c);
        op.Mult(x, o.view()); o.check("Operator Mult"); expect_vec(o.content(), wx, mx, f, "Operator Mult into a view");
        op.MultAT(y, p.view()); p.check("Operator MultAT"); expect_vec(p.content(), wy, my, f, "Operator MultAT into a view");
        // input that is itself a window
        Window<double> in(s, c); la::VectorView<double> v = in.view(); v = (const la::VectorView<double>&) x;
        Window<double> q(s, r); m.Mult(v, q.view()); q.check("Mult"); in.check("Mult"); expect_vec(q.content(), wx, mx, f, "Mult from a view into a view");
    }
    CHECK(std::equal(x.begin(), x.end(), x0.begin()) && std::equal(y.begin(), y.end(), y0.begin()) && x.size() == c && y.size() == r, "the input vector was modified");
    CHECK(same_csr(m, a), "the matrix was modified");
    templated<double, double, double>(s, m, a, mode, f);
}
}

LAW(matvec, 80000, 900000, "at least one stored entry") { body(s, dim(s), dim(s)); }
LAW(matvec_shapes, 20000, 200000, "at least one stored entry") { int r = s.pick({1, 0, 2, 33, 64}), c = s.pick({1, 0, 2, 33, 64}); body(s, r, c); }
LAW(matvec_large, 1500, 20000, "at least one stored entry") { body(s, s.i(50, 700), s.i(50, 700)); }

LAW(matvec_int, 40000, 400000, "at least one stored entry")
{
    int r = dim(s), c = dim(s);
    Csr<int> a = csr<int>(s, r, c, INT);
    la::SparseMatrix<int> m = a.mat();
    s.note([&](std::ostream & o) { o << a.show(); });
    s.nontrivial(a.d.size() > 0);
    templated<int, int, int>(s, m, a, INT, 0);
    templated<int, int, double>(s, m, a, INT, 0);
    templated<int, double, int>(s, m, a, INT, 0);
    templated<int, double, double>(s, m, a, INT, 0);
    // real vectors through the Operator interface of an integer matrix
    la::Vector<double> x = vec<double>(s, c, REAL), y = vec<double>(s, r, REAL);
    Ref A = a.ref(), M = A.abs(); const la::Operator& op = m;
    expect_vec(op.Mult(x), mulv(A, ldv(x)), mulv(M, absv(ldv(x))), fac(c), "Operator Mult of an integer matrix");
    expect_vec(op.MultAT(y), mulv(A.T(), ldv(y)), mulv(M.T(), absv(ldv(y))), fac(r), "Operator MultAT of an integer matrix");
}
LAW(matvec_mixed, 40000, 400000, "at least one stored entry")
{
    int r = dim(s), c = dim(s);
    Csr<double> a = csr<double>(s, r, c, INT);
    la::SparseMatrix<double> m = a.mat();
    s.note([&](std::ostream & o) { o << a.show(); });
    s.nontrivial(a.d.size() > 0);
    templated<double, int, double>(s, m, a, INT, 0);
    templated<double, int, int>(s, m, a, INT, 0);
    templated<double, double, int>(s, m, a, INT, 0);
    // real matrix with integer vectors
    Csr<double> b = csr<double>(s, r, c, REAL); la::SparseMatrix<double> mb = b.mat();
    templated<double, int, double>(s, mb, b, REAL, fac(std::max(r, c)));
}

// shapes whose number of positions exceeds the range of int
LAW(matvec_huge, 400, 6000, "at least one stored entry")
{
    Shape q = huge::shape(s); Csr<double> a = huge::csr<double>(s, q.r, q.c, true); la::SparseMatrix<double> A = a.mat(); huge::Map m = huge::entries(a);
    s.note([&](std::ostream & o) { o << q.r << "x" << q.c << " " << huge::show(m); }); s.nontrivial(!a.d.empty());
    la::Vector<double> x = huge::vec(s, q.c), y = huge::vec(s, q.r), u(q.r), v(q.c); u = 5.0; v = std::nan("");
    A.Mult(x, u); huge::same(u, huge::times(m, q.r, ldv(x)), "Mult"); huge::same(A.Mult(x), huge::times(m, q.r, ldv(x)), "Mult returning a vector");
    A.MultAT(y, v); huge::same(v, huge::times(huge::transposed(m), q.c, ldv(y)), "MultAT"); huge::same(A.MultAT(y), huge::times(huge::transposed(m), q.c, ldv(y)), "MultAT returning a vector");
    CHECK(same_csr(A, a), "the matrix was modified");
}

PBT_MAIN
