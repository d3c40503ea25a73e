// C06: sparse-sparse and sparse-dense matrix products equal the defined products
// technique: property-based testing: random CSR/dense pairs and products chained over one reused workspace, against long double reference products
#include "gen.hpp"
#include "huge.hpp"
using pbt::S;

namespace
{
template <typename T, typename U, typename V>
void product(S& s, int r, int k, int c, Mode mode)
{
    Csr<T> a = csr<T>(s, r, k, mode); Csr<U> b = csr<U>(s, k, c, mode);
    la::SparseMatrix<T> A = a.mat(); la::SparseMatrix<U> B = b.mat();
    Ref ra = a.ref(), rb = b.ref(), want = mul(ra, rb), mag = mul(ra.abs(), rb.abs());
    double f = mode == INT ? 0 : fac(k);
    s.note([&](std::ostream & o) { o << a.show() << " * " << b.show(); });
    s.nontrivial(a.d.size() > 0 && b.d.size() > 0);
    s.label("empty row", has_empty_row(a) || has_empty_row(b)); s.label("unsorted", is_unsorted(a) || is_unsorted(b)); s.label("zero dimension", r * k * c == 0);
    la::SparseMatrix<V> p = A.template Mult<U, V>(B);
    expect_sparse(p, want, mag, f, "A.Mult(B)");
    std::vector<int> w(s.i(0, 2 * c + 3));
    for (auto& x : w) { x = s.pick({-1, 0, 1, 5, 1000000, -7}); }
    la::SparseMatrix<V> q = A.template Mult<U, V>(B, w);
    expect_sparse(q, want, mag, f, "A.Mult(B, workspace)");
    la::SparseMatrix<V> t = A.template Mult<U, V>(B, w);
    expect_sparse(t, want, mag, f, "A.Mult(B, used workspace)");
    // structure: exactly the structural product
    std::set<std::pair<int, int>> pat;
    for (int i = 0; i < r; ++i) for (int j = a.p[i]; j < a.p[i + 1]; ++j) for (int l = b.p[a.x[j]]; l < b.p[a.x[j] + 1]; ++l) { pat.insert({i, b.x[l]}); }
    CHECK(p.nnz() == (int) pat.size() && pattern(p) == pat, "the product stores " << p.nnz() << " entries, its structure has " << pat.size());
    CHECK(same_csr(A, a) && same_csr(B, b), "an operand was modified");
}
}

LAW(sparse_sparse, 100000, 900000, "both factors store an entry")
{
    Mode mode = s.chance(0.4) ? REAL : INT;
    product<double, double, double>(s, dim(s, 10, 40), dim(s, 10, 40), dim(s, 10, 40), mode);
}
LAW(sparse_sparse_types, 60000, 500000, "both factors store an entry")
{
    int r = dim(s, 8, 20), k = dim(s, 8, 20), c = dim(s, 8, 20);
    switch (s.i(0, 4))
    {
        case 0: product<int, int, int>(s, r, k, c, INT); break;
        case 1: product<double, int, double>(s, r, k, c, INT); break;
        case 2: product<int, double, double>(s, r, k, c, INT); break;
        case 3: product<int, int, double>(s, r, k, c, INT); break;
        default: product<int, double, double>(s, r, k, c, s.chance(0.5) ? REAL : INT);
    }
}
LAW(sparse_sparse_long, 600, 8000, "both factors store an entry")
{
    int d[3]; bool one = s.chance(0.5); for (int& v : d) { v = s.i(1, 7); } if (one) { d[s.i(0, 2)] = s.i(60, 1500); } else { int k = s.i(0, 2); for (int i = 0; i < 3; ++i) { if (i != k) { d[i] = s.i(40, 200); } } }
    product<double, double, double>(s, d[0], d[1], d[2], s.chance(0.5) ? REAL : INT);
}
LAW(sparse_sparse_large, 1500, 12000, "both factors store an entry")
{ product<double, double, double>(s, s.i(20, 160), s.i(20, 160), s.i(20, 160), s.chance(0.5) ? REAL : INT); }

// both factors are one and the same object, or the factor is assigned the product
LAW(self_product, 15000, 150000, "the matrix stores an entry")
{
    int n = dim(s, 9, 40); Mode mode = s.chance(0.4) ? REAL : INT; Csr<double> a = csr<double>(s, n, n, mode); la::SparseMatrix<double> A = a.mat(); Ref r = a.ref(), m = r.abs(); double f = mode == INT ? 0 : fac(n);
    s.note([&](std::ostream & o) { o << a.show(); }); s.nontrivial(!a.d.empty());
    std::vector<int> w(s.i(0, 2 * n + 1)); for (auto& x : w) { x = s.pick({-1, 0, 3, 1000000}); }
    expect_sparse(A.Mult(A), mul(r, r), mul(m, m), f, "A.Mult(A)"); expect_sparse(A.Mult(A, w), mul(r, r), mul(m, m), f, "A.Mult(A, workspace)");
    la::SparseMatrix<double> T = A.Transpose(); expect_sparse(T.Mult(A), mul(r.T(), r), mul(m.T(), m), f, "Transpose().Mult(A)"); expect_sparse(A.Mult(T, w), mul(r, r.T()), mul(m, m.T()), f, "A.Mult(Transpose(), workspace)");
    la::DenseMatrix D = A.ToDense(); expect_mat(A.Mult(D), mul(r, r), mul(m, m), f, "A.Mult(its dense form)"); expect_mat(A.MultAT(D), mul(r.T(), r), mul(m.T(), m), f, "A.MultAT(its dense form)");
    CHECK(same_csr(A, a), "the operand was modified");
    A = s.chance(0.5) ? A.Mult(A) : A.Mult(A, w); expect_sparse(A, mul(r, r), mul(m, m), f, "A = A.Mult(A)");
    A = s.chance(0.5) ? A.Transpose() : A; D = A.Mult(D); CHECK(D.Rows() == n && D.Cols() == n, "D = A.Mult(D) is " << D.Rows() << "x" << D.Cols());
}

// the default result type is the common type of the factors
LAW(default_types, 15000, 150000, "both factors store an entry")
{
    int r = s.size(0, 8), k = s.size(0, 8), c = s.size(0, 8);
    Csr<int> a = csr<int>(s, r, k, INT); Csr<double> b = csr<double>(s, k, c, REAL); Csr<int> b2 = csr<int>(s, k, c, INT);
    auto p = a.mat().Mult(b.mat());
    static_assert(std::is_same<decltype(p), la::SparseMatrix<double>>::value, "common type");
    expect_sparse(p, mul(a.ref(), b.ref()), mul(a.ref().abs(), b.ref().abs()), fac(k), "int * double");
    auto q = a.mat().Mult(b2.mat());
    static_assert(std::is_same<decltype(q), la::SparseMatrix<int>>::value, "common type");
    expect_sparse_exact(q, mul(a.ref(), b2.ref()), "int * int");
    auto t = b.mat().Transpose().Mult(a.mat().Transpose());
    expect_sparse(t, mul(a.ref(), b.ref()).T(), mul(a.ref().abs(), b.ref().abs()).T(), fac(k), "(A B)^T = B^T A^T");
    s.nontrivial(a.d.size() > 0 && b.d.size() > 0);
}

// several products sharing one workspace, each operand also the result of earlier products
LAW(chained, 20000, 200000, "at least two products of nonzero matrices")
{
    int n = s.i(2, 5); std::vector<int> d(n + 1); for (auto& x : d) { x = s.size(0, 9); }
    std::vector<int> w; Csr<double> a = csr<double>(s, d[0], d[1], INT, CsrOpt{false, false, true, 3});
    la::SparseMatrix<double> P = a.mat(); Ref R = a.ref(); int nz = 0;
    for (int i = 1; i < n; ++i)
    {
        Csr<double> b = csr<double>(s, d[i], d[i + 1], INT, CsrOpt{false, false, true, 3});
        s.note([&](std::ostream & o) { o << b.show(); });
        if (s.chance(0.3)) { P = P.Mult(b.mat()); } else { P = P.Mult(b.mat(), w); }
        R = mul(R, b.ref());
        expect_sparse_exact(P, R, "chained product");
        nz += P.nnz() > 0;
    }
    s.nontrivial(nz >= 2);
}

namespace
{
template <typename T>
void with_dense(S& s, int r, int k, int c, Mode mode)
{
    Csr<T> a = csr<T>(s, r, k, mode); la::SparseMatrix<T> A = a.mat();
    la::DenseMatrix B = dense(s, k, c, mode), D = dense(s, r, c, mode);
    Ref ra = a.ref(), rb = ref(B), rd = ref(D);
    double f = mode == INT ? 0 : fac(std::max(r, k));
    s.note([&](std::ostream & o) { o << a.show() << " B=" << show(rb) << " D=" << show(rd); });
    s.nontrivial(a.d.size() > 0 && c > 0);
    Ref w1 = mul(ra, rb), m1 = mul(ra.abs(), rb.abs()), w2 = mul(ra.T(), rd), m2 = mul(ra.T().abs(), rd.abs());
    expect_mat(A.Mult(B), w1, m1, f, "Mult(dense)");
    expect_mat(A.MultAT(D), w2, m2, f, "MultAT(dense)");
    expect_mat(A.MultCT(B), w1.T(), m1.T(), f, "MultCT(dense)");
    la::DenseMatrix o = stale(s);
    A.Mult(B, o); expect_mat(o, w1, m1, f, "Mult(dense, output)");
    A.MultAT(D, o); expect_mat(o, w2, m2, f, "MultAT(dense, output)");
    A.MultCT(B, o); expect_mat(o, w1.T(), m1.T(), f, "MultCT(dense, output)");
    A.MultCT(B, o); expect_mat(o, w1.T(), m1.T(), f, "MultCT(dense, output) again");
    A.Mult(B, o); expect_mat(o, w1, m1, f, "Mult(dense, output) again");
    la::DenseMatrix nan_out(r, c, std::vector<double>(r * c, std::nan("")));
    A.Mult(B, nan_out); expect_mat(nan_out, w1, m1, f, "Mult over NaN");
    la::DenseMatrix nan_at(k, c, std::vector<double>(k * c, std::nan("")));
    A.MultAT(D, nan_at); expect_mat(nan_at, w2, m2, f, "MultAT over NaN");
    CHECK(same_csr(A, a) && ref(B) == rb && ref(D) == rd, "an operand was modified");
}
}
LAW(sparse_dense, 80000, 500000, "the matrix stores an entry and the dense factor has columns")
{ with_dense<double>(s, dim(s, 9, 40), dim(s, 9, 40), dim(s, 6, 20), s.chance(0.5) ? REAL : INT); }
LAW(sparse_dense_large, 600, 8000, "the matrix stores an entry and the dense factor has columns")
{ Shape q = big_shape(s, 120); with_dense<double>(s, q.r, q.c, s.chance(0.3) ? s.i(20, 90) : s.i(1, 5), s.chance(0.5) ? REAL : INT); }
LAW(sparse_int_dense, 20000, 200000, "the matrix stores an entry and the dense factor has columns")
{ with_dense<int>(s, dim(s, 9, 30), dim(s, 9, 30), dim(s, 6, 20), s.chance(0.5) ? REAL : INT); }

// shapes whose number of positions exceeds the range of int
LAW(sparse_sparse_huge, 300, 5000, "both factors store an entry")
{
    Shape q = huge::shape(s); int c = s.chance(0.8) ? huge::extent(s) : s.i(1, 5); std::vector<int> mid = huge::pool(s, q.c); bool left = s.chance(0.5);
    Csr<double> a = huge::csr<double>(s, q.r, q.c, huge::pool(s, q.r), mid, left), b = huge::csr<double>(s, q.c, c, mid, huge::pool(s, c), !left); huge::Map ma = huge::entries(a), mb = huge::entries(b), w;
    s.note([&](std::ostream & o) { o << q.r << "x" << q.c << "x" << c << " " << huge::show(ma) << " times " << huge::show(mb); }); s.nontrivial(!a.d.empty() && !b.d.empty());
    for (auto& e : ma) for (auto f = mb.lower_bound({e.first.second, 0}); f != mb.end() && f->first.first == e.first.second; ++f) { w[ {e.first.first, f->first.second}] += e.second * f->second; }
    la::SparseMatrix<double> A = a.mat(), B = b.mat(); huge::expect(A.Mult(B), q.r, c, w, "product");
    std::vector<int> mark(c, -1); huge::expect(A.Mult(B, mark), q.r, c, w, "product with a marker"); for (int v : mark) { CHECK(v == -1 || (v >= 0), "marker"); }
    CHECK(same_csr(A, a) && same_csr(B, b), "an operand was modified");
}

PBT_MAIN
