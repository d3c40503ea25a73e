// C14: dense SVD, QR and inverse satisfy their defining identities
// technique: property-based testing: random matrices of all shapes and ranks against the defining identities evaluated in long double
#include "gen.hpp"
using pbt::S;

namespace
{
ld frob(const Ref& a) { ld t = 0; for (ld x : a.v) { t += x * x; } return std::sqrt(t); }
Ref left(const Ref& a, int k) { Ref o(a.r, k); for (int i = 0; i < a.r; ++i) for (int j = 0; j < k; ++j) { o(i, j) = a(i, j); } return o; }
Ref sub(const Ref& a, const Ref& b) { Ref o(a); for (size_t k = 0; k < o.v.size(); ++k) { o.v[k] -= b.v[k]; } return o; }
Ref eye(int n) { Ref o(n, n); for (int i = 0; i < n; ++i) { o(i, i) = 1; } return o; }

// orthogonal up to rounding: a reflection or a product of reflections, a (signed) permutation, or a scaled Hadamard matrix
Ref orthogonal(S& s, int n)
{
    Ref q = eye(n); int kind = s.weighted({3, 2, 1});
    if (kind == 0)
    {
        int hs = s.i(1, 2); pbt::Rng g = [&] { bool simple; return s.bulk(simple); }();
        for (int h = 0; h < hs; ++h)
        {
            std::vector<ld> v(n), w(n, 0); ld t = 0; for (auto& x : v) { x = real_from(g); t += x * x; } if (t == 0) { continue; }
            for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { w[j] += v[i] * q(i, j); }
            for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { q(i, j) -= 2 * v[i] * w[j] / t; }
        }
    }
    else if (kind == 1) { std::vector<int> p = s.permutation(n); Ref o(n, n); for (int i = 0; i < n; ++i) { o(i, p[i]) = s.chance(0.5) ? -1 : 1; } q = o; }
    else { for (int b = 1; 2 * b <= n; b *= 2) { int m = 2 * b; if (n % m || m > 16) { break; } for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { q(i, j) = i / m != j / m ? 0 : (__builtin_popcount((i % m) & (j % m)) % 2 ? -1 : 1) / std::sqrt((ld) m); } } }
    return q;
}

// a matrix of one of several kinds: full random, low rank, repeated columns, zero, graded, integer
la::DenseMatrix any_unit(S& s, int r, int c)
{
    int kind = s.weighted({12, 6, 6, 3, 3, 3, 3, 2});
    if (kind == 7) { la::DenseMatrix m(r, c); for (int j = 0; j < c && r > 0; ++j) { m(s.i(0, r - 1), j) = s.chance(0.2) ? -1 : 1; } s.label("columns are unit vectors, possibly repeated"); return m; }
    if (kind == 6)          // orthonormal or orthogonal columns or rows
    {
        Ref q = orthogonal(s, std::max(r, c)); la::DenseMatrix m(r, c); int scale = s.i(0, 2); s.label("orthogonal");
        for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { m(i, j) = (double) q(i, j) * (scale == 0 ? 1 : scale == 1 ? 1 + j % 4 : 1 + i % 4); }
        return m;
    }
    if (kind == 0) { return dense(s, r, c, REAL); }
    if (kind == 1) { s.label("low rank"); int k = s.size(0, std::min(r, c)); Ref a = mul(ref(dense(s, r, k, INT, 4)), ref(dense(s, k, c, INT, 4))); la::DenseMatrix m(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { m(i, j) = (double) a(i, j); } return m; }
    if (kind == 2) { return dense(s, r, c, INT, s.pick({1, 3, 9})); }
    if (kind == 3) { s.label("zero matrix"); return la::DenseMatrix(r, c); }
    if (kind == 4) { s.label("graded"); la::DenseMatrix m = dense(s, r, c, REAL); for (int j = 0; j < c; ++j) for (int i = 0; i < r; ++i) { m(i, j) *= std::ldexp(1.0, -3 * (j % 6)); } return m; }
    la::DenseMatrix m(r, c); for (int i = 0; i < std::min(r, c); ++i) { m(i, i) = s.sgn_int(5); } s.label("diagonal"); return m;
}

// sometimes of very large or very small magnitude
double magnitude(S& s) { if (!s.chance(0.12)) { return 1; } s.label("extreme magnitude"); return std::ldexp(1.0, s.pick({20, 60, 300, 700}) * (s.chance(0.5) ? -1 : 1)); }
la::DenseMatrix any(S& s, int r, int c) { la::DenseMatrix m = any_unit(s, r, c); double f = magnitude(s); if (f != 1) { for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { m(i, j) *= f; } } return m; }

void orthonormal(const Ref& q, const char* what)
{
    Ref g = mul(q.T(), q);
    for (int i = 0; i < g.r; ++i) for (int j = 0; j < g.c; ++j)
    { ld e = std::fabs(g(i, j) - (i == j ? 1 : 0)); CHECK(e <= 40.0 * (q.r + 4) * EPS, what << ": columns " << i << " and " << j << " have inner product " << (double) g(i, j)); }
}

void svd(S& s, int r, int c)
{
    la::DenseMatrix A = any(s, r, c); Ref a = ref(A); int k = std::min(r, c);
    s.note([&](std::ostream & o) { o << show(a); }); s.nontrivial(k > 1); s.label("tall", r > c); s.label("wide", r < c); s.label("empty", k == 0);
    la::DenseMatrix U = stale(s); const la::DenseMatrix& cA = A;
    std::vector<double> sv = cA.SVD(U);
    CHECK(ref(A) == a, "the const variant changed the matrix");
    CHECK((int) sv.size() == k, sv.size() << " singular values, expected " << k);
    CHECK(U.Rows() == r && U.Cols() == c, "U is " << U.Rows() << "x" << U.Cols());
    ld n = frob(a), bound = 60.0 * (r + c + 4) * EPS * n;
    ld t = 0; for (int i = 0; i < k; ++i) { CHECK(sv[i] >= 0 && (i == 0 || sv[i] <= sv[i - 1]), "singular values " << show(sv) << " are not descending and nonnegative"); t += (ld) sv[i] * sv[i]; }
    CHECK(std::fabs(std::sqrt(t) - n) <= bound, "singular values " << show(sv) << " have square sum " << (double) t << ", the matrix " << (double) (n * n));
    if (k > 0)
    {
        Ref u = left(ref(U), k);
        orthonormal(u, "left singular vectors");
        Ref b = mul(u.T(), a), p = sub(mul(u, b), a);
        CHECK(frob(p) <= bound, "U U^T A differs from A by " << (double) frob(p));
        for (int i = 0; i < k; ++i)
        {
            ld w = 0; for (int j = 0; j < c; ++j) { w += b(i, j) * b(i, j); }
            CHECK(std::fabs(std::sqrt(w) - sv[i]) <= bound, "A^T u_" << i << " has length " << (double) std::sqrt(w) << ", singular value " << sv[i]);
            for (int l = 0; l < i; ++l) { ld d = 0; for (int j = 0; j < c; ++j) { d += b(i, j) * b(l, j); } CHECK(std::fabs(d) <= bound * n, "A^T u_" << i << " and A^T u_" << l << " have inner product " << (double) d); }
        }
    }
    la::DenseMatrix B(A); std::vector<double> sw = B.SVD();
    CHECK(sw == sv && ref(B) == ref(U), "the in-place variant gives another result");
}

void qr(S& s, int r, int c)
{
    la::DenseMatrix A = any(s, r, c); Ref a = ref(A); int k = std::min(r, c);
    s.note([&](std::ostream & o) { o << show(a); }); s.nontrivial(k > 1); s.label("tall", r > c); s.label("wide", r < c); s.label("empty", k == 0);
    la::DenseMatrix Q = stale(s); const la::DenseMatrix& cA = A;
    cA.QR(Q);
    CHECK(ref(A) == a, "the const variant changed the matrix");
    CHECK(Q.Rows() == r && Q.Cols() >= k, "Q is " << Q.Rows() << "x" << Q.Cols());
    if (k > 0)
    {
        Ref q = left(ref(Q), k);
        orthonormal(q, "columns of Q");
        Ref p = sub(mul(q, mul(q.T(), a)), a);
        CHECK(frob(p) <= 60.0 * (r + c + 4) * EPS * frob(a), "Q Q^T A differs from A by " << (double) frob(p));
    }
    la::DenseMatrix B(A); B.QR(); CHECK(ref(B) == ref(Q), "the in-place variant gives another result");
}

void invert(S& s, int n)
{
    la::DenseMatrix A(n);
    int kind = s.weighted({6, 4, 4, 2, 2, 1, 1});
    if (kind == 5) { Ref q = orthogonal(s, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { A(i, j) = (double) q(i, j); } s.label("orthogonal"); }
    else if (kind == 6)     // symmetric positive definite
    {
        Ref b = ref(dense(s, n, n, INT, 2)); b = mul(b.T(), b); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { A(i, j) = (double) b(i, j) + (i == j); } s.label("symmetric positive definite");
    }
    else if (kind == 0)     // dominant diagonal, rows permuted
    {
        A = dense(s, n, n, REAL); std::vector<int> p = s.permutation(n);
        for (int i = 0; i < n; ++i) { ld t = 0; for (int j = 0; j < n; ++j) { t += std::fabs(A(i, j)); } A(i, p[i]) = (double) (t + 1) * (s.chance(0.5) ? -1 : 1); }
        s.label("dominant under a permutation");
    }
    else if (kind == 1)     // integer unimodular: L * U with unit diagonals, permuted
    {
        Ref L = eye(n), U = eye(n), P(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) { if (n <= 8 || s.chance(0.1)) { L(i, j) = s.sgn_int(2); U(j, i) = s.sgn_int(2); } }
        std::vector<int> p = s.permutation(n); for (int i = 0; i < n; ++i) { P(i, p[i]) = 1; }
        Ref a = mul(P, mul(L, U)); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { A(i, j) = (double) a(i, j); }
        s.label("unimodular");
    }
    else if (kind == 2) { A = dense(s, n, n, REAL); s.label("random"); }
    else if (kind == 3) { std::vector<int> p = s.permutation(n); for (int i = 0; i < n; ++i) { A(i, p[i]) = dyadic(s); } s.label("scaled permutation"); }
    else { for (int i = 0; i < n; ++i) for (int j = i; j < n; ++j) { A(i, j) = i == j ? dyadic(s) : s.sgn_int(1); } s.label("triangular"); }
    double f = magnitude(s); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { A(i, j) *= f; }
    Ref a = ref(A);
    // reference inverse in long double, to decide whether the matrix is numerically nonsingular
    Ref w(a), x = eye(n);
    for (int k = 0; k < n; ++k)
    {
        int p = k; for (int i = k; i < n; ++i) { if (std::fabs(w(i, k)) > std::fabs(w(p, k))) { p = i; } }
        if (std::fabs(w(p, k)) <= 1e-12L * frob(a)) { s.label("(singular, skipped)"); return; }
        for (int j = 0; j < n; ++j) { std::swap(w(k, j), w(p, j)); std::swap(x(k, j), x(p, j)); }
        ld d = w(k, k); for (int j = 0; j < n; ++j) { w(k, j) /= d; x(k, j) /= d; }
        for (int i = 0; i < n; ++i) { if (i != k && w(i, k) != 0) { ld f = w(i, k); for (int j = 0; j < n; ++j) { w(i, j) -= f * w(k, j); x(i, j) -= f * x(k, j); } } }
    }
    ld kappa = frob(a) * frob(x); if (kappa > 1e8) { s.label("(ill conditioned, skipped)"); return; }
    s.note([&](std::ostream & o) { o << show(a); }); s.nontrivial(n > 1);
    la::DenseMatrix I = stale(s); const la::DenseMatrix& cA = A; cA.Invert(I);
    CHECK(ref(A) == a, "the const variant changed the matrix");
    CHECK(I.Rows() == n && I.Cols() == n, "the inverse is " << I.Rows() << "x" << I.Cols());
    Ref v = ref(I), e = sub(v, x);
    CHECK(frob(e) <= 50.0 * (n + 4) * EPS * kappa * frob(x), "the inverse of " << show(a) << " is off by " << (double) frob(e) << " (norm " << (double) frob(x) << ", condition " << (double) kappa << ")");
    la::DenseMatrix B(A); B.Invert(); CHECK(ref(B) == v, "the in-place variant gives another result");
}
int sz(S& s, int big) { int k = s.weighted({8, 3, 1}); return k == 0 ? s.size(0, 8) : k == 1 ? s.i(0, 16) : s.i(8, big); }
}

LAW(svd, 30000, 300000, "at least two singular values") { int r = sz(s, 40), c = sz(s, 40); svd(s, r, c); }
LAW(svd_square, 8000, 80000, "at least two singular values") { int r = sz(s, 40); svd(s, r, r); }
LAW(svd_large, 300, 3000, "at least two singular values") { int r = s.i(30, 100), c = s.i(30, 100); svd(s, r, c); }
LAW(qr, 30000, 300000, "at least two columns of Q") { int r = sz(s, 40), c = sz(s, 40); qr(s, r, c); }
LAW(qr_square, 8000, 80000, "at least two columns of Q") { int r = sz(s, 40); qr(s, r, r); }
LAW(qr_large, 300, 3000, "at least two columns of Q") { int r = s.i(30, 100), c = s.i(30, 100); qr(s, r, c); }
LAW(invert, 40000, 400000, "order at least two, condition number at most 1e8") { invert(s, sz(s, 30)); }
LAW(invert_large, 300, 3000, "order at least two, condition number at most 1e8") { invert(s, s.i(30, 100)); }
LAW(svd_long, 150, 2000, "at least two singular values") { Shape q = big_shape(s, 80, 800); svd(s, q.r, q.c); }
LAW(qr_long, 150, 2000, "at least two columns of Q") { Shape q = big_shape(s, 80, 800); qr(s, q.r, q.c); }
LAW(invert_larger, 20, 300, "order at least two, condition number at most 1e8") { invert(s, s.i(100, 220)); }

PBT_MAIN
