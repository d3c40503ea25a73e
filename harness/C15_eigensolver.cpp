// C15: symmetric eigensolver returns the selected eigenpairs
// technique: property-based testing: random symmetric matrices (known spectra, degenerate ones) and histories of solves against a long double Jacobi reference
#include "solve.hpp"
using pbt::S;

namespace
{
la::DenseMatrix symmetric(S& s, int n)
{
    la::DenseMatrix A(n);
    auto set = [&](int i, int j, double v) { A(i, j) = v; A(j, i) = v; };
    switch (s.weighted({4, 3, 2, 2, 2, 2, 2, 1, 1, 2}))
    {
        case 0: for (int i = 0; i < n; ++i) for (int j = i; j < n; ++j) { set(i, j, value<double>(s, REAL)); } s.label("random real"); break;
        case 1: { int m = s.pick({1, 2, 5}); for (int i = 0; i < n; ++i) for (int j = i; j < n; ++j) { set(i, j, s.sgn_int(m)); } s.label("small integers"); break; }
        case 2: for (int i = 0; i < n; ++i) { A(i, i) = s.sgn_int(3); } s.label("diagonal"); break;
        case 3:   // graph Laplacian, possibly disconnected: eigenvalue zero with multiplicity
        {
            double p = s.pick({0.05, 0.2, 0.5, 1.0});
            for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) { if (s.chance(p)) { set(i, j, -1); A(i, i) += 1; A(j, j) += 1; } }
            s.label("graph Laplacian"); break;
        }
        case 4:   // low rank
        {
            int k = s.size(0, std::max(0, n - 1)); Ref b = ref(dense(s, n, k, INT, 2)), sg(k, k); for (int i = 0; i < k; ++i) { sg(i, i) = s.chance(0.8) ? 1 : -1; }
            Ref m = mul(b, mul(sg, b.T())); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { A(i, j) = (double) m(i, j); }
            s.label("low rank"); break;
        }
        case 5:   // prescribed spectrum with clusters and repetitions: reflect a diagonal matrix
        {
            Ref d(n, n); int k = s.weighted({2, 1, 1, 1}); std::vector<ld> last(1, 1);
            for (int i = 0; i < n; ++i) { d(i, i) = k == 0 ? s.sgn_int(2) : k == 1 ? 1 + (ld) s.u(4) * 1e-9L : k == 2 ? -1 - (ld) s.u(50) : std::ldexp(1.0L, -(int) s.u(40)); }
            int hs = s.i(1, 3);
            for (int h = 0; h < hs; ++h)
            {
                std::vector<ld> v(n); ld t = 0; for (auto& x : v) { x = value<double>(s, REAL); t += x * x; } if (t == 0) { continue; }
                std::vector<ld> w = mulv(d, v); ld vw = 0; for (int i = 0; i < n; ++i) { vw += v[i] * w[i]; }
                for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { d(i, j) += -2 / t * (v[i] * w[j] + w[i] * v[j]) + 4 / t / t * vw * v[i] * v[j]; }
            }
            for (int i = 0; i < n; ++i) for (int j = i; j < n; ++j) { set(i, j, (double) d(i, j)); }
            s.label("prescribed spectrum"); break;
        }
        case 6: for (int i = 0; i < n; ++i) { A(i, i) = s.pick({2, 0, 1}); if (i + 1 < n && !s.chance(0.2)) { set(i, i + 1, s.pick({-1, 1, 2})); } } s.label("tridiagonal"); break;
        case 7: s.label("zero matrix"); break;
        case 8: { double v = s.pick({1.0, -1.0, 0.5, 3.0}); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { A(i, j) = v; } s.label("all equal"); break; }
        default:  // block diagonal with copies of one block
        {
            int b = s.i(1, std::max(1, n / 2)); la::DenseMatrix B = dense(s, b, b, INT, 3);
            for (int i = 0; i < n; ++i) for (int j = i; j < n; ++j) { if (i / b == j / b) { set(i, j, B(std::min(i % b, j % b), std::max(i % b, j % b))); } }
            s.label("repeated blocks"); break;
        }
    }
    if (s.chance(0.15)) { A *= std::ldexp(1.0, s.chance(0.3) ? s.pick({-400, -250, 250, 400}) : s.i(-60, 60)); s.label("scaled"); }
    return A;
}

void check(const Ref& a, const la::EigenPair& p, double rel_tol, int max_evect, S& s)
{
    const int n = a.r; const std::vector<double>& w = p.first; const la::DenseMatrix& V = p.second;
    CHECK((int) w.size() == n, w.size() << " eigenvalues, the order is " << n);
    if (n == 0) { CHECK(V.Rows() == 0 && V.Cols() == 0, "eigenvectors of an empty matrix"); return; }
    std::vector<ld> ex = jacobi(a); ld norm = 0; for (ld x : ex) { norm = std::max(norm, std::fabs(x)); }
    ld tol = 100.0L * (n + 4) * EPS * norm;
    for (int i = 0; i < n; ++i) { CHECK(std::fabs(w[i] - ex[i]) <= tol, "eigenvalue " << i << " of " << n << " is " << w[i] << ", expected " << (double) ex[i]); CHECK(i == 0 || w[i - 1] <= w[i] + tol * 0.01, "eigenvalues are not ascending: " << show(w)); }
    // how many: the first always, then every next one not above the tolerance, up to the limit
    int lim = max_evect < 0 ? n : std::max(1, std::min(max_evect, n)); ld cut = ex.back() * rel_tol, slack = tol * (1 + std::fabs((ld) rel_tol));
    int lo = 1, hi = 1; while (lo < lim && ex[lo] <= cut - slack) { ++lo; } while (hi < lim && ex[hi] <= cut + slack) { ++hi; }
    if (norm == 0) { lo = hi = lim; }   // everything is exactly zero: 0 <= 0
    int m = V.Cols();
    CHECK(V.Rows() == n && m >= lo && m <= hi, "eigenvectors are " << V.Rows() << "x" << m << ", expected " << n << "x" << lo << (lo == hi ? "" : " or more") << " (relative tolerance " << rel_tol << ", maximum " << max_evect << ", eigenvalues " << show(w) << ")");
    s.label("limited by the maximum", m == lim && lim < n); s.label("limited by the tolerance", m < lim); s.label("choice within rounding", lo != hi);
    Ref v = ref(V), av = mul(a, v);
    for (int k = 0; k < m; ++k)
    {
        for (int i = 0; i < n; ++i) { CHECK(std::fabs(av(i, k) - w[k] * v(i, k)) <= 1e4L * (n + 4) * EPS * norm, "A v != lambda v for pair " << k << " (lambda " << w[k] << "): row " << i << " gives " << (double) av(i, k) << ", expected " << (double)(w[k] * v(i, k))); }
        for (int l = 0; l <= k; ++l) { ld d = 0; for (int i = 0; i < n; ++i) { d += v(i, k) * v(i, l); } CHECK(std::fabs(d - (k == l)) <= 1e4L * (n + 4) * EPS, "eigenvectors " << l << " and " << k << " have inner product " << (double) d); }
    }
}

la::SparseMatrix<double> sparse(S& s, const la::DenseMatrix& A)
{
    int n = A.Rows(); la::CooMatrix<double> coo(n, n);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { if (A(i, j) != 0 || s.chance(0.05)) { coo.Add(i, j, A(i, j)); } }
    return coo.ToSparse();
}

double a_tol(S& s) { return s.pick({1.0, 0.5, 0.1, 0.0, 1e-8, 2.0, -0.5, 1e10, 0.9}); }
int a_max(S& s, int n) { int k = s.weighted({3, 3, 1, 1, 2}); return k == 0 ? -1 : k == 1 ? s.size(1, std::max(1, n)) : k == 2 ? n + s.i(1, 5) : k == 3 ? 0 : n; }

void one(S& s, la::EigenSolver& solver, la::EigenPair& out, int n)
{
    la::DenseMatrix A = symmetric(s, n); Ref a = ref(A); double tol = a_tol(s); int mx = a_max(s, n);
    s.note([&](std::ostream & o) { o << "tol " << tol << " max " << mx << " " << show(a) << "; "; });
    std::unique_ptr<Quiet> q; if (n == 0) { q.reset(new Quiet); s.label("empty problem"); }
    s.label("maximum above the size", mx > n); s.label("no maximum", mx < 0);
    switch (s.u(3))
    {
        case 0: { la::EigenPair p = solver.Solve(A, tol, mx); check(a, p, tol, mx, s); break; }
        case 1: solver.Solve(A, tol, mx, out); check(a, out, tol, mx, s); break;
        case 2: { la::SparseMatrix<double> B = sparse(s, A); la::EigenPair p = solver.Solve(B, tol, mx); CHECK(ref(B) == a, "the input was modified"); check(a, p, tol, mx, s); s.label("sparse"); break; }
        default: { la::SparseMatrix<double> B = sparse(s, A); solver.Solve(B, tol, mx, out); CHECK(ref(B) == a, "the input was modified"); check(a, out, tol, mx, s); s.label("sparse"); break; }
    }
    CHECK(ref(A) == a, "the input was modified");
}
int order(S& s) { int k = s.weighted({8, 3, 1}); return k == 0 ? s.size(1, 7) : k == 1 ? s.i(1, 14) : s.i(0, 24); }
}

LAW(fresh_solver, 20000, 250000, "order at least two")
{
    int n = order(s); s.nontrivial(n > 1);
    la::EigenSolver solver; la::EigenPair out; if (s.chance(0.3)) { out.first.assign(s.i(0, 9), 5.0); out.second = stale(s); }
    one(s, solver, out, n);
}

LAW(history, 8000, 100000, "at least two solves, of different sizes")
{
    std::vector<la::EigenSolver> pool(1); la::EigenPair out; int steps = s.size(2, 7); int prev = -1; bool diff = false;
    for (int i = 0; i < steps; ++i)
    {
        int k = s.i(0, (int) pool.size() - 1), op = s.weighted({8, 1, 1, 1}), n = order(s);
        if (op == 1) { pool.push_back(la::EigenSolver(pool[k])); s.label("copied"); }
        if (op == 2) { la::EigenSolver fresh; pool[k] = fresh; s.label("assigned"); }
        if (op == 3) { int l = s.i(0, (int) pool.size() - 1); if (l != k) { pool[k] = pool[l]; } s.label("assigned"); }
        diff = diff || (prev >= 0 && prev != n); s.label("smaller after larger", prev > n); prev = n;
        one(s, pool[k], out, n);
    }
    s.nontrivial(diff);
}

LAW(large, 60, 900, "order at least two")
{
    la::EigenSolver solver; la::EigenPair out; int n = s.i(25, 60); s.nontrivial(); one(s, solver, out, n); if (s.chance(0.5)) { one(s, solver, out, s.i(10, 40)); }
}
LAW(larger, 12, 150, "order at least two")
{
    la::EigenSolver solver; la::EigenPair out; int n = s.i(60, 150); s.nontrivial(); one(s, solver, out, n);
}
LAW(history_large, 60, 900, "at least two solves, of different sizes")
{
    la::EigenSolver solver; la::EigenPair out; int steps = s.i(2, 4), prev = -1; bool diff = false; for (int k = 0; k < steps; ++k) { int n = s.i(1, 50); diff = diff || (prev >= 0 && prev != n); prev = n; one(s, solver, out, n); } s.nontrivial(diff);
}

PBT_MAIN
