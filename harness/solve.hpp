// Symmetric systems, operators and reference answers shared by the solver harnesses.
#ifndef VERIF_SOLVE_HPP
#define VERIF_SOLVE_HPP
#include "gen.hpp"

// all eigenvalues of a symmetric matrix, ascending (cyclic Jacobi in long double)
inline std::vector<ld> jacobi(Ref a)
{
    const int n = a.r;
    for (int sweep = 0; sweep < 60; ++sweep)
    {
        ld off = 0, all = 0; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { all += a(i, j) * a(i, j); if (i != j) { off += a(i, j) * a(i, j); } }
        if (off <= 1e-36L * all) { break; }
        for (int p = 0; p < n; ++p) for (int q = p + 1; q < n; ++q)
        {
            if (a(p, q) == 0) { continue; }
            ld th = (a(q, q) - a(p, p)) / (2 * a(p, q)), t = (th >= 0 ? 1 : -1) / (std::fabs(th) + std::sqrt(th * th + 1)), c = 1 / std::sqrt(t * t + 1), z = t * c;
            for (int k = 0; k < n; ++k) { ld x = a(k, p), y = a(k, q); a(k, p) = c * x - z * y; a(k, q) = z * x + c * y; }
            for (int k = 0; k < n; ++k) { ld x = a(p, k), y = a(q, k); a(p, k) = c * x - z * y; a(q, k) = z * x + c * y; }
        }
    }
    std::vector<ld> w(n); for (int i = 0; i < n; ++i) { w[i] = a(i, i); }
    std::sort(w.begin(), w.end()); return w;
}

struct Quiet   // sends stdout to /dev/null for the lifetime of the object
{
    int keep; Quiet() { fflush(stdout); keep = dup(1); int n = open("/dev/null", O_WRONLY); dup2(n, 1); close(n); }
    ~Quiet() { fflush(stdout); dup2(keep, 1); close(keep); }
};
struct Captured   // collects stdout for the lifetime of the object
{
    int keep, mem; Captured() { fflush(stdout); keep = dup(1); mem = memfd_create("out", 0); dup2(mem, 1); }
    long bytes() { fflush(stdout); std::cout.flush(); return (long) lseek(mem, 0, SEEK_END); }
    ~Captured() { fflush(stdout); dup2(keep, 1); close(keep); close(mem); }
};


inline ld norm2(const std::vector<ld>& v) { ld t = 0; for (ld x : v) { t += x * x; } return std::sqrt(t); }

// a symmetric matrix with the eigenvalues of d (long double reflections of the diagonal, rounded once)
inline la::DenseMatrix reflected(pbt::S& s, const std::vector<double>& eig, int reflections)
{
    int n = (int) eig.size(); Ref d(n, n); for (int i = 0; i < n; ++i) { d(i, i) = eig[i]; }
    for (int h = 0; h < reflections; ++h)
    {
        std::vector<ld> v(n); ld t = 0; for (auto& x : v) { x = value<double>(s, REAL); t += x * x; } if (t == 0) { continue; }
        std::vector<ld> w = mulv(d, v); ld vw = 0; for (int i = 0; i < n; ++i) { vw += v[i] * w[i]; }
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { d(i, j) += -2 / t * (v[i] * w[j] + w[i] * v[j]) + 4 / t / t * vw * v[i] * v[j]; }
    }
    la::DenseMatrix A(n); for (int i = 0; i < n; ++i) for (int j = i; j < n; ++j) { A(i, j) = A(j, i) = (double) d(i, j); }
    return A;
}

// symmetric positive definite
inline la::DenseMatrix spd(pbt::S& s, int n, double cond)
{
    la::DenseMatrix A(n);
    switch (s.weighted({3, 2, 2, 1, 1, 1}))
    {
        case 0: { std::vector<double> e(n); for (auto& x : e) { x = std::pow(cond, (double) s.u(100) / 100.0); } s.label("SPD: prescribed spectrum"); return reflected(s, e, s.i(1, 3)); }
        case 1:   // diagonally dominant, sparse, integer
        {
            double p = s.pick({0.1, 0.3, 0.8}); for (int i = 0; i < n; ++i) { A(i, i) = 1; }
            for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) { if (s.chance(p)) { double v = s.sgn_int(2); A(i, j) = A(j, i) = v; A(i, i) += std::fabs(v); A(j, j) += std::fabs(v); } }
            s.label("SPD: diagonally dominant"); return A;
        }
        case 2:   // B^T B + I
        {
            Ref b = ref(dense(s, n, n, INT, 2)), m = mul(b.T(), b); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { A(i, j) = (double) m(i, j) + (i == j); }
            s.label("SPD: normal equations"); return A;
        }
        case 3: for (int i = 0; i < n; ++i) { A(i, i) = 2; if (i + 1 < n) { A(i, i + 1) = A(i + 1, i) = -1; } } s.label("SPD: Laplacian"); return A;
        case 4: for (int i = 0; i < n; ++i) { A(i, i) = s.i(1, 9); } s.label("SPD: diagonal"); return A;
        default: { double v = s.pick({1.0, 0.5, 4.0}); for (int i = 0; i < n; ++i) { A(i, i) = v; } s.label("SPD: multiple of the identity"); return A; }
    }
}

// symmetric, nonsingular, usually indefinite
inline la::DenseMatrix symmetric_nonsingular(pbt::S& s, int n, double cond)
{
    switch (s.weighted({3, 2, 1, 2}))
    {
        case 0: { std::vector<double> e(n); for (auto& x : e) { x = std::pow(cond, (double) s.u(100) / 100.0) * (s.chance(0.5) ? -1 : 1); } s.label("indefinite: prescribed spectrum"); return reflected(s, e, s.i(1, 3)); }
        case 1:   // saddle point [A B^T; B 0] with a B of full rank
        {
            int k = n / 3; la::DenseMatrix A = spd(s, n - k, cond), M(n); M.SetSubMatrix(0, 0, A);
            for (int i = 0; i < k; ++i) for (int j = 0; j < n - k; ++j) { double v = j == i ? 3 : s.chance(0.2) ? s.sgn_int(1) * 0.5 : 0; M(n - k + i, j) = M(j, n - k + i) = v; }
            s.label("saddle point"); return M;
        }
        case 2: { la::DenseMatrix A(n); for (int i = 0; i < n; ++i) { A(i, i) = s.i(1, 9) * (s.chance(0.5) ? -1 : 1); } s.label("indefinite: diagonal"); return A; }
        default: { la::DenseMatrix A = spd(s, n, cond); if (s.chance(0.3)) { A *= -1.0; s.label("negative definite"); } return A; }
    }
}

struct SymOp { std::vector<std::unique_ptr<la::Operator>> own; const la::Operator* op = nullptr; Ref a; };

// one of several operator types with the given entries
inline SymOp as_operator(pbt::S& s, const la::DenseMatrix& A)
{
    SymOp o; o.a = ref(A); int r = A.Rows(), c = A.Cols();
    la::CooMatrix<double> coo(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { if (A(i, j) != 0) { coo.Add(i, j, A(i, j)); } }
    la::Operator* p = nullptr;
    switch (s.weighted({3, 3, 1, 1, 1, 1}))
    {
        case 0: p = new la::DenseMatrix(A); break;
        case 1: p = new la::SparseMatrix<double>(coo.ToSparse()); break;
        case 2: p = new la::CooMatrix<double>(coo); break;
        case 3: { auto* l = new la::LilMatrix<double>(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { if (A(i, j) != 0) { l->Add(i, j, A(i, j)); } } p = l; break; }
        case 4: { auto* b = new la::BlockMatrix<double>(std::vector<int> {0, r}, std::vector<int> {0, c}); b->SetBlock(0, 0, coo.ToSparse()); p = b; break; }
        default:
        {
            int k = s.i(0, r); auto* b = new la::BlockOperator({0, k, r}); std::vector<int> off {0, k, r};
            for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) { la::DenseMatrix* d = new la::DenseMatrix(A.GetSubMatrix(off[i], off[j], off[i + 1], off[j + 1])); o.own.emplace_back(d); b->SetBlock(i, j, *d); }
            p = b; s.label("block operator"); break;
        }
    }
    o.own.emplace_back(p); o.op = p; return o;
}

// forwards to another operator and counts the applications
struct Counting : public la::Operator
{
    const la::Operator* a; mutable int n = 0; explicit Counting(const la::Operator& x) : la::Operator(x.Rows(), x.Cols()), a(&x) { }
    void Mult(const la::VectorView<double>& x, la::VectorView<double> y) const override { ++n; a->Mult(x, y); }
    using la::Operator::Mult;
};

// a symmetric positive definite preconditioner for A (none: null operator)
inline SymOp preconditioner(pbt::S& s, const la::DenseMatrix& A, bool definite, double cond, double scale = 1)
{
    int n = A.Rows(); SymOp o; auto as_operator = [&](pbt::S & t, la::DenseMatrix D) { D *= scale; return ::as_operator(t, D); };
    switch (s.weighted({2, 2, definite ? 1 : 0, 2, 1}))
    {
        case 0: { la::DenseMatrix D(n); for (int i = 0; i < n; ++i) { double d = std::fabs(A(i, i)); D(i, i) = d > 0.1 && d < 1e3 ? 1 / d : 1; } s.label("preconditioner: diagonal"); return as_operator(s, D); }
        case 1: { la::DenseMatrix D(n); for (int i = 0; i < n; ++i) { D(i, i) = s.i(1, 5); } s.label("preconditioner: arbitrary diagonal"); return as_operator(s, D); }
        case 2: { la::DenseMatrix I; A.Invert(I); for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) { I(i, j) = I(j, i); } s.label("preconditioner: exact inverse"); return as_operator(s, I); }
        case 3: { std::vector<double> e(n); for (auto& x : e) { x = std::pow(cond, (double) s.u(10) / 10.0); } s.label("preconditioner: dense SPD"); return as_operator(s, reflected(s, e, s.i(1, 2))); }
        default: { la::DenseMatrix D(n); double v = s.pick({1.0, 0.25, 8.0}); for (int i = 0; i < n; ++i) { D(i, i) = v; } s.label("preconditioner: multiple of the identity"); return as_operator(s, D); }
    }
}

// ------------------------------------------------------------------ one linear solve against its specification

struct Spec { bool minres, pre; double cond, mcond; int n; };

inline void solve_case(pbt::S& s, const Spec& sp)
{
    typedef la::VectorView<double> View;
    const int n = sp.n; la::DenseMatrix Am = sp.minres ? symmetric_nonsingular(s, n, sp.cond) : spd(s, n, sp.cond);
    // scaling by powers of two is exact, and nothing in the specification depends on the scale
    double fa = 1, fm = 1, fb = 1; if (s.chance(0.2)) { fa = std::ldexp(1.0, s.i(-100, 100)); fm = std::ldexp(1.0, s.i(-60, 60)); fb = std::ldexp(1.0, s.i(-100, 100)); s.label("scaled system"); }
    la::DenseMatrix As(Am); As *= fa; SymOp A = as_operator(s, As), M; const Ref& a = A.a;
    std::vector<ld> ea = jacobi(a), em(1, 1); ld na = 0, la_ = 1e300; for (ld e : ea) { na = std::max(na, std::fabs(e)); la_ = std::min(la_, std::fabs(e)); }
    if (n > 0 && na > 1e5L * la_) { s.label("(ill conditioned, skipped)"); return; }
    if (sp.pre) { M = preconditioner(s, Am, !sp.minres, sp.mcond, fm); em = jacobi(M.a); if (n > 0 && (em.front() <= 0 || em.back() > 1e5L * em.front())) { s.label("(ill conditioned, skipped)"); return; } }
    ld kappa = n > 0 ? na / la_ : 1, mmax = n > 0 ? em.back() : 1, mk = n > 0 && sp.pre ? em.back() / em.front() : 1;
    // right-hand side and initial guess
    int kind = s.weighted({5, 1, 2, 1}); la::Vector<double> b = vec<double>(s, n, s.chance(0.5) ? REAL : INT), x0(n, 0.0), sol; bool have = false;
    if (kind == 1) { b = 0.0; s.label("zero right-hand side"); }
    if (kind >= 2)      // a known solution
    {
        sol = vec<double>(s, n, INT); std::vector<ld> w = mulv(a, ldv(sol)); for (int i = 0; i < n; ++i) { b[i] = (double) w[i]; } have = true;
    }
    int guess = s.weighted({3, 3, have || kind == 1 ? 2 : 0});
    if (guess == 1) { x0 = vec<double>(s, n, s.chance(0.5) ? REAL : INT); } if (guess == 2) { if (have) { x0 = sol; } else { x0 = 0.0; } s.label("guess solves the system"); }
    b *= have ? fb / fa : fb; x0 *= fb / fa; if (have) { sol *= fb / fa; }
    double rel, abs; switch (s.weighted({3, 3, 1, 1, 1})) { case 0: rel = abs = 1e-16; break; case 1: rel = s.pick({1e-12, 1e-8, 1e-6, 1e-3, 1e-1}); abs = 1e-16; break; case 2: rel = 1e-16; abs = s.pick({1e-10, 1e-6, 1e-2, 10.0}); break; case 3: rel = s.pick({1e-12, 1e-6, 1e-2}); abs = 0; s.label("no absolute tolerance"); break; default: rel = s.pick({1.0, 1e-5}); abs = s.pick({1.0, 1e-5}); break; }
    if (fa != 1) { abs *= fb * std::sqrt(fm); }
    int max_iter = rel >= 1e-12 && kappa <= 100 && mk <= 100 && n <= 12 ? 4 * n + 40 : 1000;
    s.note([&](std::ostream & o) { o << "A=" << show(a) << (sp.pre ? " M=" + show(M.a) : std::string()) << " b=" << show(ldv(b)) << " x0=" << show(ldv(x0)) << " rel " << rel << " abs " << abs << " max_iter " << max_iter; });
    s.nontrivial(n > 1 && norm2(ldv(b)) + norm2(ldv(x0)) > 0); s.label("order 0", n == 0);
    la::Vector<double> b0(b); std::vector<double> buf(n + 2, 77.0); std::copy(x0.begin(), x0.end(), buf.begin() + 1); View x(buf.data() + 1, n);
    // norms of residuals in the preconditioned norm
    auto mnorm = [&](const std::vector<ld>& r) { ld t = 0; if (sp.pre) { std::vector<ld> z = mulv(M.a, r); for (int i = 0; i < n; ++i) { t += z[i] * r[i]; } } else { for (ld v : r) { t += v * v; } } return std::sqrt(std::max((ld) 0, t)); };
    auto residual = [&](const double * v) { std::vector<ld> w(n), r; for (int i = 0; i < n; ++i) { w[i] = v[i]; } r = mulv(a, w); for (int i = 0; i < n; ++i) { r[i] = (ld) b0[i] - r[i]; } return r; };
    ld r0 = mnorm(residual(x0.begin())), nx0 = norm2(ldv(x0)), nb = norm2(ldv(b));
    auto check = [&](const double * got, ld start, ld nstart, const char* what)
    {
        ld nx = 0; for (int i = 0; i < n; ++i) { CHECK(std::isfinite(got[i]), what << ": entry " << i << " of the answer is " << got[i]); nx += (ld) got[i] * got[i]; } nx = std::sqrt(nx);
        ld slack = 100.0L * (n + 10) * EPS * std::sqrt(mmax) * std::sqrt(mk) * (sp.minres ? kappa : 1) * (na * (nx + nstart + nb / la_) + nb), r = mnorm(residual(got)), want = std::max(rel * start, (ld) abs);
        if (n > 0) { CHECK(r <= want * 1.0000001L + slack, what << ": the residual is " << (double) r << ", requested " << (double) want << " (initially " << (double) start << ", rounding allowance " << (double) slack << ")"); }
        if (guess == 2 && have && start == r0) { ld d = 0; for (int i = 0; i < n; ++i) { d += ((ld) got[i] - sol[i]) * ((ld) got[i] - sol[i]); } CHECK(std::sqrt(d) <= 100.0L * (n + 10) * EPS * mk * kappa * kappa * (nx0 + 1e-300L), what << ": the exact guess was changed by " << (double) std::sqrt(d)); }
    };
    const la::Operator& op = *A.op;
    int how = s.u(2);
    if (rel == 1e-16 && abs == 1e-16 && max_iter == 1000 && s.chance(0.4))
    {
        // the default limits are meant for an answer to machine precision, and nothing is printed unless asked for
        s.label("default limits"); Captured cap;
        if (how == 0)
        {
            if (sp.minres) { if (sp.pre) { la::PMINRES(op, *M.op, b, x); } else { la::MINRES(op, b, x); } } else { if (sp.pre) { la::PCG(op, *M.op, b, x); } else { la::CG(op, b, x); } }
            check(buf.data() + 1, r0, nx0, "free function with default limits");
        }
        else if (how == 1)
        {
            if (sp.minres && sp.pre) { la::PMINRESSolver v(op, *M.op); v.Mult(b, x); } else if (sp.minres) { la::MINRESSolver v(op); v.Mult(b, x); } else if (sp.pre) { la::PCGSolver v(op, *M.op); v.Mult(b, x); } else { la::PCGSolver v(op); v.Mult(b, x); }
            check(buf.data() + 1, r0, nx0, "solver with default limits");
        }
        else
        {
            la::Vector<double> y; if (sp.minres) { y = sp.pre ? la::PMINRES(op, *M.op, b) : la::MINRES(op, b); } else { y = sp.pre ? la::PCG(op, *M.op, b) : la::CG(op, b); } CHECK(y.size() == n, "the answer has size " << y.size());
            ld guess_norm = 2 * std::sqrt((ld) n); check(y.begin(), std::sqrt(mmax) * (nb + na * guess_norm), guess_norm, "free function with default limits choosing its guess");
        }
        CHECK(cap.bytes() == 0, cap.bytes() << " bytes printed by a solver that was not asked to be verbose");
    }
    else if (how == 0)
    {
        if (sp.minres) { if (sp.pre) { la::PMINRES(op, *M.op, b, x, max_iter, rel, abs); } else { la::MINRES(op, b, x, max_iter, rel, abs); } }
        else { if (sp.pre) { la::PCG(op, *M.op, b, x, max_iter, rel, abs); } else { la::CG(op, b, x, max_iter, rel, abs); } }
        check(buf.data() + 1, r0, nx0, "free function");
    }
    else if (how == 1)
    {
        int its = 0;
        if (sp.minres && sp.pre) { la::PMINRESSolver v(op, *M.op, max_iter, rel, abs); v.Mult(b, x); its = v.GetNumIterations(); }
        else if (sp.minres) { la::MINRESSolver v(op, max_iter, rel, abs); v.Mult(b, x); its = v.GetNumIterations(); }
        else if (sp.pre && s.chance(0.5)) { la::PCGSolver v(op, max_iter, rel, abs); v.SetPreconditioner(*M.op); v.Mult(b, x); its = v.GetNumIterations(); }
        else if (sp.pre) { la::PCGSolver v(op, *M.op, max_iter, rel, abs); v.Mult(b, x); its = v.GetNumIterations(); }
        else { la::PCGSolver v(op, max_iter, rel, abs); v.Mult(b, x); its = v.GetNumIterations(); }
        check(buf.data() + 1, r0, nx0, "solver");
        s.label("solved without iterating", its == 0); s.label("more iterations than unknowns", its > n);
    }
    else
    {
        la::Vector<double> y; if (sp.minres) { y = sp.pre ? la::PMINRES(op, *M.op, b, max_iter, rel, abs) : la::MINRES(op, b, max_iter, rel, abs); } else { y = sp.pre ? la::PCG(op, *M.op, b, max_iter, rel, abs) : la::CG(op, b, max_iter, rel, abs); }
        CHECK(y.size() == n, "the answer has size " << y.size());
        ld guess_norm = 2 * std::sqrt((ld) n);   // the guess is random in [0, 1]
        check(y.begin(), std::sqrt(mmax) * (nb + na * guess_norm), guess_norm, "free function choosing its guess");
    }
    CHECK(buf[0] == 77 && buf.back() == 77, "written outside of the solution"); CHECK(std::equal(b.begin(), b.end(), b0.begin()), "the right-hand side was modified");
}
// ------------------------------------------------------------------ large sparse systems with known bounds on the spectrum

struct BigSystem { la::SparseMatrix<double> A; ld lo = 1, hi = 1; int n = 0; };   // |eigenvalues| in [lo, hi]

inline la::SparseMatrix<double> sparse_of(int n, const std::vector<std::map<int, double>>& rows, int cols = -1)
{
    std::vector<int> p(1, 0), x; std::vector<double> d; for (auto& r : rows) { for (auto& e : r) { x.push_back(e.first); d.push_back(e.second); } p.push_back((int) x.size()); }
    return la::SparseMatrix<double>(p, x, d, n, cols < 0 ? n : cols);
}
inline std::vector<ld> times(const la::SparseMatrix<double>& A, const std::vector<ld>& x)
{
    std::vector<ld> y(A.Rows(), 0.0L); auto& p = A.GetIndptr(); auto& j = A.GetIndices(); auto& d = A.GetData(); for (int i = 0; i < A.Rows(); ++i) for (int k = p[i]; k < p[i + 1]; ++k) { y[i] += (ld) d[k] * x[j[k]]; } return y;
}
// symmetric, of the given order; indefinite ones have diagonal entries of both signs that dominate their rows
inline BigSystem big_system(pbt::S& s, int n, bool indefinite)
{
    BigSystem y; y.n = n; std::vector<std::map<int, double>> rows(n); bool simple = false; pbt::Rng g = s.bulk(simple); int kind = s.weighted({3, 2, 2, 1}); double shift = s.pick({0.01, 0.1, 1.0, 4.0});
    auto link = [&](int i, int j, double v) { if (i != j && i >= 0 && j >= 0 && i < n && j < n) { rows[i][j] = v; rows[j][i] = v; } };
    switch (kind)
    {
        case 0: for (int i = 0; i + 1 < n; ++i) { link(i, i + 1, -1); } s.label("large: path"); break;
        case 1: { int w = std::max(1, (int) std::sqrt((double) n)); for (int i = 0; i < n; ++i) { if ((i + 1) % w) { link(i, i + 1, -1); } link(i, i + w, -1); } s.label("large: grid"); break; }
        case 2: for (int i = 0; i < n; ++i) { for (int k = 0; k < 2; ++k) { link(i, (int) g.below(n), (double) ((int) g.below(5) - 2)); } } s.label("large: random"); break;
        default: for (int i = 0; i < n; ++i) { if (g.below(3) == 0) { link(i, (i * 7 + 3) % n, 0.5); } } s.label("large: nearly diagonal"); break;
    }
    if (indefinite && shift < 1) { shift = 1; }
    y.lo = 1e300; y.hi = 0;
    for (int i = 0; i < n; ++i)
    {
        ld t = 0; for (auto& e : rows[i]) { t += std::fabs(e.second); } double d = (double) t + shift + (double) g.below(kind == 3 ? 40 : 3);
        rows[i][i] = indefinite && g.below(3) == 0 ? -d : d; y.lo = std::min(y.lo, (ld) d - t); y.hi = std::max(y.hi, (ld) d + t);
    }
    if (n == 0) { y.lo = y.hi = 1; }
    y.A = sparse_of(n, rows); return y;
}
// the same matrix as another type of operator
inline SymOp big_operator(pbt::S& s, const la::SparseMatrix<double>& A)
{
    SymOp o; int n = A.Rows(); la::Operator* p = nullptr;
    switch (s.weighted({4, 1, 1, 1}))
    {
        case 0: p = new la::SparseMatrix<double>(A); break;
        case 1: { auto* c = new la::CooMatrix<double>(n, n); for (int i = 0; i < n; ++i) for (int k = A.GetIndptr()[i]; k < A.GetIndptr()[i + 1]; ++k) { c->Add(i, A.GetIndices()[k], A.GetData()[k]); } p = c; break; }
        case 2: { auto* c = new la::LilMatrix<double>(n, n); for (int i = 0; i < n; ++i) for (int k = A.GetIndptr()[i]; k < A.GetIndptr()[i + 1]; ++k) { c->Add(i, A.GetIndices()[k], A.GetData()[k]); } p = c; break; }
        default:
        {
            int k = s.i(0, n); std::vector<int> off {0, k, n}; auto* b = new la::BlockMatrix<double>(off); std::vector<std::map<int, double>> e[2][2]; for (int x = 0; x < 2; ++x) for (int y = 0; y < 2; ++y) { e[x][y].resize(off[x + 1] - off[x]); }
            for (int i = 0; i < n; ++i) for (int q = A.GetIndptr()[i]; q < A.GetIndptr()[i + 1]; ++q) { int j = A.GetIndices()[q], x = i >= k, y = j >= k; e[x][y][i - off[x]][j - off[y]] = A.GetData()[q]; }
            for (int x = 0; x < 2; ++x) for (int y = 0; y < 2; ++y) { b->SetBlock(x, y, sparse_of(off[x + 1] - off[x], e[x][y], off[y + 1] - off[y])); }
            p = b; s.label("large: block matrix");
        }
    }
    o.own.emplace_back(p); o.op = p; return o;
}
// a large symmetric positive definite preconditioner, eigenvalues in [lo, hi]
inline BigSystem big_preconditioner(pbt::S& s, const la::SparseMatrix<double>& A)
{
    int n = A.Rows(); BigSystem y; y.n = n; std::vector<std::map<int, double>> rows(n); y.lo = 1e300; y.hi = 0; int kind = s.u(2); std::vector<double> diag = A.GetDiag(); bool simple = false; pbt::Rng g = s.bulk(simple);
    for (int i = 0; i < n; ++i)
    {
        double d = kind == 0 ? 1 / std::fabs(diag[i]) : 1.0 + g.below(5), off = 0;
        if (kind == 2) { if (i % 2 == 0 && i + 1 < n) { rows[i][i + 1] = 0.5; off = 0.5; } if (i % 2 == 1) { rows[i][i - 1] = 0.5; off = 0.5; } }
        rows[i][i] = d; y.lo = std::min(y.lo, (ld) d - off); y.hi = std::max(y.hi, (ld) d + off);
    }
    if (n == 0) { y.lo = y.hi = 1; }
    s.label(kind == 0 ? "preconditioner: diagonal" : kind == 1 ? "preconditioner: arbitrary diagonal" : "preconditioner: 2x2 blocks"); y.A = sparse_of(n, rows); return y;
}
inline int big_order(pbt::S& s) { switch (s.weighted({3, 3, 2, 1})) { case 0: return s.i(1, 70); case 1: return s.i(60, 300); case 2: return s.pick({64, 128, 256, 512, 1024}) + s.i(-1, 1); default: return s.i(300, 2500); } }

inline void big_solve_case(pbt::S& s, bool minres, bool pre, int n)
{
    typedef la::VectorView<double> View;
    double fa = 1, fm = 1, fb = 1; if (s.chance(0.2)) { fa = std::ldexp(1.0, s.i(-100, 100)); fm = std::ldexp(1.0, s.i(-60, 60)); fb = std::ldexp(1.0, s.i(-100, 100)); s.label("scaled system"); }
    BigSystem y = big_system(s, n, minres && s.chance(0.7)), m; if (pre) { m = big_preconditioner(s, y.A); m.A *= fm; m.lo *= fm; m.hi *= fm; } y.A *= fa; y.lo *= fa; y.hi *= fa;
    SymOp A = big_operator(s, y.A), M; if (pre) { M = big_operator(s, m.A); }
    ld kappa = y.hi / y.lo, mk = pre ? m.hi / m.lo : 1, mmax = pre ? m.hi : 1;
    la::Vector<double> b = vec<double>(s, n, s.chance(0.5) ? REAL : INT), x0(n, 0.0), sol; bool have = s.chance(0.4), exact = false;
    if (have) { sol = vec<double>(s, n, INT); std::vector<ld> w = times(y.A, ldv(sol)); for (int i = 0; i < n; ++i) { b[i] = (double) w[i]; } }
    if (s.chance(0.5)) { x0 = vec<double>(s, n, s.chance(0.5) ? REAL : INT); } else if (have && s.chance(0.3)) { x0 = sol; exact = true; s.label("guess solves the system"); }
    b *= have ? fb / fa : fb; x0 *= fb / fa; if (have) { sol *= fb / fa; }
    double rel = s.pick({1e-16, 1e-12, 1e-8, 1e-4}), abs = s.pick({1e-16, 1e-16, 0.0, 1e-6}); if (rel == 1e-16 && abs == 0) { abs = 1e-16; } if (fa != 1) { abs *= fb * std::sqrt(fm); } int max_iter = 20000;
    s.note([&](std::ostream & o) { o << "order " << n << " A=" << show(ref(y.A.ToDense())) << " M=" << (pre ? show(ref(m.A.ToDense())) : std::string()) << " b=" << show(ldv(b)) << " x0=" << show(ldv(x0)) << " rel " << rel << " abs " << abs; }); s.nontrivial(n > 1);
    auto norm = [&](const std::vector<ld>& r) { if (!pre) { return norm2(r); } std::vector<ld> z = times(m.A, r); ld t = 0; for (int i = 0; i < n; ++i) { t += z[i] * r[i]; } return std::sqrt(std::max((ld) 0, t)); };
    auto residual = [&](const std::vector<ld>& v) { std::vector<ld> r = times(y.A, v); for (int i = 0; i < n; ++i) { r[i] = (ld) b[i] - r[i]; } return norm(r); };
    la::Vector<double> b0(b); std::vector<double> buf(n + 2, 77.0); std::copy(x0.begin(), x0.end(), buf.begin() + 1); View x(buf.data() + 1, n); const la::Operator& op = *A.op; int its = -1;
    ld start = residual(ldv(x0)), nx0 = norm2(ldv(x0)), nb = norm2(ldv(b)); bool free_function = s.chance(0.5);
    if (free_function)
    {
        if (minres) { if (pre) { la::PMINRES(op, *M.op, b, x, max_iter, rel, abs); } else { la::MINRES(op, b, x, max_iter, rel, abs); } }
        else { if (pre) { la::PCG(op, *M.op, b, x, max_iter, rel, abs); } else { la::CG(op, b, x, max_iter, rel, abs); } }
    }
    else
    {
        if (minres && pre) { la::PMINRESSolver v(op, *M.op, max_iter, rel, abs); v.Mult(b, x); its = v.GetNumIterations(); } else if (minres) { la::MINRESSolver v(op, max_iter, rel, abs); v.Mult(b, x); its = v.GetNumIterations(); }
        else if (pre) { la::PCGSolver v(op, *M.op, max_iter, rel, abs); v.Mult(b, x); its = v.GetNumIterations(); } else { la::PCGSolver v(op, max_iter, rel, abs); v.Mult(b, x); its = v.GetNumIterations(); }
    }
    CHECK(buf[0] == 77 && buf.back() == 77, "written outside of the solution"); CHECK(std::equal(b.begin(), b.end(), b0.begin()), "the right-hand side was modified");
    std::vector<ld> got(n); for (int i = 0; i < n; ++i) { CHECK(std::isfinite(x[i]), "entry " << i << " of the answer is " << x[i]); got[i] = x[i]; }
    ld nx = norm2(got), slack = 100.0L * (std::sqrt((ld) n) + 30) * EPS * std::sqrt(mmax * mk) * (minres ? kappa : 1) * (y.hi * (nx + nx0 + nb / y.lo) + nb), want = std::max(rel * start, (ld) abs), r = residual(got);
    CHECK(r <= want * 1.0000001L + slack, "order " << n << ": the residual is " << (double) r << ", requested " << (double) want << " (initially " << (double) start << ", rounding allowance " << (double) slack << ", " << its << " iterations)");
    if (exact) { ld d = 0; for (int i = 0; i < n; ++i) { d += (got[i] - sol[i]) * (got[i] - sol[i]); } CHECK(std::sqrt(d) <= 1000.0L * EPS * mk * kappa * kappa * (nx0 + 1e-300L), "the exact guess was changed by " << (double) std::sqrt(d)); }
    s.label("over 100 iterations", its > 100);
}
inline int solve_order(pbt::S& s) { int k = s.weighted({6, 3, 1}); return k == 0 ? s.size(0, 6) : k == 1 ? s.i(1, 12) : s.i(8, 24); }
#endif
