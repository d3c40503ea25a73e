// C21: iterative solver objects are stateless between solves and respect their limits
// technique: model-based property testing: histories of solves, setting changes, copies, moves and swaps over a pool of solvers, every solve compared with a fresh solver; operators count their applications
#include "solve.hpp"
using pbt::S;

namespace
{
typedef la::VectorView<double> View;
int dots[2]; double dot0(const View& a, const View& b) { ++dots[0]; return la::InnerProduct(a, b); } double dot1(const View& a, const View& b) { ++dots[1]; return la::InnerProduct(a, b); }
typedef double (*Dot)(const View&, const View&);
Dot dot_of(int k) { return k == 0 ? dot0 : dot1; }

struct System { int n; std::vector<SymOp> A, M; std::vector<std::unique_ptr<Counting>> cA, cM; };

struct Setting { int sys = 0, a = 0, m = -1, dot = 0, max_iter = 1000; double rel = 1e-16, abs = 1e-16; bool verbose = false; };

template <typename T> struct Make;
template <> struct Make<la::PCGSolver>
{
    static const bool may_pre = true, must_pre = false, minres = false;
    static la::PCGSolver make(const Setting& t, const la::Operator& A, const la::Operator* M) { return M ? la::PCGSolver(A, *M, t.max_iter, t.rel, t.abs, t.verbose, dot_of(t.dot)) : la::PCGSolver(A, t.max_iter, t.rel, t.abs, t.verbose, dot_of(t.dot)); }
    static bool set_pre(la::PCGSolver& s, const la::Operator& M) { s.SetPreconditioner(M); return true; }
};
template <> struct Make<la::MINRESSolver>
{
    static const bool may_pre = false, must_pre = false, minres = true;
    static la::MINRESSolver make(const Setting& t, const la::Operator& A, const la::Operator*) { return la::MINRESSolver(A, t.max_iter, t.rel, t.abs, t.verbose, dot_of(t.dot)); }
    static bool set_pre(la::MINRESSolver&, const la::Operator&) { return false; }
};
template <> struct Make<la::PMINRESSolver>
{
    static const bool may_pre = true, must_pre = true, minres = true;
    static la::PMINRESSolver make(const Setting& t, const la::Operator& A, const la::Operator* M) { return la::PMINRESSolver(A, *M, t.max_iter, t.rel, t.abs, t.verbose, dot_of(t.dot)); }
    static bool set_pre(la::PMINRESSolver&, const la::Operator&) { return false; }
};

System make_system(S& s, int n, bool minres, bool pre, int count)
{
    System y; y.n = n;
    for (int k = 0; k < count; ++k)
    {
        la::DenseMatrix A = minres ? symmetric_nonsingular(s, n, 20) : spd(s, n, 20); y.A.push_back(as_operator(s, A)); y.cA.emplace_back(new Counting(*y.A.back().op));
        if (pre) { y.M.push_back(preconditioner(s, A, false, 5)); y.cM.emplace_back(new Counting(*y.M.back().op)); }
    }
    return y;
}

template <typename T>
void history(S& s, int steps, int lo = 1, int hi = 7)
{
    typedef Make<T> K; Quiet quiet;
    std::vector<System> sys; int systems = s.i(1, 2); for (int k = 0; k < systems; ++k) { sys.push_back(make_system(s, hi > 7 ? s.i(lo, hi) : s.size(lo, hi), K::minres, K::may_pre, s.i(1, 2))); }
    auto setting = [&]()
    {
        Setting t; t.sys = s.i(0, systems - 1); t.a = s.i(0, (int) sys[t.sys].A.size() - 1); t.m = K::must_pre || (K::may_pre && s.chance(0.5)) ? s.i(0, (int) sys[t.sys].M.size() - 1) : -1;
        t.dot = s.i(0, 1); t.max_iter = s.pick({1000, 0, 1, 2, 3, 5}); t.rel = s.pick({1e-16, 1e-8, 1e-2}); t.abs = s.pick({1e-16, 1e-6, 0.1}); t.verbose = s.chance(0.1); return t;
    };
    auto build = [&](const Setting & t) { return K::make(t, *sys[t.sys].cA[t.a], t.m < 0 ? nullptr : sys[t.sys].cM[t.m].get()); };
    struct Obj { T v; Setting t; };
    std::vector<std::unique_ptr<Obj>> pool; { Setting t = setting(); pool.emplace_back(new Obj{build(t), t}); }
    int solves = 0, changes = 0;
    auto solve = [&](Obj & o, const char* after)
    {
        System& y = sys[o.t.sys]; const int n = y.n; la::Vector<double> b = vec<double>(s, n, INT), x = vec<double>(s, n, s.chance(0.5) ? REAL : INT), z(x), b0(b), x0(x);
        if (s.chance(0.1)) { b = 0.0; x = 0.0; z = 0.0; x0 = 0.0; b0 = 0.0; s.label("zero system"); }
        for (auto& k : sys) { for (auto& c : k.cA) { c->n = 0; } for (auto& c : k.cM) { c->n = 0; } } dots[0] = dots[1] = 0;
        bool base = s.chance(0.3); const la::Operator& as_op = o.v;
        if (base) { as_op.Mult(b, static_cast<View&>(x)); } else { o.v.Mult(b, x); }
        int its = o.v.GetNumIterations(), applied = y.cA[o.t.a]->n, all = 0, papplied = o.t.m < 0 ? 0 : y.cM[o.t.m]->n, pall = 0, d = dots[o.t.dot], other = dots[1 - o.t.dot];
        for (auto& k : sys) { for (auto& c : k.cA) { all += c->n; } for (auto& c : k.cM) { pall += c->n; } }
        s.note([&](std::ostream & p) { p << after << "; solve with max_iter " << o.t.max_iter << " rel " << o.t.rel << " abs " << o.t.abs << " A=" << show(y.A[o.t.a].a) << (o.t.m < 0 ? std::string() : " M=" + show(y.M[o.t.m].a)) << " b=" << show(ldv(b0)) << " x0=" << show(ldv(x0)) << "; "; });
        CHECK(its >= 0 && its <= o.t.max_iter, after << ": " << its << " iterations reported, the limit is " << o.t.max_iter);
        CHECK(applied == its + 1, after << ": " << its << " iterations reported, but the operator was applied " << applied << " times (once for the initial residual)");
        CHECK(all == applied && pall == papplied, after << ": an operator that was not set was applied");
        CHECK(o.t.m < 0 || papplied == its + 1, after << ": " << its << " iterations reported, but the preconditioner was applied " << papplied << " times");
        CHECK(d > 0 && other == 0, after << ": the inner product that was set was called " << d << " times, another one " << other << " times");
        CHECK(std::equal(b.begin(), b.end(), b0.begin()), after << ": the right-hand side was modified");
        if (o.t.max_iter == 0) { CHECK(std::equal(x.begin(), x.end(), x0.begin()), after << ": the guess was changed without iterations"); }
        T fresh = build(o.t); fresh.Mult(b, z);
        for (int i = 0; i < n; ++i) { CHECK(x[i] == z[i], after << ": entry " << i << " of the answer is " << x[i] << ", a fresh solver gives " << z[i]); }
        CHECK(fresh.GetNumIterations() == its, after << ": " << its << " iterations, a fresh solver makes " << fresh.GetNumIterations());
        CHECK(o.v.Rows() == n && o.v.Cols() == n && o.v.GetOperator() == y.cA[o.t.a].get(), after << ": size or operator of the solver changed");
        ++solves; s.label("stopped by the limit", its == o.t.max_iter); s.label("through the base class", base);
    };
    auto poison = [&](Obj & o)
    {
        // a solve that overflows or is given no numbers; only what follows it is judged
        const int n = sys[o.t.sys].n; la::Vector<double> b = vec<double>(s, n, INT), x = vec<double>(s, n, INT); double bad = s.pick({std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::infinity(), 1e300}); (s.chance(0.5) ? b : x)[s.i(0, n - 1)] = bad;
        int limit = o.t.max_iter; if (limit > 20) { o.v.SetMaxIter(20); } try { o.v.Mult(b, x); } catch (const std::exception&) { } if (limit > 20) { o.v.SetMaxIter(limit); }
    };
    for (int q = 0; q < steps; ++q)
    {
        int k = s.i(0, (int) pool.size() - 1), l = s.i(0, (int) pool.size() - 1); Obj& o = *pool[k]; const char* what = "solve";
        switch (s.weighted({6, 2, 1, 1, 2, 1, 1, 2, 2, 2, 2, 1, 1}))
        {
            case 0: solve(o, "solve"); break;
            case 1: what = "limit"; o.t.max_iter = s.pick({1000, 0, 1, 2, 4, 7}); o.v.SetMaxIter(o.t.max_iter); break;
            case 2: what = "relative tolerance"; o.t.rel = s.pick({1e-16, 1e-10, 1e-3}); o.v.SetRelTol(o.t.rel); break;
            case 3: what = "absolute tolerance"; o.t.abs = s.pick({1e-16, 1e-10, 1e-3}); o.v.SetAbsTol(o.t.abs); break;
            case 4: what = "operator"; o.t.a = s.i(0, (int) sys[o.t.sys].A.size() - 1); o.v.SetOperator(*sys[o.t.sys].cA[o.t.a]); break;
            case 5: what = "preconditioner"; if (K::may_pre && !K::must_pre) { o.t.m = s.i(0, (int) sys[o.t.sys].M.size() - 1); K::set_pre(o.v, *sys[o.t.sys].cM[o.t.m]); } break;
            case 6: what = "verbosity"; o.t.verbose = !o.t.verbose; o.v.SetVerbose(o.t.verbose); break;
            case 7: { what = "copy"; std::unique_ptr<Obj> c(new Obj{T(o.v), o.t}); CHECK(c->v.GetNumIterations() == o.v.GetNumIterations(), "a copy reports other iterations"); if (pool.size() < 4) { pool.push_back(std::move(c)); solve(*pool.back(), "copy"); } break; }
            case 8: { what = "assignment"; Obj& p = *pool[l]; p.v = o.v; Setting t = o.t; p.t = t; solve(p, "assignment"); break; }
            case 9: { what = "move"; T t(std::move(o.v)); o.v = std::move(t); break; }
            case 10: { what = "swap"; Obj& p = *pool[l]; if (&p != &o) { swap(p.v, o.v); std::swap(p.t, o.t); solve(p, "swap"); } break; }
            case 12: what = "overflowing solve"; poison(o); break;
            default: { what = "new"; if (pool.size() < 4) { Setting t = setting(); pool.emplace_back(new Obj{build(t), t}); } break; }
        }
        s.label(what); if (std::string(what) != "solve") { ++changes; s.note([&](std::ostream & z) { z << what << "; "; }); if (s.chance(0.6)) { solve(o, what); } }
    }
    s.nontrivial(solves > 1 && changes > 0);
}

// stopping later never gives a larger error in the norm the method minimises
template <typename T>
void monotone(S& s)
{
    typedef Make<T> K; int n = s.size(2, 9); System y = make_system(s, n, K::minres, K::may_pre, 1); Setting t; t.m = K::must_pre || (K::may_pre && s.chance(0.5)) ? 0 : -1; t.rel = t.abs = 1e-15;
    la::Vector<double> sol = vec<double>(s, n, INT), b(n), x0 = vec<double>(s, n, INT); const Ref& a = y.A[0].a; std::vector<ld> w = mulv(a, ldv(sol)); for (int i = 0; i < n; ++i) { b[i] = (double) w[i]; }
    s.note([&](std::ostream & p) { p << "A=" << show(a) << (t.m < 0 ? std::string() : " M=" + show(y.M[0].a)) << " b=" << show(ldv(b)) << " x0=" << show(ldv(x0)); }); s.nontrivial();
    ld last = -1, first = 0, scale = 0;
    for (int k = 0; k <= n + 2; ++k)
    {
        t.max_iter = k; T v = K::make(t, *y.cA[0], t.m < 0 ? nullptr : y.cM[0].get()); la::Vector<double> x(x0); v.Mult(b, x);
        std::vector<ld> e(n), r; for (int i = 0; i < n; ++i) { CHECK(std::isfinite(x[i]), "not finite after " << k << " iterations"); e[i] = (ld) sol[i] - x[i]; } r = mulv(a, e);
        ld err = 0;   // CG: A-norm of the error; MINRES: (preconditioned) norm of the residual
        if (!K::minres) { for (int i = 0; i < n; ++i) { err += e[i] * r[i]; } } else if (t.m < 0) { for (ld q : r) { err += q * q; } } else { std::vector<ld> z = mulv(y.M[0].a, r); for (int i = 0; i < n; ++i) { err += z[i] * r[i]; } }
        err = std::sqrt(std::max((ld) 0, err)); if (k == 0) { first = err; scale = (norm2(ldv(b)) + 100 * norm2(ldv(x0)) + 100 * norm2(ldv(sol))) * 1e-10L; }
        CHECK(k == 0 || err <= last * (1 + 1e-9L) + scale, "the error grows from " << (double) last << " after " << k - 1 << " iterations to " << (double) err << " after " << k);
        last = err;
    }
    CHECK(last <= 1e-5L * first + 100 * scale, "after " << n + 2 << " iterations on " << n << " unknowns the error is " << (double) last << ", initially " << (double) first);
}
// a solve ends at the first iteration that meets the requested tolerance, not earlier and not later
template <typename T>
void stopping(S& s, int n)
{
    typedef Make<T> K; System y = make_system(s, n, K::minres, K::may_pre, 1); Setting t; t.m = K::must_pre || (K::may_pre && s.chance(0.5)) ? 0 : -1; const Ref& a = y.A[0].a;
    la::Vector<double> b = vec<double>(s, n, s.chance(0.5) ? INT : REAL), x0 = vec<double>(s, n, INT); if (s.chance(0.3)) { x0 = 0.0; }
    auto residual = [&](const la::Vector<double>& x)   // the (preconditioned) norm that the tolerances refer to
    {
        std::vector<ld> r = mulv(a, ldv(x)); ld e = 0; for (int i = 0; i < n; ++i) { r[i] = (ld) b[i] - r[i]; }
        if (t.m < 0) { return norm2(r); } std::vector<ld> z = mulv(y.M[0].a, r); for (int i = 0; i < n; ++i) { e += z[i] * r[i]; } return std::sqrt(std::max((ld) 0, e));
    };
    ld r0 = residual(x0), na = 0; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { na = std::max(na, std::fabs(a(i, j))); }
    t.rel = s.pick({1e-16, 1e-7, 1e-5, 1e-3, 1e-1, 0.5, 2.0, 0.0}); t.abs = s.chance(0.4) ? 1e-16 : (double) (r0 * s.pick({1e-7, 1e-5, 1e-2, 0.3, 3.0}));
    auto solve = [&](int limit, la::Vector<double>& x) { t.max_iter = limit; T v = K::make(t, *y.cA[0], t.m < 0 ? nullptr : y.cM[0].get()); x = x0; v.Mult(b, x); return v.GetNumIterations(); };
    la::Vector<double> x, z; const int limit = s.chance(0.2) ? s.i(0, n) : 4 * n + 60; int its = solve(limit, x); ld target = std::max(t.rel * r0, (ld) t.abs), scale = 1e-11L * n * (r0 + na * n * (norm2(ldv(x0)) + norm2(ldv(b)) + norm2(ldv(x)))), r = residual(x);
    s.note([&](std::ostream & p) { p << "A=" << show(a) << (t.m < 0 ? std::string() : " M=" + show(y.M[0].a)) << " b=" << show(ldv(b)) << " x0=" << show(ldv(x0)) << " rel " << t.rel << " abs " << t.abs << " limit " << limit; });
    if (target < 1000 * scale || r0 == 0) { s.label("(tolerance below the rounding level, skipped)"); return; }
    s.nontrivial(its > 0 && its < limit); s.label("absolute tolerance decides", t.abs > t.rel * r0); s.label("met by the guess", its == 0); s.label("stopped by the limit", its == limit);
    CHECK(its == limit || r <= target * (1 + 1e-4L) + scale, "stopped after " << its << " iterations (limit " << limit << ") with the residual " << (double) r << ", requested " << (double) target << ", initially " << (double) r0);
    if (its > 0) { solve(its - 1, z); ld q = its == 1 ? r0 : residual(z); CHECK(q >= target * (1 - 1e-4L) - scale, "the residual was " << (double) q << " after " << its - 1 << " iterations, requested " << (double) target << ", but " << its << " iterations were made"); }
}

// the same on large sparse systems that take many iterations
template <typename T>
void monotone_long(S& s)
{
    typedef Make<T> K; int n = s.i(30, 400); BigSystem y = big_system(s, n, K::minres && s.chance(0.6)), m; bool pre = K::must_pre || (K::may_pre && s.chance(0.5)); if (pre) { m = big_preconditioner(s, y.A); }
    Counting A(y.A), M(m.A); Setting t; t.rel = t.abs = 1e-15;
    la::Vector<double> sol = vec<double>(s, n, INT), b(n), x0 = vec<double>(s, n, INT); std::vector<ld> w = times(y.A, ldv(sol)); for (int i = 0; i < n; ++i) { b[i] = (double) w[i]; }
    s.note([&](std::ostream & p) { p << "order " << n << " A=" << show(ref(y.A.ToDense())) << (pre ? " M=" + show(ref(m.A.ToDense())) : std::string()) << " b=" << show(ldv(b)) << " x0=" << show(ldv(x0)); }); s.nontrivial();
    ld last = -1, scale = 0; int longest = s.pick({20, 70, 150}), before = 0, stride = s.i(1, 5);
    for (int k = 0; k <= longest; k += s.chance(0.5) ? 1 : stride)
    {
        t.max_iter = k; A.n = M.n = 0; T v = K::make(t, A, pre ? &M : nullptr); la::Vector<double> x(x0); v.Mult(b, x); int its = v.GetNumIterations();
        CHECK(its >= 0 && its <= k && A.n == its + 1 && (!pre || M.n == its + 1), its << " iterations reported with the limit " << k << "; operator applied " << A.n << " times, preconditioner " << M.n << " times");
        std::vector<ld> e(n), r; for (int i = 0; i < n; ++i) { CHECK(std::isfinite(x[i]), "not finite after " << k << " iterations"); e[i] = (ld) sol[i] - x[i]; } r = times(y.A, e);
        ld err = 0; if (!K::minres) { for (int i = 0; i < n; ++i) { err += e[i] * r[i]; } } else if (!pre) { for (ld q : r) { err += q * q; } } else { std::vector<ld> z = times(m.A, r); for (int i = 0; i < n; ++i) { err += z[i] * r[i]; } }
        err = std::sqrt(std::max((ld) 0, err)); if (k == 0) { scale = (norm2(ldv(b)) + y.hi * norm2(ldv(x0)) + y.hi * norm2(ldv(sol))) * std::max((ld) 1, pre ? m.hi / m.lo : (ld) 1) * (y.hi / y.lo) * 1e-13L; }
        CHECK(k == 0 || err <= last * (1 + 1e-9L) + scale, "the error grows from " << (double) last << " after " << before << " iterations to " << (double) err << " after " << k);
        if (its < k) { break; }
        last = err; before = k;
    }
    s.label("more than 50 iterations", before > 50);
}
}

LAW(history_cg, 12000, 150000, "at least two solves and one change") { history<la::PCGSolver>(s, s.size(2, 12)); }
LAW(history_minres, 12000, 150000, "at least two solves and one change") { history<la::MINRESSolver>(s, s.size(2, 12)); }
LAW(history_pminres, 12000, 150000, "at least two solves and one change") { history<la::PMINRESSolver>(s, s.size(2, 12)); }
LAW(monotone_cg, 5000, 60000, "every case") { monotone<la::PCGSolver>(s); }
LAW(monotone_minres, 5000, 60000, "every case") { monotone<la::MINRESSolver>(s); }
LAW(monotone_pminres, 5000, 60000, "every case") { monotone<la::PMINRESSolver>(s); }
LAW(stopping_cg, 8000, 80000, "stopped by the tolerance after some iterations") { stopping<la::PCGSolver>(s, s.size(1, 9)); }
LAW(stopping_minres, 8000, 80000, "stopped by the tolerance after some iterations") { stopping<la::MINRESSolver>(s, s.size(1, 9)); }
LAW(stopping_pminres, 8000, 80000, "stopped by the tolerance after some iterations") { stopping<la::PMINRESSolver>(s, s.size(1, 9)); }
LAW(stopping_larger, 250, 3000, "stopped by the tolerance after some iterations") { int n = s.i(10, 60), k = s.u(2); if (k == 0) { stopping<la::PCGSolver>(s, n); } else if (k == 1) { stopping<la::MINRESSolver>(s, n); } else { stopping<la::PMINRESSolver>(s, n); } }
LAW(history_large_cg, 150, 2000, "at least two solves and one change") { history<la::PCGSolver>(s, s.i(3, 7), 15, 90); }
LAW(history_large_minres, 150, 2000, "at least two solves and one change") { history<la::MINRESSolver>(s, s.i(3, 7), 15, 90); }
LAW(history_large_pminres, 150, 2000, "at least two solves and one change") { history<la::PMINRESSolver>(s, s.i(3, 7), 15, 90); }
LAW(monotone_long_cg, 400, 6000, "every case") { monotone_long<la::PCGSolver>(s); }
LAW(monotone_long_minres, 400, 6000, "every case") { monotone_long<la::MINRESSolver>(s); }
LAW(monotone_long_pminres, 400, 6000, "every case") { monotone_long<la::PMINRESSolver>(s); }

PBT_MAIN
