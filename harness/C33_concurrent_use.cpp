// C33: independent objects and shared constant ones may be used from several threads at once
// technique: generated schedules: the same randomly drawn work lists are executed by one thread after the other and then by several threads at once, over shared constant operands and private objects; every result must agree bit for bit, and ThreadSanitizer watches for data races
// note: the operands of const operations (vectors, sparse, dense and block matrices) are shared, everything that is modified or keeps a workspace (solvers, eigensolvers, block operators, COO and list matrices, files, timers, parsers) is private to its thread; METIS partitioning is left out, since METIS draws from the process-wide rand().
// modules: sparsesolver
// flavours: tsan release
#include "gen.hpp"
#include "files.hpp"
#include "solve.hpp"
#include "sparsesolve.hpp"
#include <atomic>
#include <memory>
#include <thread>
using pbt::S;

namespace
{
typedef std::vector<uint64_t> Digest;
void put(Digest& d, double v) { uint64_t u; std::memcpy(&u, &v, 8); d.push_back(v == v ? u : 0x7ff8dead); }
void put(Digest& d, const la::VectorView<double>& v) { d.push_back((uint64_t) v.size()); for (double x : v) { put(d, x); } }
void put(Digest& d, const la::VectorView<int>& v) { d.push_back((uint64_t) v.size()); for (int x : v) { d.push_back((uint64_t) x); } }
void put(Digest& d, const std::vector<double>& v) { d.push_back(v.size()); for (double x : v) { put(d, x); } }
void put(Digest& d, const la::DenseMatrix& m) { d.push_back((uint64_t) m.Rows()); d.push_back((uint64_t) m.Cols()); for (int j = 0; j < m.Cols(); ++j) for (int i = 0; i < m.Rows(); ++i) { put(d, m(i, j)); } }
template <typename T> void put(Digest& d, const la::SparseMatrix<T>& m)
{
    d.push_back((uint64_t) m.Rows()); d.push_back((uint64_t) m.Cols()); for (int x : m.GetIndptr()) { d.push_back((uint64_t) x); } for (int x : m.GetIndices()) { d.push_back((uint64_t) x); } for (T x : m.GetData()) { put(d, (double) x); }
}
void put(Digest& d, const std::string& t) { uint64_t h = 1469598103934665603ull; for (unsigned char c : t) { h = (h ^ c) * 1099511628211ull; } d.push_back(h); }

la::Vector<double> act(const la::Operator& o, const la::VectorView<double>& v) { return o.Mult(v); }

// what all threads look at and none changes
struct Shared
{
    int n, m;
    la::SparseMatrix<double> A, R; la::SparseMatrix<int> I; la::DenseMatrix D, E; la::Vector<double> x, y; la::Vector<int> k; la::BlockMatrix<double> B; std::vector<int> offsets; la::DenseMatrix P; la::SparseMatrix<double> SP;
};
// one thread's own copy of what it modifies comes from its seed
struct Job { int op; uint64_t seed; };
const char* names[] = {"sparse times vector", "sparse products", "sparse structure", "sparse copies modified", "dense times vector", "dense products", "dense decompositions", "dense blocks", "vectors", "block matrix", "COO assembly", "list assembly",
    "CG", "preconditioned CG", "MINRES", "preconditioned MINRES", "eigensolver", "direct solver", "block operator", "print", "write and read", "randomize", "parser", "operator interface", "timer"};
const int NJOB = sizeof names / sizeof *names;

void run(const Shared& h, Job j, Digest& d)
{
    pbt::Rng g(j.seed); int n = h.n, m = h.m; auto num = [&] { return (double) ((int) g.below(9) - 4); };
    la::Vector<double> a(n), b(m); for (auto& v : a) { v = num(); } for (auto& v : b) { v = num(); }
    std::vector<int> w(n + m, -1);
    switch (j.op)
    {
        case 0: put(d, h.A.Mult(a)); put(d, h.R.Mult(a)); put(d, h.R.MultAT(b)); put(d, h.A.MultAT(h.x)); put(d, h.I.Mult<double>(a)); { la::Vector<double> o(m, 5.0); h.R.Mult(a, static_cast<la::VectorView<double>&>(o)); put(d, o); } break;
        case 1: put(d, h.R.Mult(h.A)); put(d, h.R.Mult(h.A, w)); put(d, h.A.Mult(h.A, w)); put(d, h.A.Mult(h.D)); put(d, h.A.MultAT(h.D)); put(d, h.A.MultCT(h.D)); { la::DenseMatrix o(1); h.A.Mult(h.D, o); put(d, o); } break;
        case 2: put(d, h.R.Transpose()); put(d, h.R.ToDense()); put(d, h.R.TransposeDense()); put(d, h.A.GetDiag()); put(d, h.A.MaxNorm()); put(d, h.A.Sum()); { std::vector<int> r, c; for (int i = 0; i < n; ++i) { if (g.below(2)) { r.push_back(i); } if (g.below(2)) { c.push_back(i); } } std::vector<int> mk(n, -1); put(d, h.A.GetSubMatrix(r, c, mk)); put(d, h.A.GetSubMatrix(r, c)); } break;
        case 3: { la::SparseMatrix<double> t(h.A); t.SortIndices(); put(d, t); t *= 3.0; t.EliminateZeros(1.0); put(d, t); std::vector<double> s(n, 2.0); t.ScaleRows(s); t.ScaleCols(s); put(d, t); t.AddDiag(1.0); put(d, t); std::vector<int> p(n); for (int i = 0; i < n; ++i) { p[i] = n - 1 - i; } t.PermuteCols(p); put(d, t); if (n > 0) { t.EliminateRow((int) g.below(n)); t.EliminateCol((int) g.below(n)); t.EliminateRowCol((int) g.below(n)); } put(d, t); break; }
        case 4: put(d, h.D.Mult(b)); put(d, h.D.MultAT(a)); put(d, h.E.Mult(a)); { la::Vector<double> o(n, 1.0); h.D.Mult(h.y, static_cast<la::VectorView<double>&>(o)); put(d, o); } break;
        case 5: put(d, h.D.Mult(h.E)); put(d, h.D.MultAT(h.D)); put(d, h.D.MultBT(h.D)); put(d, h.D.MultABT(h.E)); { la::DenseMatrix o(2, 3); h.E.Mult(h.D, o); put(d, o); la::DenseMatrix t(h.D); t += h.D; t *= 3.0; put(d, t); put(d, h.D.Transpose()); } break;
        case 6: { la::DenseMatrix u, q; put(d, h.D.SVD(u)); put(d, u); h.D.QR(q); put(d, q); la::DenseMatrix v(h.P); v.Invert(); put(d, v); v = h.P; la::DenseMatrix o; v.Invert(o); put(d, o); break; }
        case 7: if (n > 0 && m > 0) { put(d, h.D.GetRow(0, (int) g.below(n) + 1)); put(d, h.D.GetCol(0, (int) g.below(m) + 1)); put(d, h.D.GetSubMatrix(0, 0, (int) g.below(n) + 1, (int) g.below(m) + 1)); put(d, h.D.GetCol((int) g.below(m))); put(d, h.D.GetRow((int) g.below(n))); la::DenseMatrix t(h.D); t.SetSubMatrix(0, 0, n, m, h.D); t.SetSubMatrixTranspose(0, 0, 1, 1, la::DenseMatrix(1, 1, std::vector<double>(1, 2.0))); put(d, t); put(d, h.D.Sum()); put(d, h.D.Max()); put(d, h.D.Min()); d.push_back(h.D == t); } break;
        case 8: put(d, la::InnerProduct(h.x, a)); put(d, la::L2Norm(h.x)); put(d, h.x.Sum()); if (n > 0) { put(d, la::Mean(a)); put(d, la::Max(h.x)); put(d, la::Min(h.x)); put(d, la::AbsMax(h.x)); put(d, la::AbsMin(h.x)); } a += h.x; a *= 2.0; a -= h.x; a.Add(0.5, h.x); a.Sub(h.x); put(d, a); { la::Vector<double> t(h.x); t *= a; put(d, t); t = h.x + a; put(d, t); if (la::L2Norm(t) > 0) { t.Normalize(); put(d, t); } std::vector<int> s; for (int i = 0; i < n; i += 2) { s.push_back(i); } put(d, h.x.GetSubVector(s)); if (n > 0) { la::SubAvg(a); put(d, a); } d.push_back(h.x == a); } break;
        case 9: put(d, act(h.B, a)); put(d, static_cast<const la::Operator&>(h.B).MultAT(a)); put(d, h.B.Combine()); put(d, h.B.Transpose().Combine()); { la::BlockMatrix<double> t(h.B); put(d, act(t, h.x)); } break;
        case 10: { la::CooMatrix<double> c(n, m); if (n * m > 0) { for (int i = 0; i < 30; ++i) { int r = (int) g.below(n), q = (int) g.below(m); c.Add(r, q, num()); } if (n <= m) { c.AddSym((int) g.below(n), (int) g.below(n), 2.0); } } put(d, c.ToSparse()); put(d, c.ToDense()); put(d, act(c, b)); std::vector<int> p(n); for (int i = 0; i < n; ++i) { p[i] = n - 1 - i; } c.PermuteRows(p); c.EliminateZeros(1.0); put(d, c.ToSparse()); break; }
        case 11: { la::LilMatrix<double> c(n, m); if (n * m > 0) { for (int i = 0; i < 30; ++i) { int r = (int) g.below(n), q = (int) g.below(m); c.Add(r, q, num()); } } put(d, c.ToSparse()); put(d, c.ToDense()); c.EliminateZeros(1.0); put(d, c.ToSparse()); break; }
        case 12: { la::PCGSolver s(h.P, 60, 1e-9, 1e-14); put(d, act(s, a)); { la::Vector<double> z(n, 0.5); la::CG(h.SP, h.x, z, 60, 1e-9); put(d, z); } d.push_back((uint64_t) s.GetNumIterations()); la::CG(h.SP, a, 5); break; }
        case 13: { la::DenseMatrix M = h.P; for (int i = 0; i < n; ++i) for (int k = 0; k < n; ++k) { if (i != k) { M(i, k) = 0; } } la::PCGSolver s(h.P, M, 60, 1e-9, 1e-14); la::PCGSolver t(s); put(d, act(s, a)); put(d, act(t, h.x)); { la::Vector<double> z(n, 0.5); la::PCG(h.SP, M, a, z, 60, 1e-9); put(d, z); } d.push_back((uint64_t) t.GetNumIterations()); la::PCG(h.SP, M, a, 5); break; }
        case 14: { la::MINRESSolver s(h.P, 60, 1e-9, 1e-14); put(d, act(s, a)); put(d, act(s, h.x)); { la::Vector<double> z(n, 0.5); la::MINRES(h.SP, a, z, 60, 1e-9); put(d, z); } d.push_back((uint64_t) s.GetNumIterations()); la::MINRES(h.SP, a, 5); break; }
        case 15: { la::SparseMatrix<double> M(std::vector<double>(n, 0.5)); la::PMINRESSolver s(h.P, M, 60, 1e-9, 1e-14); put(d, act(s, a)); { la::Vector<double> z(n, 0.5); la::PMINRES(h.SP, M, h.x, z, 60, 1e-9); put(d, z); } d.push_back((uint64_t) s.GetNumIterations()); la::PMINRES(h.SP, M, a, 5); break; }
        case 16: if (n > 0) { la::EigenSolver s; auto p = s.Solve(h.P, 0.5, n); put(d, p.first); put(d, p.second); auto q = s.Solve(h.SP, 2.0, 1); put(d, q.first); put(d, q.second); } break;
        case 17: { SparseSolver s(h.SP); const la::Operator& o = s; put(d, o.Mult(a)); put(d, o.MultAT(h.x)); SparseSolver t(s); put(d, static_cast<const la::Operator&>(t).Mult(a)); break; }
        case 18: { la::BlockOperator o(std::vector<int> {0, n, n + m}, std::vector<int> {0, n, 2 * n}); o.SetBlock(0, 0, h.A); o.SetBlock(1, 1, h.R); o.SetBlock(0, 1, h.P); la::Vector<double> u(2 * n), v(n + m); for (auto& z : u) { z = num(); } for (auto& z : v) { z = num(); } const la::Operator& q = o; put(d, q.Mult(u)); put(d, q.MultAT(v)); break; }
        case 19: { std::ostringstream o; h.A.Print("a", o); h.A.PrintDense("b", o); h.D.Print("c", o); h.x.Print("d", o); h.B.Print("e", o); o << h.k; put(d, o.str()); break; }
        case 20:
        {
            TestFile f; la::WriteText(h.x.data(), f.path); put(d, la::ReadText<double>(f.path)); f.put("");
            TestFile f2; la::WriteCSR(h.A, f2.path); put(d, la::ReadCSR<double>(f2.path)); TestFile f3; la::WriteMTX(h.A, f3.path); put(d, la::ReadMTX<double>(f3.path)); TestFile f4; la::WriteCooList(h.R, f4.path); put(d, f4.get());
            TestFile f5; la::WriteBinary(h.R, f5.path); put(d, la::ReadBinaryMat<double>(f5.path)); TestFile f6; la::WriteTable(h.R, f6.path); put(d, f6.get()); TestFile f7; la::WriteAdjList(h.A, f7.path); put(d, f7.get());
            break;
        }
        case 21: { int lo = (int) g.below(9) - 4, hi = lo + (int) g.below(20), seed = (int) g.below(100) + 1; la::Randomize(a, (double) lo, (double) hi, seed); put(d, a); la::Vector<int> v(m); v.Randomize(lo, hi, seed); for (int z : v) { d.push_back((uint64_t) z); } la::Vector<double> r(n); r.Randomize(lo, hi, seed); put(d, r); r.Randomize(lo, hi); la::Randomize(a); v.Randomize(lo, hi); break;   // (no seed: any values)
        }
        case 22:
        {
            std::string t = std::to_string((int) g.below(1000)); const char* argv[] = {"prog", "--n", t.c_str(), "--flag", "--oops"}; la::ArgParser p(5, argv); int v = 3; bool f = false; double q = 0.5; p.Parse(v, "--n", "a number"); p.Parse(f, "--flag", "a flag"); p.Parse(q, "--q", "unused");
            d.push_back((uint64_t) v); d.push_back(f); put(d, q); d.push_back(p.IsGood()); std::ostringstream o; p.ShowErrors(o); p.ShowOptions(o); p.ShowHelp(o); put(d, o.str()); break;
        }
        case 23: { const la::Operator* ops[] = {&h.A, &h.D, &h.R, &h.B, &h.P}; for (auto* o : ops) { la::Vector<double> in(o->Cols(), 2.0), at(o->Rows(), 3.0), out(1); put(d, o->Mult(in)); put(d, o->MultAT(at)); o->Mult(in, out); put(d, out); put(d, o->InnerProduct(in, at)); } break; }
        default: { la::Timer t(la::Timer::Start::True); t.Click(); t.Click(); d.push_back(t.TotalTime() >= t[0] && t[0] >= 0 && t[1] >= 0); break; }
    }
}

std::unique_ptr<Shared> make(S& s)
{
    std::unique_ptr<Shared> h(new Shared); int n = h->n = s.chance(0.85) ? s.i(1, 6) : s.chance(0.3) ? 0 : s.i(7, 40), m = h->m = s.chance(0.85) ? s.i(1, 6) : s.i(1, 40);
    Mode mode = s.chance(0.5) ? REAL : INT;
    h->A = csr<double>(s, n, n, mode).mat(); h->R = csr<double>(s, m, n, mode).mat(); h->I = csr<int>(s, n, n, INT).mat();
    h->D = dense(s, n, m, INT); h->E = dense(s, m, n, INT); h->x = vec<double>(s, n, mode); h->y = vec<double>(s, m, mode); h->k = vec<int>(s, m, INT);
    int cut = s.i(0, n); h->offsets = {0, cut, n}; h->B = la::BlockMatrix<double>(h->offsets); h->B.SetBlock(0, 0, csr<double>(s, cut, cut, INT).mat()); if (s.chance(0.5)) { h->B.SetBlock(1, 0, csr<double>(s, n - cut, cut, INT).mat()); }
    la::DenseMatrix P(n); pbt::Rng g((uint64_t) s.i(0, 1 << 20)); for (int i = 0; i < n; ++i) for (int j = i; j < n; ++j) { P(i, j) = P(j, i) = i == j ? 2.0 * n + (int) g.below(5) : (int) g.below(3) - 1; } h->P = P;
    la::CooMatrix<double> c(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { if (P(i, j) != 0) { c.Add(i, j, P(i, j)); } } h->SP = c.ToSparse();
    return h;
}

std::string difference(const Digest& a, const Digest& b)
{
    std::ostringstream o; o << " (" << a.size() << " and " << b.size() << " words"; for (size_t i = 0; i < a.size() && i < b.size(); ++i) { if (a[i] != b[i]) { double u, v; std::memcpy(&u, &a[i], 8); std::memcpy(&v, &b[i], 8); o << ", word " << i << " is " << a[i] << " or " << u << " instead of " << b[i] << " or " << v; break; } } o << ")"; return o.str();
}

void schedule(S& s, int only)
{
    std::unique_ptr<Shared> h = make(s); int T = s.i(2, 4), rounds = s.i(1, 3); std::vector<std::vector<Job>> work(T);
    s.note([&](std::ostream & o) { o << T << " threads, shapes " << h->n << " and " << h->m << ", " << rounds << " rounds:"; });
    bool same = only >= 0 || s.chance(0.5); int op = only >= 0 ? only : s.i(0, NJOB - 1);     // everybody the same kind of work, or a mixture
    for (auto& w : work) { int k = s.i(1, 4); for (int i = 0; i < k; ++i) { int o = same ? op : s.i(0, NJOB - 1); w.push_back({o, (uint64_t) s.i(0, 1 << 20)}); s.say(names[o]); s.label(names[o]); } s.say("|"); }
    s.nontrivial(h->n > 0);
    std::vector<Digest> want(T), got(T * rounds);
    for (int t = 0; t < T; ++t) { for (Job j : work[t]) { run(*h, j, want[t]); } }
    std::atomic<int> waiting(T); std::vector<std::thread> th; std::string trouble[4];
    for (int t = 0; t < T; ++t)
    {
        th.emplace_back([&, t]
        {
            waiting.fetch_sub(1, std::memory_order_relaxed); while (waiting.load(std::memory_order_relaxed) > 0) { }
            try { for (int r = 0; r < rounds; ++r) { for (Job j : work[t]) { run(*h, j, got[t * rounds + r]); } } }
            catch (const std::exception& e) { trouble[t] = e.what(); }
            catch (...) { trouble[t] = "an exception"; }
        });
    }
    for (auto& t : th) { t.join(); }
    for (int t = 0; t < T; ++t)
    {
        CHECK(trouble[t].empty(), "thread " << t << " failed: " << trouble[t]);
        for (int r = 0; r < rounds; ++r) { CHECK(got[t * rounds + r] == want[t], "the results of thread " << t << " differ from those of the same work done alone" << difference(got[t * rounds + r], want[t])); }
    }
}
}

LAW(mixture, 3000, 60000, "shapes are not empty") { schedule(s, -1); }
LAW(matrices, 1500, 30000, "shapes are not empty") { schedule(s, s.i(0, 7)); }
LAW(solvers, 1500, 30000, "shapes are not empty") { schedule(s, s.i(12, 18)); }

PBT_MAIN
