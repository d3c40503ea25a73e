// C04: valid API use never corrupts memory, leaks, or triggers undefined behaviour
// technique: stateful API-sequence fuzzing under AddressSanitizer, UndefinedBehaviorSanitizer, libstdc++ assertions and an allocation balance, plus a metamorphic relation (results do not depend on the prior content of memory)
// note: random programs of about ninety operations over pools of every container, operator, solver and file format, all shapes included; oracles are the sanitizers, structural invariants of every object after every step, the allocation balance, and equality of the results under two different fillings of fresh heap and stack memory
// modules: partition sparsesolver
// flavours: debug release hardened
#include "gen.hpp"
#include "files.hpp"
#include "solve.hpp"
#include "sparsesolve.hpp"
#include "partition.hpp"
#include <memory>
#include <new>
using pbt::S;

// Every allocation of the program is filled with a chosen byte: a result that depends on it was computed from uninitialised memory.
static volatile int g_fill = -1;
static void* filled(std::size_t n) { void* p = std::malloc(n ? n : 1); if (p && g_fill >= 0) { std::memset(p, g_fill, n); } return p; }
void* operator new (std::size_t n) { void* p = filled(n); if (!p) { throw std::bad_alloc(); } return p; }
void* operator new[](std::size_t n) { void* p = filled(n); if (!p) { throw std::bad_alloc(); } return p; }
void operator delete (void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete (void* p, std::size_t) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { std::free(p); }
__attribute__((noinline)) static void fill_stack() { volatile unsigned char a[6144]; if (g_fill >= 0) { for (size_t i = 0; i < sizeof a; ++i) { a[i] = (unsigned char) g_fill; } } }

namespace
{
typedef la::Vector<double> VD; typedef la::Vector<int> VI; typedef la::VectorView<double> View; typedef la::VectorView<int> ViewI;
typedef la::DenseMatrix DM; typedef la::SparseMatrix<double> SD; typedef la::SparseMatrix<int> SI; typedef la::SparseMatrix<float> SF;
typedef la::CooMatrix<double> CO; typedef la::LilMatrix<double> LI; typedef la::BlockVector<double> BV; typedef la::BlockMatrix<double> BM;

// the draws of one program, recorded so that the same program can be executed again
struct Tape
{
    S& s; std::vector<int> v; size_t pos = 0; bool again = false;
    explicit Tape(S& s_) : s(s_) { }
    int i(int lo, int hi)
    {
        if (!again) { int x = s.i(lo, hi); v.push_back(x); return x; }
        if (pos >= v.size() || v[pos] < lo || v[pos] > std::max(lo, hi)) { FAIL("the second execution of the program took another course than the first: a decision depends on uninitialised memory"); }
        return v[pos++];
    }
    bool b() { return i(0, 1) == 1; }
};

struct Machine
{
    Tape& t; uint64_t h = 7; std::string ops; bool big; S& s;
    std::vector<VD> vd; std::vector<VI> vi; std::vector<DM> dm; std::vector<SD> sd; std::vector<SI> si; std::vector<CO> co; std::vector<LI> li; std::vector<BV> bv; std::vector<BM> bm;
    std::vector<std::vector<int>> marks;
    std::unique_ptr<TestFile> file;
    Machine(Tape& tape, S& s_, bool large) : t(tape), big(large), s(s_)
    {
        vd.resize(2); vi.resize(2); dm.resize(2); sd.resize(2); si.resize(2); co.resize(1); li.resize(1); bv.resize(1); bm.resize(1);
    }

    // ---- draws
    int dim() { int k = t.i(0, 9); return k == 0 ? 0 : k == 1 ? 1 : k < 8 || !big ? t.i(0, 6) : k == 8 ? t.i(0, 40) : t.i(0, 9) == 0 ? t.i(41, 140) : t.i(0, 30); }
    int vdim() { int k = t.i(0, 19); return k == 0 && big ? t.i(50, 3000) : dim(); }
    double x() { int c = t.i(0, 16); return (c & 1) ? (c + 1) / 2 : -(c / 2); }
    double nz() { double v = x(); return v == 0 ? 1 : v; }
    pbt::Rng rng() { return pbt::Rng((uint64_t) t.i(0, 1 << 20)); }
    template <typename T> std::vector<T> raw(int n) { std::vector<T> v(n); pbt::Rng r = rng(); for (auto& e : v) { e = (T)((int) r.below(9) - 4); } return v; }
    template <typename T> std::vector<T> rawnz(int n) { std::vector<T> v = raw<T>(n); for (auto& e : v) { if (e == 0) { e = (T) 2; } } return v; }
    VD vec(int n) { for (auto& v : vd) { if (v.size() == n && t.b()) { return v; } } switch (t.i(0, 3)) { case 0: return VD(raw<double>(n)); case 1: { std::vector<double> r = raw<double>(n); return VD(r.data(), n); } case 2: { std::vector<double> r = raw<double>(n); View w(r); return VD(w); } default: return VD(n, x()); } }
    VI veci(int n) { for (auto& v : vi) { if (v.size() == n && t.b()) { return v; } } return VI(raw<int>(n)); }
    DM dense(int r, int c) { for (auto& m : dm) { if (m.Rows() == r && m.Cols() == c && t.b()) { return m; } } return DM(r, c, raw<double>(r * c)); }
    template <typename T> la::SparseMatrix<T> csr(int r, int c, bool diag = false, bool nonzero = false)
    {
        std::vector<int> p(1, 0), x; std::vector<T> d; int density = t.i(0, 4); pbt::Rng g = rng(); bool sorted = t.b();
        for (int i = 0; i < r; ++i)
        {
            std::vector<int> cols; bool empty = g.below(5) == 0;
            for (int j = 0; j < c; ++j) { if ((!empty && (int) g.below(4) < density) || (diag && i == j)) { cols.push_back(j); } }
            if (!sorted) { for (size_t k = cols.size(); k > 1; --k) { std::swap(cols[k - 1], cols[g.below(k)]); } }
            for (int j : cols) { x.push_back(j); T v = (T)((int) g.below(9) - 4); d.push_back(nonzero && v == 0 ? (T) 3 : v); }
            p.push_back((int) x.size());
        }
        return la::SparseMatrix<T>(p, x, d, r, c);
    }
    SD sparse(int r, int c) { for (auto& m : sd) { if (m.Rows() == r && m.Cols() == c && t.b()) { return m; } } return csr<double>(r, c); }
    std::vector<int> subset(int n, bool repeat) { int k = n == 0 ? 0 : t.i(0, n); std::vector<int> o; pbt::Rng g = rng(); std::vector<int> all(n); for (int i = 0; i < n; ++i) { all[i] = i; } for (int i = 0; i < k; ++i) { int j = i + (int) g.below(n - i); std::swap(all[i], all[j]); o.push_back(repeat ? (int) g.below(n) : all[i]); } return o; }
    std::vector<int> perm(int n) { std::vector<int> o(n); for (int i = 0; i < n; ++i) { o[i] = i; } pbt::Rng g = rng(); for (int i = n; i > 1; --i) { std::swap(o[i - 1], o[g.below(i)]); } return o; }
    std::vector<int> offsets(int blocks) { std::vector<int> o(1, 0); for (int i = 0; i < blocks; ++i) { o.push_back(o.back() + t.i(0, 4)); } return o; }
    std::vector<int> marker(int n) { std::vector<int> m(n); pbt::Rng g = rng(); for (auto& e : m) { e = g.below(3) == 0; } return m; }

    template <typename P> typename P::value_type& any(P& p) { return p[t.i(0, (int) p.size() - 1)]; }
    template <typename U> void limit(U&) { } void limit(VI& v) { tame(v); }   // keeps int arithmetic in range
    // results join the pools at the end of the step, when no reference into a pool is in use
    std::vector<std::function<void()>> pending;
    template <typename P> void keep(P& p, typename P::value_type o)
    {
        check(o); limit(o); auto held = std::make_shared<typename P::value_type>(std::move(o));
        pending.push_back([this, &p, held]() { store(p, *held); });
    }
    template <typename P> void store(P& p, typename P::value_type& o)
    { switch (t.i(0, 2)) { case 0: if (p.size() < 4) { p.push_back(std::move(o)); } else { any(p) = std::move(o); } break; case 1: any(p) = o; break; default: { using std::swap; swap(any(p), o); } } }
    void flush() { for (auto& f : pending) { f(); } pending.clear(); }

    // ---- observations
    void see(double v) { uint64_t b; if (v != v) { b = 0x7ff8; } else { if (v == 0) { v = 0; } std::memcpy(&b, &v, 8); } h = pbt::mix(h ^ b); }
    template <typename C> void sees(const C& c) { see((double) c.size()); for (auto e : c) { see((double) e); } }
    void see(const std::string& text) { h = pbt::mix(h ^ pbt::hash_str(text)); }
    template <typename T> void check(const la::Vector<T>& v)
    { CHECK((int) v.data().size() == v.size() && (v.size() == 0 || v.begin() == v.data().data()) && v.end() - v.begin() == v.size(), "a vector's view does not match its storage"); sees(v.data()); }
    void check(const DM& m) { CHECK(m.Rows() >= 0 && m.Cols() >= 0, "negative size"); std::vector<double> d; m.CopyData(d); CHECK((long) d.size() == (long) m.Rows() * m.Cols(), "a dense matrix stores " << d.size() << " entries for " << m.Rows() << "x" << m.Cols()); see(m.Rows()); sees(d); }
    template <typename T> void check(const la::SparseMatrix<T>& m) { expect_csr(m, "sparse matrix"); see(m.Rows()); see(m.Cols()); sees(m.GetIndptr()); sees(m.GetIndices()); sees(m.GetData()); }
    void check(const CO& m) { DM d = m.ToDense(); CHECK(d.Rows() == m.Rows() && d.Cols() == m.Cols(), "conversion of a COO matrix changes its size"); check(d); }
    void check(const LI& m) { DM d = m.ToDense(); CHECK(d.Rows() == m.Rows() && d.Cols() == m.Cols(), "conversion of a LIL matrix changes its size"); check(d); }
    void check(const BV& v) { const std::vector<int>& o = v.GetOffsets(); sees(o); check(static_cast<const VD&>(v)); CHECK(o.empty() || o.back() == v.size(), "a block vector of " << v.size() << " entries has offsets up to " << o.back()); for (int b = 0; b + 1 < (int) o.size(); ++b) { const View& w = v.GetBlock(b); CHECK(w.size() == o[b + 1] - o[b], "block size"); sees(w); } }
    void check(const BM& m) { sees(m.GetRowOffsets()); sees(m.GetColOffsets()); if (!m.GetRowOffsets().empty() && !m.GetColOffsets().empty()) { SD c = m.Combine(); CHECK(c.Rows() == m.Rows() && c.Cols() == m.Cols(), "the combined matrix has another size"); check(c); } }
    // keeps values moderate, by assigning through the public interface
    template <typename T> static T moderate(T v) { return !(std::fabs((double) v) <= 1000) ? (T) 3 : (v != 0 && std::fabs((double) v) < 1e-6) ? (T) 1 : v; }
    void tame(VD& v) { for (auto& e : v) { e = moderate(e); } }
    void tame(VI& v) { for (auto& e : v) { e = e < -50 || e > 50 ? e % 50 : e; } }
    void tame(DM& m) { for (int j = 0; j < m.Cols(); ++j) for (int i = 0; i < m.Rows(); ++i) { m(i, j) = moderate(m(i, j)); } }
    template <typename T> void tame(la::SparseMatrix<T>& m) { for (auto& e : m.GetData()) { e = moderate(e); } }
    template <typename T> void done(T& o) { check(o); tame(o); }

    void vector_op(int k)
    {
        VD& v = any(vd); int n = v.size();
        switch (k)
        {
            case 0: keep(vd, vec(vdim())); break;
            case 1: v.SetSize(vdim()); done(v); break;
            case 2: v.SetSize(vdim(), x()); done(v); break;
            case 3: { VD w = vec(n); v += w; v -= w; v *= w; w = rawnz<double>(n).empty() ? w : VD(rawnz<double>(n)); if (w.size() == n) { for (auto& e : w) { if (e == 0) { e = 1; } } v /= w; } done(v); break; }
            case 4: v += x(); v -= x(); v *= x(); v /= nz(); done(v); break;
            case 5: { VD w = vec(n); v.Add(x(), w).Sub(w).Add(w).Sub(x(), w); w.Set(x(), v); done(v); v.Set(w); done(v); break; }
            case 6: { VD w = vec(n), z(n); la::Add(x(), v, x(), w, x(), z); la::Add(v, w, z); la::Sub(v, w, z); keep(vd, z + w - v * x()); done(v); break; }
            case 7: see(v.Mult(vec(n))); see(la::InnerProduct(v, vec(n))); see(v * vec(n)); see(la::L2Norm(v)); see(v.L2Norm()); see(la::Sum(v)); see(v.Sum()); see(v == vec(n)); if (n > 0) { see(la::Max(v)); see(la::Min(v)); see(la::AbsMax(v)); see(la::AbsMin(v)); see(la::Mean(v)); } break;
            case 8: { std::vector<int> idx = subset(n, true); VD o; if (t.b()) { o.SetSize((int) idx.size()); v.GetSubVector(idx, o); } else { o = v.GetSubVector(idx); } keep(vd, std::move(o)); break; }
            case 9: v.Randomize(-2, 3, 5); la::Randomize(v, -1.0, 2.0, 3); done(v); { VI w = veci(vdim()); la::Randomize(w, -3, 4, 11); keep(vi, std::move(w)); } break;
            case 10: if (n > 0 && v.L2Norm() > 1e-3) { v.Normalize(); } done(v); la::SubAvg(v); done(v); break;
            case 11: { std::ostringstream o; v.Print("v:", o); o << v; la::operator<<(o, v.data()); see(o.str()); break; }
            case 12: { VD& w = any(vd); if (&w != &v) { switch (t.i(0, 4)) { case 0: w = v; break; case 1: { View& a = v; w = a; break; } case 2: { const View& a = v; w = a; break; } case 3: { VD u(std::move(w)); w = std::move(u); break; } default: swap(v, w); } } else { w = *&v; } done(w); done(v); break; }
            case 13: { if (n > 0) { int lo = t.i(0, n - 1), len = t.i(0, n - lo); View w(v.begin() + lo, len); w = x(); w += x(); View u(w); std::vector<double> r = raw<double>(len), r2(len); View q(r2), e; q = u; q *= x(); see(e.size());  View z(r); swap(z, w); z = x(); const View& cz = z; VD c(cz); check(c); } done(v); break; }
            case 14: { keep(vd, v * x()); keep(vd, any(vd) / nz()); VD w(rawnz<double>(vdim())); keep(vd, x() / w); break; }
            case 15: { VI& a = any(vi); int m = a.size(); VI b = veci(m); a += b; a -= b; a *= 2; a /= 3; a += 1; a -= 2; a *= b; see(a == b); see(la::Sum(a)); see(la::InnerProduct(a, b)); done(a); break; }
            case 16: { VI& a = any(vi); a.SetSize(vdim(), t.i(0, 9)); VI c(a); see(c.Mult(a)); check(c); std::ostringstream o; c.Print("", o); see(o.str()); keep(vi, c + a); break; }
            case 17: { const VI ci(subset(n, true)); { VI small(ci); check(small); tame(small); keep(vi, small); } VD w(n); for (int i = 0; i < n; ++i) { w[i] = v[i]; } View r = (w += v); see(r.size()); keep(vd, w); break; }
        }
    }

    void dense_op(int k)
    {
        DM& m = any(dm); int r = m.Rows(), c = m.Cols();
        switch (k)
        {
            case 0: keep(dm, dense(dim(), dim())); break;
            case 1: switch (t.i(0, 3)) { case 0: m.SetSize(dim()); break; case 1: m.SetSize(dim(), x()); break; case 2: { int a = dim(), b = dim(); m.SetSize(a, b); break; } default: { int a = dim(), b = dim(); m.SetSize(a, b, x()); } } { DM z(m); for (int i = 0; i < m.Rows(); ++i) for (int j = 0; j < m.Cols(); ++j) { m(i, j) = x(); if (i * j > 4) { m(i, j) = 1; } } } done(m); break;
            case 2: { int q = dim(); DM o; DM b = dense(c, q); if (t.b()) { m.Mult(b, o); keep(dm, std::move(o)); } else { keep(dm, m.Mult(b)); } break; }
            case 3: { int q = dim(); DM o = dense(dim(), dim()); DM b = dense(r, q); if (t.b()) { m.MultAT(b, o); keep(dm, std::move(o)); } else { keep(dm, m.MultAT(b)); } break; }
            case 4: { int q = dim(); DM o = dense(dim(), dim()); DM b = dense(q, c); if (t.b()) { m.MultBT(b, o); keep(dm, std::move(o)); } else { keep(dm, m.MultBT(b)); } break; }
            case 5: { int q = dim(); DM o = dense(dim(), dim()); DM b = dense(q, r); if (t.b()) { m.MultABT(b, o); keep(dm, std::move(o)); } else { keep(dm, m.MultABT(b)); } break; }
            case 6: { VD a = vec(c), y(r); m.Mult(a, y); keep(vd, std::move(y)); keep(vd, m.Mult(vec(c))); VI ai = veci(c); keep(vd, m.Mult(ai)); VI yi(r); m.Mult(ai, yi); keep(vi, std::move(yi)); break; }
            case 7: { VD a = vec(r), y(c); m.MultAT(a, y); keep(vd, std::move(y)); keep(vd, m.MultAT(vec(r))); VI ai = veci(r); keep(vd, m.MultAT(ai)); VI yi(c); m.MultAT(ai, yi); keep(vi, std::move(yi)); break; }
            case 8: { DM b = dense(r, c); m += b; m -= b; m *= x(); m /= nz(); see(m == b); done(m); m = x(); done(m); keep(dm, m + b - m * 2.0 + 3.0 * b / 2.0); break; }
            case 9: if (t.b()) { keep(dm, m.Transpose()); } else { DM o = dense(dim(), dim()); m.Transpose(o); keep(dm, std::move(o)); } break;
            case 10: if (r * c > 0) { see(m.Sum()); see(m.Max()); see(m.Min()); } if (r == c) { sees(m.GetDiag()); std::vector<double> d = raw<double>(r); m.GetDiag(d); sees(d); } break;
            case 11: { std::ostringstream o; m.Print("m", o); m.Print("", o, t.i(1, 12), t.i(0, 9)); see(o.str()); break; }
            case 12: { if (c == 0) { break; } int j = t.i(0, c - 1); m.SetCol(j, vec(r)); View w = m.GetColView(j); w *= x(); const DM& cm = m; const View& cw = cm.GetColView(j); sees(cw); VD o(r); m.GetCol(j, o); cm.GetCol(j, o); keep(vd, o); keep(vd, cm.GetCol(j)); VI oi(veci(r)); m.SetCol(j, oi); done(m); break; }
            case 13: { if (r == 0) { break; } int i = t.i(0, r - 1); m.SetRow(i, vec(c)); VD o(c); m.GetRow(i, o); keep(vd, o); keep(vd, m.GetRow(i)); m.SetRow(i, veci(c)); done(m); break; }
            case 14: { int lo = t.i(0, r), hi = t.i(lo, r); if (t.b()) { keep(dm, m.GetRow(lo, hi)); } else { DM o = dense(dim(), dim()); m.GetRow(lo, hi, o); keep(dm, std::move(o)); } m.SetRow(lo, dense(t.i(0, r - lo), c)); done(m); break; }
            case 15: { int lo = t.i(0, c), hi = t.i(lo, c); if (t.b()) { keep(dm, m.GetCol(lo, hi)); } else { DM o = dense(dim(), dim()); m.GetCol(lo, hi, o); keep(dm, std::move(o)); } m.SetCol(lo, dense(r, t.i(0, c - lo))); done(m); break; }
            case 16: { std::vector<int> rows = subset(r, true); if (t.b()) { keep(dm, m.GetRow(rows)); } else { DM o((int) rows.size(), c); m.GetRow(rows, o); keep(dm, std::move(o)); } break; }
            case 17: { int i0 = t.i(0, r), i1 = t.i(i0, r), j0 = t.i(0, c), j1 = t.i(j0, c); if (t.b()) { keep(dm, m.GetSubMatrix(i0, j0, i1, j1)); } else { DM o = dense(dim(), dim()); m.GetSubMatrix(i0, j0, i1, j1, o); keep(dm, std::move(o)); } m.SetSubMatrix(i0, j0, i1, j1, dense(i1 - i0, j1 - j0)); m.SetSubMatrix(i0, j0, dense(i1 - i0, j1 - j0)); m.SetSubMatrixTranspose(i0, j0, i1, j1, dense(j1 - j0, i1 - i0)); m.SetSubMatrixTranspose(i0, j0, dense(j1 - j0, i1 - i0)); done(m); break; }
            case 18: { std::vector<int> a = subset(r, false), b = subset(c, false); if (t.b()) { keep(dm, m.GetSubMatrix(a, b)); } else { DM o = dense(dim(), dim()); m.GetSubMatrix(a, b, o); keep(dm, std::move(o)); } m.AddSubMatrix(a, b, dense((int) a.size(), (int) b.size())); done(m); break; }
            case 19: m.ScaleRows(vec(r)); m.ScaleCols(raw<double>(c)); m.InverseScaleRows(rawnz<double>(r)); m.InverseScaleCols(VD(rawnz<double>(c))); done(m); break;
            case 20: if (t.b()) { DM U = dense(dim(), dim()); sees(m.SVD(U)); keep(dm, std::move(U)); } else { DM a(m); sees(a.SVD()); keep(dm, std::move(a)); } break;
            case 21: if (r < c || c == 0) { break; } if (t.b()) { DM Q = dense(dim(), dim()); m.QR(Q); keep(dm, std::move(Q)); } else { DM a(m); a.QR(); keep(dm, std::move(a)); } break;
            case 22: { int n = dim(); DM a = dense(n, n); for (int i = 0; i < n; ++i) { double q = 1; for (int j = 0; j < n; ++j) { q += std::fabs(a(i, j)); } a(i, i) = q; } if (t.b()) { DM o = dense(dim(), dim()); a.Invert(o); keep(dm, std::move(o)); } else { a.Invert(); keep(dm, std::move(a)); } break; }
            case 23: { int q = t.i(0, 3), rows = dim(); std::vector<DM> v; for (int i = 0; i < q; ++i) { v.push_back(dense(rows, dim())); } if (q > 0 && t.b()) { DM o = dense(dim(), dim()); la::HStack(v, o); keep(dm, std::move(o)); } else { keep(dm, la::HStack(v)); } break; }
            case 24: { DM& o = any(dm); if (&o != &m) { switch (t.i(0, 2)) { case 0: o = m; break; case 1: { DM u(std::move(o)); o = std::move(u); break; } default: swap(o, m); } } done(o); done(m); break; }
            case 25: { int n = dim(); DM a = dense(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) { a(i, j) = a(j, i); } if (n > 0) { la::EigenSolver es; la::EigenPair out = es.Solve(a, 1.0, -1); check(out.second); sees(out.first); SD b = csr<double>(0, 0); { CO q(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { q.Add(i, j, a(i, j)); } b = q.ToSparse(); } es.Solve(b, 0.5, t.i(1, n), out); check(out.second); } break; }
        }
    }

    template <typename T> void sparse_op_t(std::vector<la::SparseMatrix<T>>& pool, int k)
    {
        typedef la::SparseMatrix<T> SM; SM& m = any(pool); int r = m.Rows(), c = m.Cols();
        switch (k)
        {
            case 0: { int a = t.i(0, 5) == 0 ? vdim() : dim(), b = a > 40 ? t.i(0, 12) : t.i(0, 5) == 0 ? vdim() : dim(); if (b > 40 && a > 40) { a = 3; } keep(pool, csr<T>(a, b)); break; }
            case 1: switch (t.i(0, 3)) { case 0: keep(pool, SM(dim())); break; case 1: { int a = dim(), b = dim(); keep(pool, SM(a, b)); break; } case 2: keep(pool, SM(raw<T>(dim()))); break; default: keep(pool, SM()); } break;
            case 2: { la::Vector<T> a(raw<T>(c)), y(r); m.Mult(a, y); sees(y); sees(m.Mult(a)); la::Vector<T> b(raw<T>(r)), z(c); m.MultAT(b, z); sees(z); sees(m.MultAT(b)); break; }
            case 3: { VD a = vec(c), y(r); const la::Operator& op = m; op.Mult(a, y); sees(y); VD b = vec(r), z(c); op.MultAT(b, z); keep(vd, std::move(z)); VI ai = veci(c); sees(m.Mult(ai)); const View& cv = a; sees(op.Mult(cv)); break; }
            case 4: { DM b = dense(c, dim()), o = dense(dim(), dim()); if (t.b()) { m.Mult(b, o); check(o); } else { check(m.Mult(b)); } break; }
            case 5: { DM b = dense(r, dim()), o = dense(dim(), dim()); if (t.b()) { m.MultAT(b, o); check(o); } else { check(m.MultAT(b)); } break; }
            case 6: { DM b = dense(c, dim()), o = dense(dim(), dim()); if (t.b()) { m.MultCT(b, o); check(o); } else { check(m.MultCT(b)); } break; }
            case 7: { SM b = csr<T>(c, dim()); if (t.b()) { auto o = m.Mult(b); done(o); any(pool) = o; } else { std::vector<int> mark(b.Cols(), -1); auto o = m.Mult(b, mark); check(o); auto o2 = m.Mult(b, mark); check(o2); } break; }
            case 8: { SI b = csr<int>(c, dim()); auto o = m.Mult(b); check(o); SD b2 = csr<double>(c, dim()); auto o2 = m.Mult(b2); tame(o2); keep(sd, std::move(o2)); break; }
            case 9: { SM o = m.Transpose(); CHECK(o.Rows() == c && o.Cols() == r, "size"); keep(pool, std::move(o)); check(m.TransposeDense()); DM d = dense(dim(), dim()); m.TransposeDense(d); check(d); auto f = m.template Transpose<double>(); check(f); break; }
            case 10: { check(m.ToDense()); DM d = dense(dim(), dim()); m.ToDense(d); check(d); if (r == c) { sees(m.GetDiag()); } see((double) m.Sum()); see((double) m.MaxNorm()); see(m.nnz()); break; }
            case 11: m.SortIndices(); done(m); break;
            case 12: { std::vector<int> a = subset(r, true), b = subset(c, false); if (t.b()) { keep(pool, m.GetSubMatrix(a, b)); } else { std::vector<int> mark(c, -1); SM o = m.GetSubMatrix(a, b, mark); SM o2 = m.GetSubMatrix(a, b, mark); check(o); check(o2); } break; }
            case 13: m *= (T) nz(); m /= (T) nz(); done(m); { SM o = m * (T) 2; check(o); o = (T) 3 * m; check(o); o = (T) t.i(0, 4); check(o); } break;
            case 14: { std::vector<T> a = rawnz<T>(r), b = rawnz<T>(c); m.ScaleRows(a); m.ScaleCols(b); m.InverseScaleRows(a); m.InverseScaleCols(b); SM da(a), db(b); m.ScaleRows(da); m.ScaleCols(db); m.InverseScaleRows(da); m.InverseScaleCols(db); done(m); break; }
            case 15: m.PermuteCols(perm(c)); done(m); break;
            case 16: { int n = dim(); SM a = csr<T>(n, n, true); a.AddDiag((T) x()); a.AddDiag(raw<T>(n)); done(a); if (n > 0) { int i = t.i(0, n - 1); a.EliminateRowCol(i); check(a); a.EliminateRow(t.i(0, n - 1)); a.EliminateCol(t.i(0, n - 1)); } a.EliminateRowCol(marker(n)); done(a); a.EliminateCol(marker(n)); keep(pool, std::move(a)); break; }
            case 17: { if (r > 0) { m.EliminateRow(t.i(0, r - 1)); } if (c > 0) { m.EliminateCol(t.i(0, c - 1)); } VD u = vec(c), b = vec(r); m.EliminateCol(marker(c), u, b); m.EliminateCol(VI(marker(c))); sees(b); done(m); break; }
            case 18: m.EliminateZeros(); m.EliminateZeros((T) 1); done(m); break;
            case 19: { std::ostringstream o; m.Print("s", o); m.PrintDense("", o); see(o.str()); break; }
            case 20: { if (r > 0) { int i = t.i(0, r - 1); sees(m.GetIndices(i)); sees(m.GetData(i)); see(m.RowSize(i)); ViewI w = m.GetIndicesView(i); see(w.size()); const SM& cm = m; const ViewI& cw = cm.GetIndicesView(i); sees(cw); } break; }
            case 21: { SM& o = any(pool); if (&o != &m) { switch (t.i(0, 2)) { case 0: o = m; break; case 1: { SM u(std::move(o)); o = std::move(u); break; } default: swap(o, m); } } check(o); check(m); break; }
        }
    }

    void assembly_op(int k)
    {
        if (k < 8)
        {
            CO& m = any(co);
            switch (k)
            {
                case 0: { int a = dim(), b = dim(); CO o(a, b); o.Reserve(t.i(0, 20)); for (int q = t.i(0, 6); q > 0 && a * b > 0; --q) { o.Add(t.i(0, a - 1), t.i(0, b - 1), x()); } keep(co, std::move(o)); break; }
                case 1: { CO o; for (int q = t.i(0, 5); q > 0; --q) { if (t.b()) { o.Add(t.i(0, 6), t.i(0, 6), x()); } else { o.AddSym(t.i(0, 6), t.i(0, 6), x()); } } if (t.b()) { o.SetSize(7 + dim(), 7 + dim()); } keep(co, std::move(o)); break; }
                case 2: { int r = m.Rows(), c = m.Cols(); if (r == 0 || c == 0) { break; } std::vector<int> a = subset(r, true), b = subset(c, true); DM d = dense((int) a.size(), (int) b.size()); m.Add(a, b, d); m.Add(a, b, 2.0, d); if (!b.empty()) { m.Add(a, b[0], vec((int) a.size())); m.Add(a, b[0], 3.0, vec((int) a.size())); } if (!a.empty()) { m.Add(a[0], b, vec((int) b.size())); m.Add(a[0], b, -1.0, vec((int) b.size())); } int n = std::min(r, c); std::vector<int> e = subset(n, false); m.Add(e, dense((int) e.size(), (int) e.size())); m.Add(e, 0.5, dense((int) e.size(), (int) e.size())); check(m); break; }
                case 3: { CO o(m); int r = o.Rows(), c = o.Cols(); if (t.b()) { o.PermuteRows(perm(r)); o.PermuteCols(perm(c)); } else { o.PermuteRowsCols(perm(r), perm(c)); } check(o); break; }
                case 4: { SD o = m.ToSparse(); check(o); auto oi = m.ToSparse<int>(); check(oi); tame(o); keep(sd, std::move(o)); DM d = dense(dim(), dim()); m.ToDense(d); check(d); break; }
                case 5: { m.EliminateZeros(t.i(0, 2)); check(m); std::ostringstream o; m.Print("", o); see(o.str()); break; }
                case 6: { VD y(m.Rows()), z(m.Cols()); m.Mult(vec(m.Cols()), y); m.MultAT(vec(m.Rows()), z); keep(vd, std::move(y)); break; }
                case 7: { CO& o = any(co); if (&o != &m) { if (t.b()) { o = m; } else { swap(o, m); } } CO u(std::move(o)); o = std::move(u); check(o); if (co.size() > 1 || t.b()) { CO f(5, 5); m = f; } break; }
            }
            return;
        }
        LI& m = any(li);
        switch (k)
        {
            case 8: { int a = dim(), b = dim(); LI o(a, b); for (int q = t.i(0, 6); q > 0 && a * b > 0; --q) { o.Add(t.i(0, a - 1), t.i(0, b - 1), x()); } keep(li, std::move(o)); break; }
            case 9: { LI o; for (int q = t.i(0, 5); q > 0; --q) { if (t.b()) { o.Add(t.i(0, 6), t.i(0, 6), x()); } else { o.AddSym(t.i(0, 6), t.i(0, 6), x()); } } if (t.b()) { o.SetSize(7 + dim(), 7 + dim()); } keep(li, std::move(o)); break; }
            case 10: { int r = m.Rows(), c = m.Cols(); if (r == 0 || c == 0) { break; } std::vector<int> a = subset(r, true), b = subset(c, true); m.Add(a, b, dense((int) a.size(), (int) b.size())); int n = std::min(r, c); std::vector<int> e = subset(n, false); m.Add(e, dense((int) e.size(), (int) e.size())); check(m); break; }
            case 11: { SD o = m.ToSparse(); check(o); auto oi = m.ToSparse<int>(); check(oi); tame(o); keep(sd, std::move(o)); DM d = dense(dim(), dim()); m.ToDense(d); check(d); break; }
            case 12: { m.EliminateZeros(t.i(0, 2)); check(m); std::ostringstream o; m.Print("", o); see(o.str()); break; }
            case 13: { VD y(m.Rows()), z(m.Cols()); m.Mult(vec(m.Cols()), y); m.MultAT(vec(m.Rows()), z); keep(vd, std::move(y)); break; }
            case 14: { LI& o = any(li); if (&o != &m) { if (t.b()) { o = m; } else { swap(o, m); } } LI u(std::move(o)); o = std::move(u); check(o); if (t.b()) { LI f(5, 5); m = f; } break; }
        }
    }

    void block_op(int k)
    {
        switch (k)
        {
            case 0: { std::vector<int> o = offsets(t.i(0, 4)); switch (t.i(0, 2)) { case 0: keep(bv, BV(o)); break; case 1: keep(bv, BV(o, x())); break; default: { VD d = vec(o.back()); keep(bv, BV(d, o)); } } break; }
            case 1: { BV& v = any(bv); int nb = (int) v.GetOffsets().size() - 1; if (nb > 0) { View w = v.GetBlock(t.i(0, nb - 1)); w = x(); w += x(); w = vec(w.size()); VD u(w); w.Add(2.0, u); } v *= x(); { const View& y = vec(v.size()); v += y; } check(v); for (auto& e : v) { e = moderate(e); } break; }
            case 2: { BV& v = any(bv); BV& w = any(bv); if (&v != &w) { if (t.b()) { v = w; } else { swap(v, w); } } BV u(std::move(v)); v = std::move(u); check(v); check(w); if (t.b()) { bv.push_back(v); if (bv.size() > 4) { bv.erase(bv.begin()); } } break; }
            case 3:
            {
                std::vector<int> ro = offsets(t.i(0, 3)), cofs = offsets(t.i(0, 3)); BM m(ro, cofs);
                for (int i = 0; i + 1 < (int) ro.size(); ++i) for (int j = 0; j + 1 < (int) cofs.size(); ++j) { if (t.b()) { m.SetBlock(i, j, sparse(ro[i + 1] - ro[i], cofs[j + 1] - cofs[j])); } }
                keep(bm, std::move(m)); break;
            }
            case 4: { BM& m = any(bm); int nr = (int) m.GetRowOffsets().size() - 1, nc = (int) m.GetColOffsets().size() - 1; if (nr > 0 && nc > 0) { int i = t.i(0, nr - 1), j = t.i(0, nc - 1); check(m.GetBlock(i, j)); m.SetBlock(i, j, csr<double>(m.GetRowOffsets()[i + 1] - m.GetRowOffsets()[i], m.GetColOffsets()[j + 1] - m.GetColOffsets()[j])); } check(m); break; }
            case 5: { BM& m = any(bm); keep(bm, m.Transpose()); std::ostringstream o; any(bm).Print("b", o); any(bm).PrintDense("", o); see(o.str()); break; }
            case 6: { BM& m = any(bm); const la::Operator& op = m; VD y(m.Rows()), z(m.Cols()); op.Mult(vec(m.Cols()), y); op.MultAT(vec(m.Rows()), z); sees(z); keep(vd, std::move(y)); break; }
            case 7: { BM& m = any(bm); BM& w = any(bm); if (&m != &w) { if (t.b()) { m = w; } else { swap(m, w); } } BM u(std::move(m)); m = std::move(u); check(m); if (bm.size() < 4) { bm.push_back(w); } break; }
            case 8:
            {
                std::vector<int> ro = offsets(t.i(0, 3)), cofs = offsets(t.i(0, 3)); la::BlockOperator B(ro, cofs); std::vector<std::unique_ptr<la::Operator>> own;
                for (int i = 0; i + 1 < (int) ro.size(); ++i) for (int j = 0; j + 1 < (int) cofs.size(); ++j)
                {
                    int a = ro[i + 1] - ro[i], b = cofs[j + 1] - cofs[j], what = t.i(0, 3);
                    if (what == 1) { own.emplace_back(new SD(sparse(a, b))); } else if (what == 2) { own.emplace_back(new DM(dense(a, b))); } else if (what == 3) { own.emplace_back(new CO(a, b)); } else { continue; }
                    B.SetBlock(i, j, *own.back());
                }
                la::BlockOperator C(B), D(std::move(C)), F; swap(F, D); const la::Operator& op = F;
                for (int q = 0; q < 2; ++q) { VD y(ro.back()), z(cofs.back()); op.Mult(vec(cofs.back()), y); op.MultAT(vec(ro.back()), z); sees(y); sees(z); }
                break;
            }
        }
    }

    void solver_op(int k)
    {
        int n = t.i(0, 9); CO q(n, n); pbt::Rng g = rng(); std::vector<double> row(n, 1.0);
        for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) { if (g.below(2)) { double v = (int) g.below(5) - 2; q.AddSym(i, j, v); row[i] += std::fabs(v); row[j] += std::fabs(v); } }
        for (int i = 0; i < n; ++i) { q.Add(i, i, (k == 1 || k == 3) && g.below(3) == 0 ? -row[i] : row[i]); }
        SD A = q.ToSparse(); SD M(std::vector<double>(n, 0.5)); VD b = vec(n), y(n, 0.0);
        Quiet quiet;
        switch (k)
        {
            case 0: { la::PCGSolver s1(A, 4 * n + 20, 1e-8, 1e-10, t.b()), s2(A, M, 4 * n + 20, 1e-8, 1e-10, t.b()); s1.Mult(b, y); sees(y); y = 0.0; s2.Mult(b, y); sees(y); la::PCGSolver s3(s1), s4(std::move(s2)); s3 = s4; swap(s1, s3); y = 0.0; s3.Mult(b, y); sees(y); s1.SetMaxIter(3); s1.SetVerbose(t.b()); s1.Mult(b, y); see(s1.GetNumIterations()); sees(y); break; }
            case 1: { la::MINRESSolver s1(A, 4 * n + 20, 1e-8, 1e-10, t.b()); s1.Mult(b, y); la::MINRESSolver s2(s1), s3(std::move(s1)); s2 = s3; swap(s2, s3); sees(y); y = 0.0; s3.Mult(b, y); sees(y); la::MINRESSolver d; d = s2; y = 0.0; d.Mult(b, y); see(d.GetNumIterations()); sees(y); break; }
            case 2: { la::CG(A, b, y, 4 * n + 20, 1e-8, 1e-10, t.b()); sees(y); y = 0.0; la::PCG(A, M, b, y, 4 * n + 20, 1e-8, 1e-10, t.b()); sees(y); see(la::CG(A, b, 4 * n + 20, 1e-8, 1e-10).size()); see(la::PCG(A, M, b, 4 * n + 20, 1e-8, 1e-10).size()); break; }
            case 3: { la::PMINRESSolver s1(A, M, 4 * n + 20, 1e-8, 1e-10, t.b()); s1.Mult(b, y); la::PMINRESSolver s2(s1), s3(std::move(s1)); s2 = s3; swap(s2, s3); sees(y); y = 0.0; s3.Mult(b, y); sees(y); y = 0.0; la::MINRES(A, b, y, 4 * n + 20, 1e-8, 1e-10, t.b()); sees(y); y = 0.0; la::PMINRES(A, M, b, y, 4 * n + 20, 1e-8, 1e-10, t.b()); sees(y); see(la::MINRES(A, b, 4 * n + 20, 1e-8, 1e-10).size()); see(la::PMINRES(A, M, b, 4 * n + 20, 1e-8, 1e-10).size()); break; }
            case 4: case 6:   // the direct solver: construction, copies, moves, assignment, swap, empty and diagonal systems
            {
                if (t.i(0, 4) == 0) { A = SD(std::vector<double>(n, 2.0)); }
                if (t.i(0, 6) == 0) { A = SD(0, 0); b = VD(0); y = VD(0); n = 0; }
                std::unique_ptr<SparseSolver> s1(new SparseSolver(A)); const la::Operator& o1 = *s1; o1.Mult(b, y); sees(y); o1.MultAT(b, y); sees(y); see(o1.Rows()); see(o1.Cols());
                SparseSolver s2(*s1), s3(std::move(*s1)); SparseSolver s4(M); s4 = s2; swap(s3, s4); s1.reset(t.b() ? new SparseSolver(s3) : nullptr);
                s2 = SparseSolver(M); if (t.b()) { SparseSolver s5(std::move(s2)); s2 = std::move(s5); }
                for (const la::Operator* o : {static_cast<const la::Operator*>(&s2), static_cast<const la::Operator*>(&s3), static_cast<const la::Operator*>(&s4)}) { VD u(o->Cols(), 1.0), w(o->Rows(), 0.0); o->Mult(u, w); sees(w); sees(o->Mult(u)); }
                break;
            }
            case 5:   // iteration counts and settings of solvers that never solved, in fresh storage
            {
                std::unique_ptr<la::PCGSolver> p(new la::PCGSolver(A, n, 1e-8, 1e-10)), p2(new la::PCGSolver(A, M, n, 1e-8, 1e-10)); std::unique_ptr<la::MINRESSolver> m(new la::MINRESSolver(A, n, 1e-8, 1e-10)), m2(new la::MINRESSolver()); std::unique_ptr<la::PMINRESSolver> q(new la::PMINRESSolver(A, M, n, 1e-8, 1e-10)), q2(new la::PMINRESSolver());
                auto look = [&] { for (const la::Solver* v : {static_cast<const la::Solver*>(p.get()), static_cast<const la::Solver*>(p2.get()), static_cast<const la::Solver*>(m.get()), static_cast<const la::Solver*>(m2.get()), static_cast<const la::Solver*>(q.get()), static_cast<const la::Solver*>(q2.get())}) { see(v->GetNumIterations()); see(v->Rows()); see(v->Cols()); } };
                look(); swap(*p, *p2); swap(*m, *m2); *q2 = *q; look(); m.reset(new la::MINRESSolver(*m2)); q.reset(new la::PMINRESSolver(std::move(*q2))); p2.reset(new la::PCGSolver(*p)); look(); m->Mult(b, y); q->Mult(b, y); p->Mult(b, y); look(); break;
            }
            case 7: case 8:   // partitioning
            {
                if (n == 0) { break; }
                int parts = t.i(1, n); SD G = A; if (t.b()) { for (auto& e : G.GetData()) { e = std::fabs(e) + 1; } } else { for (auto& e : G.GetData()) { e = 1; } }
                std::vector<int> p = k == 7 ? la::Partition(G, parts, 1.0 + 0.1 * t.i(0, 5), t.b(), t.b()) : la::Partition(G, parts); sees(p); CHECK((int) p.size() == n, "size of the partition");
                for (auto& e : p) { if (t.i(0, 3) == 0) { e += t.i(0, 3); } } la::RemoveEmpty(p); sees(p);
                break;
            }
            case 9:   // default constructed objects in fresh storage
            {
                std::unique_ptr<VD> a(new VD); std::unique_ptr<View> b2(new View); std::unique_ptr<DM> d(new DM); std::unique_ptr<SD> e(new SD); std::unique_ptr<CO> c(new CO); std::unique_ptr<LI> l(new LI); std::unique_ptr<BV> v(new BV); std::unique_ptr<BM> m(new BM); std::unique_ptr<la::BlockOperator> o(new la::BlockOperator); std::unique_ptr<la::Timer> w(new la::Timer); std::unique_ptr<la::EigenSolver> es(new la::EigenSolver);
                check(*a); see(b2->size()); check(*d); see(e->Rows()); see(e->Cols()); see(e->nnz()); see(c->Rows()); see(c->Cols()); see(l->Rows()); see(l->Cols()); see(v->size()); see(m->Rows()); see(m->Cols()); see(o->Rows()); see(o->Cols());
                c->Add(1, 2, 3.0); check(*c); l->Add(2, 1, 3.0); check(*l); CO c2(*c), c3(std::move(c2)); check(c3); LI l2(*l), l3(std::move(l2)); check(l3);
                if (n > 0) { la::EigenPair out = es->Solve(A, 1.0, -1); sees(out.first); la::EigenSolver es2(*es), es3(std::move(*es)); *es = es2; es3.Solve(A, 0.5, 1, out); sees(out.first); } break;
            }
        }
    }

    std::string path() { if (!file) { file.reset(new TestFile); } file->put(""); return file->path; }
    void file_op(int k)
    {
        std::string p = path();
        switch (k)
        {
            case 0: { VD& v = any(vd); la::WriteText(v, p); sees(la::ReadText<double>(p)); break; }
            case 1: { VI& v = any(vi); la::WriteText(v, p); sees(la::ReadText<int>(p)); break; }
            case 2: { la::WriteBinary(any(vd).data(), p); sees(la::ReadBinaryVect<double>(p)); la::WriteBinary(any(vi).data(), p); sees(la::ReadBinaryVect<int>(p)); break; }
            case 3: { la::WriteBinary(any(sd), p); check(la::ReadBinaryMat<double>(p)); p = path(); la::WriteBinary(any(si), p); check(la::ReadBinaryMat<int>(p)); break; }
            case 4: { bool sym = t.b(); la::WriteAdjList(any(sd), p, sym); check(la::ReadAdjList<double>(p, sym)); break; }
            case 5: { bool sym = t.b(); la::WriteCooList(any(sd), p, sym); check(la::ReadCooList<double>(p, sym)); std::ostringstream o; for (int q = t.i(0, 6); q > 0; --q) { o << t.i(0, 9) << " " << t.i(0, 9) << "\n"; } file->put(o.str()); check(la::ReadGraphList<double>(p)); file->put("%%MatrixMarket matrix coordinate real symmetric\n10 10 " + std::to_string(3) + "\n1 2\n10 10\n4 3\n"); check(la::ReadMTXList<double>(p)); break; }
            case 6: { SD& m = any(sd); la::WriteTable(m, p); check(la::ReadTable<double>(p)); break; }
            case 7: { SD& m = any(sd); la::WriteCSR(m, p); check(la::ReadCSR<double>(p)); break; }
            case 8: { SD& m = any(sd); la::WriteMTX(m, p); check(la::ReadMTX<double>(p)); break; }
        }
    }

    void misc_op(int k)
    {
        switch (k)
        {
            case 0:   // command line
            {
                static const char* names[] = {"--a", "--bb", "--c-c", "--d", "--verbose", "--x1"}; std::vector<std::string> words(1, "prog");
                for (int q = t.i(0, 8); q > 0; --q)
                {
                    if (t.i(0, 9) == 0) { words.push_back("--help"); continue; }
                    words.push_back(names[t.i(0, 5)]); int v = t.i(0, 4); if (v == 1) { words.push_back(std::to_string(t.i(-50, 50))); } else if (v == 2) { words.push_back("1.5"); } else if (v == 3) { words.push_back(std::string(t.i(1, 60), 'z')); }
                }
                std::vector<const char*> argv; for (auto& w : words) { argv.push_back(w.c_str()); } la::ArgParser p((int) argv.size(), argv.data()), q(p);
                int a = t.i(-5, 5); double d = 2.5; bool b = t.b(), c = false; std::string e = "default value";
                // options only where the argument has a form their type accepts
                auto form = [&](const char* n) { for (size_t i = 1; i < words.size(); ++i) { if (words[i] == n) { return i + 1 < words.size() && words[i + 1].compare(0, 2, "--") != 0 ? (words[i + 1][0] == 'z' ? 3 : 1) : 2; } } return 0; };
                if (form("--a") <= 1) { p.Parse(a, "--a", "an int"); } if (form("--bb") <= 1) { p.Parse(d, "--bb", "a double"); } if (form("--c-c") == 0 || form("--c-c") == 2) { p.Parse(b, "--c-c", "a bool"); } if (form("--d") != 2) { p.Parse(e, "--d", "a string"); } if (form("--verbose") == 0 || form("--verbose") == 2) { p.Parse(c, "--verbose", ""); p.Parse(c, "--verbose", "again"); }
                std::ostringstream o; p.ShowHelp(o); p.ShowErrors(o); p.ShowOptions(o); see(o.str()); see(p.IsGood()); see(a); see(d); see(b); see(c); see(e); q.ShowHelp(o); q = p; see(q.IsGood()); break;
            }
            case 1:   // timer
            {
                std::unique_ptr<la::Timer> w(new la::Timer(t.b() ? la::Timer::Start::True : la::Timer::Start::False)); int n = t.i(0, 12); for (int i = 0; i < n; ++i) { w->Click(); }
                la::Timer u(*w), v(std::move(*w)); u = v; if (n > 1) { CHECK(u.TotalTime() >= 0 && v[0] >= 0, "negative time"); } break;
            }
            case 2:   // verification helpers
            {
                bool ok = t.b(), threw = false; try { la::linalgcpp_verify(ok, "message"); } catch (const std::runtime_error&) { threw = true; } see(threw); CHECK(threw == !ok, "linalgcpp_verify"); la::linalgcpp_assert(true, "never"); break;
            }
            default:  // readers of files that do not exist
            {
                int threw = 0; const std::string p = "/nonexistent-directory/file";
                try { la::ReadText<double>(p); } catch (const std::runtime_error&) { ++threw; } try { la::ReadCSR<double>(p); } catch (const std::runtime_error&) { ++threw; } try { la::ReadMTX<double>(p); } catch (const std::runtime_error&) { ++threw; }
                try { la::WriteCSR(any(sd), p); } catch (const std::runtime_error&) { ++threw; } try { la::WriteText(any(vd), p); } catch (const std::runtime_error&) { ++threw; } see(threw);
            }
        }
    }

    void step()
    {
        fill_stack();
        int family = t.i(0, 18);
        if (family < 4) { int k = t.i(0, 17); op("vector", k); vector_op(k); }
        else if (family < 8) { int k = t.i(0, 25); op("dense", k); dense_op(k); }
        else if (family < 11) { int k = t.i(0, 21); op("sparse<double>", k); sparse_op_t(sd, k); }
        else if (family < 13) { int k = t.i(0, 21); op("sparse<int>", k); sparse_op_t(si, k); for (auto& m : si) { tame(m); } }
        else if (family < 15) { int k = t.i(0, 14); op("assembly", k); assembly_op(k); }
        else if (family == 15) { int k = t.i(0, 8); op("block", k); block_op(k); }
        else if (family == 16) { int k = t.i(0, 9); op("solver", k); solver_op(k); }
        else if (family == 17) { int k = t.i(0, 8); op("file", k); file_op(k); }
        else { int k = t.i(0, 3); op("misc", k); misc_op(k); }
        flush();
    }
    void op(const char* family, int k) { if (!t.again) { s.label(family); s.note([&](std::ostream & o) { o << family << " operation " << k << "; "; }); } }
    void verify_all()
    {
        for (auto& v : vd) { check(v); } for (auto& v : vi) { check(v); } for (auto& m : dm) { check(m); } for (auto& m : sd) { check(m); } for (auto& m : si) { check(m); }
        for (auto& m : co) { check(m); } for (auto& m : li) { check(m); } for (auto& v : bv) { check(v); } for (auto& m : bm) { check(m); }
    }
};

uint64_t execute(S& s, Tape& t, int steps, bool large)
{
    Machine m(t, s, large);
    for (int i = 0; i < steps; ++i) { m.step(); }
    m.verify_all();
    return m.h;
}
}

LEAK_LAW(programs, 60000, 2000000, "at least five operations")
{
    int steps = s.i(1, 24); s.nontrivial(steps >= 5);
    Tape t(s); execute(s, t, steps, true);
}

LAW(content_of_memory, 30000, 1000000, "at least five operations")
{
    int steps = s.i(1, 16); s.nontrivial(steps >= 5);
    struct Restore { ~Restore() { g_fill = -1; } } restore;
    Tape t(s); g_fill = 0x00; uint64_t a = execute(s, t, steps, true);
    t.again = true; g_fill = 0xff; uint64_t b = execute(s, t, steps, true);
    CHECK(a == b, "the same program computes different results when fresh memory has another content");
}

PBT_MAIN
