// C03: copies are equal and independent, moves and swaps transfer everything
// technique: stateful property-based testing: random copy/move/swap/assign/modify/destroy histories over a pool of objects against recorded value snapshots
// modules: sparsesolver
#include "gen.hpp"
#include "solve.hpp"
#include "sparsesolve.hpp"
using pbt::S;

namespace
{
typedef std::vector<double> Value;      // canonical content of an object
bool g_large = false;                   // objects of tens to thousands of entries
int extent(S& s, int lo, int small) { return g_large && s.chance(0.7) ? s.i(lo, small * small * 3) : s.size(lo, small); }
int length(S& s, int lo, int small) { return g_large && s.chance(0.7) ? s.i(lo, 3000) : s.size(lo, small); }

void put(Value& v, double x) { v.push_back(x); }
template <typename C> void puts_(Value& v, const C& c) { v.push_back((double) c.size()); for (auto x : c) { v.push_back((double) x); } }

// probe vector used to make operators show their content
la::Vector<double> probe(int n) { la::Vector<double> x(n); for (int i = 0; i < n; ++i) { x[i] = 1 + i * 0.5; } return x; }

template <typename V> void check_vector(const V& v, const char* what)
{
    CHECK((int) v.data().size() == v.size(), what << ": size() is " << v.size() << " but " << v.data().size() << " entries are stored");
    CHECK(v.size() == 0 || v.begin() == v.data().data(), what << ": the view part does not look at the vector's own storage");
    CHECK(v.end() - v.begin() == v.size(), what << ": extent");
}

template <typename E>
struct VectorT
{
    typedef la::Vector<E> T;
    static const bool assignable = true;
    static T make(S& s) { int n = length(s, 0, 6); return T(values<E>(s, n, INT)); }
    static Value snap(const T& v) { check_vector(v, "Vector"); Value o; puts_(o, v.data()); for (int i = 0; i < v.size(); ++i) { CHECK(v[i] == v.data()[i], "entry " << i); } return o; }
    static void mutate(S& s, T& v)
    {
        std::vector<E> old(v.data());
        int n = v.size();
        switch (s.i(0, 7))
        {
            case 0: if (n > 0) { v[s.i(0, n - 1)] = (E) s.sgn_int(50); } break;
            case 1: v = (E) s.sgn_int(50); break;
            case 2: v += (E) 1; break;
            case 3:
            {
                int m = length(s, 0, 8); E val = (E) s.sgn_int(20); v.SetSize(m, val);
                CHECK(v.size() == m, "SetSize");
                for (int i = 0; i < m; ++i) { CHECK(v[i] == (i < n ? old[i] : val), "SetSize(" << m << ", " << val << ") from " << n << " entries: entry " << i << " is " << v[i]); }
                break;
            }
            case 4:
            {
                int m = length(s, 0, 8); v.SetSize(m);
                CHECK(v.size() == m, "SetSize");
                for (int i = 0; i < m; ++i) { CHECK(v[i] == (i < n ? old[i] : (E) 0), "SetSize(" << m << ") from " << n << " entries: entry " << i << " is " << v[i]); }
                break;
            }
            case 5:         // assignment from a view on other storage, of any size
            {
                std::vector<E> b = values<E>(s, length(s, 0, 8), INT); la::VectorView<E> w(b.data(), b.size());
                int how = s.i(0, 2);
                if (how == 0) { const la::VectorView<E>& cw = w; v = cw; } else if (how == 1) { v = w; } else { v = la::VectorView<E>(b.data(), b.size()); }
                CHECK(v.data() == b, "assignment from a view");
                for (auto& x : b) { x = (E) 999; }
                break;
            }
            case 6: for (E& e : v) { e = (E) (2 * e); } break;
            default: { T w(v.data().data(), n); CHECK(w.data() == old, "construction from a pointer"); w = (E) 7; T x((const la::VectorView<E>&) v); x += (E) 3; CHECK(v.data() == old, "copy is not independent"); v = std::move(x); }
        }
        for (E& e : v) { if (std::fabs((double) e) > 1e6) { e = (E) 1; } }
    }
};

struct BlockVectorT
{
    typedef la::BlockVector<double> T;
    static const bool assignable = true;
    static std::vector<int> offs(S& s) { std::vector<int> o(1, 0); int k = g_large ? s.i(1, 12) : s.i(1, 4); for (int i = 0; i < k; ++i) { o.push_back(o.back() + s.i(0, g_large ? 12 : 3)); } return o; }
    static T make(S& s)
    {
        std::vector<int> o = offs(s);
        switch (s.i(0, 3))
        {
            case 0: return T();
            case 1: return T(o, (double) s.sgn_int(9));
            case 2: { la::Vector<double> d = vec<double>(s, o.back(), INT); return T(d, o); }
            default: { T t(o); for (int i = 0; i < t.size(); ++i) { CHECK(t[i] == 0, "fresh block vector is not zero"); } return t; }
        }
    }
    static Value snap(const T& v)
    {
        check_vector(v, "BlockVector");
        Value o; puts_(o, v.data()); puts_(o, v.GetOffsets());
        CHECK(v.GetOffsets().back() == v.size(), "offsets end at " << v.GetOffsets().back() << " for " << v.size() << " entries");
        for (size_t b = 0; b + 1 < v.GetOffsets().size(); ++b)
        {
            const la::VectorView<double>& w = v.GetBlock(b);
            CHECK(w.size() == v.GetOffsets()[b + 1] - v.GetOffsets()[b], "block size");
            for (int i = 0; i < w.size(); ++i) { CHECK(&w[i] == v.begin() + v.GetOffsets()[b] + i, "block " << b << " is not a window onto the vector"); }
        }
        return o;
    }
    static void mutate(S& s, T& v)
    {
        int nb = (int) v.GetOffsets().size() - 1;
        if (nb > 0 && s.chance(0.6)) { la::VectorView<double> w = v.GetBlock(s.i(0, nb - 1)); w = (double) s.sgn_int(50); }
        else if (s.chance(0.5)) { v += 1.0; }
        else { la::Vector<double> d = vec<double>(s, v.size(), INT); v = d; }
        for (auto& e : v) { if (std::fabs(e) > 1e6) { e = 1; } }
    }
};

struct DenseT
{
    typedef la::DenseMatrix T;
    static const bool assignable = true;
    static T make(S& s) { if (s.chance(0.1)) { return T(); } int r = extent(s, 0, 5), c = extent(s, 0, 5); return dense(s, r, c, INT); }
    static Value snap(const T& m)
    {
        Value o; put(o, m.Rows()); put(o, m.Cols()); std::vector<double> d; m.CopyData(d); puts_(o, d);
        CHECK((int) d.size() == m.Rows() * m.Cols(), "dense storage has " << d.size() << " entries for " << m.Rows() << "x" << m.Cols());
        for (int i = 0; i < m.Rows(); ++i) for (int j = 0; j < m.Cols(); ++j) { CHECK(m(i, j) == d[i + j * m.Rows()], "element access"); }
        return o;
    }
    static void mutate(S& s, T& m)
    {
        switch (s.i(0, 4))
        {
            case 0: if (m.Rows() * m.Cols() > 0) { m(s.i(0, m.Rows() - 1), s.i(0, m.Cols() - 1)) = s.sgn_int(50); } break;
            case 1: m = (double) s.sgn_int(50); break;
            case 2: m += m; m *= 0.5; m *= -1.0; break;
            case 3: if (m.Cols() > 0) { la::VectorView<double> v = m.GetColView(s.i(0, m.Cols() - 1)); v = 3.0; } break;
            default: { int r = extent(s, 0, 5), c = extent(s, 0, 5); if (s.chance(0.5)) { m.SetSize(r, c); } else { m.SetSize(r, c, 4.0); } m = 2.0; if (r * c > 0) { m(0, 0) = 5; } }
        }
    }
};

template <typename E>
struct SparseT
{
    typedef la::SparseMatrix<E> T;
    static const bool assignable = true;
    static T make(S& s) { if (s.chance(0.1)) { return T(); } return csr<E>(s, extent(s, 0, 5), extent(s, 0, 5), INT).mat(); }
    static Value snap(const T& m)
    {
        expect_csr(m, "SparseMatrix");
        Value o; put(o, m.Rows()); put(o, m.Cols()); puts_(o, m.GetIndptr()); puts_(o, m.GetIndices()); puts_(o, m.GetData()); return o;
    }
    static void mutate(S& s, T& m)
    {
        switch (s.i(0, 5))
        {
            case 0: if (m.nnz() > 0) { m.GetData()[s.i(0, m.nnz() - 1)] = (E) s.sgn_int(50); } break;
            case 1: m *= (E) 2; for (auto& x : m.GetData()) { if (std::fabs((double) x) > 1e6) { x = 1; } } break;
            case 2: if (m.Rows() > 0) { m.EliminateRow(s.i(0, m.Rows() - 1)); } break;
            case 3: m.EliminateZeros(); break;
            case 4: m.SortIndices(); break;
            default: m = (E) (1 + s.i(0, 5));
        }
    }
};

struct CooT
{
    typedef la::CooMatrix<double> T;
    static const bool assignable = true;
    static T make(S& s)
    {
        bool sized = s.chance(0.5); int r = extent(s, 1, 5), c = extent(s, 1, 5);
        T m = sized ? T(r, c) : T();
        int k = extent(s, sized ? 0 : 1, 6);
        for (int i = 0; i < k; ++i) { m.Add(s.i(0, r - 1), s.i(0, c - 1), s.sgn_int(9)); }
        return m;
    }
    static Value snap(const T& m)
    {
        Value o; la::DenseMatrix d = m.ToDense(); put(o, d.Rows()); put(o, d.Cols()); std::vector<double> x; d.CopyData(x); puts_(o, x);
        std::ostringstream p; m.Print("", p); for (char ch : p.str()) { put(o, ch); }
        return o;
    }
    static void mutate(S& s, T& m)
    {
        la::DenseMatrix d = m.ToDense();
        if (s.chance(0.7) && d.Rows() > 0 && d.Cols() > 0) { m.Add(s.i(0, d.Rows() - 1), s.i(0, d.Cols() - 1), s.sgn_int(9)); }
        else { m.EliminateZeros(0.5); if (s.chance(0.5)) { m.Reserve(s.i(0, 40)); } }
    }
};

struct LilT
{
    typedef la::LilMatrix<double> T;
    static const bool assignable = true;
    static T make(S& s)
    {
        bool sized = s.chance(0.5); int r = extent(s, 1, 5), c = extent(s, 1, 5);
        T m = sized ? T(r, c) : T();
        int k = extent(s, sized ? 0 : 1, 6);
        for (int i = 0; i < k; ++i) { m.Add(s.i(0, r - 1), s.i(0, c - 1), s.sgn_int(9)); }
        return m;
    }
    static Value snap(const T& m)
    {
        Value o; put(o, m.Rows()); put(o, m.Cols());
        la::DenseMatrix d = m.ToDense(); put(o, d.Rows()); put(o, d.Cols()); std::vector<double> x; d.CopyData(x); puts_(o, x);
        std::ostringstream p; m.Print("", p); for (char ch : p.str()) { put(o, ch); }
        return o;
    }
    static void mutate(S& s, T& m)
    {
        la::DenseMatrix d = m.ToDense();
        if (s.chance(0.7) && d.Rows() > 0 && d.Cols() > 0) { m.Add(s.i(0, d.Rows() - 1), s.i(0, d.Cols() - 1), s.sgn_int(9)); }
        else { m.EliminateZeros(0.5); }
    }
};

struct BlockMatrixT
{
    typedef la::BlockMatrix<double> T;
    static const bool assignable = true;
    static T make(S& s)
    {
        if (s.chance(0.1)) { return T(); }
        std::vector<int> ro = BlockVectorT::offs(s), co = s.chance(0.3) ? ro : BlockVectorT::offs(s);
        T m(ro, co);
        for (size_t i = 0; i + 1 < ro.size(); ++i) for (size_t j = 0; j + 1 < co.size(); ++j)
        { if (s.chance(0.6)) { m.SetBlock(i, j, csr<double>(s, ro[i + 1] - ro[i], co[j + 1] - co[j], INT).mat()); } }
        return m;
    }
    static Value snap(const T& m)
    {
        Value o; put(o, m.Rows()); put(o, m.Cols()); puts_(o, m.GetRowOffsets()); puts_(o, m.GetColOffsets());
        for (size_t i = 0; i + 1 < m.GetRowOffsets().size(); ++i) for (size_t j = 0; j + 1 < m.GetColOffsets().size(); ++j)
        { const la::SparseMatrix<double>& b = m.GetBlock(i, j); put(o, b.Rows()); put(o, b.Cols()); puts_(o, b.GetIndptr()); puts_(o, b.GetIndices()); puts_(o, b.GetData()); }
        la::Vector<double> x = probe(m.Cols()), y(m.Rows(), 0.0); m.Mult(x, (la::VectorView<double>&) y); puts_(o, y.data());
        return o;
    }
    static void mutate(S& s, T& m)
    {
        int nr = m.GetRowOffsets().size() - 1, nc = m.GetColOffsets().size() - 1;
        if (nr == 0 || nc == 0) { return; }
        int i = s.i(0, nr - 1), j = s.i(0, nc - 1);
        la::SparseMatrix<double> b = csr<double>(s, m.GetRowOffsets()[i + 1] - m.GetRowOffsets()[i], m.GetColOffsets()[j + 1] - m.GetColOffsets()[j], INT).mat();
        if (s.chance(0.5)) { m.SetBlock(i, j, b); b *= 5.0; } else { m.SetBlock(i, j, std::move(b)); }
    }
};

struct BlockOpT
{
    typedef la::BlockOperator T;
    static const bool assignable = false;      // the class offers construction, swap and destruction only
    static const std::vector<la::SparseMatrix<double>>& parts()
    {
        static std::vector<la::SparseMatrix<double>> p;
        if (p.empty()) { for (int r = 0; r < 4; ++r) for (int c = 0; c < 4; ++c) for (int k = 1; k < 3; ++k)
        {
            std::vector<int> ip(1, 0), ix; std::vector<double> d;
            for (int i = 0; i < r; ++i) { for (int j = 0; j < c; ++j) { ix.push_back(j); d.push_back(k * 10 + i - 2 * j); } ip.push_back(ix.size()); }
            p.push_back(la::SparseMatrix<double>(ip, ix, d, r, c));
        } }
        return p;
    }
    static std::vector<int> offs(S& s) { std::vector<int> o(1, 0); int k = s.i(1, g_large ? 8 : 4); for (int i = 0; i < k; ++i) { o.push_back(o.back() + s.i(0, 3)); } return o; }
    static void set(S& s, T& m, int i, int j)
    {
        int r = m.GetRowOffsets()[i + 1] - m.GetRowOffsets()[i], c = m.GetColOffsets()[j + 1] - m.GetColOffsets()[j];
        m.SetBlock(i, j, parts()[(r * 4 + c) * 2 + s.i(0, 1)]);
    }
    static T make(S& s)
    {
        std::vector<int> ro = offs(s), co = offs(s);
        int how = s.i(0, 3);
        if (how == 0) { return T(); }
        T m = how == 1 ? T(ro) : T(ro, co);
        if (how == 1) { co = ro; }
        for (size_t i = 0; i + 1 < ro.size(); ++i) for (size_t j = 0; j + 1 < co.size(); ++j) { if (s.chance(0.6)) { set(s, m, i, j); } }
        return m;
    }
    static Value snap(const T& m)
    {
        Value o; put(o, m.Rows()); put(o, m.Cols()); puts_(o, m.GetRowOffsets()); puts_(o, m.GetColOffsets());
        for (size_t i = 0; i + 1 < m.GetRowOffsets().size(); ++i) for (size_t j = 0; j + 1 < m.GetColOffsets().size(); ++j)
        { const la::Operator* b = m.GetBlock(i, j); put(o, b ? 1 : 0); if (b) { put(o, (double) ((const la::SparseMatrix<double>*) b - parts().data())); } }
        la::Vector<double> x = probe(m.Cols()), y(m.Rows(), 0.0); m.Mult(x, (la::VectorView<double>&) y); puts_(o, y.data());
        la::Vector<double> z(m.Cols(), 0.0), u = probe(m.Rows()); m.MultAT(u, (la::VectorView<double>&) z); puts_(o, z.data());
        return o;
    }
    static void mutate(S& s, T& m)
    {
        int nr = m.GetRowOffsets().size() - 1, nc = m.GetColOffsets().size() - 1;
        if (nr > 0 && nc > 0) { set(s, m, s.i(0, nr - 1), s.i(0, nc - 1)); }
    }
};


// symmetric positive definite matrices shared by the solvers (which refer to their operators)
const la::SparseMatrix<double>& system(int n, int k)
{
    static std::map<std::pair<int, int>, la::SparseMatrix<double>> cache; auto it = cache.find({n, k});
    if (it == cache.end())
    {
        la::CooMatrix<double> c(n, n); for (int i = 0; i < n; ++i) { c.Add(i, i, 4.0 + k + i % 3); if (i > 0) { c.AddSym(i, i - 1, -1.0); } if (i > 2) { c.AddSym(i, i - 3, 0.5 * (k + 1)); } }
        it = cache.emplace(std::make_pair(n, k), c.ToSparse()).first;
    }
    return it->second;
}
const la::SparseMatrix<double>& diagonal(int n, int k)
{
    static std::map<std::pair<int, int>, la::SparseMatrix<double>> cache; auto it = cache.find({n, k});
    if (it == cache.end()) { std::vector<double> d(n); for (int i = 0; i < n; ++i) { d[i] = 0.25 / (1 + (i + k) % 2); } it = cache.emplace(std::make_pair(n, k), la::SparseMatrix<double>(d)).first; }
    return it->second;
}
int solver_order(S& s) { return g_large ? s.pick({1, 5, 40, 200}) : s.pick({1, 2, 5, 8}); }
void settings(S& s, la::Solver& v)
{
    switch (s.i(0, 3))
    {
        case 0: v.SetMaxIter(s.i(0, 6)); break;
        case 1: v.SetRelTol(s.pick({1e-12, 1e-3, 0.5})); break;
        case 2: v.SetAbsTol(s.pick({1e-12, 1e-2, 1.0})); break;
        default: v.SetOperator(system(v.Rows(), s.i(0, 2)));
    }
}
// solving changes only the workspace and the iteration count, so the value is what a solve from a fixed start gives
template <typename T_> Value solved(const T_& v)
{
    Value o; put(o, v.Rows()); put(o, v.Cols()); put(o, v.GetNumIterations());
    T_ w(v); la::Vector<double> b = probe(w.Cols()), x(w.Cols(), 0.0); w.Mult(b, x); puts_(o, x.data()); put(o, w.GetNumIterations()); return o;
}
struct PcgT
{
    typedef la::PCGSolver T; static const bool assignable = true;
    static T make(S& s) { int n = solver_order(s); T t = s.chance(0.5) ? T(system(n, s.i(0, 2)), s.i(1, 8), 1e-9, 1e-10) : T(system(n, s.i(0, 2)), diagonal(n, s.i(0, 2)), s.i(1, 8), 1e-9, 1e-10); if (s.chance(0.5)) { la::Vector<double> x(n, 0.0); t.Mult(probe(n), x); } return t; }
    static Value snap(const T& v) { return solved(v); }
    static void mutate(S& s, T& v) { int k = s.i(0, 3); if (k == 0) { la::Vector<double> x(v.Rows(), 1.0); v.Mult(probe(v.Rows()), x); } else if (k == 1) { v.SetPreconditioner(diagonal(v.Rows(), s.i(0, 2))); } else { settings(s, v); } }
};
struct MinresT
{
    typedef la::MINRESSolver T; static const bool assignable = true;
    static T make(S& s) { int n = solver_order(s); T t(system(n, s.i(0, 2)), s.i(1, 8), 1e-9, 1e-10); if (s.chance(0.5)) { la::Vector<double> x(n, 0.0); t.Mult(probe(n), x); } return t; }
    static Value snap(const T& v) { return solved(v); }
    static void mutate(S& s, T& v) { if (s.chance(0.4)) { la::Vector<double> x(v.Rows(), 1.0); v.Mult(probe(v.Rows()), x); } else { settings(s, v); } }
};
struct PminresT
{
    typedef la::PMINRESSolver T; static const bool assignable = true;
    static T make(S& s) { int n = solver_order(s); T t(system(n, s.i(0, 2)), diagonal(n, s.i(0, 2)), s.i(1, 8), 1e-9, 1e-10); if (s.chance(0.5)) { la::Vector<double> x(n, 0.0); t.Mult(probe(n), x); } return t; }
    static Value snap(const T& v) { return solved(v); }
    static void mutate(S& s, T& v) { if (s.chance(0.4)) { la::Vector<double> x(v.Rows(), 1.0); v.Mult(probe(v.Rows()), x); } else { settings(s, v); } }
};
struct DirectT
{
    typedef SparseSolver T; static const bool assignable = true;
    static T make(S& s) { if (s.chance(0.1)) { return T(); } return T(system(s.chance(0.1) ? 0 : solver_order(s), s.i(0, 2))); }
    static Value snap(const T& v) { Value o; put(o, v.Rows()); put(o, v.Cols()); const la::Operator& op = v; la::Vector<double> b = probe(v.Cols()), x(v.Rows(), 0.0), y(v.Rows(), 0.0); op.Mult(b, x); puts_(o, x.data()); op.MultAT(b, y); puts_(o, y.data()); return o; }
    static void mutate(S& s, T& v) { v = make(s); }
};
// the eigensolver keeps a workspace only, so every object must answer alike
struct EigenBox : la::EigenSolver { };
void swap(EigenBox& a, EigenBox& b) { EigenBox t(std::move(a)); a = std::move(b); b = std::move(t); }
struct EigenT
{
    typedef EigenBox T; static const bool assignable = true;
    static la::DenseMatrix matrix(int n) { la::DenseMatrix a(n, n); for (int i = 0; i < n; ++i) { a(i, i) = 2 + i * i; if (i > 0) { a(i, i - 1) = a(i - 1, i) = -1; } } return a; }
    static T make(S& s) { T t; if (s.chance(0.6)) { mutate(s, t); } return t; }
    static Value snap(const T& v) { Value o; T w(v); la::EigenPair p = w.Solve(matrix(4), 1.0, -1); puts_(o, p.first); std::vector<double> d; p.second.CopyData(d); puts_(o, d); return o; }
    static void mutate(S& s, T& v) { la::EigenPair p = v.Solve(matrix(s.i(1, g_large ? 40 : 9)), 1.0, -1); CHECK(p.first.size() > 0, "no eigenvalue"); }
};

template <typename P, bool A> struct Assign
{
    static void copy(typename P::T& a, const typename P::T& b) { a = b; }
    static void move(typename P::T& a, typename P::T& b) { a = std::move(b); }
    static void stdswap(typename P::T& a, typename P::T& b) { std::swap(a, b); }
    static void fresh(typename P::T& a, typename P::T b) { a = std::move(b); }
};
template <typename P> struct Assign<P, false>
{
    static void copy(typename P::T& a, const typename P::T& b) { typename P::T t(b); swap(a, t); }
    static void move(typename P::T& a, typename P::T& b) { typename P::T t(std::move(b)); swap(a, t); }
    static void stdswap(typename P::T& a, typename P::T& b) { swap(b, a); }
    static void fresh(typename P::T& a, typename P::T b) { swap(b, a); }
};

template <typename P>
void history(S& s)
{
    typedef typename P::T T; typedef Assign<P, P::assignable> A;
    const int N = 4;
    std::vector<std::unique_ptr<T>> pool(N);
    std::vector<Value> model(N);
    std::vector<bool> known(N, false);       // false: moved from, content unspecified
    for (int k = 0; k < N; ++k)
    {
        pool[k].reset(new T(P::make(s))); model[k] = P::snap(*pool[k]); known[k] = true;
    }
    int steps = s.i(1, 16);
    bool cp = false, mv = false, md = false;
    for (int st = 0; st < steps; ++st)
    {
        int a = s.i(0, N - 1), b = s.i(0, N - 1);
        int op = s.weighted({3, 2, 3, 2, 2, 1, 4, 1, 1, 1, 1});
        const char* what = "";
        if ((op == 0 || op == 2 || op == 6 || op == 8) && !known[op == 6 ? a : b]) { op = 9; }
        switch (op)
        {
            case 0: what = "copy construction"; { std::unique_ptr<T> t(new T((const T&) *pool[b])); if (a != b) { pool[a] = std::move(t); model[a] = model[b]; known[a] = true; } else { model[a] = model[b]; pool[a] = std::move(t); } cp = true; } break;
            case 1: what = "move construction"; { std::unique_ptr<T> t(new T(std::move(*pool[b]))); Value v = model[b]; bool kn = known[b]; known[b] = false; pool[a] = std::move(t); model[a] = v; known[a] = kn; mv = true; } break;
            case 2: what = "copy assignment"; A::copy(*pool[a], (const T&) *pool[b]); model[a] = model[b]; known[a] = true; cp = true; break;
            case 3: what = "move assignment"; if (a != b) { A::move(*pool[a], *pool[b]); model[a] = model[b]; known[a] = known[b]; known[b] = false; mv = true; } break;
            case 4: what = "swap"; swap(*pool[a], *pool[b]); std::swap(model[a], model[b]); { bool t = known[a]; known[a] = known[b]; known[b] = t; } mv = true; break;
            case 5: what = "std::swap"; if (a != b) { A::stdswap(*pool[a], *pool[b]); std::swap(model[a], model[b]); bool t = known[a]; known[a] = known[b]; known[b] = t; } mv = true; break;
            case 6: what = "modification"; P::mutate(s, *pool[a]); model[a] = P::snap(*pool[a]); md = true; break;
            case 7: what = "destruction and rebuild"; pool[a].reset(); pool[a].reset(new T(P::make(s))); model[a] = P::snap(*pool[a]); known[a] = true; break;
            case 8: what = "copy then discard"; { T t((const T&) *pool[b]); CHECK(P::snap(t) == model[b], "copy differs from its source"); P::mutate(s, t); } break;
            case 9: what = "assignment of a new object"; A::fresh(*pool[a], P::make(s)); model[a] = P::snap(*pool[a]); known[a] = true; break;
            default: what = "chained move a -> b -> a"; if (a != b) { A::move(*pool[b], *pool[a]); A::move(*pool[a], *pool[b]); known[b] = false; } mv = true; break;
        }
        s.label(std::string("op:") + what);
        if (s.verbose) { s.say(std::string(what) + " " + std::to_string(a) + " " + std::to_string(b)); }
        for (int k = 0; k < N; ++k)
        {
            if (!known[k]) { continue; }
            Value v = P::snap(*pool[k]);
            CHECK(v == model[k], "after " << what << " (a=" << a << ", b=" << b << ") object " << k << " holds " << show(v) << ", expected " << show(model[k]));
        }
    }
    s.nontrivial(cp && mv && md && steps >= 4);
}
}

#define RULE "at least four steps with a copy, a move or swap, and a modification"
LEAK_LAW(vector_double, 25000, 250000, RULE) { history<VectorT<double>>(s); }
LEAK_LAW(vector_int, 15000, 150000, RULE) { history<VectorT<int>>(s); }
LEAK_LAW(blockvector, 20000, 200000, RULE) { history<BlockVectorT>(s); }
LEAK_LAW(dense, 20000, 200000, RULE) { history<DenseT>(s); }
LEAK_LAW(sparse_double, 15000, 150000, RULE) { history<SparseT<double>>(s); }
LEAK_LAW(sparse_int, 10000, 100000, RULE) { history<SparseT<int>>(s); }
LEAK_LAW(coo, 12000, 120000, RULE) { history<CooT>(s); }
LEAK_LAW(lil, 12000, 120000, RULE) { history<LilT>(s); }
LEAK_LAW(blockmatrix, 10000, 100000, RULE) { history<BlockMatrixT>(s); }
LEAK_LAW(blockoperator, 12000, 120000, RULE) { history<BlockOpT>(s); }
LEAK_LAW(pcg_solver, 3000, 40000, RULE) { history<PcgT>(s); }
LEAK_LAW(minres_solver, 3000, 40000, RULE) { history<MinresT>(s); }
LEAK_LAW(pminres_solver, 3000, 40000, RULE) { history<PminresT>(s); }
LEAK_LAW(direct_solver, 3000, 40000, RULE) { history<DirectT>(s); }
LEAK_LAW(eigen_solver, 3000, 40000, RULE) { history<EigenT>(s); }
struct Large { Large() { g_large = true; } ~Large() { g_large = false; } };
LEAK_LAW(large, 2500, 40000, RULE)
{
    Large on;
    switch (s.i(0, 12))
    {
        case 0: history<VectorT<double>>(s); break; case 1: history<VectorT<int>>(s); break; case 2: history<BlockVectorT>(s); break; case 3: history<DenseT>(s); break; case 4: history<SparseT<double>>(s); break;
        case 5: history<CooT>(s); break; case 6: history<LilT>(s); break; case 7: history<BlockMatrixT>(s); break; case 8: history<BlockOpT>(s); break; case 9: history<PcgT>(s); break; case 10: history<MinresT>(s); break; case 11: history<PminresT>(s); break;
        default: history<DirectT>(s);
    }
}

// views copied and swapped refer to the same storage; assignment copies values
LAW(view_aliasing, 30000, 300000, "a nonempty view")
{
    int n = s.size(0, 8);
    std::vector<double> a = values<double>(s, n, INT), b = values<double>(s, n, INT), a0(a), b0(b);
    la::VectorView<double> va(a.data(), n), vb(b), c(va);
    la::VectorView<double> d(std::move(c));
    s.note([&](std::ostream & o) { o << show(a) << show(b); });
    CHECK(d.begin() == a.data() && d.size() == n && va.begin() == a.data(), "a copied view refers to other storage");
    if (s.chance(0.5)) { swap(va, vb); CHECK(va.begin() == b.data() && vb.begin() == a.data() && a == a0 && b == b0, "swap of views"); swap(va, vb); }
    int how = s.i(0, 2);
    const la::VectorView<double>& cvb = vb;
    if (how == 0) { va = vb; } else if (how == 1) { va = cvb; } else { va = la::VectorView<double>(b); }
    CHECK(a == b0 && b == b0, "assignment of views copies the entries");
    CHECK(va.begin() == a.data() && vb.begin() == b.data(), "assignment must not redirect a view");
    if (n > 0) { va[0] = 77; CHECK(a[0] == 77 && d[0] == 77 && b[0] == b0[0], "write through a view"); }
    s.nontrivial(n > 0);
}

PBT_MAIN
