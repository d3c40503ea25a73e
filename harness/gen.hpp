// Generators, reference models and comparison oracles shared by the harnesses.
#ifndef VERIF_GEN_HPP
#define VERIF_GEN_HPP

#include "pbt.hpp"
#include "linalgcpp.hpp"

namespace la = linalgcpp;
typedef long double ld;

// ------------------------------------------------------------------ numbers

// INT: small integers held in the element type (every sum and product of a
// case is exact, so any evaluation order gives bit-identical results).
// REAL: doubles of mixed magnitude (comparisons use an error bound).
enum Mode { INT = 0, REAL = 1 };

inline double real_from(pbt::Rng& r)
{
    double m = r.unit() * 2 - 1;
    int e = (int) r.below(9) - 4;
    return std::ldexp(m, e);
}

// harnesses whose oracle needs well scaled data switch the extreme entries off
inline bool& extreme_values() { static bool on = true; return on; }

template <typename T>
T value(pbt::S& s, Mode m, int range = 9)
{
    if (m == INT || std::is_integral<T>::value) { return (T) s.sgn_int(range); }
    int k = s.weighted({5, 1, 1});
    if (k == 1) { return (T) s.sgn_int(9); }
    if (k == 2)
    {
        // entries far from the size of the others, sometimes below any absolute threshold
        bool simple; pbt::Rng r = s.bulk(simple);
        if (simple) { return (T) 0; }
        int e = r.below(6) == 0 && extreme_values() ? (int) r.below(161) - 80 : (int) r.below(41) - 20;
        return (T) std::ldexp(real_from(r), e);
    }
    bool simple; pbt::Rng r = s.bulk(simple);
    return (T) (simple ? 0 : real_from(r));
}

// many values at once: individually recorded for small counts, bulk otherwise
template <typename T>
std::vector<T> values(pbt::S& s, int n, Mode m, int range = 9)
{
    std::vector<T> v(n);
    int kind = n < 2 ? 0 : s.weighted({20, 1, 1, 1, 1, 1, 1});
    if (kind > 0)                                         // values with a structure that shortcuts look for
    {
        T a = value<T>(s, m, range), b = value<T>(s, m, range); int at = s.i(0, n - 1);
        for (int k = 0; k < n; ++k)
        {
            switch (kind)
            {
                case 1: v[k] = a; break;                                         // constant
                case 2: v[k] = k == at ? (a == 0 ? (T) 1 : a) : (T) 0; break;    // one entry
                case 3: v[k] = k < at ? a : b; break;                            // one step
                case 4: v[k] = (k + at) % 2 ? a : (T) - a; break;                // alternating
                case 5: v[k] = (T) ((at % 2 ? k : n - 1 - k) % (range + 1)); break;   // ramps
                default: v[k] = (T) ((k * 7 + at) % 3 - 1); break;               // signs
            }
        }
        s.label("structured values"); return v;
    }
    if (n <= 48) { for (auto& x : v) { x = value<T>(s, m, range); } return v; }
    bool simple; pbt::Rng r = s.bulk(simple);
    for (auto& x : v)
    {
        if (simple) { x = 0; }
        else if (m == INT || std::is_integral<T>::value) { x = (T) ((int) r.below(2 * range + 1) - range); }
        else if (r.below(40) == 0) { x = (T) std::ldexp(real_from(r), extreme_values() ? (int) r.below(161) - 80 : (int) r.below(41) - 20); }
        else { x = (T) real_from(r); }
    }
    return v;
}

// nonzero integer or real, bounded away from zero
template <typename T>
T nonzero(pbt::S& s, Mode m, int range = 9)
{
    if (m == INT || std::is_integral<T>::value) { int v = s.i(1, range); return (T) (s.chance(0.5) ? -v : v); }
    bool simple; pbt::Rng r = s.bulk(simple);
    double v = simple ? 1.0 : 0.25 + 3.75 * r.unit();
    return (T) (s.chance(0.5) ? -v : v);
}
// power of two with sign: products and quotients with it stay exact
inline double dyadic(pbt::S& s)
{
    double v = std::ldexp(1.0, s.pick({0, 1, -1, 2, -2, 3}));
    return s.chance(0.4) ? -v : v;
}

// a size: mostly small, sometimes large enough to cross any blocking threshold
// shapes beyond the usual sizes: both dimensions up to lim, or one of them in the hundreds or thousands
struct Shape { int r, c; };
inline Shape big_shape(pbt::S& s, int lim, int tall = 2000)
{
    int kind = s.weighted({2, 2, 2}), a = s.i(20, kind == 0 ? lim : tall), b = kind == 0 ? s.i(20, lim) : s.i(1, 6);
    if (kind == 2) { std::swap(a, b); }
    return Shape {a, b};
}
// one dimension beyond what 16 bits can count, the other tiny
inline int huge_length(pbt::S& s) { return s.chance(0.5) ? s.pick({65536, 65535, 65537, 70000, 131072}) : s.i(66000, 140000); }
inline Shape huge_shape(pbt::S& s) { int a = huge_length(s), b = s.i(1, 3); if (s.chance(0.5)) { std::swap(a, b); } return Shape {a, b}; }
inline int dim(pbt::S& s, int max_small = 12, int max_large = 60)
{
    // dimensions are equal more often than by chance: square matrices, square factors
    if (s.last_dim >= 0 && s.last_dim <= max_large && s.chance(0.2)) { return s.last_dim; }
    int k = s.weighted({12, 4, 1});
    return s.last_dim = k == 0 ? s.size(0, max_small) : k == 1 ? s.i(0, max_small * 2) : s.i(max_small, max_large);
}

// ------------------------------------------------------- reference matrices

struct Ref          // dense reference matrix in long double
{
    int r, c;
    std::vector<ld> v;
    Ref() : r(0), c(0) { }
    Ref(int r_, int c_) : r(r_), c(c_), v((size_t) r_ * c_, 0.0L) { }
    ld& operator()(int i, int j) { return v[(size_t) i * c + j]; }
    ld operator()(int i, int j) const { return v[(size_t) i * c + j]; }
    Ref T() const { Ref t(c, r); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { t(j, i) = (*this)(i, j); } return t; }
    Ref abs() const { Ref t(*this); for (auto& x : t.v) { x = std::fabs(x); } return t; }
    bool operator==(const Ref& o) const { return r == o.r && c == o.c && v == o.v; }
};
inline Ref mul(const Ref& a, const Ref& b)
{
    Ref o(a.r, b.c);
    for (int i = 0; i < a.r; ++i) for (int k = 0; k < a.c; ++k)
    {
        ld x = a(i, k); if (x == 0) { continue; }
        for (int j = 0; j < b.c; ++j) { o(i, j) += x * b(k, j); }
    }
    return o;
}
inline std::vector<ld> mulv(const Ref& a, const std::vector<ld>& x)
{
    std::vector<ld> y(a.r, 0.0L);
    for (int i = 0; i < a.r; ++i) for (int j = 0; j < a.c; ++j) { y[i] += a(i, j) * x[j]; }
    return y;
}
template <typename V> std::vector<ld> ldv(const V& v)
{ std::vector<ld> r; for (const auto& x : v) { r.push_back((ld) x); } return r; }
inline std::vector<ld> absv(std::vector<ld> v) { for (auto& x : v) { x = std::fabs(x); } return v; }

inline Ref ref(const la::DenseMatrix& d)
{
    Ref o(d.Rows(), d.Cols());
    for (int i = 0; i < o.r; ++i) for (int j = 0; j < o.c; ++j) { o(i, j) = d(i, j); }
    return o;
}

inline std::ostream& operator<<(std::ostream& o, const Ref& m)
{
    o << m.r << "x" << m.c << "[";
    if (m.v.size() > 400) { return o << "...]"; }
    for (int i = 0; i < m.r; ++i) { o << (i ? "; " : ""); for (int j = 0; j < m.c; ++j) { o << (j ? " " : "") << (double) m(i, j); } }
    return o << "]";
}
template <typename T> std::string show(const std::vector<T>& v)
{
    std::ostringstream o; o.precision(17); o << "(";
    for (size_t k = 0; k < v.size() && k < 60; ++k) { o << (k ? " " : "") << v[k]; }
    if (v.size() > 60) { o << " ... " << v.size() << " entries"; }
    o << ")"; return o.str();
}
inline std::string show(const Ref& m) { std::ostringstream o; o.precision(17); o << m; return o.str(); }
template <typename V> std::vector<double> dv(const V& v) { std::vector<double> r; for (const auto& x : v) { r.push_back((double) x); } return r; }
template <typename T> std::vector<T> tv(const la::VectorView<T>& v) { return std::vector<T>(v.begin(), v.end()); }

// ------------------------------------------------------------- comparisons

constexpr double EPS = 2.220446049250313e-16;

// |got - want| <= fac * eps * mag  (exact when fac == 0); rejects NaN
inline bool near(ld got, ld want, ld mag, double fac)
{
    if (got == want) { return true; }
    return std::fabs(got - want) <= (ld) fac * EPS * mag;   // false for NaN
}

// compares a vector with its exact value; mag[i] bounds the sum of |terms|
template <typename V>
void expect_vec(const V& got, const std::vector<ld>& want, const std::vector<ld>& mag, double fac, const char* what)
{
    CHECK((size_t) got.size() == want.size(), what << ": size " << got.size() << ", expected " << want.size());
    size_t k = 0;
    for (const auto& g : got)
    {
        if (!near((ld) g, want[k], mag[k], fac))
        { FAIL(what << ": entry " << k << " of " << want.size() << " is " << (double) g << ", expected " << (double) want[k]); }
        ++k;
    }
}
template <typename V>
void expect_vec_exact(const V& got, const std::vector<ld>& want, const char* what) { expect_vec(got, want, want, 0, what); }

inline void expect_mat(const la::DenseMatrix& got, const Ref& want, const Ref& mag, double fac, const char* what)
{
    CHECK(got.Rows() == want.r && got.Cols() == want.c, what << ": shape " << got.Rows() << "x" << got.Cols() << ", expected " << want.r << "x" << want.c);
    std::vector<double> raw; got.CopyData(raw);
    CHECK((int) raw.size() == want.r * want.c, what << ": " << raw.size() << " stored entries for shape " << want.r << "x" << want.c);
    for (int i = 0; i < want.r; ++i) for (int j = 0; j < want.c; ++j)
    {
        double g = raw[i + (size_t) j * want.r];
        if (!near(g, want(i, j), mag(i, j), fac))
        { FAIL(what << ": entry (" << i << "," << j << ") of " << want.r << "x" << want.c << " is " << g << ", expected " << (double) want(i, j)); }
    }
}
inline void expect_mat_exact(const la::DenseMatrix& got, const Ref& want, const char* what) { expect_mat(got, want, want, 0, what); }

// ---------------------------------------------------------- sparse matrices

// Structural validity of a CSR matrix, observed through its accessors.
template <typename T>
void expect_csr(const la::SparseMatrix<T>& m, const char* what)
{
    const auto& p = m.GetIndptr(); const auto& x = m.GetIndices(); const auto& d = m.GetData();
    CHECK((int) p.size() == m.Rows() + 1, what << ": row pointer has " << p.size() << " entries for " << m.Rows() << " rows");
    CHECK(p[0] == 0, what << ": row pointer starts at " << p[0]);
    for (int i = 0; i < m.Rows(); ++i) { CHECK(p[i] <= p[i + 1], what << ": row pointer decreases at row " << i); }
    CHECK(p[m.Rows()] == (int) x.size() && x.size() == d.size() && (int) d.size() == m.nnz(),
          what << ": row pointer ends at " << p[m.Rows()] << " with " << x.size() << " indices, " << d.size() << " values, nnz " << m.nnz());
    for (int c : x) { CHECK(c >= 0 && c < m.Cols(), what << ": column " << c << " outside of " << m.Cols() << " columns"); }
}
// no column twice in a row
template <typename T>
void expect_no_dups(const la::SparseMatrix<T>& m, const char* what)
{
    std::vector<int> seen(m.Cols(), -1);
    for (int i = 0; i < m.Rows(); ++i) for (int k = m.GetIndptr()[i]; k < m.GetIndptr()[i + 1]; ++k)
    { int c = m.GetIndices()[k]; CHECK(seen[c] != i, what << ": column " << c << " stored twice in row " << i); seen[c] = i; }
}
template <typename T>
Ref ref(const la::SparseMatrix<T>& m)      // duplicates would be summed
{
    Ref o(m.Rows(), m.Cols());
    for (int i = 0; i < m.Rows(); ++i) for (int k = m.GetIndptr()[i]; k < m.GetIndptr()[i + 1]; ++k)
    { o(i, m.GetIndices()[k]) += (ld) m.GetData()[k]; }
    return o;
}
// stored pattern as a set of (row, col)
template <typename T>
std::set<std::pair<int, int>> pattern(const la::SparseMatrix<T>& m)
{
    std::set<std::pair<int, int>> o;
    for (int i = 0; i < m.Rows(); ++i) for (int k = m.GetIndptr()[i]; k < m.GetIndptr()[i + 1]; ++k) { o.insert({i, m.GetIndices()[k]}); }
    return o;
}
template <typename T>
void expect_sparse(const la::SparseMatrix<T>& got, const Ref& want, const Ref& mag, double fac, const char* what)
{
    CHECK(got.Rows() == want.r && got.Cols() == want.c, what << ": shape " << got.Rows() << "x" << got.Cols() << ", expected " << want.r << "x" << want.c);
    expect_csr(got, what);
    expect_no_dups(got, what);
    Ref g = ref(got);
    for (int i = 0; i < want.r; ++i) for (int j = 0; j < want.c; ++j)
    {
        if (!near(g(i, j), want(i, j), mag(i, j), fac))
        { FAIL(what << ": entry (" << i << "," << j << ") of " << want.r << "x" << want.c << " is " << (double) g(i, j) << ", expected " << (double) want(i, j)); }
    }
}
template <typename T>
void expect_sparse_exact(const la::SparseMatrix<T>& got, const Ref& want, const char* what) { expect_sparse(got, want, want, 0, what); }

// raw CSR arrays, kept besides the library object as the model
template <typename T>
struct Csr
{
    int r = 0, c = 0;
    std::vector<int> p{0}, x;
    std::vector<T> d;
    la::SparseMatrix<T> mat() const { return la::SparseMatrix<T>(p, x, d, r, c); }
    Ref ref() const { Ref o(r, c); for (int i = 0; i < r; ++i) for (int k = p[i]; k < p[i + 1]; ++k) { o(i, x[k]) += (ld) d[k]; } return o; }
    std::string show() const
    {
        std::ostringstream o; o.precision(17); o << r << "x" << c << " nnz " << d.size() << " {";
        int n = 0;
        for (int i = 0; i < r && n < 80; ++i) { for (int k = p[i]; k < p[i + 1] && n < 80; ++k, ++n) { o << "(" << i << "," << x[k] << ")=" << d[k] << " "; } }
        o << (d.size() > 80 ? "...}" : "}"); return o.str();
    }
};
template <typename T>
bool same_csr(const la::SparseMatrix<T>& a, const Csr<T>& b)
{ return a.Rows() == b.r && a.Cols() == b.c && a.GetIndptr() == b.p && a.GetIndices() == b.x && a.GetData() == b.d; }

struct CsrOpt
{
    bool sorted = false;       // force sorted columns
    bool full_diag = false;    // store every diagonal entry
    bool zeros = true;         // allow explicitly stored zeros
    int range = 9;
};

// patterns and values with a structure that shortcuts look for
template <typename T>
Csr<T> structured(pbt::S& s, int r, int c, Mode m, CsrOpt o)
{
    static const char* names[] = {"diagonal", "one column per row", "band", "lower triangle", "upper triangle", "symmetric pattern", "equal row lengths", "contiguous columns", "same columns in every row", "single row", "single column", "full", "block diagonal"};
    int kind = s.u(12); s.label(std::string("pattern: ") + names[kind]);
    bool unsorted = !o.sorted && s.chance(0.3), strict = s.chance(0.2), simple; int w = s.i(1, 4), at = s.i(0, std::max(r, c) - 1); pbt::Rng g = s.bulk(simple);
    std::vector<std::set<int>> row(r); std::set<int> common;
    for (int k = 0; k < w; ++k) { common.insert((int) g.below(c)); }
    std::vector<int> perm(c); for (int j = 0; j < c; ++j) { perm[j] = j; } for (int j = c - 1; j > 0; --j) { std::swap(perm[j], perm[g.below(j + 1)]); }
    for (int i = 0; i < r; ++i)
    {
        auto put = [&](int j) { if (j >= 0 && j < c) { row[i].insert(j); } };
        auto draw = [&](int n) { for (int k = 0; k < n; ++k) { put((int) g.below(c)); } };
        switch (kind)
        {
            case 0: if (!strict || g.below(4)) { put(i); } break;
            case 1: put(strict ? (int) g.below(c) : perm[i % c]); break;
            case 2: for (int j = i - w / 2; j <= i + (w + 1) / 2; ++j) { put(j); } break;
            case 3: case 4: for (int j = 0; j < c; ++j) { if ((j == i && !strict) || ((kind == 3 ? j < i : j > i) && (w == 4 || g.below(w) == 0))) { put(j); } } break;
            case 5: for (int k = 0; k < w; ++k) { int j = (int) g.below(c); put(j); if (j < r && i < c) { row[j].insert(i); } } break;
            case 6: { int n = std::min(w, c), first = (int) g.below(c), step = n == c ? 1 : 1 + (int) g.below(std::max(1, c / n)); for (int k = 0; k < n; ++k) { put((first + k * step) % c); } break; }
            case 7: { int first = (int) g.below(c), n = (int) g.below(6); for (int k = 0; k < n; ++k) { put(first + k); } break; }
            case 8: row[i] = common; break;
            case 9: if (i == at % r) { draw(c); put(0); } break;
            case 10: if (g.below(4)) { put(at % c); } break;
            case 11: for (int j = 0; j < c; ++j) { put(j); } break;
            default: for (int j = i / w * w; j < i / w * w + w; ++j) { put(j); } break;
        }
        if (o.full_diag) { put(i); }
    }
    Csr<T> a; a.r = r; a.c = c; a.p.assign(1, 0); std::map<std::pair<int, int>, T> seen;
    int vk = s.weighted({4, 2, 1, 1, 2, 1}); T v0 = value<T>(s, m, o.range); if (v0 == 0) { v0 = 1; }
    s.label("constant values", vk == 1 || vk == 2); s.label("symmetric values", vk == 4);
    for (int i = 0; i < r; ++i)
    {
        std::vector<int> cols(row[i].begin(), row[i].end());
        if (unsorted) { for (size_t k = cols.size(); k > 1; --k) { std::swap(cols[k - 1], cols[g.below(k)]); } }
        for (int j : cols)
        {
            T v = o.zeros && g.below(12) == 0 ? (T) 0 : m == INT || std::is_integral<T>::value ? (T) ((int) g.below(2 * o.range + 1) - o.range) : (T) real_from(g);
            switch (vk)
            {
                case 1: v = (T) 1; break;
                case 2: v = v0; break;
                case 3: v = (T) ((i * 3 + j) % (o.range + 1)); break;
                case 4: { auto f = seen.find({j, i}); if (f != seen.end()) { v = f->second; } seen[ {i, j}] = v; break; }     // equal to the mirrored entry
                case 5: v = i == j ? (T) 1 : v; break;
            }
            a.x.push_back(j); a.d.push_back(v);
        }
        a.p.push_back((int) a.x.size());
    }
    return a;
}

// CSR matrix with distinct columns per row: empty rows, full rows, unsorted
// columns and stored zeros are all generated.
template <typename T>
Csr<T> csr(pbt::S& s, int r, int c, Mode m, CsrOpt o = CsrOpt())
{
    if (r > 0 && c > 0 && (r > 1 || c > 1) && s.chance(0.25)) { return structured<T>(s, r, c, m, o); }
    Csr<T> a; a.r = r; a.c = c; a.p.assign(1, 0);
    bool big = (long) r * c > 300;
    bool unsorted = !o.sorted && s.chance(0.5);
    if (!big)
    {
        int dens = s.pick({1, 2, 3, 4, 0});          // out of 4
        for (int i = 0; i < r; ++i)
        {
            std::vector<int> cols;
            int mode = s.weighted({6, 2, 1});          // by density, empty row, full row
            for (int j = 0; j < c; ++j)
            {
                bool put = mode == 1 ? false : mode == 2 ? true : s.chance(dens / 4.0);
                if (o.full_diag && i == j) { put = true; }
                if (put) { cols.push_back(j); }
            }
            if (unsorted && cols.size() > 1)
            {
                std::vector<int> p = s.permutation(cols.size()), q(cols);
                for (size_t k = 0; k < p.size(); ++k) { cols[k] = q[p[k]]; }
            }
            for (int j : cols)
            {
                a.x.push_back(j);
                T v = (o.zeros && s.chance(0.15)) ? (T) 0 : value<T>(s, m, o.range);
                a.d.push_back(v);
            }
            a.p.push_back((int) a.x.size());
        }
    }
    else
    {
        bool simple; int dens = s.pick({1, 3, 10, 30, 70});    // percent
        pbt::Rng g = s.bulk(simple);
        for (int i = 0; i < r; ++i)
        {
            std::vector<int> cols;
            bool empty = g.below(10) == 0, full = g.below(40) == 0;
            for (int j = 0; j < c; ++j)
            {
                bool put = full || (!empty && (int) g.below(100) < dens);
                if (o.full_diag && i == j) { put = true; }
                if (put) { cols.push_back(j); }
            }
            if (unsorted) { for (size_t k = cols.size(); k > 1; --k) { std::swap(cols[k - 1], cols[g.below(k)]); } }
            for (int j : cols)
            {
                a.x.push_back(j);
                T v;
                if (o.zeros && g.below(12) == 0) { v = 0; }
                else if (m == INT || std::is_integral<T>::value) { v = (T) ((int) g.below(2 * o.range + 1) - o.range); }
                else { v = (T) real_from(g); }
                a.d.push_back(v);
            }
            a.p.push_back((int) a.x.size());
        }
    }
    return a;
}

template <typename T>
bool has_empty_row(const Csr<T>& a) { for (int i = 0; i < a.r; ++i) { if (a.p[i] == a.p[i + 1]) { return true; } } return false; }
template <typename T>
bool is_unsorted(const Csr<T>& a)
{ for (int i = 0; i < a.r; ++i) { for (int k = a.p[i] + 1; k < a.p[i + 1]; ++k) { if (a.x[k] < a.x[k - 1]) { return true; } } } return false; }

inline la::DenseMatrix dense(pbt::S& s, int r, int c, Mode m, int range = 9)
{
    std::vector<double> d = values<double>(s, r * c, m, range);
    int kind = r * c < 2 ? 0 : s.weighted({30, 1, 1, 1, 1, 1, 1, 1, 1, 1});
    if (kind > 0)                                         // a structure that shortcuts look for
    {
        double diag = s.pick({1.0, 2.0, -1.0}); s.label("structured dense matrix");
        for (int j = 0; j < c; ++j) for (int i = 0; i < r; ++i)
        {
            double& x = d[i + (size_t) j * r];
            switch (kind)
            {
                case 1: if (i != j) { x = 0; } break;                                    // diagonal
                case 2: x = i == j ? diag : 0; break;                                    // multiple of the identity
                case 3: if (i < j) { x = 0; } break;                                     // triangles
                case 4: if (i > j) { x = 0; } break;
                case 5: if (r == c && i > j) { x = d[j + (size_t) i * r]; } break;       // symmetric
                case 6: x = d[(size_t) j * r]; break;                                    // equal rows
                case 7: x = d[i]; break;                                                 // equal columns
                case 8: if (i == 0 || j == 0) { x = 0; } break;                          // empty first row and column
                default: if (i + 1 == r || j + 1 == c) { x = 0; } break;                 // empty last row and column
            }
        }
    }
    return la::DenseMatrix(r, c, d);
}
// a dense matrix of unrelated shape and content, to be overwritten as an output argument
inline la::DenseMatrix stale(pbt::S& s)
{
    int r = s.i(0, 5), c = s.i(0, 5);
    return la::DenseMatrix(r, c, std::vector<double>(r * c, 777.0));
}

template <typename T>
la::Vector<T> vec(pbt::S& s, int n, Mode m, int range = 9) { return la::Vector<T>(values<T>(s, n, m, range)); }

// error factor for sums of n products
inline double fac(int n) { return 4.0 * (n + 4); }

#endif
