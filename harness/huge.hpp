// Matrices of huge shape with few entries: products of their dimensions exceed the range of int.
// Oracle: std::map from positions to values.
#pragma once
#include "gen.hpp"

namespace huge
{
typedef std::map<std::pair<int, int>, ld> Map;

// a size between 2^15 and 2^17, usually one for which 32-bit position arithmetic wraps
inline int extent(pbt::S& s) { return s.weighted({2, 1, 1}) == 0 ? s.pick({1 << 16, 1 << 15, 46341, 65537, 1 << 17}) : s.i(40000, 130000); }
// a third of the shapes have one small side
inline Shape shape(pbt::S& s)
{
    int k = s.weighted({4, 1, 1});
    return Shape {k == 1 ? s.i(1, 5) : extent(s), k == 2 ? s.i(1, 5) : extent(s)};
}
// indices drawn from a small pool, many of them a power of two apart, and the borders
inline std::vector<int> pool(pbt::S& s, int n)
{
    std::vector<int> v; int base = s.i(0, std::min(n - 1, 40)), k = s.i(2, 10);
    for (int i = 0; i < k; ++i)
    {
        switch (s.i(0, 3))
        {
            case 0: v.push_back(s.i(0, n - 1)); break;
            case 1: v.push_back(n - 1 - s.i(0, std::min(n - 1, 3))); break;
            default: v.push_back((int) ((base + ((long long) s.i(0, 3) << s.i(12, 16))) % n));
        }
    }
    v.push_back(base); return v;
}

template <typename T>
Csr<T> csr(pbt::S& s, int r, int c, const std::vector<int>& rows, const std::vector<int>& cols, bool heavy = false)
{
    std::map<int, std::map<int, T>> m; int n = rows.empty() || cols.empty() ? 0 : s.i(0, 40);
    // now and then one full column or row, with more entries than 16 bits can count
    if (heavy && r > 0 && c > 0)
    {
        int kind = s.weighted({30, 1, 1}), skip = s.chance(0.3) ? s.i(2, 9) : 1000000007; s.label("full column or row", kind > 0);
        if (kind == 1) { int j = cols[s.u((int) cols.size() - 1)]; for (int i = 0; i < r; ++i) { if ((i + 1) % skip) { m[i][j] = (T) (i % 7 - 2); } } }
        else if (kind == 2) { auto& w = m[rows[s.u((int) rows.size() - 1)]]; for (int j = 0; j < c; ++j) { if ((j + 1) % skip) { w[j] = (T) (j % 7 - 2); } } }
    }
    for (int k = 0; k < n; ++k) { int i = rows[s.u((int) rows.size() - 1)], j = cols[s.u((int) cols.size() - 1)]; m[i][j] = (T) (s.sgn_int(9)); }
    Csr<T> a; a.r = r; a.c = c; a.p.assign(r + 1, 0); bool shuffle = s.chance(0.5);
    for (auto& row : m)
    {
        std::vector<std::pair<int, T>> e(row.second.begin(), row.second.end());
        if (shuffle && e.size() > 1000) { std::reverse(e.begin(), e.end()); }
        else if (shuffle) { std::vector<int> o = s.permutation((int) e.size()); auto f = e; for (size_t t = 0; t < e.size(); ++t) { e[t] = f[o[t]]; } }
        for (auto& q : e) { a.x.push_back(q.first); a.d.push_back(q.second); }
        a.p[row.first + 1] = (int) row.second.size();
    }
    for (int i = 0; i < r; ++i) { a.p[i + 1] += a.p[i]; }
    return a;
}
template <typename T>
Csr<T> csr(pbt::S& s, int r, int c, bool heavy = false) { std::vector<int> p, q; if (r > 0) { p = pool(s, r); } if (c > 0) { q = pool(s, c); } return csr<T>(s, r, c, p, q, heavy); }

template <typename T> Map entries(const Csr<T>& a) { Map m; for (int i = 0; i < a.r; ++i) for (int k = a.p[i]; k < a.p[i + 1]; ++k) { m[ {i, a.x[k]}] += (ld) a.d[k]; } return m; }

inline std::string show(const Map& m) { std::ostringstream o; o << "{"; int n = 0; for (auto& e : m) { if (n++ > 60) { o << "..."; break; } o << "(" << e.first.first << "," << e.first.second << ")=" << (double) e.second << " "; } o << "}"; return o.str(); }

// the matrix has these sizes and exactly these values; stored zeros do not matter
template <typename T>
void expect(const la::SparseMatrix<T>& m, int r, int c, const Map& want, const char* what)
{
    CHECK(m.Rows() == r && m.Cols() == c, what << ": the result is " << m.Rows() << "x" << m.Cols() << ", expected " << r << "x" << c);
    expect_csr(m, what);
    Map got; const std::vector<int>& p = m.GetIndptr();
    for (int i = 0; i < r; ++i) for (int k = p[i]; k < p[i + 1]; ++k) { CHECK(got.insert({{i, m.GetIndices()[k]}, (ld) m.GetData()[k]}).second, what << ": position (" << i << "," << m.GetIndices()[k] << ") is stored twice"); }
    for (auto& g : got) { auto f = want.find(g.first); ld w = f == want.end() ? 0 : f->second; CHECK(g.second == w, what << ": entry (" << g.first.first << "," << g.first.second << ") is " << (double) g.second << ", expected " << (double) w); }
    for (auto& w : want) { if (w.second != 0) { auto f = got.find(w.first); CHECK(f != got.end() && f->second == w.second, what << ": entry (" << w.first.first << "," << w.first.second << ") is missing, expected " << (double) w.second); } }
}
inline Map transposed(const Map& m) { Map o; for (auto& e : m) { o[ {e.first.second, e.first.first}] = e.second; } return o; }
inline std::vector<ld> times(const Map& m, int r, const std::vector<ld>& x) { std::vector<ld> y(r, 0); for (auto& e : m) { y[e.first.first] += e.second * x[e.first.second]; } return y; }
// a vector that is a cheap function of a drawn number
template <typename T = double>
la::Vector<T> vec(pbt::S& s, int n) { int a = s.i(1, 1000); la::Vector<T> v(n); for (int i = 0; i < n; ++i) { v[i] = (T) ((i * 7LL + a) % 19 - 9); } return v; }
template <typename V>
void same(const V& got, const std::vector<ld>& want, const char* what)
{
    CHECK((size_t) got.size() == want.size(), what << ": " << got.size() << " entries, expected " << want.size());
    for (size_t i = 0; i < want.size(); ++i) { CHECK((ld) got[i] == want[i], what << ": entry " << i << " is " << (double) got[i] << ", expected " << (double) want[i]); }
}
}
