// C22: matrices and vectors survive a write and read back through every text format
// technique: round-trip property testing: random vectors and matrices of values of any magnitude, written and read back
#include "files.hpp"
#include "huge.hpp"
using pbt::S;

namespace
{
template <typename T> T text_value(S& s) { return (T) wide(s); }
template <> int text_value<int>(S& s) { return s.chance(0.1) ? s.pick({2147483647, (int) (-2147483647 - 1), 1000000007}) : s.sgn_int(50); }
template <> float text_value<float>(S& s) { return (float) (s.chance(0.5) ? value<double>(s, REAL) : s.pick({0.1, 3.4e37, 1e-37, 16777217.0, -1.0 / 3.0})); }

template <typename T>
Csr<T> matrix(S& s, int r, int c)
{
    Csr<T> a = csr<T>(s, r, c, INT); for (auto& v : a.d) { if (s.chance(0.7)) { v = text_value<T>(s); } } return a;
}

// symmetric pattern and values
template <typename T>
Csr<T> symmetric(S& s, int n)
{
    std::vector<std::vector<std::pair<int, T>>> row(n); double p = s.pick({0.1, 0.4, 0.9});
    for (int i = 0; i < n; ++i) for (int j = i; j < n; ++j) { if (s.chance(p)) { T v = text_value<T>(s); row[i].push_back({j, v}); if (i != j) { row[j].push_back({i, v}); } } }
    Csr<T> a; a.r = a.c = n; bool shuffle = s.chance(0.3);
    for (auto& w : row) { if (shuffle) { std::vector<int> q = s.permutation((int) w.size()); auto o = w; for (size_t k = 0; k < q.size(); ++k) { w[k] = o[q[k]]; } } for (auto& e : w) { a.x.push_back(e.first); a.d.push_back(e.second); } a.p.push_back((int) a.x.size()); }
    return a;
}

template <typename T> std::map<std::pair<int, int>, T> entries(const la::SparseMatrix<T>& m)
{
    std::map<std::pair<int, int>, T> o;
    for (int i = 0; i < m.Rows(); ++i) for (int k = m.GetIndptr()[i]; k < m.GetIndptr()[i + 1]; ++k) { CHECK(o.insert({{i, m.GetIndices()[k]}, m.GetData()[k]}).second, "entry (" << i << "," << m.GetIndices()[k] << ") read back twice"); }
    return o;
}

// the same stored entries, in a matrix of the given shape (unsized formats: at least as large as the entries need, at most the given shape)
template <typename T>
void same(const la::SparseMatrix<T>& got, const Csr<T>& want, bool sized, bool values, const char* what)
{
    expect_csr(got, what);
    int mr = 0, mc = 0; for (int i = 0; i < want.r; ++i) for (int k = want.p[i]; k < want.p[i + 1]; ++k) { mr = std::max(mr, i + 1); mc = std::max(mc, want.x[k] + 1); }
    if (sized) { CHECK(got.Rows() == want.r && got.Cols() == want.c, what << ": read back " << got.Rows() << "x" << got.Cols() << ", written " << want.r << "x" << want.c); }
    else if (mr > 0) { CHECK(got.Rows() == mr && got.Cols() == mc, what << ": read back " << got.Rows() << "x" << got.Cols() << ", the entries span " << mr << "x" << mc); }
    else { CHECK(got.Rows() <= 1 && got.Cols() <= 1 && got.nnz() == 0, what << ": an empty file gives " << got.Rows() << "x" << got.Cols()); }
    std::map<std::pair<int, int>, T> e = entries(got); size_t n = 0;
    for (int i = 0; i < want.r; ++i) for (int k = want.p[i]; k < want.p[i + 1]; ++k, ++n)
    {
        auto it = e.find({i, want.x[k]}); CHECK(it != e.end(), what << ": entry (" << i << "," << want.x[k] << ") was lost");
        T v = values ? want.d[k] : T(1); CHECK(same_text(v, it->second), what << ": entry (" << i << "," << want.x[k] << ") was " << std::setprecision(17) << v << ", read back " << it->second);
    }
    CHECK(e.size() == n, what << ": " << e.size() << " entries read back, " << n << " written");
}

// through the library's own vector, which exists for double and int
template <typename T> bool write_vector(const std::vector<T>& v, const std::string& path) { la::Vector<T> w((int) v.size()); for (size_t i = 0; i < v.size(); ++i) { w[(int) i] = v[i]; } la::WriteText(w, path); return true; }
template <> bool write_vector<float>(const std::vector<float>&, const std::string&) { return false; }

template <typename T>
void vectors(S& s, int n)
{
    std::vector<T> v(n); for (auto& x : v) { x = text_value<T>(s); } TestFile f; s.nontrivial(n > 1); s.note([&](std::ostream & o) { o << show(v); });
    if (s.chance(0.3)) { f.put("left over content\n1 2 3\n"); }
    if (s.chance(0.5) || !write_vector(v, f.path)) { la::WriteText(v, f.path); }
    std::vector<T> r = la::ReadText<T>(f.path);
    CHECK(r.size() == v.size(), r.size() << " values read back, " << v.size() << " written");
    for (int i = 0; i < n; ++i) { CHECK(same_text(v[i], r[i]), "value " << i << " was " << std::setprecision(17) << v[i] << ", read back " << r[i]); }
}

template <typename T>
void matrices(S& s, int r, int c)
{
    Csr<T> a = matrix<T>(s, r, c); la::SparseMatrix<T> m = a.mat(); TestFile f; s.note([&](std::ostream & o) { o << a.show(); });
    s.nontrivial(a.d.size() > 1); s.label("empty row", has_empty_row(a)); s.label("unsorted", is_unsorted(a)); s.label("zero dimension", r * c == 0); s.label("no entries", a.d.empty());
    if (s.chance(0.2)) { f.put("left over content\n1 2 3\n"); }
    la::WriteCSR(m, f.path); la::SparseMatrix<T> q = la::ReadCSR<T>(f.path); same(q, a, true, true, "WriteCSR/ReadCSR");
    CHECK(q.GetIndptr() == a.p && q.GetIndices() == a.x, "WriteCSR/ReadCSR changed the structure arrays");
    la::WriteCooList(m, f.path); same(la::ReadCooList<T>(f.path), a, false, true, "WriteCooList/ReadCooList");
    la::WriteMTX(m, f.path); same(la::ReadMTX<T>(f.path), a, true, true, "WriteMTX/ReadMTX");
    std::string text = f.get(); CHECK(text.compare(0, 33, "%%MatrixMarket matrix coordinate ") == 0, "WriteMTX does not start with the Matrix Market banner: " << text.substr(0, 60));
    la::WriteAdjList(m, f.path); same(la::ReadAdjList<T>(f.path), a, false, false, "WriteAdjList/ReadAdjList");
    la::WriteTable(m, f.path); la::SparseMatrix<T> t = la::ReadTable<T>(f.path); expect_csr(t, "WriteTable/ReadTable");
    int mc = 0; for (int x : a.x) { mc = std::max(mc, x + 1); }
    CHECK(t.Rows() == r && t.Cols() == mc, "WriteTable/ReadTable: read back " << t.Rows() << "x" << t.Cols() << ", expected " << r << "x" << mc);
    CHECK(t.GetIndptr() == a.p && t.GetIndices() == a.x, "WriteTable/ReadTable changed the rows"); for (T v : t.GetData()) { CHECK(v == T(1), "a table entry has value " << v); }
    CHECK(same_csr(m, a), "writing changed the matrix");
}

template <typename T>
void triangles(S& s, int n)
{
    Csr<T> a = symmetric<T>(s, n); la::SparseMatrix<T> m = a.mat(); TestFile f; s.note([&](std::ostream & o) { o << a.show(); }); s.nontrivial(a.d.size() > 2);
    la::WriteCooList(m, f.path, true); same(la::ReadCooList<T>(f.path, true), a, false, true, "symmetric WriteCooList/ReadCooList");
    std::string up = f.get(); std::istringstream in(up); int i, j; std::string v; size_t lines = 0; while (in >> i >> j >> v) { ++lines; CHECK(j >= i, "the symmetric option wrote entry (" << i << "," << j << ") below the diagonal"); }
    size_t want = 0; for (int r = 0; r < n; ++r) for (int k = a.p[r]; k < a.p[r + 1]; ++k) { want += a.x[k] >= r; } CHECK(lines == want, lines << " lines written, " << want << " entries on and above the diagonal");
    la::WriteAdjList(m, f.path, true); same(la::ReadAdjList<T>(f.path, true), a, false, false, "symmetric WriteAdjList/ReadAdjList");
    // the lower triangle serves as well
    Csr<T> lo; lo.r = lo.c = n; for (int r = 0; r < n; ++r) { for (int k = a.p[r]; k < a.p[r + 1]; ++k) { if (a.x[k] <= r) { lo.x.push_back(a.x[k]); lo.d.push_back(a.d[k]); } } lo.p.push_back((int) lo.x.size()); }
    la::WriteCooList(lo.mat(), f.path); same(la::ReadCooList<T>(f.path, true), a, false, true, "lower triangle through ReadCooList");
    la::WriteAdjList(lo.mat(), f.path); same(la::ReadAdjList<T>(f.path, true), a, false, false, "lower triangle through ReadAdjList");
}
}

LAW(vector_double, 10000, 150000, "at least two values") { vectors<double>(s, s.size(0, 20)); }
LAW(vector_int, 4000, 50000, "at least two values") { vectors<int>(s, s.size(0, 20)); }
LAW(vector_float, 4000, 50000, "at least two values") { vectors<float>(s, s.size(0, 20)); }
LAW(matrix_double, 12000, 150000, "at least two entries") { matrices<double>(s, dim(s, 8, 30), dim(s, 8, 30)); }
LAW(matrix_int, 5000, 60000, "at least two entries") { matrices<int>(s, dim(s, 8, 30), dim(s, 8, 30)); }
LAW(triangle_double, 8000, 100000, "at least three entries") { triangles<double>(s, s.size(0, 9)); }
LAW(triangle_int, 4000, 50000, "at least three entries") { triangles<int>(s, s.size(0, 9)); }
LAW(large, 100, 1500, "at least two entries") { matrices<double>(s, s.i(20, 150), s.i(20, 150)); }
LAW(vector_long, 150, 2000, "at least two values") { vectors<double>(s, s.i(20, 3000)); }
LAW(long_shapes, 60, 800, "at least two entries") { Shape q = big_shape(s, 100, 1500); matrices<double>(s, q.r, q.c); }
LAW(triangle_large, 60, 800, "at least three entries") { triangles<double>(s, s.i(10, 90)); }
LAW(huge, 60, 800, "at least two entries")
{
    Shape q = huge::shape(s); Csr<double> a = huge::csr<double>(s, q.r, q.c, true); for (auto& v : a.d) { if (s.chance(0.7)) { v = text_value<double>(s); } } la::SparseMatrix<double> m = a.mat(); TestFile f; s.note([&](std::ostream & o) { o << q.r << "x" << q.c << " " << huge::show(huge::entries(a)); }); s.nontrivial(a.d.size() > 1);
    la::WriteCSR(m, f.path); same(la::ReadCSR<double>(f.path), a, true, true, "WriteCSR/ReadCSR"); la::WriteCooList(m, f.path); same(la::ReadCooList<double>(f.path), a, false, true, "WriteCooList/ReadCooList");
    la::WriteMTX(m, f.path); same(la::ReadMTX<double>(f.path), a, true, true, "WriteMTX/ReadMTX"); la::WriteAdjList(m, f.path); same(la::ReadAdjList<double>(f.path), a, false, false, "WriteAdjList/ReadAdjList");
    la::WriteTable(m, f.path); la::SparseMatrix<double> t = la::ReadTable<double>(f.path); expect_csr(t, "WriteTable/ReadTable"); CHECK(t.GetIndptr() == a.p && t.GetIndices() == a.x, "WriteTable/ReadTable changed the rows");
    CHECK(same_csr(m, a), "writing changed the matrix");
}

PBT_MAIN
