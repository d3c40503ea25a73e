// C24: readers interpret files exactly as their documented formats say
// technique: model-based property testing: random abstract contents are written down in random legal layouts by the harness; the matrix each reader returns is compared with the contents
#include "files.hpp"
using pbt::S;

namespace
{
// layout decisions for one file
struct Layout
{
    bool crlf, blank, lead, trail, tabs, final_newline, plus; pbt::Rng r; bool simple;
    explicit Layout(S& s) : crlf(s.chance(0.1)), blank(s.chance(0.2)), lead(s.chance(0.2)), trail(s.chance(0.2)), tabs(s.chance(0.2)), final_newline(!s.chance(0.3)), plus(s.chance(0.1)), r(s.bulk(simple)) {}
    bool now() { return !simple && r.below(3) == 0; }
    std::string gap() { std::string g = tabs && now() ? "\t" : " "; if (now() && (tabs || trail)) { g += now() ? "   " : "\t "; } return g; }
    std::string line(const std::vector<std::string>& tok)
    {
        std::string o; if (lead && now()) { o += now() ? "  " : "\t"; }
        for (size_t i = 0; i < tok.size(); ++i) { o += (i ? gap() : "") + tok[i]; }
        if (trail && now()) { o += now() ? " " : "\t  "; }
        return o;
    }
    std::string eol() { return crlf ? "\r\n" : "\n"; }
    // lines joined; blank lines may be interspersed where the format does not give them a meaning
    std::string join(const std::vector<std::string>& lines, bool may_blank)
    {
        std::string o; for (size_t i = 0; i < lines.size(); ++i) { if (may_blank && blank && now()) { o += (now() ? "  " : "") + eol(); } o += lines[i]; if (i + 1 < lines.size() || final_newline) { o += eol(); } }
        if (may_blank && blank && now() && final_newline) { o += eol(); }
        return o;
    }
};

template <typename T> struct Num { std::string text; T value; };
Num<double> num(S& s, Layout& l, double)
{
    Num<double> n; char b[64]; double v = s.chance(0.4) ? s.sgn_int(20) : wide(s);
    const char* f = s.pick({"%.17g", "%.17g", "%g", "%.3f", "%.5e", "%.5E", "%#.6g"}); snprintf(b, sizeof b, std::fabs(v) > 1e15 && f[2] == '3' ? "%g" : f, v); n.text = b;
    if (s.chance(0.05)) { n.text = s.pick({".5", "5.", "-.25", "-0", "1e3", "1E-3", "1.e2", "007", "0"}); }
    else if (l.plus && n.text[0] != '-' && l.now()) { n.text = "+" + n.text; }
    n.value = strtod(n.text.c_str(), nullptr); return n;
}
Num<int> num(S& s, Layout& l, int) { int v = s.sgn_int(s.chance(0.1) ? 100000000 : 30); Num<int> n{std::to_string(v), v}; if (l.plus && v >= 0 && l.now()) { n.text = "+" + n.text; } return n; }
template <typename T> std::vector<std::string> strs(const std::vector<T>& v) { std::vector<std::string> o; for (auto x : v) { o.push_back(std::to_string(x)); } return o; }
void note(S& s, const std::string& text) { s.note([=](std::ostream & o) { o << "file: "; for (char c : text) { if (c == '\n') { o << "\\n"; } else if (c == '\r') { o << "\\r"; } else if (c == '\t') { o << "\\t"; } else { o << c; } } }); }

struct Entry { int i, j; ld v; };
// the matrix a list of entries stands for: value, sum of magnitudes and number of contributions at every position
struct At { ld v = 0, mag = 0; int n = 0; };
template <typename T>
void check(const la::SparseMatrix<T>& m, const std::vector<Entry>& e, int r, int c, const char* what)
{
    if (r < 0) { r = 0; c = 0; for (auto& x : e) { r = std::max(r, x.i + 1); c = std::max(c, x.j + 1); } if (e.empty()) { CHECK(m.Rows() <= 1 && m.Cols() <= 1 && m.nnz() == 0, what << ": a file without entries gives " << m.Rows() << "x" << m.Cols()); return; } }
    CHECK(m.Rows() == r && m.Cols() == c, what << ": " << m.Rows() << "x" << m.Cols() << " read, the file describes " << r << "x" << c);
    expect_csr(m, what); std::map<std::pair<int, int>, At> want; for (auto& x : e) { At& a = want[ {x.i, x.j}]; a.v += x.v; a.mag += std::fabs(x.v); ++a.n; }
    std::set<std::pair<int, int>> seen;
    for (int i = 0; i < r; ++i) for (int k = m.GetIndptr()[i]; k < m.GetIndptr()[i + 1]; ++k)
    {
        int j = m.GetIndices()[k]; auto f = want.find({i, j}); CHECK(f != want.end(), what << ": entry (" << i << "," << j << ") is not in the file"); CHECK(seen.insert({i, j}).second, what << ": entry (" << i << "," << j << ") stored twice");
        const At& a = f->second; ld d = std::fabs((ld) m.GetData()[k] - a.v); CHECK(d <= 4e-16L * a.mag * (a.n + 1), what << ": entry (" << i << "," << j << ") is " << std::setprecision(17) << m.GetData()[k] << ", the file says " << (double) a.v);
    }
    for (auto& p : want) { CHECK(seen.count(p.first) || p.second.v == 0, what << ": entry (" << p.first.first << "," << p.first.second << ") is missing"); }
}

bool g_long = false;   // long files, large indices
struct Long { Long() { g_long = true; } ~Long() { g_long = false; } };

template <typename T>
void text_vector(S& s)
{
    Layout l(s); int n = g_long ? s.i(50, 1200) : s.size(0, 25); std::vector<T> v; std::vector<std::string> lines; std::vector<std::string> tok;
    for (int i = 0; i < n; ++i) { Num<T> x = num(s, l, T()); v.push_back(x.value); tok.push_back(x.text); if (s.chance(0.7)) { lines.push_back(l.line(tok)); tok.clear(); } } if (!tok.empty()) { lines.push_back(l.line(tok)); }
    std::string text = l.join(lines, true); TestFile f; f.put(text); note(s, text); s.nontrivial(n > 1);
    std::vector<T> r = la::ReadText<T>(f.path); CHECK(r.size() == v.size(), r.size() << " values read, " << v.size() << " in the file");
    for (int i = 0; i < n; ++i) { CHECK(same_text(v[i], r[i]), "value " << i << " is " << v[i] << ", read " << r[i]); }
}

// pairs in random order, with repetitions
std::vector<std::pair<int, int>> pairs(S& s, int r, int c, bool one_triangle)
{
    int n = r == 0 || c == 0 ? 0 : g_long ? s.i(20, 600) : s.size(0, 20); std::vector<std::pair<int, int>> o; bool rep = s.chance(0.4), sorted = s.chance(0.3); std::set<std::pair<int, int>> had;
    for (int k = 0; k < n; ++k)
    {
        std::pair<int, int> p{s.u(r - 1), s.u(c - 1)}; if (one_triangle && had.count({p.second, p.first}) && p.first != p.second) { std::swap(p.first, p.second); }
        if (!rep && had.count(p)) { continue; } had.insert(p); o.push_back(p);
    }
    if (sorted) { std::stable_sort(o.begin(), o.end()); }
    return o;
}
int side(S& s) { if (g_long) { return s.weighted({2, 1}) == 0 ? s.i(10, 500) : s.pick({1000, 1 << 15, 46341, 65537, 1 << 17}); } return s.chance(0.05) ? s.i(50, 300) : s.i(1, 9); }

template <typename T>
void adjacency(S& s)
{
    Layout l(s); bool sym = s.chance(0.5); int r = side(s), c = sym ? r : side(s); auto ps = pairs(s, r, c, sym); std::vector<std::string> lines; std::vector<Entry> e;
    for (auto& p : ps) { lines.push_back(l.line(strs(std::vector<int>{p.first, p.second}))); e.push_back({p.first, p.second, 1}); if (sym && p.first != p.second) { e.push_back({p.second, p.first, 1}); } }
    std::string text = l.join(lines, true); TestFile f; f.put(text); note(s, text); s.nontrivial(ps.size() > 1); s.label("symmetric", sym);
    check(la::ReadAdjList<T>(f.path, sym), e, -1, -1, sym ? "ReadAdjList symmetric" : "ReadAdjList"); if (!sym && s.chance(0.5)) { check(la::ReadAdjList<T>(f.path), e, -1, -1, "ReadAdjList"); }
}

template <typename T>
void graph(S& s)
{
    Layout l(s); int n = side(s); auto ps = pairs(s, n, n, true); std::vector<std::string> lines; std::vector<Entry> e; bool loops = s.chance(0.3), both = s.chance(0.4);
    for (auto& p : ps)
    {
        int i = std::min(p.first, p.second), j = std::max(p.first, p.second); if (i == j) { if (loops) { lines.push_back(l.line(strs(std::vector<int>{i, j}))); } continue; }
        lines.push_back(l.line(strs(std::vector<int>{i, j}))); if (both) { lines.push_back(l.line(strs(std::vector<int>{j, i}))); }
        e.push_back({i, j, -1}); e.push_back({j, i, -1}); e.push_back({i, i, 1}); e.push_back({j, j, 1});
    }
    std::string text = l.join(lines, true); TestFile f; f.put(text); note(s, text); s.nontrivial(e.size() > 4); s.label("both directions", both); s.label("self loops", loops);
    la::SparseMatrix<T> m = la::ReadGraphList<T>(f.path); check(m, e, -1, -1, "ReadGraphList");
    for (int i = 0; i < m.Rows(); ++i) { ld t = 0; for (int k = m.GetIndptr()[i]; k < m.GetIndptr()[i + 1]; ++k) { t += m.GetData()[k]; } CHECK(t == 0, "row " << i << " of the graph Laplacian sums to " << (double) t); }
}

template <typename T>
void coordinates(S& s)
{
    Layout l(s); bool sym = s.chance(0.5); int r = side(s), c = sym ? r : side(s); auto ps = pairs(s, r, c, sym); std::vector<std::string> lines; std::vector<Entry> e;
    for (auto& p : ps)
    {
        Num<T> v = num(s, l, T()); lines.push_back(l.line({std::to_string(p.first), std::to_string(p.second), v.text})); e.push_back({p.first, p.second, (ld) v.value});
        if (sym && p.first != p.second) { e.push_back({p.second, p.first, (ld) v.value}); }
    }
    std::string text = l.join(lines, true); TestFile f; f.put(text); note(s, text); s.nontrivial(ps.size() > 1); s.label("symmetric", sym);
    check(la::ReadCooList<T>(f.path, sym), e, -1, -1, sym ? "ReadCooList symmetric" : "ReadCooList"); if (!sym && s.chance(0.5)) { check(la::ReadCooList<T>(f.path), e, -1, -1, "ReadCooList"); }
}

template <typename T>
void table(S& s)
{
    Layout l(s); Csr<int> a = csr<int>(s, g_long ? s.i(1, 60) : s.size(0, 8), g_long ? s.pick({30, 300, 3000}) : s.i(1, s.chance(0.1) ? 300 : 9), INT); std::vector<std::string> lines;
    for (int i = 0; i < a.r; ++i) { lines.push_back(l.line(strs(std::vector<int>(a.x.begin() + a.p[i], a.x.begin() + a.p[i + 1])))); }
    if (!lines.empty() && lines.back().empty()) { l.final_newline = true; } // an empty last line exists through its newline only
    std::string text = l.join(lines, false); TestFile f; f.put(text); note(s, text); s.nontrivial(a.x.size() > 1); s.label("empty row", has_empty_row(a));
    la::SparseMatrix<T> m = la::ReadTable<T>(f.path); int c = 0; for (int x : a.x) { c = std::max(c, x + 1); }
    CHECK(m.Rows() == a.r && m.Cols() == c, "ReadTable: " << m.Rows() << "x" << m.Cols() << " read, the file describes " << a.r << "x" << c); expect_csr(m, "ReadTable");
    CHECK(m.GetIndptr() == a.p && m.GetIndices() == a.x, "ReadTable: rows differ: indptr " << show(m.GetIndptr()) << " indices " << show(m.GetIndices())); for (T v : m.GetData()) { CHECK(v == T(1), "a table entry has value " << v); }
}

template <typename T>
void csr_file(S& s)
{
    Layout l(s); Shape q = g_long ? big_shape(s, 60, 700) : Shape {dim(s, 7, 25), dim(s, 7, 25)}; Csr<int> b = csr<int>(s, q.r, q.c, INT); Csr<T> a; a.r = b.r; a.c = b.c; a.p = b.p; a.x = b.x; std::vector<std::string> tok = strs(std::vector<int>{a.r, a.c}); for (int v : a.p) { tok.push_back(std::to_string(v)); } for (int v : a.x) { tok.push_back(std::to_string(v)); }
    for (size_t k = 0; k < a.x.size(); ++k) { Num<T> v = num(s, l, T()); a.d.push_back(v.value); tok.push_back(v.text); }
    std::vector<std::string> lines, cur; bool one = s.chance(0.5); for (auto& t : tok) { cur.push_back(t); if (one || l.now()) { lines.push_back(l.line(cur)); cur.clear(); } } if (!cur.empty()) { lines.push_back(l.line(cur)); }
    std::string text = l.join(lines, true); TestFile f; f.put(text); note(s, text); s.nontrivial(a.x.size() > 1); s.label("unsorted", is_unsorted(a)); s.label("zero dimension", a.r * a.c == 0);
    la::SparseMatrix<T> m = la::ReadCSR<T>(f.path); CHECK(m.Rows() == a.r && m.Cols() == a.c, "ReadCSR: " << m.Rows() << "x" << m.Cols() << " read, the file describes " << a.r << "x" << a.c);
    CHECK(m.GetIndptr() == a.p && m.GetIndices() == a.x, "ReadCSR: structure differs"); CHECK(m.GetData().size() == a.d.size(), "ReadCSR: " << m.GetData().size() << " values");
    for (size_t k = 0; k < a.d.size(); ++k) { CHECK(same_text(a.d[k], m.GetData()[k]), "ReadCSR: value " << k << " is " << m.GetData()[k] << ", the file says " << a.d[k]); }
}

std::string upper(std::string t, int how) { for (auto& c : t) { c = how == 0 ? c : (char) toupper(c); } return t; }
// Matrix Market: banner (or none), comments, blank lines, sizes, entries
template <typename T>
void mtx(S& s, bool values)
{
    Layout l(s); bool banner = !s.chance(0.2), sym = banner && s.chance(0.5); int r = side(s), c = sym ? r : side(s); if (s.chance(0.05)) { r = 0; if (sym) { c = 0; } }
    auto ps = pairs(s, r, c, sym); std::vector<std::string> head, lines; std::vector<Entry> e;
    int lower = sym && s.chance(0.7); bool skew = sym && values && s.chance(0.3); if (skew) { std::vector<std::pair<int, int>> off; for (auto& q : ps) { if (q.first != q.second) { off.push_back(q); } } ps = off; } s.label("skew-symmetric", skew);
    if (banner) { int up = s.chance(0.1); head.push_back("%%MatrixMarket " + upper(std::string("matrix coordinate ") + (values ? (std::is_integral<T>::value ? "integer " : "real ") : "pattern ") + (skew ? "skew-symmetric" : sym ? "symmetric" : "general"), up)); s.label("upper case banner", up); }
    int nc = s.chance(0.5) ? s.i(1, g_long ? 200 : 4) : 0; for (int k = 0; k < nc; ++k) { int w = s.u(7); head.push_back(std::vector<std::string>{"%", "% a comment", "%%", "% stiffness of a symmetric problem", "% 3 3 2", "%1 1 1.0", "%-----", "% " + std::string(s.i(100, 5000), 'x')}[w]); s.label("comment mentions symmetry", w == 3); }
    bool blank_before = banner && s.chance(0.1); if (blank_before) { head.push_back(s.chance(0.5) ? "" : "  "); s.label("blank line before the sizes"); }
    std::set<std::pair<int, int>> had;
    for (auto& p : ps)
    {
        int i = p.first, j = p.second; if (lower && j > i) { std::swap(i, j); } Num<T> v = num(s, l, T()); if (!values) { v.value = 1; }
        std::vector<std::string> t = strs(std::vector<int>{i + 1, j + 1}); if (values) { t.push_back(v.text); } lines.push_back(l.line(t)); e.push_back({i, j, (ld) v.value}); if (sym && i != j) { e.push_back({j, i, skew ? -(ld) v.value : (ld) v.value}); }
    }
    std::string text; for (auto& h : head) { text += h + l.eol(); } lines.insert(lines.begin(), l.line(strs(std::vector<int>{r, c, (int) ps.size()}))); bool b = l.blank; std::string body = lines[0] + (lines.size() > 1 || l.final_newline ? l.eol() : ""); lines.erase(lines.begin()); l.blank = b; text += body + l.join(lines, true);
    TestFile f; f.put(text); note(s, text); s.nontrivial(ps.size() > 1); s.label("symmetric", sym); s.label("no banner", !banner);
    if (values) { check(la::ReadMTX<T>(f.path), e, r, c, "ReadMTX"); } else { check(la::ReadMTXList<T>(f.path), e, r, c, "ReadMTXList"); }
}

template <typename F> void must_throw(const char* what, const std::string& path, F f)
{
    try { f(); } catch (const std::runtime_error&) { return; } catch (const std::exception& e) { FAIL(what << " of \"" << path << "\" raises something other than std::runtime_error: " << e.what()); }
    FAIL(what << " of \"" << path << "\", which cannot be opened, does not raise an exception");
}
template <typename T>
void missing(S& s)
{
    std::string base = "/tmp/verif_no_such_directory_4711/"; int w = s.u(3); std::string path = w == 0 ? base + "x.txt" : w == 1 ? std::string("") : w == 2 ? base + std::string(s.i(1, 60), 'a') : std::string("/proc/self/fd/999999");
    la::SparseMatrix<T> m = csr<T>(s, s.size(0, 4), s.size(0, 4), INT).mat(); std::vector<T> v(s.size(0, 5)); s.nontrivial(); s.note([&](std::ostream & o) { o << "path \"" << path << "\""; });
    must_throw("ReadText", path, [&] { la::ReadText<T>(path); }); must_throw("WriteText", path, [&] { la::WriteText(v, path); });
    must_throw("WriteBinary(vector)", path, [&] { la::WriteBinary(v, path); }); must_throw("ReadBinaryVect", path, [&] { la::ReadBinaryVect<T>(path); });
    must_throw("WriteBinary(matrix)", path, [&] { la::WriteBinary(m, path); }); must_throw("ReadBinaryMat", path, [&] { la::ReadBinaryMat<T>(path); });
    must_throw("ReadAdjList", path, [&] { la::ReadAdjList<T>(path); }); must_throw("ReadAdjList(symmetric)", path, [&] { la::ReadAdjList<T>(path, true); }); must_throw("ReadGraphList", path, [&] { la::ReadGraphList<T>(path); });
    must_throw("WriteAdjList", path, [&] { la::WriteAdjList(m, path); }); must_throw("ReadCooList", path, [&] { la::ReadCooList<T>(path); }); must_throw("WriteCooList", path, [&] { la::WriteCooList(m, path); });
    must_throw("ReadTable", path, [&] { la::ReadTable<T>(path); }); must_throw("WriteTable", path, [&] { la::WriteTable(m, path); }); must_throw("ReadCSR", path, [&] { la::ReadCSR<T>(path); }); must_throw("WriteCSR", path, [&] { la::WriteCSR(m, path); });
    must_throw("ReadMTX", path, [&] { la::ReadMTX<T>(path); }); must_throw("ReadMTXList", path, [&] { la::ReadMTXList<T>(path); }); must_throw("WriteMTX", path, [&] { la::WriteMTX(m, path); });
}
}

LAW(text_double, 8000, 100000, "at least two values") { text_vector<double>(s); }
LAW(text_int, 4000, 50000, "at least two values") { text_vector<int>(s); }
LAW(adjacency_double, 8000, 100000, "at least two pairs") { adjacency<double>(s); }
LAW(adjacency_int, 4000, 50000, "at least two pairs") { adjacency<int>(s); }
LAW(graph_double, 8000, 100000, "at least two edges") { graph<double>(s); }
LAW(graph_int, 4000, 50000, "at least two edges") { graph<int>(s); }
LAW(coordinates_double, 8000, 100000, "at least two entries") { coordinates<double>(s); }
LAW(coordinates_int, 4000, 50000, "at least two entries") { coordinates<int>(s); }
LAW(table_int, 8000, 100000, "at least two entries") { table<int>(s); }
LAW(table_double, 4000, 50000, "at least two entries") { table<double>(s); }
LAW(csr_double, 8000, 100000, "at least two entries") { csr_file<double>(s); }
LAW(csr_int, 4000, 50000, "at least two entries") { csr_file<int>(s); }
LAW(mtx_double, 12000, 150000, "at least two entries") { mtx<double>(s, true); }
LAW(mtx_int, 6000, 60000, "at least two entries") { mtx<int>(s, true); }
LAW(mtx_pattern, 8000, 100000, "at least two entries") { mtx<double>(s, false); }
LAW(mtx_pattern_int, 4000, 50000, "at least two entries") { mtx<int>(s, false); }
LAW(missing_double, 300, 3000, "always") { missing<double>(s); }
LAW(missing_int, 300, 3000, "always") { missing<int>(s); }
LAW(long_text, 150, 2000, "at least two values") { Long z; text_vector<double>(s); }
LAW(long_adjacency, 200, 2500, "at least two pairs") { Long z; adjacency<double>(s); }
LAW(long_graph, 200, 2500, "at least two edges") { Long z; graph<double>(s); }
LAW(long_coordinates, 200, 2500, "at least two entries") { Long z; coordinates<double>(s); }
LAW(long_table, 100, 1200, "at least two entries") { Long z; table<double>(s); }
LAW(long_csr, 100, 1200, "at least two entries") { Long z; csr_file<double>(s); }
LAW(long_mtx, 200, 2500, "at least two entries") { Long z; mtx<double>(s, true); }
LAW(long_mtx_pattern, 150, 2000, "at least two entries") { Long z; mtx<double>(s, false); }

PBT_MAIN
