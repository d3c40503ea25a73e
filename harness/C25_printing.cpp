// C25: printed output shows every entry at its place
// technique: round-trip property testing: random objects are printed with random labels, widths, precisions and stream settings, the text is parsed by the harness and compared with the object
#include "gen.hpp"
#include <iomanip>
using pbt::S;

namespace
{
std::string label(S& s)
{
    if (s.chance(0.3)) { return ""; }
    std::string o; int n = s.i(1, 12); for (int i = 0; i < n; ++i) { o += s.pick({'A', 'b', ':', ' ', '(', ')', ',', '1', '-', '.', '%', '\\', '"', '\t'}); } return o;
}
// how the caller's stream is set up, and what of a value survives it
struct Fmt
{
    int mode, p; bool tostdout;
    explicit Fmt(S& s) : mode(s.weighted({4, 2, 1, 1})), p(s.pick({3, 9, 15, 17})), tostdout(s.chance(0.2)) {}
    void set(std::ostream& o) const { if (mode >= 1) { o << std::setprecision(p); } if (mode == 2) { o << std::fixed; } if (mode == 3) { o << std::scientific; } }
    ld tol(ld v) const { switch (mode) { case 0: return 5.001e-6L * std::fabs(v) + 5e-324L; case 1: return 5.001L * std::pow(10.0L, -p) * std::fabs(v) + 1e-16L * std::fabs(v) + 5e-324L; case 2: return 0.5001L * std::pow(10.0L, -p) + 1e-16L * std::fabs(v); default: return 5.001L * std::pow(10.0L, -p - 1) * std::fabs(v) + 1e-16L * std::fabs(v) + 5e-324L; } }
    template <typename F> std::string run(F f) const
    {
        std::ostringstream o; set(o);
        if (!tostdout) { f(o, false); return o.str(); }
        struct Back { std::streambuf* b; std::ios st; Back() : b(std::cout.rdbuf()), st(nullptr) { st.copyfmt(std::cout); } ~Back() { std::cout.rdbuf(b); std::cout.copyfmt(st); } } back;
        std::cout.rdbuf(o.rdbuf()); set(std::cout); f(std::cout, true); return o.str();
    }
};
std::string visible(const std::string& t) { std::string o; for (char c : t) { if (c == '\n') { o += "\\n"; } else { o += c; } if (o.size() > 600) { o += "..."; break; } } return o; }
std::vector<std::string> lines(const std::string& t) { std::vector<std::string> o; std::istringstream in(t); for (std::string l; std::getline(in, l);) { o.push_back(l); } return o; }
bool blank(const std::string& l) { return l.find_first_not_of(" \t\r") == std::string::npos; }

// label line, then the body; trailing blank lines dropped
std::vector<std::string> body(const std::string& text, const std::string& label, const char* what)
{
    std::vector<std::string> l = lines(text); CHECK(!l.empty() && l[0] == label, what << ": the first line is not the label \"" << label << "\": " << visible(text)); CHECK(text.back() == '\n', what << ": the output does not end a line");
    l.erase(l.begin()); return l;
}
struct Item { int i, j; ld v; };
std::vector<Item> coords(const std::vector<std::string>& l, const std::string& text, const char* what)
{
    std::vector<Item> o;
    for (auto& x : l)
    {
        if (blank(x)) { continue; } int i, j, used = 0; CHECK(sscanf(x.c_str(), " ( %d , %d )%n", &i, &j, &used) == 2 && used > 0, what << ": line \"" << x << "\" is not (i, j) value: " << visible(text));
        const char* p = x.c_str() + used; char* e; ld v = strtold(p, &e); CHECK(e != p && blank(e), what << ": line \"" << x << "\" is not (i, j) value"); o.push_back({i, j, v});
    }
    return o;
}
// the printed items are the given ones, each once, whatever their order
void same_items(std::vector<Item> got, std::vector<Item> want, const Fmt& f, const std::string& text, const char* what)
{
    CHECK(got.size() == want.size(), what << ": " << got.size() << " entries printed, there are " << want.size() << ": " << visible(text));
    auto less = [](const Item & a, const Item & b) { return std::tie(a.i, a.j, a.v) < std::tie(b.i, b.j, b.v); }; std::stable_sort(got.begin(), got.end(), less); std::stable_sort(want.begin(), want.end(), less);
    for (size_t k = 0; k < got.size(); ++k) { CHECK(got[k].i == want[k].i && got[k].j == want[k].j && std::fabs(got[k].v - want[k].v) <= f.tol(want[k].v), what << ": printed (" << got[k].i << ", " << got[k].j << ") " << (double) got[k].v << ", expected (" << want[k].i << ", " << want[k].j << ") " << (double) want[k].v << ": " << visible(text)); }
}
template <typename T> std::vector<Item> items(const Csr<T>& a, int r0 = 0, int c0 = 0) { std::vector<Item> o; for (int i = 0; i < a.r; ++i) for (int k = a.p[i]; k < a.p[i + 1]; ++k) { o.push_back({i + r0, a.x[k] + c0, (ld) a.d[k]}); } return o; }
double magnitude(S& s) { return s.chance(0.6) ? value<double>(s, s.chance(0.5) ? INT : REAL) : s.pick({1e-9, -1e-5, 123456.789, -99999.5, 1e10, -1234567.25, 0.0, 1e-300, 0.00005, -0.00004}); }
template <typename T> T val(S& s) { return (T) magnitude(s); }
template <> int val<int>(S& s) { return s.chance(0.2) ? s.sgn_int(10000000) : s.sgn_int(20); }

// one dense matrix printed row by row with prec decimals
void check_dense(const Ref& a, const std::vector<std::string>& l, int prec, const std::string& text, const char* what)
{
    std::vector<std::string> b = l; while ((int) b.size() > a.r && blank(b.back())) { b.pop_back(); }
    CHECK((int) b.size() == a.r, what << ": " << b.size() << " rows printed, there are " << a.r << ": " << visible(text));
    for (int i = 0; i < a.r; ++i)
    {
        const char* p = b[i].c_str();
        for (int j = 0; j < a.c; ++j)
        {
            std::string t; while (*p == ' ' || *p == '\t') { ++p; } while (*p == '-' || *p == '+' || isdigit((unsigned char) *p)) { t += *p++; if (p[-1] != '-' && p[-1] != '+' && (*p == '-' || *p == '+')) { break; } }
            if (prec > 0) { CHECK(*p == '.', what << ": row " << i << " is \"" << b[i] << "\""); t += *p++; for (int k = 0; k < prec; ++k) { CHECK(isdigit((unsigned char) *p), what << ": row " << i << " is \"" << b[i] << "\": fewer than " << prec << " decimals"); t += *p++; } }
            CHECK(!t.empty(), what << ": row " << i << " has only " << j << " entries: \"" << b[i] << "\"");
            ld v = strtold(t.c_str(), nullptr); CHECK(std::fabs(v - a(i, j)) <= 0.5001L * std::pow(10.0L, -prec) + 1e-16L * std::fabs(a(i, j)), what << ": entry (" << i << "," << j << ") printed as " << t << ", it is " << (double) a(i, j));
        }
        CHECK(blank(p), what << ": row " << i << " has more than " << a.c << " entries: \"" << b[i] << "\"");
    }
}

template <typename T>
void vector(S& s, int n)
{
    Fmt f(s); la::Vector<T> v(n); std::vector<T> w = values<T>(s, n, INT); bool own = s.chance(0.6); for (int i = 0; i < n; ++i) { if (own) { w[i] = val<T>(s); } v[i] = w[i]; } std::string lab = label(s); s.nontrivial(n > 1); s.note([&](std::ostream & o) { o << show(w) << " label \"" << lab << "\""; });
    int how = s.u(3); const la::VectorView<T>& view = v; const char* what = how == 0 ? "Vector::Print" : how == 1 ? "operator<<" : how == 2 ? "operator<<(std::vector)" : "Print of a window";
    int from = 0; if (how == 3) { from = s.u(n); }
    la::VectorView<T> window(v.begin() + from, n - from);
    using la::operator<<;
    std::string text = f.run([&](std::ostream & o, bool std) { if (how == 0) { if (std) { v.Print(lab); } else { v.Print(lab, o); } } else if (how == 1) { o << view; } else if (how == 2) { o << w; } else { window.Print(lab, o); } });
    std::vector<std::string> b = body(text, how == 1 || how == 2 ? "" : lab, what); std::vector<ld> got; for (auto& l : b) { std::istringstream in(l); for (std::string t; in >> t;) { got.push_back(strtold(t.c_str(), nullptr)); } }
    CHECK((int) got.size() == n - from, what << ": " << got.size() << " entries printed, there are " << n - from << ": " << visible(text)); for (int i = 0; i + from < n; ++i) { CHECK(std::fabs(got[i] - (ld) w[i + from]) <= f.tol((ld) w[i + from]), what << ": entry " << i << " printed as " << (double) got[i] << ", it is " << w[i + from]); }
    for (int i = 0; i < n; ++i) { CHECK(v[i] == w[i], "printing changed the vector"); }
}

template <typename T>
void sparse(S& s, int r, int c)
{
    Fmt f(s); Csr<T> a = csr<T>(s, r, c, INT); if (s.chance(0.6)) { for (auto& v : a.d) { if (s.chance(0.7)) { v = val<T>(s); } } } else if (s.chance(0.1)) { for (auto& v : a.d) { v = 0; } } la::SparseMatrix<T> m = a.mat(); std::string lab = label(s); s.nontrivial(a.d.size() > 1); s.note([&](std::ostream & o) { o << a.show() << " label \"" << lab << "\""; });
    std::string text = f.run([&](std::ostream & o, bool std) { if (std) { m.Print(lab); } else { m.Print(lab, o); } }); same_items(coords(body(text, lab, "SparseMatrix::Print"), text, "SparseMatrix::Print"), items(a), f, text, "SparseMatrix::Print");
    text = f.run([&](std::ostream & o, bool std) { if (std) { m.PrintDense(lab); } else { m.PrintDense(lab, o); } }); check_dense(a.ref(), body(text, lab, "SparseMatrix::PrintDense"), 4, text, "SparseMatrix::PrintDense");
    CHECK(same_csr(m, a), "printing changed the matrix");
}

// coordinate output of an assembled matrix: every added entry once (a format that keeps duplicates summed may print the sum instead)
template <typename T, typename M>
void assembled(S& s, M& m, const char* what, bool may_sum, bool large = false)
{
    Fmt f(s); int r = s.i(1, large ? 300 : 8), c = s.i(1, large ? 300 : 8), n = large ? s.i(12, 200) : s.size(0, 12); m = s.chance(0.5) ? M(r, c) : M(); std::vector<Item> want; std::string lab = label(s);
    for (int k = 0; k < n; ++k) { int i = s.u(r - 1), j = s.u(c - 1); T v = val<T>(s); m.Add(i, j, v); want.push_back({i, j, (ld) v}); }
    s.nontrivial(want.size() > 1); s.note([&](std::ostream & o) { for (auto& w : want) { o << "(" << w.i << "," << w.j << ")=" << (double) w.v << " "; } });
    std::string text = f.run([&](std::ostream & o, bool std) { if (std) { m.Print(lab); } else { m.Print(lab, o); } }); std::vector<Item> got = coords(body(text, lab, what), text, what);
    if (may_sum && got.size() != want.size())
    {
        std::map<std::pair<int, int>, std::pair<ld, ld>> a; for (auto& w : want) { auto& x = a[ {w.i, w.j}]; x.first += w.v; x.second += std::fabs(w.v); }
        CHECK(got.size() == a.size(), what << ": " << got.size() << " entries printed, " << want.size() << " were added at " << a.size() << " positions: " << visible(text));
        for (auto& g : got) { auto it = a.find({g.i, g.j}); CHECK(it != a.end(), what << ": (" << g.i << ", " << g.j << ") printed twice or never added: " << visible(text)); ld d = std::fabs(g.v - it->second.first); CHECK(d <= f.tol(it->second.first) + 1e-14L * it->second.second, what << ": (" << g.i << ", " << g.j << ") printed as " << (double) g.v << ", it is " << (double) it->second.first); a.erase(it); }
    }
    else { same_items(got, want, f, text, what); }
    std::string again = f.run([&](std::ostream & o, bool) { m.Print(lab, o); }); CHECK(again == text, what << ": printing twice gives different text");
}

void dense_print(S& s, int r, int c)
{
    la::DenseMatrix m = dense(s, r, c, INT); bool own = s.chance(0.6); for (int i = 0; own && i < r; ++i) for (int j = 0; j < c; ++j) { if (s.chance(0.7)) { m(i, j) = magnitude(s); if (std::fabs(m(i, j)) > 1e14) { m(i, j) = 1; } } }
    Ref a = ref(m); std::string lab = label(s); Fmt f(s); f.mode = 0; int prec = s.i(0, 12), width = s.i(0, 20); bool dflt = s.chance(0.3); if (dflt) { prec = 4; width = 8; }
    if (prec == 0) { width = 20; } s.nontrivial(r * c > 1); s.label("zero dimension", r * c == 0); s.label("default width and precision", dflt); s.note([&](std::ostream & o) { o << r << "x" << c << " width " << width << " precision " << prec << " label \"" << lab << "\" " << show(a); });
    std::string text = f.run([&](std::ostream & o, bool std) { if (dflt) { if (std) { m.Print(lab); } else { m.Print(lab, o); } } else { m.Print(lab, o, width, prec); } }); std::vector<std::string> l = body(text, lab, "DenseMatrix::Print"); check_dense(a, l, prec, text, "DenseMatrix::Print");
    for (int i = 0; i < r; ++i) { CHECK((int) l[i].size() >= width * c, "DenseMatrix::Print: row " << i << " is narrower than " << c << " columns of width " << width << ": \"" << l[i] << "\""); }
    expect_mat_exact(m, a, "printing changed the matrix");
}

template <typename T>
void blocks(S& s)
{
    Fmt f(s); auto offs = [&] { std::vector<int> o(1, 0); int n = s.i(1, 3); for (int i = 0; i < n; ++i) { o.push_back(o.back() + s.u(4)); } return o; }; std::vector<int> ro = offs(), co = offs(); la::BlockMatrix<T> m(ro, co); std::map<std::pair<int, int>, Csr<T>> set; Ref all(ro.back(), co.back());
    for (int i = 0; i + 1 < (int) ro.size(); ++i) for (int j = 0; j + 1 < (int) co.size(); ++j) { if (!s.chance(0.7)) { continue; } Csr<T> a = csr<T>(s, ro[i + 1] - ro[i], co[j + 1] - co[j], INT); m.SetBlock(i, j, a.mat()); for (auto& it : items(a, ro[i], co[j])) { all(it.i, it.j) += it.v; } set[ {i, j}] = a; }
    std::string lab = label(s); s.nontrivial(!set.empty() && ro.size() + co.size() > 4); s.note([&](std::ostream & o) { o << "row offsets " << show(ro) << " col offsets " << show(co); for (auto& b : set) { o << " block (" << b.first.first << "," << b.first.second << ") " << b.second.show(); } });
    std::string text = f.run([&](std::ostream & o, bool std) { if (std) { m.PrintDense(lab); } else { m.PrintDense(lab, o); } }); check_dense(all, body(text, lab, "BlockMatrix::PrintDense"), 4, text, "BlockMatrix::PrintDense");
    text = f.run([&](std::ostream & o, bool std) { if (std) { m.Print(lab); } else { m.Print(lab, o); } }); std::vector<std::string> l = body(text, lab, "BlockMatrix::Print");
    // sections introduced by "block (i,j)"
    std::map<std::pair<int, int>, std::vector<std::string>> sec; std::pair<int, int> cur{-1, -1};
    for (auto& x : l) { int i, j; if (sscanf(x.c_str(), "block ( %d , %d )", &i, &j) == 2) { cur = {i, j}; CHECK(sec.insert({cur, {}}).second, "BlockMatrix::Print: block (" << i << "," << j << ") printed twice"); } else if (!blank(x)) { CHECK(cur.first >= 0, "BlockMatrix::Print: \"" << x << "\" belongs to no block"); sec[cur].push_back(x); } }
    for (auto& b : set) { CHECK(sec.count(b.first) || b.second.d.empty(), "BlockMatrix::Print: block (" << b.first.first << "," << b.first.second << ") is missing"); same_items(coords(sec[b.first], text, "BlockMatrix::Print"), items(b.second), f, text, "BlockMatrix::Print"); sec.erase(b.first); }
    for (auto& b : sec) { CHECK(b.second.empty(), "BlockMatrix::Print: unset block (" << b.first.first << "," << b.first.second << ") has entries"); }
}
}

LAW(vector_double, 8000, 100000, "at least two entries") { vector<double>(s, s.size(0, 12)); }
LAW(vector_long, 300, 4000, "at least two entries") { vector<double>(s, s.i(12, 1500)); }
LAW(vector_int, 5000, 60000, "at least two entries") { vector<int>(s, s.size(0, 12)); }
LAW(sparse_double, 8000, 100000, "at least two entries") { int r = dim(s, 6, 20), c = dim(s, 6, 20); sparse<double>(s, r, c); }
LAW(sparse_int, 5000, 60000, "at least two entries") { int r = dim(s, 6, 20), c = dim(s, 6, 20); sparse<int>(s, r, c); }
LAW(sparse_large, 300, 4000, "at least two entries") { Shape q = big_shape(s, 60, 500); sparse<double>(s, q.r, q.c); }
LAW(coo_large, 300, 4000, "at least two entries") { la::CooMatrix<double> m; assembled<double>(s, m, "CooMatrix::Print", false, true); }
LAW(lil_large, 300, 4000, "at least two entries") { la::LilMatrix<double> m; assembled<double>(s, m, "LilMatrix::Print", true, true); }
LAW(dense_large, 300, 4000, "more than one entry") { Shape q = big_shape(s, 40, 250); dense_print(s, q.r, std::min(q.c, 1500 / q.r + 1)); }
LAW(coo_double, 8000, 100000, "at least two entries") { la::CooMatrix<double> m; assembled<double>(s, m, "CooMatrix::Print", false); }
LAW(coo_int, 4000, 50000, "at least two entries") { la::CooMatrix<int> m; assembled<int>(s, m, "CooMatrix::Print", false); }
LAW(lil_double, 8000, 100000, "at least two entries") { la::LilMatrix<double> m; assembled<double>(s, m, "LilMatrix::Print", true); }
LAW(lil_int, 4000, 50000, "at least two entries") { la::LilMatrix<int> m; assembled<int>(s, m, "LilMatrix::Print", true); }
LAW(dense, 12000, 150000, "more than one entry") { int r = dim(s, 7, 7), c = dim(s, 7, 7); dense_print(s, r, c); }
LAW(block_double, 5000, 60000, "several blocks, at least one set") { blocks<double>(s); }
LAW(block_int, 3000, 30000, "several blocks, at least one set") { blocks<int>(s); }

PBT_MAIN
