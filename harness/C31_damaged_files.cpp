// C31: damaged input files never corrupt memory, give invalid objects or pass in part
// technique: mutation fuzzing with fault injection: well-formed files of every format are truncated at any byte or have bytes, tokens, lines or header words altered; the result must be an exception or a structurally valid object (ASan, UBSan and a time limit watch the reader)
// note: sizes and indices between 10^6 and 2^31-2 are not injected into text files, because a file may legally describe a matrix of that size and reading it needs gigabytes.
#include "files.hpp"
using pbt::S;

namespace
{
enum Format { Text, Adj, AdjSym, Graph, Coo, CooSym, Table, Csr_, Mtx, MtxList, NF };
const char* names[] = {"ReadText", "ReadAdjList", "ReadAdjList symmetric", "ReadGraphList", "ReadCooList", "ReadCooList symmetric", "ReadTable", "ReadCSR", "ReadMTX", "ReadMTXList"};

std::string good(S& s, int f)
{
    std::ostringstream o; o.precision(17); bool big = s.chance(0.06); int r = big ? s.i(7, 60) : s.size(0, 6), c = f == AdjSym || f == CooSym || f == Graph ? r : big ? s.i(7, 60) : s.size(0, 6); s.label("long file", big); Csr<double> a = csr<double>(s, r, c, s.chance(0.5) ? INT : REAL); bool sym = s.chance(0.5);
    auto each = [&](int base, bool val) { for (int i = 0; i < r; ++i) for (int k = a.p[i]; k < a.p[i + 1]; ++k) { o << i + base << " " << a.x[k] + base; if (val) { o << " " << a.d[k]; } o << "\n"; } };
    switch (f)
    {
        case Text: for (double v : a.d) { o << v << "\n"; } break;
        case Adj: case AdjSym: case Graph: each(0, false); break;
        case Coo: case CooSym: each(0, true); break;
        case Table: for (int i = 0; i < r; ++i) { for (int k = a.p[i]; k < a.p[i + 1]; ++k) { o << (k > a.p[i] ? " " : "") << a.x[k]; } o << "\n"; } break;
        case Csr_: o << r << "\n" << c << "\n"; for (int v : a.p) { o << v << "\n"; } for (int v : a.x) { o << v << "\n"; } for (double v : a.d) { o << v << "\n"; } break;
        case Mtx: case MtxList: if (s.chance(0.7)) { o << "%%MatrixMarket matrix coordinate " << (f == Mtx ? "real " : "pattern ") << (sym ? "symmetric" : "general") << "\n"; } if (s.chance(0.3)) { o << "% comment\n"; } o << r << " " << c << " " << a.d.size() << "\n"; each(1, f == Mtx); break;
    }
    return o.str();
}
struct Tok { size_t at, len; };
std::vector<Tok> tokens(const std::string& t) { std::vector<Tok> o; size_t i = 0; while (i < t.size()) { if (isspace((unsigned char) t[i])) { ++i; continue; } size_t j = i; while (j < t.size() && !isspace((unsigned char) t[j])) { ++j; } o.push_back({i, j - i}); i = j; } return o; }
std::vector<Tok> lines(const std::string& t) { std::vector<Tok> o; size_t i = 0; while (i < t.size()) { size_t j = t.find('\n', i); j = j == std::string::npos ? t.size() : j + 1; o.push_back({i, j - i}); i = j; } return o; }
const std::vector<std::string> odd = {"-1", "0", "1", "2", "7", "-7", "1000", "2147483647", "2147483646", "-2147483648", "2147483648", "4294967296", "4294967297", "99999999999999999999", "-99999999999999999999", "1.5", "-0.5", "1e3", "nan", "inf", "-", "+", "x", "", "%", "%%MatrixMarket", "0x10", ".", "1e999", ",", "symmetric", "3 3", "1\n", "\n\n"};

void mutate(S& s, std::string& t, std::string& log)
{
    std::vector<Tok> k = tokens(t), l = lines(t); bool late = s.chance(0.3); auto at = [&](int n) { return late ? n - 1 - s.u(std::min(n - 1, 3)) : s.u(n - 1); };
    switch (s.weighted({4, 2, 2, 6, 1, 2, 2, 2, 1, 3}))
    {
        case 0: { size_t n = (size_t) s.u((int) t.size()); t.resize(n); log += "truncate at " + std::to_string(n) + "; "; break; }
        case 1: if (!k.empty()) { Tok x = k[at((int) k.size())]; log += "delete token at " + std::to_string(x.at) + "; "; t.erase(x.at, x.len); } break;
        case 2: if (!k.empty()) { Tok x = k[at((int) k.size())]; log += "duplicate token at " + std::to_string(x.at) + "; "; t.insert(x.at, t.substr(x.at, x.len) + " "); } break;
        case 3: if (!k.empty()) { Tok x = k[s.chance(0.4) ? at(std::min(5, (int) k.size())) : at((int) k.size())]; std::string v = odd[s.u((int) odd.size() - 1)]; log += "token at " + std::to_string(x.at) + " becomes \"" + v + "\"; "; t.replace(x.at, x.len, v); } break;
        case 4: { std::string v = odd[s.u((int) odd.size() - 1)]; size_t n = (size_t) s.u((int) t.size()); log += "insert \"" + v + "\" at " + std::to_string(n) + "; "; t.insert(n, v); break; }
        case 5: if (!l.empty()) { Tok x = l[at((int) l.size())]; log += "delete line at " + std::to_string(x.at) + "; "; t.erase(x.at, x.len); } break;
        case 6: if (!l.empty()) { Tok x = l[at((int) l.size())]; log += "duplicate line at " + std::to_string(x.at) + "; "; t.insert(x.at, t.substr(x.at, x.len)); } break;
        case 7: if (!t.empty()) { size_t n = (size_t) at((int) t.size()); char c = (char) (s.chance(0.5) ? s.u(255) : s.pick({'-', '9', ' ', '\n', '.', '%', '\0', 'e'})); log += "byte " + std::to_string(n) + " becomes " + std::to_string((int) (unsigned char) c) + "; "; t[n] = c; } break;
        case 8: if (l.size() > 1) { Tok x = l[at((int) l.size())]; std::string v = t.substr(x.at, x.len); t.erase(x.at, x.len); t.insert(0, v); log += "line at " + std::to_string(x.at) + " moved to the front; "; } break;
        default: if (!k.empty()) { Tok x = k[at((int) k.size())]; std::string v = t.substr(x.at, x.len); char* e; long n = strtol(v.c_str(), &e, 10); if (*e == 0 && n > -100000 && n < 100000) { v = std::to_string(n + s.pick({1, -1, 2, -2, 10, 100, -1000})); log += "token at " + std::to_string(x.at) + " becomes " + v + "; "; t.replace(x.at, x.len, v); } } break;
    }
}
// would a legal file of this text need gigabytes?  (see the note above)
bool enormous(const std::string& t)
{
    for (size_t i = 0; i < t.size();)
    {
        if (!isdigit((unsigned char) t[i])) { ++i; continue; } size_t j = i; while (j < t.size() && isdigit((unsigned char) t[j])) { ++j; }
        std::string d = t.substr(i, j - i); bool frac = i > 0 && (t[i - 1] == '.' || t[i - 1] == 'e'); size_t z = d.find_first_not_of('0'); d = z == std::string::npos ? "0" : d.substr(z); long double v = strtold(d.c_str(), nullptr); if (!frac && v > 2e4L && v < 2147483646.0L) { return true; } i = j;
    }
    return false;
}
std::string visible(const std::string& t) { std::ostringstream o; for (char c : t) { if (c == '\n') { o << "\\n"; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\x%02x", (unsigned char) c); o << b; } else { o << c; } } return o.str(); }

template <typename T> void valid(const la::SparseMatrix<T>& m, const char* what)
{
    int r = m.Rows(), c = m.Cols(); const std::vector<int>& p = m.GetIndptr(); CHECK(r >= 0 && c >= 0, what << ": returned a " << r << "x" << c << " matrix"); CHECK((int) p.size() == r + 1, what << ": " << p.size() << " row pointers for " << r << " rows"); CHECK(p[0] == 0, what << ": row pointers start at " << p[0]);
    for (int i = 0; i < r; ++i) { CHECK(p[i] <= p[i + 1], what << ": row pointer " << i + 1 << " is " << p[i + 1] << " after " << p[i]); }
    CHECK((size_t) p[r] == m.GetIndices().size() && m.GetIndices().size() == m.GetData().size(), what << ": row pointers end at " << p[r] << ", " << m.GetIndices().size() << " columns, " << m.GetData().size() << " values");
    for (int j : m.GetIndices()) { CHECK(j >= 0 && j < c, what << ": column index " << j << " of " << c); }
    // and it can be used
    la::Vector<double> x(c, 1.0), y(r, 0.0), z(c, 0.0); m.Mult(x, static_cast<la::VectorView<double>&>(y)); m.MultAT(y, static_cast<la::VectorView<double>&>(z));
}
template <typename F> bool attempt(F f) { try { f(); } catch (const std::exception&) { return false; } return true; }

template <typename T>
bool read(int f, const std::string& path)
{
    const char* w = names[f];
    return attempt([&]
    {
        switch (f)
        {
            case Text: { std::vector<T> v = la::ReadText<T>(path); volatile T sink = 0; for (T x : v) { sink = x; } (void) sink; break; }
            case Adj: valid(la::ReadAdjList<T>(path), w); break; case AdjSym: valid(la::ReadAdjList<T>(path, true), w); break; case Graph: valid(la::ReadGraphList<T>(path), w); break;
            case Coo: valid(la::ReadCooList<T>(path), w); break; case CooSym: valid(la::ReadCooList<T>(path, true), w); break; case Table: valid(la::ReadTable<T>(path), w); break;
            case Csr_: valid(la::ReadCSR<T>(path), w); break; case Mtx: valid(la::ReadMTX<T>(path), w); break; default: valid(la::ReadMTXList<T>(path), w); break;
        }
    });
}

void damaged(S& s, int f)
{
    std::string t = good(s, f), t0 = t, log; int n = s.i(1, 3); for (int k = 0; k < n; ++k) { mutate(s, t, log); } s.note([&](std::ostream & o) { o << names[f] << ": " << log << "file \"" << visible(t) << "\""; });
    if (enormous(t)) { s.label("(describes an enormous matrix, skipped)"); return; }
    TestFile file; file.put(t); s.nontrivial(t != t0); bool dup = f == Table || f == Csr_ || f == Text; bool as_int = dup && s.chance(0.3);
    bool ok = as_int ? read<int>(f, file.path) : read<double>(f, file.path); s.label(ok ? "accepted" : "refused");
}

// damage that leaves something which is not a file of the format at all: it must be refused, not read in part
void refused(S& s)
{
    int f = s.u(NF - 1); std::string t = good(s, f), what; std::vector<Tok> k = tokens(t); size_t first = 0; int per = f == Adj || f == AdjSym || f == Graph || f == MtxList ? 2 : f == Coo || f == CooSym || f == Mtx ? 3 : 1; bool mm = f == Mtx || f == MtxList;
    std::vector<Tok> l = lines(t); size_t head = 0; if (mm) { while (head < l.size() && t[l[head].at] == '%') { ++head; } while (first < k.size() && k[first].at < l[head].at) { ++first; } }
    size_t body = mm ? first + 3 : first; int n = (int) (k.size() - body); if (n <= 0) { throw pbt::Discard{}; }
    auto entry_line = [&] { return l[head + 1 + (size_t) s.u((int) (l.size() - head) - 2)]; };
    switch (s.weighted({4, 2, (double) (per > 1 ? 3 : 0), (double) (mm ? 3 : 0), (double) (mm ? 2 : 0), (double) (mm ? 1 : 0)}))
    {
        case 0: { size_t at = (s.chance(0.3) ? first : body) + (size_t) s.u(n - 1); Tok x = k[at]; std::string v = s.pick({"x", "abc", "#", ",", "--", "+-1", "-", "+", "n", "nan", "inf", "1,2", "2;", "3:4", "\"1\"", "1 x", "(1)", "1e", "1 %", "2/3"}); if ((f == Csr_ || at < body) && isdigit((unsigned char) v[0])) { v = "x"; } if (v == "1e" && (f == Text || f == Csr_)) { v = "e1"; } t.replace(x.at, x.len, v); what = "token at " + std::to_string(x.at) + " becomes \"" + v + "\""; break; }
        case 1: { Tok x = k[first + (size_t) s.u((int) (k.size() - first) - 1)]; if (f == Csr_) { t = t.substr(0, x.at); what = "cut off at token " + std::to_string(x.at); break; } std::string v = s.pick({"x ", "# ", ", ", "% ", "one ", "= "}); if (mm && v[0] == '%') { v = "x "; } t.insert(x.at, v); what = "insert \"" + v + "\" at " + std::to_string(x.at); break; }
        case 2: { int d = s.i(1, n); if (d % per == 0) { --d; } if (d == 0) { d = 1; } t = t.substr(0, k[k.size() - (size_t) d].at); while (s.chance(0.5) && !t.empty() && isspace((unsigned char) t.back())) { t.pop_back(); } what = "the last " + std::to_string(d) + " tokens are missing"; break; }
        case 3: { Tok x = entry_line(); std::string v = t.substr(x.at, x.len); if (s.chance(0.5)) { t.erase(x.at, x.len); what = "line at " + std::to_string(x.at) + " is missing"; } else { t.insert(x.at, v); what = "line at " + std::to_string(x.at) + " is there twice"; } break; }
        case 4: { Tok x = k[first + 2]; int m = n / per, w = s.pick({m + 1, m - 1, m + 10, 0, 2 * m, 1000000}); if (w == m) { w = m + 1; } t.replace(x.at, x.len, std::to_string(w)); what = "announces " + std::to_string(w) + " entries instead of " + std::to_string(m); break; }
        default: f = f == Mtx ? MtxList : Mtx; what = "a file of the other kind"; break;
    }
    s.note([&](std::ostream & o) { o << names[f] << ": " << what << ", file \"" << visible(t) << "\""; }); s.nontrivial(); s.label(names[f]); bool ok;
    TestFile file; file.put(t); bool whole = f == Table || f == Csr_ || f == Text; ok = whole && s.chance(0.2) ? read<int>(f, file.path) : read<double>(f, file.path);
    CHECK(!ok, names[f] << " accepts a file that is damaged: " << what);
}

// every prefix of a file
void prefixes(S& s)
{
    int f = s.u(NF - 1); std::string t = good(s, f); if (t.size() > 300) { t.resize(300); } s.note([&](std::ostream & o) { o << "every prefix of a file for " << names[f] << ": \"" << visible(t) << "\""; }); s.nontrivial(t.size() > 10); s.label(names[f]);
    TestFile file; for (size_t k = 0; k <= t.size(); ++k) { std::string u = t.substr(0, k); if (enormous(u)) { continue; } file.put(u); s.say("prefix of " + std::to_string(k) + " bytes"); read<double>(f, file.path); }
}

template <typename T> std::string raw(const std::vector<T>& v) { return v.empty() ? std::string() : std::string((const char*) v.data(), v.size() * sizeof(T)); }
std::string raw64(uint64_t v) { return std::string((const char*) &v, sizeof v); }

template <typename T>
void binary(S& s, bool vector)
{
    std::string t, log; bool big = s.chance(0.06); Csr<T> a = big ? csr<T>(s, s.i(7, 60), s.i(7, 60), INT) : csr<T>(s, s.size(0, 6), s.size(0, 6), INT); s.label("long file", big); int words = vector ? 1 : 3;
    if (vector) { t = raw64(a.d.size()) + raw(a.d); } else { t = raw64(a.r) + raw64(a.c) + raw64(a.d.size()) + raw(a.p) + raw(a.x) + raw(a.d); }
    std::string t0 = t; int n = s.i(1, 3);
    for (int k = 0; k < n; ++k)
    {
        switch (s.weighted({3, 5, 2, 4, 1}))
        {
            case 0: { size_t m = (size_t) s.u((int) t.size()); t.resize(m); log += "truncate at " + std::to_string(m) + "; "; break; }
            case 1: { int w = s.u(words - 1); if (t.size() < 8u * (w + 1)) { break; } uint64_t v; std::memcpy(&v, &t[8 * w], 8); uint64_t nv = s.pick<uint64_t>({v + 1, v - 1, 0, (uint64_t) -1, v + (1ull << 32), (uint64_t) 1 << 31, ((uint64_t) 1 << 31) - 1, (uint64_t) 1 << 61, ((uint64_t) 1 << 62) - 1, v * 2, (uint64_t) 1 << 40, (uint64_t) 1000000, v + 3, (uint64_t) 1 << 63, ((uint64_t) 1 << 61) + v}); std::memcpy(&t[8 * w], &nv, 8); log += "header word " + std::to_string(w) + " becomes " + std::to_string(nv) + "; "; break; }
            case 2: if (!t.empty()) { size_t at = (size_t) s.u((int) t.size() - 1); t[at] = (char) s.u(255); log += "byte " + std::to_string(at) + "; "; } break;
            case 3: { size_t base = 8u * words; if (vector || t.size() < base + 4) { break; } size_t m = (t.size() - base) / 4; size_t at = base + 4 * (size_t) s.u((int) m - 1); int v; std::memcpy(&v, &t[at], 4); int nv = s.pick({(int) ((unsigned) v + 1u), (int) ((unsigned) v - 1u), -1, 0, 2147483647, (int) (-2147483647 - 1), 100, -100, 5}); std::memcpy(&t[at], &nv, 4); log += "word at " + std::to_string(at) + " becomes " + std::to_string(nv) + "; "; break; }
            default: t += std::string((size_t) s.i(1, 20), (char) s.u(255)); log += "trailing bytes; "; break;
        }
    }
    s.note([&](std::ostream & o) { o << (vector ? "ReadBinaryVect: " : "ReadBinaryMat: ") << a.show() << " " << log; }); s.nontrivial(t != t0);
    // a matrix without entries may legally have any number of columns
    TestFile file; file.put(t);
    bool ok = attempt([&] { if (vector) { std::vector<T> v = la::ReadBinaryVect<T>(file.path); CHECK(v.size() * sizeof(T) <= t.size() + 8, "ReadBinaryVect: " << v.size() << " values out of a file of " << t.size() << " bytes"); } else { la::SparseMatrix<T> m = la::ReadBinaryMat<T>(file.path); int c = m.Cols(); if (c > 2000000) { CHECK(m.Rows() >= 0 && (int) m.GetIndptr().size() == m.Rows() + 1, "arrays disagree"); return; } valid(m, "ReadBinaryMat"); } });
    s.label(ok ? "accepted" : "refused");
}
}

LAW(text, 3000, 40000, "the file was altered") { damaged(s, Text); }
LAW(adjacency, 8000, 120000, "the file was altered") { damaged(s, s.chance(0.5) ? Adj : AdjSym); }
LAW(graph, 5000, 80000, "the file was altered") { damaged(s, Graph); }
LAW(coordinates, 8000, 120000, "the file was altered") { damaged(s, s.chance(0.5) ? Coo : CooSym); }
LAW(table, 6000, 100000, "the file was altered") { damaged(s, Table); }
LAW(csr_file, 15000, 250000, "the file was altered") { damaged(s, Csr_); }
LAW(mtx, 12000, 200000, "the file was altered") { damaged(s, Mtx); }
LAW(mtx_list, 8000, 120000, "the file was altered") { damaged(s, MtxList); }
LAW(refused_files, 20000, 300000, "the file has at least one entry") { refused(s); }
LAW(truncation, 400, 6000, "more than ten prefixes") { prefixes(s); }
LAW(binary_vector, 8000, 120000, "the file was altered") { binary<double>(s, true); }
LAW(binary_matrix, 15000, 250000, "the file was altered") { binary<double>(s, false); }
LAW(binary_matrix_int, 8000, 120000, "the file was altered") { binary<int>(s, false); }

PBT_MAIN
