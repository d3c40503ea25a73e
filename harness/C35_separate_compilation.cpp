// C35: separately compiled parts of a program agree on the library and link
// technique: property-based testing of generated programs: several translation units with drawn subsets and orders of headers, each creating and using library objects and passing them to the others (also while static objects are initialised), compiled with drawn compilers, language standards, optimisation and NDEBUG against a static or shared library, linked and run; every printed result is compared with an independent model
// note: the compilers installed are g++ and clang++; language standards 14, 17 and 20. The library is compiled once per drawn configuration, from the current tree.
// flavours: debug
#include "pbt.hpp"
#include <sys/file.h>
#include <sys/wait.h>
using pbt::S;

namespace
{
typedef std::vector<double> V; typedef std::vector<V> M;

// ---- running commands ---------------------------------------------------------------------------
std::string repo() { const char* r = getenv("VERIF_REPO"); return r && *r ? r : "/repo"; }
struct Scratch
{
    std::string dir; pid_t owner;
    Scratch() : owner(getpid()) { char t[] = "/tmp/verif_c35_XXXXXX"; dir = mkdtemp(t); }
    ~Scratch() { if (getpid() == owner) { int r = system(("rm -rf " + dir).c_str()); (void) r; } }
} scratch;
struct CaseDir { std::string dir; CaseDir() { std::string t = scratch.dir + "/caseXXXXXX"; dir = mkdtemp(&t[0]); } ~CaseDir() { int r = system(("rm -rf " + dir).c_str()); (void) r; } };

void put(const std::string& p, const std::string& t) { std::ofstream f(p.c_str()); f << t; }

// exit status, or -1 when the command was killed by something other than its own fault
struct Ran { int rc; bool fault, limit; std::string out; };
Ran run(const std::string& cmd, const std::string& out, int cpu)
{
    pid_t p = fork();
    if (p == 0)
    {
        int fd = open(out.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(fd, 1); dup2(fd, 2); int in = open("/dev/null", O_RDONLY); dup2(in, 0);
        struct rlimit l; l.rlim_cur = (rlim_t) cpu; l.rlim_max = (rlim_t) cpu + 2; setrlimit(RLIMIT_CPU, &l); alarm(400);
        execl("/bin/sh", "sh", "-c", cmd.c_str(), (char*) 0); _exit(126);
    }
    int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) { }
    Ran r; r.out = pbt::slurp(out); int sig = WIFSIGNALED(st) ? WTERMSIG(st) : WIFEXITED(st) && WEXITSTATUS(st) > 128 ? WEXITSTATUS(st) - 128 : 0;
    r.rc = WIFEXITED(st) ? WEXITSTATUS(st) : 1; r.fault = sig == SIGSEGV || sig == SIGABRT || sig == SIGFPE || sig == SIGILL || sig == SIGBUS; r.limit = sig == SIGXCPU;
    if (sig && !r.fault && !r.limit) { throw pbt::Discard(); }      // killed from outside (memory, wall clock)
    return r;
}
// a compiler: its diagnostics are failures of the library, its own death is not
std::string compile(const std::string& cmd, const std::string& out)
{
    for (int k = 0; k < 2; ++k)
    {
        Ran r = run(cmd, out, 200); if (r.rc == 0 && !r.fault && !r.limit) { return ""; }
        size_t e = r.out.find("error: "); if (e == std::string::npos) { e = r.out.find("undefined reference"); } if (e == std::string::npos) { e = r.out.find("multiple definition"); }
        if (e != std::string::npos && r.out.find("internal compiler error") == std::string::npos && r.out.find("No space left") == std::string::npos)
        { size_t b = r.out.rfind('\n', e); b = b == std::string::npos ? 0 : b + 1; return r.out.substr(b, 700); }
    }
    throw pbt::Discard();
}
bool have(const char* c) { static std::map<std::string, bool> known; auto i = known.find(c); if (i == known.end()) { i = known.insert({c, system((std::string(c) + " --version > /dev/null 2>&1").c_str()) == 0}).first; } return i->second; }

struct Config { std::string cxx, flags; std::string text() const { return cxx + " " + flags; } };
Config config(S& s)
{
    Config c; c.cxx = s.i(0, 1) && have("clang++") ? "clang++" : "g++"; c.flags = s.pick({"-std=c++14", "-std=c++17", "-std=c++20", "-std=gnu++17"});
    c.flags += s.pick({" -O0", " -O0", " -O1", " -O2"}); if (s.i(0, 1)) { c.flags += " -DNDEBUG"; }
    return c;
}
// the library in one of a few configurations, compiled once per run of the check
const char* libraries[][2] = {{"g++", "-std=c++14 -O0"}, {"g++", "-std=c++17 -O2 -DNDEBUG"}, {"clang++", "-std=c++17 -O0"}, {"clang++", "-std=c++14 -O1 -DNDEBUG"}};
std::string library(int k, const std::string& extra)
{
    std::string d = scratch.dir + "/lib" + std::to_string(k); int fd = open((d + ".lock").c_str(), O_CREAT | O_RDWR | O_CLOEXEC, 0600); while (flock(fd, LOCK_EX) != 0 && errno == EINTR) { }
    struct Unlock { int fd; ~Unlock() { close(fd); } } u{fd}; (void) u;
    if (access((d + "/done").c_str(), R_OK) == 0) { std::string e = pbt::slurp(d + "/done"); if (!e.empty()) { FAIL("the library does not compile with " << libraries[k][0] << " " << libraries[k][1] << ": " << e); } return d; }
    mkdir(d.c_str(), 0700); std::string base = std::string(libraries[k][0]) + " " + libraries[k][1] + " -w -fPIC -ffp-contract=off -I" + repo() + "/include ";
    std::string cmd = "cd " + d + " || exit 9; fail=0; for f in " + repo() + "/src/*.cpp; do " + base + "-c $f -o $(basename $f).o & pids=\"$pids $!\"; done; " + base + extra + "& pids=\"$pids $!\"; for p in $pids; do wait $p || fail=1; done; [ $fail = 0 ] || exit 1; "
                      + "ar rcs liblinalgcpp.a *.cpp.o && " + libraries[k][0] + " -shared -o liblinalgcpp.so *.cpp.o -llapack -lblas && ar rcs libsparsesolver.a sps.o";
    std::string e = compile(cmd, d + "/log"); put(d + "/done", e); if (!e.empty()) { FAIL("the library does not compile with " << libraries[k][0] << " " << libraries[k][1] << ": " << e); }
    return d;
}

// ---- pieces of programs ---------------------------------------------------------------------------
struct Piece { std::string name, type, make, use; std::vector<std::string> head, link; V want; double tol = 0; };

std::string num(double x) { std::ostringstream o; o.precision(17); o << x; std::string t = o.str(); return t.find_first_of(".en") == std::string::npos ? t + ".0" : t; }
template <typename T> std::string list(const std::vector<T>& v) { std::string t = "{"; for (size_t i = 0; i < v.size(); ++i) { t += (i ? ", " : "") + (std::is_integral<T>::value ? std::to_string((int) v[i]) : num((double) v[i])); } return t + "}"; }
std::string vec(const V& v) { return "std::vector<double>" + list(v); }
std::string ivec(const std::vector<int>& v) { return "std::vector<int>" + list(v); }

V vals(S& s, int n) { V v(n); for (auto& x : v) { x = s.sgn_int(9); } return v; }
M mat(S& s, int r, int c, bool zeros) { M m(r, V(c)); for (auto& row : m) { for (auto& x : row) { x = zeros && s.chance(0.4) ? 0 : s.sgn_int(5); } } return m; }
M transpose(const M& a, int c) { M t(c, V(a.size())); for (size_t i = 0; i < a.size(); ++i) { for (int j = 0; j < c; ++j) { t[j][i] = a[i][j]; } } return t; }
V times(const M& a, const V& x) { V y; for (auto& r : a) { double t = 0; for (size_t j = 0; j < x.size(); ++j) { t += r[j] * x[j]; } y.push_back(t); } return y; }
M times(const M& a, const M& b, int c) { M y; for (auto& r : a) { V t(c, 0.0); for (size_t k = 0; k < b.size(); ++k) { for (int j = 0; j < c; ++j) { t[j] += r[k] * b[k][j]; } } y.push_back(t); } return y; }
V flat(const M& a) { V v; for (auto& r : a) { v.insert(v.end(), r.begin(), r.end()); } return v; }
V by_columns(const M& a, int c) { return flat(transpose(a, c)); }
double total(const V& v) { double t = 0; for (double x : v) { t += x; } return t; }
double dot(const V& a, const V& b) { double t = 0; for (size_t i = 0; i < a.size(); ++i) { t += a[i] * b[i]; } return t; }
M spd(S& s, int n) { M a(n, V(n, 0.0)); for (int i = 0; i < n; ++i) { for (int j = 0; j < i; ++j) { a[i][j] = a[j][i] = s.i(-1, 1); } } for (int i = 0; i < n; ++i) { a[i][i] = 2 * n + s.i(1, 4); } return a; }
int nnz(const M& a) { int k = 0; for (auto& r : a) { for (double x : r) { k += x != 0; } } return k; }
void append(V& a, const V& b) { a.insert(a.end(), b.begin(), b.end()); }

std::string csr(const M& a, int cols, const char* T = "double")
{
    std::vector<int> p(1, 0), x; V d; for (auto& r : a) { for (int j = 0; j < cols; ++j) { if (r[j] != 0) { x.push_back(j); d.push_back(r[j]); } } p.push_back((int) x.size()); }
    return std::string("la::SparseMatrix<") + T + ">(" + ivec(p) + ", " + ivec(x) + ", std::vector<" + T + ">" + (std::string(T) == "int" ? list(std::vector<int>(d.begin(), d.end())) : list(d)) + ", " + std::to_string(a.size()) + ", " + std::to_string(cols) + ")";
}
std::string dense(const M& a, int cols) { return "la::DenseMatrix(" + std::to_string(a.size()) + ", " + std::to_string(cols) + ", " + vec(by_columns(a, cols)) + ")"; }
std::string str(int i) { return std::to_string(i); }
const char* all_of = "for (double t : y) { r.push_back(t); } ";

void vector_(S& s, Piece& p)
{
    int n = s.i(1, 6); V a = vals(s, n), b = vals(s, n); double f = s.sgn_int(4); p.type = "la::Vector<double>"; p.head = {"vector.hpp"}; p.make = "return la::Vector<double>(" + vec(a) + ");";
    p.use = "la::Vector<double> b(" + vec(b) + "); r.push_back(x.Mult(b)); r.push_back(la::InnerProduct(x, b)); r.push_back(x * b); r.push_back(la::Sum(x)); r.push_back(x.Sum()); r.push_back(la::Max(x)); r.push_back(la::Min(x)); r.push_back(la::AbsMax(x)); r.push_back(la::L2Norm(x)); "
            "x.Add(" + num(f) + ", b); x -= b; x *= 2.0; for (double t : x) { r.push_back(t); } la::Vector<double> c(x + b); c = c - x; for (double t : c) { r.push_back(t); } la::SubAvg(c); r.push_back(la::Sum(c)); swap(c, b); for (double t : c) { r.push_back(t); } r.push_back(x.size());";
    double mx = a[0], mn = a[0], am = 0; for (double x : a) { mx = std::max(mx, x); mn = std::min(mn, x); am = std::max(am, std::fabs(x)); }
    double d = dot(a, b), t = total(a); p.want = {d, d, d, t, t, mx, mn, am, std::sqrt(dot(a, a))}; for (int i = 0; i < n; ++i) { p.want.push_back(2 * (a[i] + f * b[i] - b[i])); } append(p.want, b); p.want.push_back(0); append(p.want, b); p.want.push_back(n); p.tol = 1e-12;
}
void view(S& s, Piece& p)
{
    int n = s.i(2, 6), k = s.i(0, n - 1), m = s.i(1, n - k); V a = vals(s, n); double f = s.sgn_int(4); V unit(n, 0.0); a[k] = a[k] == 0 ? 3 : a[k];
    p.type = "std::vector<double>"; p.head = {"vectorview.hpp", "vector.hpp"}; p.make = "return " + vec(a) + ";";
    p.use = "{ la::VectorView<double> w(x.data() + " + str(k) + ", " + str(m) + "); w += " + num(f) + "; r.push_back(la::Sum(w)); w -= " + num(f) + "; la::Vector<double> c(w); la::Normalize(c); r.push_back(la::L2Norm(c)); c = w; c.Normalize(); r.push_back(c.L2Norm()); la::Vector<double> d(w); d.Set(2.0, w); la::Sub(w, w, d); r.push_back(la::Sum(d)); w = 1.5; } for (double t : x) { r.push_back(t); } "
            "la::Vector<double> z(200), q(200); la::Randomize(z, 2.0, 3.0, " + str(s.i(0, 99)) + "); r.push_back(la::Min(z) >= 2.0 && la::Max(z) <= 3.0 && la::Max(z) > la::Min(z)); la::Randomize(q, 2.0, 3.0); r.push_back(la::Min(q) >= 2.0 && la::Max(q) <= 3.0 && la::Max(q) > la::Min(q)); la::Vector<int> iv(300); la::Randomize(iv, -2, 5, 3); r.push_back(la::Min(iv) >= -2 && la::Max(iv) <= 5 && la::Max(iv) > la::Min(iv)); la::Vector<int> iw(300); iw.Randomize(1, 4, 7); r.push_back(la::Min(iw) >= 1 && la::Max(iw) <= 4);";
    double t = 0; for (int i = 0; i < m; ++i) { t += a[k + i] + f; } p.want = {t, 1, 1, 0}; V b = a; for (int i = 0; i < m; ++i) { b[k + i] = 1.5; } append(p.want, b); append(p.want, {1, 1, 1, 1}); p.tol = 1e-12;
}
void block_vector(S& s, Piece& p)
{
    std::vector<int> o(1, 0); int k = s.i(1, 4); for (int i = 0; i < k; ++i) { o.push_back(o.back() + s.i(1, 3)); } V a = vals(s, o.back()); int b = s.i(0, k - 1); p.type = "la::BlockVector<double>"; p.head = {"blockvector.hpp"};
    p.make = "la::Vector<double> d(" + vec(a) + "); return la::BlockVector<double>(d, " + ivec(o) + ");"; p.use = "la::BlockVector<double> c(x); c.GetBlock(" + str(b) + ") = 4.0; for (double t : c) { r.push_back(t); } for (double t : x) { r.push_back(t); } r.push_back(c.GetOffsets().back()); swap(c, x); r.push_back(la::Sum(x));";
    V c = a; for (int i = o[b]; i < o[b + 1]; ++i) { c[i] = 4; } p.want = c; append(p.want, a); p.want.push_back(o.back()); p.want.push_back(total(c));
}
void sparse(S& s, Piece& p)
{
    int n = s.i(1, 5), m = s.i(1, 5), k = s.i(1, 4); M a = mat(s, n, m, true), b = mat(s, m, k, true); V x = vals(s, m), y = vals(s, n); p.type = "la::SparseMatrix<double>"; p.head = {"sparsematrix.hpp"}; p.make = "return " + csr(a, m) + ";";
    p.use = "la::Vector<double> v(" + vec(x) + "), w(" + vec(y) + "); const la::Operator& op = x; { la::Vector<double> y(x.Mult(v)); " + std::string(all_of) + " } { la::Vector<double> y; op.Mult(v, y); " + all_of + " } { la::Vector<double> y = op.MultAT(w); " + all_of + " } { la::Vector<double> y(x.Transpose().Mult(w)); " + all_of
            + " } { la::DenseMatrix c = x.Mult(" + csr(b, k) + ").ToDense(); for (int i = 0; i < c.Rows(); ++i) { for (int j = 0; j < c.Cols(); ++j) { r.push_back(c(i, j)); } } } r.push_back(x.nnz()); r.push_back(x.Sum()); r.push_back(x.MaxNorm()); x *= 2.0; r.push_back(x.Sum()); r.push_back(op.InnerProduct(v, w)); x.EliminateRow(0); r.push_back(x.Rows() * 100 + x.Cols()); r.push_back(x.RowSize(0));";
    V ax = times(a, x), aty = times(transpose(a, m), y); p.want = ax; append(p.want, ax); append(p.want, aty); append(p.want, aty); append(p.want, flat(times(a, b, k))); double t = total(flat(a)), mx = 0; for (double v : flat(a)) { mx += std::fabs(v); }
    int first = 0; for (double v : a[0]) { first += v != 0; } append(p.want, {(double) nnz(a), t, mx, 2 * t, 2 * dot(y, ax), n * 100.0 + m, (double) first});
}
void sparse_int(S& s, Piece& p)
{
    const char* T = s.pick({"int", "float", "double"}); int n = s.i(1, 5); M a = mat(s, n, n, true); p.type = std::string("la::SparseMatrix<") + T + ">"; p.head = {"sparsematrix.hpp"}; p.make = "return " + csr(a, n, T) + ";"; M g = a; for (int i = 0; i < n; ++i) { if (g[i][i] == 0) { g[i][i] = 1; } }
    std::string N = str(n); p.use = "r.push_back(x.nnz()); r.push_back(x.Sum()); x.SortIndices(); la::SparseMatrix<" + std::string(T) + "> t(x.template Transpose<" + T + ">()); for (int i = 0; i < " + N + "; ++i) { r.push_back(t.RowSize(i)); } la::SparseMatrix<" + T + "> c(t); c = x; for (auto v : c.GetData()) { r.push_back(v); } for (auto v : c.GetDiag()) { r.push_back(v); } la::SparseMatrix<" + T + "> e(" + N + "); swap(c, e); r.push_back(c.nnz());";
    p.want = {(double) nnz(a), total(flat(a))}; for (auto& col : transpose(a, n)) { p.want.push_back((double) nnz({col})); } for (double v : flat(a)) { if (v != 0) { p.want.push_back(v); } } for (int i = 0; i < n; ++i) { p.want.push_back(a[i][i]); } p.want.push_back(0);
}
void assembly(S& s, Piece& p, const char* C, const char* head)
{
    int n = s.i(1, 5), m = s.i(1, 5); M a(n, V(m, 0.0)); int k = s.i(0, 10); p.type = std::string("la::") + C + "<double>"; p.head = {head}; p.make = p.type + " c(" + str(n) + ", " + str(m) + "); ";
    for (int t = 0; t < k; ++t) { int i = s.i(0, n - 1), j = s.i(0, m - 1); double v = s.sgn_int(7); a[i][j] += v; p.make += "c.Add(" + str(i) + ", " + str(j) + ", " + num(v) + "); "; }
    p.make += "return c;"; V x = vals(s, m), y = vals(s, n); p.use = "la::DenseMatrix d = x.ToDense(), e = x.ToSparse().ToDense(); for (int i = 0; i < x.Rows(); ++i) { for (int j = 0; j < x.Cols(); ++j) { r.push_back(d(i, j)); r.push_back(e(i, j)); } } la::Vector<double> v(" + vec(x) + "), w(" + vec(y) + "); const la::Operator& o = x; { la::Vector<double> y = o.Mult(v); " + all_of + " } { la::Vector<double> y = o.MultAT(w); " + all_of + " } " + p.type + " z(x); z.Add(0, 0, 1.0); swap(z, x); r.push_back(z.ToDense()(0, 0)); r.push_back(x.ToDense()(0, 0));";
    for (double v : flat(a)) { append(p.want, {v, v}); } append(p.want, times(a, x)); append(p.want, times(transpose(a, m), y)); append(p.want, {a[0][0], a[0][0] + 1});
}
void coo(S& s, Piece& p) { assembly(s, p, "CooMatrix", "coomatrix.hpp"); }
void lil(S& s, Piece& p) { assembly(s, p, "LilMatrix", "lilmatrix.hpp"); }
const char* cells = "for (int i = 0; i < c.Rows(); ++i) { for (int j = 0; j < c.Cols(); ++j) { r.push_back(c(i, j)); } } ";
void dense_(S& s, Piece& p)
{
    int n = s.i(1, 5), m = s.i(1, 5), k = s.i(1, 4); M a = mat(s, n, m, false), b = mat(s, m, k, false), e = mat(s, n, k, false); V x = vals(s, m); int col = s.i(0, m - 1); p.type = "la::DenseMatrix"; p.head = {"densematrix.hpp"}; p.make = "return " + dense(a, m) + ";"; std::string put_ = cells;
    p.use = "const la::DenseMatrix y(x); r.push_back(x.Sum()); r.push_back(x.Max()); r.push_back(x.Min()); { la::DenseMatrix c = y.Transpose(); " + put_ + " } { la::DenseMatrix c = y.Mult(" + dense(b, k) + "); " + put_ + " } { la::DenseMatrix c = la::HStack(std::vector<la::DenseMatrix>{y, " + dense(e, k) + "}); " + put_ + " } { la::DenseMatrix c; la::HStack(std::vector<la::DenseMatrix>{y}, c); " + put_
            + " } la::Vector<double> v(" + vec(x) + "); { la::Vector<double> y(x.Mult(v)); " + all_of + " } { la::VectorView<double> y = x.GetColView(" + str(col) + "); " + all_of + " y = 3.0; } { const la::VectorView<double>& w = y.GetColView(" + str(col) + "); r.push_back(la::Sum(w)); } std::vector<double> d(" + str(n) + "); la::VectorView<double> dv(d); x.GetCol(" + str(col) + ", dv); r.push_back(la::Sum(dv)); r.push_back(x == y); x = y; r.push_back(x == y); { la::DenseMatrix c = x + 2.0 * y - x; " + put_ + " } r.push_back(*x.GetData()); r.push_back(*y.GetData()); std::vector<double> raw; y.CopyData(raw); r.push_back(raw.size());";
    V f = flat(a); double mx = f[0], mn = f[0]; for (double v : f) { mx = std::max(mx, v); mn = std::min(mn, v); } p.want = {total(f), mx, mn}; append(p.want, flat(transpose(a, m))); append(p.want, flat(times(a, b, k)));
    for (int i = 0; i < n; ++i) { append(p.want, a[i]); append(p.want, e[i]); } append(p.want, f); append(p.want, times(a, x)); V c = transpose(a, m)[col]; append(p.want, c); append(p.want, {total(c), 3.0 * n}); bool same = true; for (double v : c) { same &= v == 3; } append(p.want, {(double) same, 1}); for (double v : f) { p.want.push_back(2 * v); } append(p.want, {a[0][0], a[0][0], (double) n * m});
}
void decompositions(S& s, Piece& p)
{
    int n = s.i(1, 5); M a = spd(s, n); p.type = "la::DenseMatrix"; p.head = {"densematrix.hpp"}; p.make = "return " + dense(a, n) + ";"; std::string put_ = cells;
    p.use = "{ la::DenseMatrix q; x.Invert(q); la::DenseMatrix c = x.Mult(q); " + put_ + " } { la::DenseMatrix q; x.QR(q); la::DenseMatrix c = q.MultAT(q); " + put_ + " } la::DenseMatrix u; std::vector<double> w = x.SVD(u); double t = 0; for (double v : w) { t += v; } r.push_back(t);";
    V id; double tr = 0; for (int i = 0; i < n; ++i) { tr += a[i][i]; for (int j = 0; j < n; ++j) { id.push_back(i == j); } } p.want = id; append(p.want, id); p.want.push_back(tr); p.tol = 1e-10;
}
void eigen(S& s, Piece& p)
{
    int n = s.i(1, 5); M a = spd(s, n); bool sp = s.i(0, 1); p.type = "la::EigenSolver"; p.head = {"eigensolver.hpp"}; p.make = "la::EigenSolver e; return e;"; double tr = 0; for (int i = 0; i < n; ++i) { tr += a[i][i]; }
    p.use = "la::EigenPair q = x.Solve(" + (sp ? csr(a, n) : dense(a, n)) + ", 1.0, " + str(n) + "); double t = 0; for (double v : q.first) { t += v; } r.push_back(t); r.push_back(q.first.size()); la::DenseMatrix c = q.second.MultAT(q.second); " + cells; V id; for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) { id.push_back(i == j); } } p.want = {tr, (double) n}; append(p.want, id); p.tol = 1e-10;
}
void block_matrix(S& s, Piece& p)
{
    std::vector<int> ro(1, 0), co(1, 0); int k = s.i(1, 3), l = s.i(1, 3); for (int i = 0; i < k; ++i) { ro.push_back(ro.back() + s.i(1, 3)); } for (int i = 0; i < l; ++i) { co.push_back(co.back() + s.i(1, 3)); } M a(ro.back(), V(co.back(), 0.0)); p.type = "la::BlockMatrix<double>"; p.head = {"blockmatrix.hpp"}; p.make = p.type + " c(" + ivec(ro) + ", " + ivec(co) + "); ";
    for (int i = 0; i < k; ++i) { for (int j = 0; j < l; ++j) { if (s.chance(0.7)) { M b = mat(s, ro[i + 1] - ro[i], co[j + 1] - co[j], true); for (size_t u = 0; u < b.size(); ++u) { for (size_t w = 0; w < b[u].size(); ++w) { a[ro[i] + u][co[j] + w] = b[u][w]; } } p.make += "c.SetBlock(" + str(i) + ", " + str(j) + ", " + csr(b, co[j + 1] - co[j]) + "); "; } } }
    p.make += "return c;"; V x = vals(s, co.back()), y = vals(s, ro.back()); p.use = "{ la::DenseMatrix c = x.Combine().ToDense(); " + std::string(cells) + "} la::Vector<double> v(" + vec(x) + "), w(" + vec(y) + "); const la::Operator& o = x; { la::Vector<double> y = o.Mult(v); " + all_of + " } { la::Vector<double> y = o.MultAT(w); " + all_of + " } { la::DenseMatrix c = x.Transpose().Combine().ToDense(); " + cells + "} r.push_back(x.GetRowOffsets().back());";
    p.want = flat(a); append(p.want, times(a, x)); append(p.want, times(transpose(a, co.back()), y)); append(p.want, flat(transpose(a, co.back()))); p.want.push_back(ro.back());
}
void block_operator(S& s, Piece& p)
{
    int n = s.i(1, 3), m = s.i(1, 3); M a = mat(s, n, m, false), b = mat(s, m, n, true); p.type = "la::BlockOperator"; p.head = {"blockoperator.hpp", "densematrix.hpp", "sparsematrix.hpp"}; V x = vals(s, n + m); M g(n + m, V(n + m, 0.0)); for (int i = 0; i < n; ++i) { for (int j = 0; j < m; ++j) { g[i][n + j] = a[i][j]; } } for (int i = 0; i < m; ++i) { for (int j = 0; j < n; ++j) { g[n + i][j] = b[i][j]; } }
    p.make = "static la::DenseMatrix d = " + dense(a, m) + "; static la::SparseMatrix<double> e = " + csr(b, n) + "; la::BlockOperator o(" + ivec({0, n, n + m}) + "); o.SetBlock(0, 1, d); o.SetBlock(1, 0, e); return o;";
    p.use = "la::Vector<double> v(" + vec(x) + "); const la::Operator& o = x; { la::Vector<double> y = o.Mult(v); " + std::string(all_of) + " } { la::Vector<double> y = o.MultAT(v); " + all_of + " } r.push_back(x.GetBlock(0, 1)->Cols()); r.push_back(x.GetBlock(0, 0) == nullptr);"; p.want = times(g, x); append(p.want, times(transpose(g, n + m), x)); append(p.want, {(double) m, 1});
}
void user_operator(S& s, Piece& p)
{
    int n = s.i(1, 4); V d = vals(s, n), x = vals(s, n); p.type = "std::shared_ptr<la::Operator>"; p.head = {"operator.hpp"};
    p.make = "struct Mine : la::Operator { std::vector<double> d; explicit Mine(std::vector<double> v) : la::Operator((int) v.size()), d(v) { } using la::Operator::Mult; using la::Operator::MultAT; void Mult(const la::VectorView<double>& i, la::VectorView<double> o) const override { for (int k = 0; k < i.size(); ++k) { o[k] = d[k] * i[k]; } } }; return std::make_shared<Mine>(" + vec(d) + ");";
    p.use = "la::Vector<double> v(" + vec(x) + "); la::Vector<double> y = x->Mult(v); " + std::string(all_of) + " r.push_back(x->InnerProduct(v, v)); bool thrown = false; try { x->MultAT(v, y); } catch (const std::runtime_error&) { thrown = true; } r.push_back(thrown); r.push_back(x->Rows());"; V y; for (int i = 0; i < n; ++i) { y.push_back(d[i] * x[i]); } p.want = y; append(p.want, {dot(x, y), 1, (double) n});
}
void solver(S& s, Piece& p)
{
    int n = s.i(1, 5), kind = s.i(0, 2); M a = spd(s, n); V x = vals(s, n), b = times(a, x); const char* names[] = {"la::PCGSolver", "la::MINRESSolver", "la::PMINRESSolver"}; p.type = names[kind]; p.head = {"solvers.hpp", "sparsematrix.hpp", "densematrix.hpp"}; bool own = s.i(0, 1); std::string one = csr([&] { M i(n, V(n, 0.0)); for (int k = 0; k < n; ++k) { i[k][k] = 1; } return i; }(), n);
    p.make = "static la::SparseMatrix<double> A = " + csr(a, n) + ", I = " + one + "; return " + p.type + "(A" + (kind == 2 ? ", I" : "") + ", 100, 1e-12, 1e-12, false" + (own ? ", [](const la::VectorView<double>& p, const la::VectorView<double>& q) { return la::InnerProduct(p, q); }" : "") + ");";
    p.use = "la::Vector<double> b(" + vec(b) + "), y(" + str(n) + ", 0.0); const la::Operator& o = x; o.Mult(b, y); " + std::string(all_of) + " x.SetMaxIter(0); la::Vector<double> z(" + str(n) + ", 5.0); r.push_back(x.GetNumIterations() <= 100); la::Solver& base = x; base.SetVerbose(false); base.SetRelTol(1e-12); base.SetAbsTol(1e-12); base.SetMaxIter(100); " + p.type + " c(x); swap(c, x); static_cast<const la::Operator&>(x).Mult(b, z); for (double t : z) { r.push_back(t); } r.push_back(x.GetOperator()->Rows()); la::Vector<double> q(" + str(n) + ", 0.0); ";
    p.use += kind == 0 ? "la::CG(" + csr(a, n) + ", b, q, 100, 1e-12, 1e-12, false);" : kind == 1 ? "la::MINRES(" + csr(a, n) + ", b, q, 100, 1e-12, 1e-12, false);" : "la::PCG(" + csr(a, n) + ", " + one + ", b, q, 100, 1e-12, 1e-12, false);"; p.use += " for (double t : q) { r.push_back(t); }";
    p.want = x; p.want.push_back(1); append(p.want, x); p.want.push_back(n); append(p.want, x); p.tol = 1e-6;
}
void timer(S& s, Piece& p)
{
    int k = s.i(1, 5); p.type = "la::Timer"; p.head = {"timer.hpp"}; p.make = "la::Timer t(la::Timer::Start::True); for (int i = 0; i < " + str(k) + "; ++i) { t.Click(); } return t;"; std::string last = str(k - 1);
    p.use = "double sum = 0; for (int i = 0; i < " + str(k) + "; ++i) { sum += x[i]; r.push_back(x[i] >= 0); } r.push_back(std::fabs(x.TotalTime() - sum) <= 1e-6 + 1e-6 * sum); la::Timer z; r.push_back(z.TotalTime() == 0.0); x.Click(); r.push_back(x.TotalTime() >= sum - 1e-6);"; p.head.push_back("cmath"); p.want = V(k + 3, 1.0);
}
void arguments(S& s, Piece& p)
{
    double d = s.sgn_int(50) / 4.0; int i = s.sgn_int(500); std::string w = s.pick({"abc", "x", "some-file.txt"}); bool b = s.i(0, 1); p.type = "la::ArgParser"; p.head = {"argparser.hpp"};
    p.make = "const char* a[] = {\"prog\", \"-d\", \"" + num(d) + "\", \"--i\", \"" + str(i) + "\", \"-w\", \"" + w + "\"" + (b ? ", \"--b\"" : "") + "}; return la::ArgParser(" + str(b ? 8 : 7) + ", a);"; std::string D = "-d", I = "--i", B = "--b";
    p.use = "double d = -77.0; int i = -77; bool b = false; std::string w = \"none\", z = \"kept\"; x.Parse(d, \"-d\", \"number\"); x.Parse(i, \"--i\"); x.Parse(w, \"-w\"); x.Parse(z, \"--zz\"); x.Parse(b, \"--b\", \"flag\"); r.push_back(d); r.push_back(i); r.push_back(w == \"" + w + "\"); r.push_back(z == \"kept\"); r.push_back(b); std::ostringstream o; x.ShowHelp(o); r.push_back(o.str().find(\"number\") != std::string::npos); r.push_back(x.IsGood()); x.ShowErrors(o); x.ShowOptions(o);"; p.head.push_back("sstream"); p.want = {d, (double) i, 1, 1, (double) b, 1, 1};
}
void files(S& s, Piece& p)
{
    int n = s.i(1, 5), m = s.i(1, 5); M a = mat(s, n, m, true); a[n - 1][m - 1] = 2; V x = vals(s, n); p.type = "la::SparseMatrix<double>"; p.head = {"parser.hpp"}; p.make = "return " + csr(a, m) + ";"; const char* kinds[][2] = {{"WriteCSR", "ReadCSR"}, {"WriteMTX", "ReadMTX"}, {"WriteCooList", "ReadCooList"}, {"WriteBinary", "ReadBinaryMat"}}; auto& k = kinds[s.i(0, 3)]; std::string f = "\"@FILE@\"";
    p.use = std::string("la::") + k[0] + "(x, " + f + "); la::SparseMatrix<double> z = la::" + k[1] + "<double>(" + f + "); { la::DenseMatrix c = z.ToDense(); " + cells + "} std::vector<double> v = " + vec(x) + "; la::WriteText(v, " + f + "); std::vector<double> y = la::ReadText<double>(" + f + "); " + all_of + " la::WriteBinary(v, " + f + "); { std::vector<double> y = la::ReadBinaryVect<double>(" + f + "); " + all_of + " } bool thrown = false; try { la::ReadText<double>(\"@FILE@.missing\"); } catch (const std::runtime_error&) { thrown = true; } r.push_back(thrown);";
    p.want = flat(a); append(p.want, x); append(p.want, x); p.want.push_back(1);
}
void utilities(S& s, Piece& p)
{
    bool ok = s.i(0, 1); int code = s.i(1, 999); p.type = "std::string"; p.head = {"utilities.hpp", "string"}; p.make = "try { linalgcpp::linalgcpp_verify(" + std::string(ok ? "true" : "false") + ", \"code " + str(code) + "\"); } catch (const std::runtime_error& e) { return std::string(e.what()); } return std::string(\"fine\");";
    p.use = "r.push_back(x == \"fine\"); r.push_back(x == \"code " + str(code) + "\"); linalgcpp::linalgcpp_verify(true); linalgcpp::linalgcpp_assert(true, \"never\"); bool thrown = false; try { linalgcpp::linalgcpp_verify(false); } catch (const std::runtime_error&) { thrown = true; } r.push_back(thrown);"; p.want = {(double) ok, (double) !ok, 1};
}
void partition(S& s, Piece& p)
{
    std::vector<int> g; int n = s.i(1, 8); for (int i = 0; i < n; ++i) { g.push_back(2 * s.i(0, 3)); } std::map<int, int> id; for (int x : g) { id[x]; } int c = 0; for (auto& e : id) { e.second = c++; } int m = s.i(4, 8); M a(m, V(m, 0.0)); for (int i = 0; i < m; ++i) { a[i][i] = 2; a[i][(i + 1) % m] = a[(i + 1) % m][i] = -1; }
    p.type = "std::vector<int>"; p.head = {"partition.hpp"}; p.link = {"-lmetis"}; p.make = "return " + ivec(g) + ";"; p.use = "linalgcpp::RemoveEmpty(x); for (int t : x) { r.push_back(t); } std::vector<int> q = linalgcpp::Partition(" + csr(a, m) + ", 2, 1.2); r.push_back(q.size()); int lo = 99, hi = -99; for (int t : q) { lo = t < lo ? t : lo; hi = t > hi ? t : hi; } r.push_back(lo); r.push_back(hi);"; for (int x : g) { p.want.push_back(id[x]); } append(p.want, {(double) m, 0, 1});
}
void sparse_solver(S& s, Piece& p)
{
    int n = s.i(1, 5); M a = spd(s, n); V x = vals(s, n), b = times(a, x); p.type = "::SparseSolver"; p.head = {"sparsesolve.hpp"}; p.link = {"-lumfpack"}; p.make = "return ::SparseSolver(" + csr(a, n) + ");"; p.use = "la::Vector<double> b(" + vec(b) + "); ::SparseSolver z(x); swap(x, z); la::Vector<double> y = x.Mult(b); " + std::string(all_of) + " la::Vector<double> w(" + str(n) + "); x.MultAT(b, w); for (double t : w) { r.push_back(t); }"; p.want = x; append(p.want, x); p.tol = 1e-9;
}
void printing(S& s, Piece& p)
{
    V a = vals(s, s.i(1, 5)); p.type = "la::Vector<double>"; p.head = {"vector.hpp", "sstream"}; p.make = "return la::Vector<double>(" + vec(a) + ");"; p.use = "std::ostringstream o; o << x; x.Print(\"label\", o); std::string t = o.str(); r.push_back(t.find(\"label\") != std::string::npos); std::istringstream in(t); double v; while (in >> v) { r.push_back(v); }"; p.want = {1}; append(p.want, a);
}

typedef void (*Make)(S&, Piece&);
const struct { const char* name; Make make; } pieces[] = {{"vector", vector_}, {"view", view}, {"block vector", block_vector}, {"sparse", sparse}, {"sparse of other types", sparse_int}, {"coo", coo}, {"lil", lil}, {"dense", dense_}, {"decompositions", decompositions}, {"eigensolver", eigen}, {"block matrix", block_matrix}, {"block operator", block_operator}, {"user operator", user_operator},
    {"solver", solver}, {"timer", timer}, {"arguments", arguments}, {"files", files}, {"utilities", utilities}, {"partition", partition}, {"sparse solver", sparse_solver}, {"printing", printing}};
const int npieces = sizeof pieces / sizeof pieces[0];
const std::vector<std::string> headers = {"argparser.hpp", "blockmatrix.hpp", "blockoperator.hpp", "blockvector.hpp", "coomatrix.hpp", "densematrix.hpp", "eigensolver.hpp", "lilmatrix.hpp", "linalgcpp.hpp", "operator.hpp", "parser.hpp", "solvers.hpp", "sparsematrix.hpp", "timer.hpp", "utilities.hpp", "vector.hpp", "vectorview.hpp", "partition.hpp", "sparsesolve.hpp"};

struct Unit { std::vector<std::string> heads; std::string decl, body; Config c; };

void program(S& s, int units, int count, bool every_header)
{
    CaseDir dir; std::vector<Unit> unit(units); std::set<std::string> link; std::vector<Piece> used; std::vector<bool> crossing; std::string main_decl, main_body; int cross = 0, early = 0; bool mixed = false;
    for (int u = 0; u < units; ++u)
    {
        unit[u].c = config(s); mixed |= unit[u].c.text() != unit[0].c.text(); if (every_header) { std::vector<int> o = s.permutation((int) headers.size()); for (int k : o) { unit[u].heads.push_back(headers[k]); } }
        else { int extra = s.i(0, 3); for (int k = 0; k < extra; ++k) { unit[u].heads.push_back(s.pick(headers)); } }
    }
    for (int k = 0; k < count; ++k)
    {
        int which = s.i(0, npieces - 1), a = s.i(0, units - 1), b = s.i(0, units - 1); bool init = s.chance(0.3); Piece p; pieces[which].make(s, p); p.want.push_back(0); p.name = pieces[which].name; std::string K = str(k), file = dir.dir + "/f" + K; size_t at; while ((at = p.use.find("@FILE@")) != std::string::npos) { p.use.replace(at, 6, file); }
        for (auto& h : p.head) { unit[a].heads.push_back(h); if (a != b) { unit[b].heads.push_back(h); } } link.insert(p.link.begin(), p.link.end());
        unit[a].body += p.type + " make_" + K + "()\n{\n    " + p.make + "\n}\n"; if (a != b) { unit[b].decl += p.type + " make_" + K + "();\n"; ++cross; }
        std::string def = "std::vector<double> use_" + K + "()\n{\n    std::vector<double> r; try { struct Box { unsigned char before[64]; " + p.type + " x; unsigned char after[64]; } box = {{0}, make_" + K + "(), {0}}; " + p.type + "& x = box.x; " + p.use + "\n    int written = 0; for (int i = 0; i < 64; ++i) { written += box.before[i] + box.after[i]; } r.push_back(written); } catch (const std::exception& e) { std::printf(\"%d exception %s\\n\", " + K + ", e.what()); } return r;\n}\n"; if (init) { ++early; }
        def += init ? "static std::vector<double> early_" + K + " = use_" + K + "();\nstd::vector<double> get_" + K + "() { return early_" + K + "; }\n" : "std::vector<double> get_" + K + "() { return use_" + K + "(); }\n";
        // objects made in another unit are only complete for static initialisers if the maker has no static state of its own: makers keep theirs inside the function
        unit[b].body += def; main_decl += "std::vector<double> get_" + K + "();\n"; main_body += "    show(" + K + ", get_" + K + "());\n"; used.push_back(p); s.label(p.name); if (a != b) { s.label("object passed between units"); }
    }
    int lib = s.i(0, 3); if (!have("clang++")) { lib %= 2; } bool shared = s.i(0, 1); Config mc = config(s);
    // the umfpack wrapper is compiled with the library
    std::string where = library(lib, "-I" + repo() + "/modules/sparsesolver/include -I/usr/include/suitesparse -c " + repo() + "/modules/sparsesolver/src/sparsesolve.cpp -o sps.o ");
    std::string inc = " -w -ffp-contract=off -fPIC -I" + repo() + "/include -I" + repo() + "/modules/partition/include -I" + repo() + "/modules/sparsesolver/include -I/usr/include/suitesparse -c ";
    std::vector<std::string> objects; s.note([&](std::ostream & o) { o << "library " << libraries[lib][0] << " " << libraries[lib][1] << (shared ? " shared" : " static"); for (auto& u : unit) { o << "; unit " << u.c.text() << " with"; for (auto& h : u.heads) { o << " " << h; } } });
    for (int u = 0; u < units; ++u)
    {
        std::vector<std::string> hs; std::vector<int> o = s.permutation((int) unit[u].heads.size()); for (int k : o) { hs.push_back(unit[u].heads[k]); } std::string t; for (auto& h : hs) { t += h.find(".hpp") == std::string::npos ? "#include <" + h + ">\n" : "#include \"" + h + "\"\n"; } if (hs.empty()) { t = ""; }
        t += "#include <cstdio>\n#include <vector>\n#include <memory>\n#include <exception>\nnamespace linalgcpp { }\nnamespace la = linalgcpp;\n" + std::string(s.i(0, 3) == 3 ? "using namespace linalgcpp;\n" : "") + unit[u].decl + unit[u].body; std::string f = dir.dir + "/u" + str(u); put(f + ".cpp", t);
        std::string e = compile(unit[u].c.text() + inc + f + ".cpp -o " + f + ".o", f + ".log"); std::string names; for (auto& h : hs) { names += h + " "; } if (!e.empty()) { FAIL("a unit including " << names << "does not compile with " << unit[u].c.text() << ": " << e); }
        objects.push_back(f + ".o");
    }
    put(dir.dir + "/main.cpp", "#include <cstdio>\n#include <vector>\n" + main_decl + "static void show(int k, const std::vector<double>& r) { std::printf(\"%d values\", k); for (double x : r) { std::printf(\" %.17g\", x); } std::printf(\"\\n\"); }\nint main()\n{\n" + main_body + "    std::printf(\"end\\n\"); return 0;\n}\n");
    { std::string e = compile(mc.text() + " -w -c " + dir.dir + "/main.cpp -o " + dir.dir + "/main.o", dir.dir + "/main.log"); if (!e.empty()) { throw pbt::Discard(); } } objects.push_back(dir.dir + "/main.o");
    std::vector<int> order = s.permutation((int) objects.size()); std::string cmd = mc.cxx; for (int k : order) { cmd += " " + objects[k]; } if (link.count("-lumfpack")) { cmd += " " + where + "/libsparsesolver.a"; }
    cmd += shared ? " " + where + "/liblinalgcpp.so -Wl,-rpath," + where : " " + where + "/liblinalgcpp.a"; for (auto& l : link) { cmd += " " + l; } cmd += " -llapack -lblas -o " + dir.dir + "/prog";
    std::string pieces_; for (auto& p : used) { pieces_ += p.name + ", "; } std::string conf; for (auto& u : unit) { conf += "[" + u.c.text() + "] "; }
    { std::string e = compile(cmd, dir.dir + "/link.log"); if (!e.empty()) { FAIL("units " << conf << "using " << pieces_ << " do not link with the " << (shared ? "shared" : "static") << " library: " << e); } }
    Ran r = run(dir.dir + "/prog", dir.dir + "/out", 20); CHECK(!r.limit, "the program of units " << conf << " using " << pieces_ << " does not end"); CHECK(r.rc == 0 && !r.fault, "the program of units " << conf << " using " << pieces_ << " on the library compiled with " << libraries[lib][0] << " " << libraries[lib][1] << " fails: " << pbt::tail(r.out, 500));
    std::istringstream in(r.out); std::string line; size_t seen = 0; bool end = false;
    while (std::getline(in, line))
    {
        std::istringstream l(line); int k = -1; std::string what; if (line == "end") { end = true; continue; } if (!(l >> k >> what)) { FAIL("the program printed " << line); } CHECK(k >= 0 && k < count, "the program printed " << line); const Piece& p = used[k]; CHECK(what == "values", p.name << " in units " << conf << "threw: " << line);
        V got; std::string t; while (l >> t) { got.push_back(std::strtod(t.c_str(), nullptr)); } CHECK(got.size() == p.want.size(), p.name << " gave " << got.size() << " results, expected " << p.want.size() << ", with units " << conf << "\n" << p.make << "\n" << p.use);
        for (size_t i = 0; i < got.size(); ++i) { CHECK(std::fabs(got[i] - p.want[i]) <= p.tol * std::max(1.0, std::fabs(p.want[i])), p.name << ": result " << i << " is " << got[i] << " instead of " << p.want[i] << ", with units " << conf << "and the library " << libraries[lib][0] << " " << libraries[lib][1] << "\n" << p.make << "\n" << p.use); } ++seen;
    }
    CHECK(end && seen == (size_t) count, "the program printed " << seen << " of " << count << " results"); s.nontrivial(units > 1 && (cross > 0 || mixed)); s.label("static initialiser", early > 0); s.label(shared ? "shared library" : "static library"); s.label("units compiled differently", mixed); s.label("every header", every_header);
}

LAW(programs, 20, 150, "two or more units that pass an object or are compiled differently") { program(s, s.i(1, 3), s.i(1, 8), false); }
LAW(every_header_everywhere, 5, 50, "two or more units that pass an object or are compiled differently") { program(s, s.i(2, 3), s.i(1, 5), true); }
}
PBT_MAIN
