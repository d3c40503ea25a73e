// C34: a failed file operation is reported and never taken for a success
// technique: fault injection: generated content is written and read while the system calls underneath fail at a drawn byte, are cut short or are interrupted (the harness defines read, write and writev itself), and on real full devices, size limits, descriptor limits, directories and missing paths; the outcome must be an exception or exactly the result without the fault
// note: transient and permanent faults are both drawn; a write is only called complete when every byte it should have produced is in the file.
// flavours: debug release
#include "files.hpp"
#include <sys/resource.h>
#include <sys/uio.h>
#include <csignal>
using pbt::S;

// ---- the system calls underneath the streams ------------------------------------------------------
struct Fault { bool on = false, writing = false, once = false, cut = false, interrupt = false; long limit = -1; int error = 0; long done = 0; int hits = 0; uint64_t rng = 1; } fault;
namespace
{
uint64_t draw() { fault.rng ^= fault.rng << 13; fault.rng ^= fault.rng >> 7; fault.rng ^= fault.rng << 17; return fault.rng; }
// how many of n bytes may pass; negative: fail with errno set
long admit(size_t n)
{
    if (n == 0) { return 0; }
    if (fault.interrupt && draw() % 3 == 0) { errno = EINTR; return -1; }
    if (fault.cut) { n = 1 + draw() % n; }
    if (fault.limit >= 0 && !(fault.once && fault.hits > 0))
    {
        if (fault.done >= fault.limit) { ++fault.hits; errno = fault.error; return -1; }
        n = std::min(n, (size_t) (fault.limit - fault.done));
    }
    return (long) n;
}
}
extern "C" ssize_t read(int fd, void* b, size_t n)
{
    if (!fault.on || fault.writing || fd <= 2) { return syscall(SYS_read, fd, b, n); }
    fault.done = (long) lseek(fd, 0, SEEK_CUR); if (fault.done < 0) { fault.done = 0; }
    long k = admit(n); return k < 0 ? -1 : syscall(SYS_read, fd, b, (size_t) k);
}
extern "C" ssize_t write(int fd, const void* b, size_t n)
{
    if (!fault.on || !fault.writing || fd <= 2) { return syscall(SYS_write, fd, b, n); }
    long k = admit(n); if (k < 0) { return -1; } ssize_t r = syscall(SYS_write, fd, b, (size_t) k); if (r > 0) { fault.done += r; } return r;
}
extern "C" ssize_t writev(int fd, const struct iovec* v, int c)
{
    if (!fault.on || !fault.writing || fd <= 2) { return syscall(SYS_writev, fd, v, c); }
    size_t n = 0; for (int i = 0; i < c; ++i) { n += v[i].iov_len; }
    long k = admit(n); if (k < 0) { return -1; }
    std::string t; for (int i = 0; i < c; ++i) { t.append((const char*) v[i].iov_base, v[i].iov_len); }
    ssize_t r = syscall(SYS_write, fd, t.data(), (size_t) k); if (r > 0) { fault.done += r; } return r;
}

namespace
{
enum Format { TEXT, BINVECT, BINMAT, ADJ, COO, TABLE, CSR, MTX, WRITERS, GRAPH = WRITERS, MTXLIST, READERS };
const char* names[] = {"text vector", "binary vector", "binary matrix", "adjacency list", "coordinate list", "table", "CSR", "Matrix Market", "graph list", "Matrix Market list"};

template <typename T> struct Content { std::vector<T> v; Csr<T> a; bool sym = false; };

template <typename T>
Content<T> content(S& s, Format f)
{
    Content<T> c; bool large = s.chance(0.35); int n = large ? s.i(200, 900) : s.i(0, 8); bool simple; pbt::Rng g = s.bulk(simple);
    auto num = [&]() -> T { double d = (double) ((int) g.below(2001) - 1000); return simple ? (T) 1 : (T) (std::is_integral<T>::value ? d : g.below(2) ? d / 7.0 : d); };
    if (f == TEXT || f == BINVECT) { c.v.resize(large ? n * 3 : n); for (auto& x : c.v) { x = num(); } return c; }
    int r = n, w = f == ADJ || f == COO ? n : (large ? s.i(1, 400) : s.i(0, 8)); c.a.r = r; c.a.c = w; int per = w > 0 ? std::min(w, s.i(1, 4)) : 0;
    for (int i = 0; i < r; ++i) { std::set<int> cols; for (int k = 0; k < per; ++k) { if (g.below(4)) { cols.insert(simple ? k : (int) g.below((uint64_t) w)); } } for (int j : cols) { c.a.x.push_back(j); c.a.d.push_back(num()); } c.a.p.push_back((int) c.a.x.size()); }
    c.sym = (f == ADJ || f == COO) && s.chance(0.3);
    return c;
}

template <typename T>
void write(const Content<T>& c, Format f, const std::string& p)
{
    la::SparseMatrix<T> m = c.a.mat();
    switch (f)
    {
        case TEXT: la::WriteText(c.v, p); break;
        case BINVECT: la::WriteBinary(c.v, p); break;
        case BINMAT: la::WriteBinary(m, p); break;
        case ADJ: la::WriteAdjList(m, p, c.sym); break;
        case COO: la::WriteCooList(m, p, c.sym); break;
        case TABLE: la::WriteTable(m, p); break;
        case CSR: la::WriteCSR(m, p); break;
        default: la::WriteMTX(m, p); break;
    }
}

template <typename T> std::string raw(const std::vector<T>& v) { return std::to_string(v.size()) + ":" + (v.empty() ? std::string() : std::string((const char*) v.data(), v.size() * sizeof(T))); }
template <typename T> std::string raw(const la::SparseMatrix<T>& m) { return std::to_string(m.Rows()) + "x" + std::to_string(m.Cols()) + " " + raw(m.GetIndptr()) + raw(m.GetIndices()) + raw(m.GetData()); }

template <typename T>
std::string read(Format f, const std::string& p, bool sym)
{
    switch (f)
    {
        case TEXT: return raw(la::ReadText<T>(p));
        case BINVECT: return raw(la::ReadBinaryVect<T>(p));
        case BINMAT: return raw(la::ReadBinaryMat<T>(p));
        case ADJ: return raw(la::ReadAdjList<T>(p, sym));
        case COO: return raw(la::ReadCooList<T>(p, sym));
        case TABLE: return raw(la::ReadTable<T>(p));
        case CSR: return raw(la::ReadCSR<T>(p));
        case MTX: return raw(la::ReadMTX<T>(p));
        case GRAPH: return raw(la::ReadGraphList<T>(p));
        default: return raw(la::ReadMTXList<T>(p));
    }
}

// the text of a file of any format
template <typename T>
std::string text(S& s, Format f, bool& sym)
{
    if (f < WRITERS) { Content<T> c = content<T>(s, f); sym = c.sym; TestFile t; write(c, f, t.path); return t.get(); }
    Content<T> c = content<T>(s, ADJ); std::ostringstream o; int nnz = (int) c.a.x.size();
    if (f == MTXLIST) { o << "%%MatrixMarket matrix coordinate pattern general\n" << c.a.r << " " << c.a.c << " " << nnz << "\n"; }
    for (int i = 0; i < c.a.r; ++i) for (int k = c.a.p[i]; k < c.a.p[i + 1]; ++k) { o << i + (f == MTXLIST) << " " << c.a.x[k] + (f == MTXLIST) << "\n"; }
    return o.str();
}

int lowest() { int a = dup(0); if (a >= 0) { close(a); } return a; }

// runs an operation; true: it threw a std::exception
template <typename F>
bool threw(F f, const char* what)
{
    int before = lowest(); bool t = false;
    try { f(); } catch (const pbt::Failure&) { throw; } catch (const std::exception& e) { t = true; fault.on = false; CHECK(e.what()[0] != 0, what << ": the exception has no message"); }
    fault.on = false; int after = lowest(); CHECK(before == after, what << ": a file was left open (lowest free descriptor " << before << " before, " << after << " after)");
    return t;
}

long position(S& s, long size)
{
    switch (s.weighted({3, 2, 2, 1}))
    {
        case 0: return s.i(0, (int) size);
        case 1: return std::max(0L, size - s.i(0, 3));
        case 2: return std::min(size, (long) s.pick({0, 1, 8190, 8191, 8192, 8193, 16382, 16384}));
        default: return size + s.i(0, 9000);
    }
}
void arm(S& s, bool writing, long limit)
{
    fault = Fault(); fault.writing = writing; fault.limit = limit; fault.error = writing ? s.pick({ENOSPC, EIO, EDQUOT}) : s.pick({EIO, ESTALE}); fault.once = s.chance(0.3); fault.cut = s.chance(0.4); fault.interrupt = s.chance(0.3); fault.rng = 0x9e3779b97f4a7c15ull ^ (uint64_t) s.i(1, 1 << 20);
}

template <typename T>
void write_fault(S& s)
{
    Format f = (Format) s.i(0, WRITERS - 1); Content<T> c = content<T>(s, f); TestFile whole; write(c, f, whole.path); const std::string want = whole.get(); long size = (long) want.size(), k = position(s, size);
    TestFile t; bool stale = s.chance(0.4); if (stale) { t.put(std::string(s.i(1, 300), 'x')); }
    arm(s, true, k); s.nontrivial(k < size); s.label(names[f]); s.label("fault before the end", k < size); s.label("more than one buffer", size > 8191);
    s.note([&](std::ostream & o) { o << names[f] << " of " << size << " bytes, writing fails after " << k << " bytes" << (fault.once ? " once" : ""); });
    bool once = fault.once; bool t1 = threw([&] { fault.on = true; write(c, f, t.path); fault.on = false; }, "writing"); bool hit = fault.hits > 0;
    if (k < size) { CHECK(hit, "harness: the fault was never reached (" << names[f] << ", " << k << " of " << size << ")"); CHECK(t1, "writing a " << names[f] << " of " << size << " bytes failed after " << k << " bytes and was reported as a success"); }
    else { CHECK(!t1, "writing a " << names[f] << " of " << size << " bytes threw although every write succeeded"); CHECK(t.get() == want, "the " << names[f] << " differs from the one written without cut and interrupted writes"); }
    if (t1 && !once) { std::string got = t.get(); CHECK(got == want.substr(0, got.size()), "the part of the " << names[f] << " that was written is not the beginning of the file"); }
    write(c, f, t.path); CHECK(t.get() == want, "writing the " << names[f] << " again after a failure gives " << t.get().size() << " bytes, expected " << size);
}

template <typename T>
void read_fault(S& s)
{
    Format f = (Format) s.i(0, READERS - 1); bool sym = false; std::string x = text<T>(s, f, sym); long size = (long) x.size(), k = position(s, size);
    size_t last = x.find_last_not_of(" \n"); long needed = f == BINVECT || f == BINMAT ? size : last == std::string::npos ? 0 : (long) last + 1;
    TestFile t; t.put(x); std::string want; bool base = threw([&] { want = read<T>(f, t.path, sym); }, "reading");
    if (base) { throw pbt::Discard{}; }
    arm(s, false, k); s.nontrivial(k < needed); s.label(names[f]); s.label("fault before the end", k < needed); s.label("more than one buffer", size > 8191);
    s.note([&](std::ostream & o) { o << names[f] << " of " << size << " bytes, reading fails after " << k << " bytes" << (fault.once ? " once" : "") << "\n" << x.substr(0, 500); });
    std::string got; bool t1 = threw([&] { fault.on = true; got = read<T>(f, t.path, sym); fault.on = false; }, "reading");
    if (k < needed) { CHECK(fault.hits > 0, "harness: the fault was never reached"); CHECK(t1, "reading a " << names[f] << " of " << size << " bytes failed after " << k << " bytes and was reported as a success"); }
    else if (!fault.hits) { CHECK(!t1, "reading a " << names[f] << " threw although every read succeeded"); }
    if (!t1) { CHECK(got == want, "reading a " << names[f] << " with cut and interrupted reads gives a different result"); }
    CHECK(read<T>(f, t.path, sym) == want, "reading the " << names[f] << " again after a failure gives a different result"); CHECK(t.get() == x, "reading changed the file");
}

// what the system itself refuses: full device, size limit, directory, missing directory, descriptor limit
template <typename T>
void system_write(S& s)
{
    Format f = (Format) s.i(0, WRITERS - 1); Content<T> c = content<T>(s, f); TestFile t; write(c, f, t.path); const std::string want = t.get(); long size = (long) want.size();
    int kind = s.i(0, 5); s.label(names[f]); s.note([&](std::ostream & o) { o << names[f] << " of " << size << " bytes, kind " << kind; });
    if (kind == 0)
    {
        s.nontrivial(size > 0); s.label("full device"); if (access("/dev/full", W_OK) != 0) { throw pbt::Discard{}; }
        bool r = threw([&] { write(c, f, "/dev/full"); }, "writing"); CHECK(r || size == 0, "writing a " << names[f] << " of " << size << " bytes to a full device was reported as a success");
    }
    else if (kind == 1)
    {
        long k = position(s, size); s.nontrivial(k < size); s.label("size limit"); struct rlimit was, now; getrlimit(RLIMIT_FSIZE, &was); now = was; now.rlim_cur = (rlim_t) k; auto old = signal(SIGXFSZ, SIG_IGN);
        TestFile q; setrlimit(RLIMIT_FSIZE, &now); bool r = false; try { write(c, f, q.path); } catch (const std::exception&) { r = true; } setrlimit(RLIMIT_FSIZE, &was); signal(SIGXFSZ, old);
        std::string got = q.get();
        if (k < size) { CHECK(r, "writing a " << names[f] << " of " << size << " bytes under a limit of " << k << " was reported as a success, the file has " << got.size() << " bytes"); CHECK(got == want.substr(0, got.size()), "the part that was written is not the beginning of the file"); }
        else { CHECK(!r && got == want, "writing a " << names[f] << " of " << size << " bytes under a limit of " << k << (r ? " threw" : " gives another file")); }
    }
    else if (kind == 5)
    {
        s.nontrivial(true); s.label("no descriptors left"); struct rlimit was, now; getrlimit(RLIMIT_NOFILE, &was); now = was; now.rlim_cur = (rlim_t) lowest();
        setrlimit(RLIMIT_NOFILE, &now); bool r = false, q = false; try { write(c, f, t.path); } catch (const std::exception&) { r = true; } try { read<T>(f, t.path, c.sym); } catch (const std::exception&) { q = true; } setrlimit(RLIMIT_NOFILE, &was);
        CHECK(r && q, (r ? "reading" : "writing") << " a " << names[f] << " without a free descriptor was reported as a success"); CHECK(t.get() == want, "a write that could not open its file changed it");
    }
    else
    {
        s.nontrivial(true); s.label("bad path"); std::string p = kind == 2 ? "/proc/self/no such directory/x" : kind == 3 ? "/proc/self" : s.chance(0.5) ? "" : "/tmp/verif_missing_dir/a/b";
        bool r = threw([&] { write(c, f, p); }, "writing"); CHECK(r, "writing a " << names[f] << " to \"" << p << "\" was reported as a success");
    }
}

template <typename T>
void system_read(S& s)
{
    Format f = (Format) s.i(0, READERS - 1); std::string p = s.pick({std::string("/proc/self"), std::string("/tmp"), std::string("/"), std::string("/proc/self/mem"), std::string(""), std::string("/tmp/verif_missing_dir/a"), std::string("/proc/self/fd/987654"), std::string("/proc/self/status/x")});
    s.nontrivial(true); s.label(names[f]); s.note([&](std::ostream & o) { o << "reading a " << names[f] << " from \"" << p << "\""; }); bool sym = s.chance(0.5);
    bool r = threw([&] { read<T>(f, p, sym); }, "reading"); CHECK(r, "reading a " << names[f] << " from \"" << p << "\", which cannot be read, was reported as a success");
}
}

LAW(write_fault, 2500, 60000, "the fault hits before the last byte of the file") { if (s.chance(0.6)) { write_fault<double>(s); } else { write_fault<int>(s); } }
LAW(read_fault, 2500, 60000, "the fault hits before the last byte that is needed") { if (s.chance(0.6)) { read_fault<double>(s); } else { read_fault<int>(s); } }
LAW(system_write, 1500, 40000, "the system refuses some part of the write") { if (s.chance(0.6)) { system_write<double>(s); } else { system_write<int>(s); } }
LAW(system_read, 400, 5000, "all") { if (s.chance(0.5)) { system_read<double>(s); } else { system_read<int>(s); } }
PBT_MAIN
