// C23: binary files reproduce vectors and matrices bit for bit
// technique: round-trip property testing with an independent encoder and decoder of the documented layout; values are raw bit patterns
// note: opening read-only files is tried as an unprivileged user (seteuid); where that is refused the case is labelled and counts as trivial
#include "files.hpp"
#include "huge.hpp"
#include <sys/prctl.h>
using pbt::S;

namespace
{
template <typename T> T bits(S& s)
{
    T v; int k = s.weighted({3, 3, 2});
    if (k == 0) { return (T) s.sgn_int(100); }
    if (k == 1) { bool simple; pbt::Rng r = s.bulk(simple); uint64_t b = simple ? 0x3ff : r.next(); std::memcpy(&v, &b, sizeof v); return v; }
    double d = s.pick({0.0, -0.0, (double) INFINITY, (double) -INFINITY, (double) NAN, 5e-324, -1e-310, 1e308, 1e-38, 3e38}); if (std::is_integral<T>::value) { return (T) s.pick({0, -1, 2147483647, (int) (-2147483647 - 1)}); }
    v = (T) d; return v;
}
template <typename T> std::string raw(const std::vector<T>& v) { return v.empty() ? std::string() : std::string((const char*) v.data(), v.size() * sizeof(T)); }
std::string raw64(uint64_t v) { return std::string((const char*) &v, sizeof v); }
template <typename T> std::string hex(const std::vector<T>& v) { std::ostringstream o; const unsigned char* p = (const unsigned char*) v.data(); for (size_t i = 0; i < v.size() * sizeof(T) && i < 400; ++i) { char b[4]; snprintf(b, 4, "%02x", p[i]); o << b << (i % sizeof(T) + 1 == sizeof(T) ? " " : ""); } return o.str(); }

template <typename T>
void vector(S& s, int n)
{
    std::vector<T> v(n); for (auto& x : v) { x = bits<T>(s); } TestFile f; s.nontrivial(n > 0); s.label("empty", n == 0); s.note([&](std::ostream & o) { o << hex(v); });
    if (s.chance(0.3)) { f.put(std::string(s.i(1, 100), 'x')); }
    la::WriteBinary(v, f.path); std::string want = raw64(v.size()) + raw(v);
    CHECK(f.get() == want, "the file has " << f.get().size() << " bytes and differs from the documented layout (" << want.size() << " bytes)");
    std::vector<T> r = la::ReadBinaryVect<T>(f.path); CHECK(r.size() == v.size() && raw(r) == raw(v), "read back " << hex(r) << ", written " << hex(v));
    TestFile g; g.put(want); std::vector<T> q = la::ReadBinaryVect<T>(g.path); CHECK(raw(q) == raw(v), "a file in the documented layout reads as " << hex(q));
}

template <typename T>
Csr<T> gen(S& s, int r, int c)
{
    Csr<int> a = csr<int>(s, r, c, INT); Csr<T> m; m.r = r; m.c = c; m.p = a.p; m.x = a.x; m.d.resize(a.d.size()); for (auto& v : m.d) { v = bits<T>(s); }
    return m;
}
template <typename T>
void check_same(const la::SparseMatrix<T>& m, const Csr<T>& a, const char* what)
{
    CHECK(m.Rows() == a.r && m.Cols() == a.c, what << ": " << m.Rows() << "x" << m.Cols() << ", expected " << a.r << "x" << a.c);
    CHECK(m.GetIndptr() == a.p && m.GetIndices() == a.x, what << ": the structure differs");
    CHECK(m.GetData().size() == a.d.size() && raw(m.GetData()) == raw(a.d), what << ": values " << hex(m.GetData()) << ", expected " << hex(a.d));
}

template <typename T>
void matrix_of(S& s, const Csr<T>& a)
{
    const int r = a.r, c = a.c; la::SparseMatrix<T> m = a.mat(); TestFile f;
    s.nontrivial(a.d.size() > 0); s.label("zero dimension", r == 0 || c == 0); s.label("no entries", a.d.empty()); s.note([&](std::ostream & o) { o << r << "x" << c << " indptr " << show(a.p) << " indices " << show(a.x) << " data " << hex(a.d); });
    if (s.chance(0.3)) { f.put(std::string(s.i(1, 200), 'x')); }
    la::WriteBinary(m, f.path); std::string want = raw64(r) + raw64(c) + raw64(a.d.size()) + raw(a.p) + raw(a.x) + raw(a.d);
    CHECK(f.get() == want, "the file has " << f.get().size() << " bytes and differs from the documented layout (" << want.size() << " bytes)");
    check_same(la::ReadBinaryMat<T>(f.path), a, "read back"); check_same(m, a, "writing changed the matrix");
    TestFile g; g.put(want); check_same(la::ReadBinaryMat<T>(g.path), a, "a file in the documented layout");
}
template <typename T>
void matrix(S& s, int r, int c) { matrix_of<T>(s, gen<T>(s, r, c)); }

// a file the process may read but not write
struct ReadOnly
{
    std::string path; bool ok = false; uid_t was = geteuid();
    explicit ReadOnly(const std::string& content)
    {
        char name[] = "/tmp/verif_ro_XXXXXX"; int fd = mkstemp(name); if (fd < 0) { return; } path = name;
        if (write(fd, content.data(), content.size()) != (ssize_t) content.size()) { close(fd); return; }
        fchmod(fd, 0444); close(fd);
        if (was == 0 && seteuid(65534) != 0) { return; }
        int t = open(path.c_str(), O_RDWR); if (t >= 0) { close(t); return; }
        t = open(path.c_str(), O_RDONLY); if (t < 0) { return; } close(t); ok = true;
    }
    ~ReadOnly() { if (was == 0) { (void) !seteuid(0); } if (!path.empty()) { unlink(path.c_str()); } }
};

template <typename T>
void read_only(S& s)
{
    Csr<T> a = gen<T>(s, s.size(0, 5), s.size(0, 5));
    std::string mat = raw64(a.r) + raw64(a.c) + raw64(a.d.size()) + raw(a.p) + raw(a.x) + raw(a.d), vec = raw64(a.d.size()) + raw(a.d);
    {
        ReadOnly f(vec); if (!f.ok) { s.label("(no unprivileged user, skipped)"); return; }
        try { std::vector<T> r = la::ReadBinaryVect<T>(f.path); CHECK(raw(r) == raw(a.d), "vector read from a read-only file differs"); } catch (const std::runtime_error& e) { FAIL("ReadBinaryVect cannot read a read-only file: " << e.what()); }
    }
    {
        ReadOnly f(mat); if (!f.ok) { s.label("(no unprivileged user, skipped)"); return; }
        try { check_same(la::ReadBinaryMat<T>(f.path), a, "matrix in a read-only file"); } catch (const std::runtime_error& e) { FAIL("ReadBinaryMat cannot read a read-only file: " << e.what()); }
    }
    s.nontrivial();
}
}

LAW(vector_double, 15000, 200000, "not empty") { vector<double>(s, s.size(0, 30)); }
LAW(vector_float, 6000, 60000, "not empty") { vector<float>(s, s.size(0, 30)); }
LAW(vector_int, 6000, 60000, "not empty") { vector<int>(s, s.size(0, 30)); }
LAW(vector_char, 3000, 30000, "not empty") { vector<char>(s, s.size(0, 30)); }
LAW(vector_long, 3000, 30000, "not empty") { vector<long long>(s, s.size(0, 30)); }
LAW(matrix_double, 15000, 200000, "at least one entry") { matrix<double>(s, dim(s, 8, 40), dim(s, 8, 40)); }
LAW(matrix_float, 6000, 60000, "at least one entry") { matrix<float>(s, dim(s, 8, 40), dim(s, 8, 40)); }
LAW(matrix_int, 6000, 60000, "at least one entry") { matrix<int>(s, dim(s, 8, 40), dim(s, 8, 40)); }
LAW(large, 100, 1500, "at least one entry") { matrix<double>(s, s.i(50, 400), s.i(50, 400)); if (s.chance(0.5)) { vector<double>(s, s.i(100, 3000)); } }
LAW(read_only_double, 150, 1500, "read as a user who may not write") { read_only<double>(s); }
LAW(read_only_int, 100, 1000, "read as a user who may not write") { read_only<int>(s); }
LAW(huge, 100, 1200, "at least one entry") { Shape q = huge::shape(s); matrix_of<double>(s, huge::csr<double>(s, q.r, q.c, true)); }
LAW(vector_huge, 20, 200, "not empty")
{
    int n = s.pick({65535, 65536, 65537, 100000, 200000}); std::vector<double> v(n); for (int i = 0; i < n; ++i) { v[i] = (i * 31LL % 1009) * 0.5; } TestFile f; s.nontrivial(); s.note([&](std::ostream & o) { o << n << " values"; });
    la::WriteBinary(v, f.path); std::string want = raw64(n) + raw(v); CHECK(f.get() == want, "the file differs from the documented layout"); CHECK(la::ReadBinaryVect<double>(f.path) == v, "read back differs");
}

PBT_MAIN
