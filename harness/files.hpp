// Files that live in memory (or, failing that, in a temporary file) for the reader and writer harnesses.
#ifndef VERIF_FILES_HPP
#define VERIF_FILES_HPP
#include "gen.hpp"
#include <sys/syscall.h>
#include <iomanip>

struct TestFile
{
    int fd = -1; std::string path; bool tmp = false;
    TestFile()
    {
        fd = (int) syscall(SYS_memfd_create, "verif", 0u);
        if (fd >= 0) { path = "/proc/self/fd/" + std::to_string(fd); if (access(path.c_str(), R_OK | W_OK) == 0) { return; } close(fd); }
        char name[] = "/tmp/verif_file_XXXXXX"; fd = mkstemp(name); path = name; tmp = true;
        if (fd < 0) { FAIL("harness: cannot create a scratch file"); }
    }
    ~TestFile() { close(fd); if (tmp) { unlink(path.c_str()); } }
    TestFile(const TestFile&) = delete;
    void put(const std::string& text)
    {
        if (ftruncate(fd, 0) != 0) { FAIL("harness: truncate"); }
        size_t done = 0; while (done < text.size()) { ssize_t k = pwrite(fd, text.data() + done, text.size() - done, (off_t) done); if (k <= 0) { FAIL("harness: write"); } done += (size_t) k; }
    }
    std::string get() const
    {
        std::string out; char buf[4096]; ssize_t k; while ((k = pread(fd, buf, sizeof buf, (off_t) out.size())) > 0) { out.append(buf, (size_t) k); }
        return out;
    }
};

// doubles of any magnitude a text file can carry
inline double wide(pbt::S& s)
{
    switch (s.weighted({4, 2, 2, 1, 1, 1}))
    {
        case 0: return value<double>(s, REAL);
        case 1: return s.sgn_int(1000);
        case 2: { bool simple; pbt::Rng r = s.bulk(simple); return simple ? 0.1 : std::ldexp(r.unit() + 0.5, (int) r.below(2000) - 1000) * (r.below(2) ? -1 : 1); }
        case 3: return s.pick({0.1, -0.3, 1.0 / 3.0, 123456789.123456789, 1e300, -1e-300, 9007199254740993.0, 1e15 + 0.3, 0.99999999999999989, 1.0000000000000002, 2.2250738585072014e-308, 1e-320});
        case 4: return s.sgn_int(9) * 1e9 + s.sgn_int(9);
        default: return std::ldexp((double) s.sgn_int(9), s.i(-60, 60));
    }
}

// the value v written with 16 significant digits and read back as w
template <typename T>
bool same_text(T v, T w) { return v == w || std::fabs((ld) v - (ld) w) <= 1e-15L * std::fabs((ld) v) + 5e-324L; }
inline bool same_text(float v, float w) { return v == w; }
#endif
