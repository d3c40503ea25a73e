// C27: the timer reports consistent non-negative intervals for any sequence of clicks
// technique: stateful property testing: random histories of clicks, waits, copies and queries on several timers, run against simulated clocks (wall clock steps injected) and against the real clock with bracketing readings
// note: clock_gettime and gettimeofday are replaced inside the harness binary; no real clock is changed.
#include <sys/time.h>
#include <time.h>
#include <sys/syscall.h>
#include <dlfcn.h>
#include "gen.hpp"
#include "timer.hpp"
using pbt::S;

static const bool timing = pbt::timing_dependent() = true;

namespace
{
struct Sim { bool on = false; long long mono = 0, wall = 0, cpu = 0; } sim; // nanoseconds
}
extern "C" int clock_gettime(clockid_t id, struct timespec* ts) noexcept
{
    if (!sim.on) { return (int) syscall(SYS_clock_gettime, id, ts); }
    long long t; switch (id) { case CLOCK_REALTIME: case CLOCK_REALTIME_COARSE: t = sim.wall; break; case CLOCK_PROCESS_CPUTIME_ID: case CLOCK_THREAD_CPUTIME_ID: t = sim.cpu; break; default: t = sim.mono; }
    ts->tv_sec = (time_t) (t / 1000000000LL); ts->tv_nsec = (long) (t % 1000000000LL); return 0;
}
extern "C" int gettimeofday(struct timeval* tv, void*) noexcept
{
    struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0;
}

namespace
{
struct Simulated { Simulated(long long m, long long w) { sim.mono = m; sim.wall = w; sim.cpu = 1000; sim.on = true; } ~Simulated() { sim.on = false; } };
struct Model { la::Timer t; std::vector<long long> at; Model(la::Timer::Start s) : t(s) {} };

void verify(const Model& m, const char* when)
{
    ld sum = 0;
    for (size_t k = 0; k + 1 < m.at.size(); ++k)
    {
        double v = m.t[(int) k]; ld w = (m.at[k + 1] - m.at[k]) * 1e-9L; sum += v;
        CHECK(v >= 0, when << ": interval " << k << " is " << v << " s, " << (double) w << " s went by"); CHECK(std::fabs((ld) v - w) <= 1e-6L + 1e-9L * w, when << ": interval " << k << " is " << v << " s, " << (double) w << " s went by");
    }
    double t = m.t.TotalTime(); ld w = m.at.size() < 2 ? 0 : (m.at.back() - m.at.front()) * 1e-9L;
    CHECK(std::fabs((ld) t - w) <= 1e-6L + 1e-9L * w, when << ": TotalTime is " << t << " s, " << (double) w << " s went by between the first and the last of " << m.at.size() << " clicks"); CHECK(std::fabs((ld) t - sum) <= 1e-6L + 1e-9L * w, when << ": TotalTime is " << t << ", the intervals sum to " << (double) sum);
}

// clocks under the harness's control; steps: the wall clock may be set back or forth at any moment
void simulated(S& s, bool steps, int many = 0)
{
    std::vector<Model> pool; long long m0 = (long long) s.i(0, 1000000) * 1000003LL, w0 = 1700000000LL * 1000000000LL + s.i(0, 1000000000); int clicks = 0, stepped = 0;
    Simulated clocks(m0, w0); auto make = [&](bool start) { Model m(start ? la::Timer::Start::True : la::Timer::Start::False); if (start) { m.at.push_back(sim.mono); ++clicks; } pool.push_back(m); };
    make(s.chance(0.5)); int n = many ? s.i(25, many) : s.size(1, 25);
    for (int k = 0; k < n; ++k)
    {
        int i = s.u((int) pool.size() - 1);
        switch (s.weighted({8, 6, 1, 1, 1, 2, 2}))
        {
            case 0: s.say("click" + std::to_string(i)); pool[i].t.Click(); pool[i].at.push_back(sim.mono); ++clicks; break;
            case 1: { long long d = s.pick({1LL, 1000LL, 1000000LL, 1000000000LL, 3600000000000LL, 86400000000000LL * 30}) * s.i(0, 9); s.say("wait" + std::to_string(d)); sim.mono += d; sim.wall += d; if (s.chance(0.5)) { sim.cpu += d; } break; }
            case 2: make(s.chance(0.5)); s.say("new"); break;
            case 3: { Model c = pool[i]; s.say("copy" + std::to_string(i)); pool.push_back(c); break; }
            case 4: { int j = s.u((int) pool.size() - 1); s.say("assign" + std::to_string(i) + "=" + std::to_string(j)); pool[i] = pool[j]; break; }
            case 5: s.say("query" + std::to_string(i)); verify(pool[i], "during"); break;
            default: if (steps) { long long d = s.pick({1LL, 1000000LL, 1000000000LL, 3600000000000LL}) * s.sgn_int(9); s.say("clock step " + std::to_string(d)); sim.wall += d; stepped += d != 0; } break;
        }
    }
    s.nontrivial(clicks > 2 && (!steps || stepped)); s.label("several timers", pool.size() > 1); s.label("wall clock set back or forth", stepped > 0);
    for (auto& m : pool) { verify(m, "at the end"); }
}

double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
void real(S& s)
{
    bool start = s.chance(0.5); std::vector<double> b, a; double t0 = now(); la::Timer t(start ? la::Timer::Start::True : la::Timer::Start::False); if (start) { b.push_back(t0); a.push_back(now()); }
    int n = s.size(0, 12), slept = 0;
    for (int k = 0; k < n; ++k)
    {
        if (s.chance(0.4)) { int us = s.i(1, 300); ++slept; if (s.chance(0.5)) { usleep((unsigned) us); } else { double e = now() + us * 1e-6; while (now() < e) {} } }
        b.push_back(now()); t.Click(); a.push_back(now());
    }
    s.nontrivial(b.size() > 2 && slept); double sum = 0;
    auto slack = [](double w) { return 2e-6 + 1e-3 * w; };
    for (size_t k = 0; k + 1 < b.size(); ++k) { double v = t[(int) k], lo = b[k + 1] - a[k], hi = a[k + 1] - b[k]; sum += v; CHECK(v >= 0, "interval " << k << " is " << v); CHECK(v >= lo - slack(lo) && v <= hi + slack(hi), "interval " << k << " is " << v << " s, between " << lo << " and " << hi << " s went by"); }
    double v = t.TotalTime(), lo = b.size() < 2 ? 0 : b.back() - a.front(), hi = b.size() < 2 ? 0 : a.back() - b.front(); CHECK(v >= lo - slack(lo) && v <= hi + slack(hi), "TotalTime is " << v << " s, between " << lo << " and " << hi << " s went by"); CHECK(std::fabs(v - sum) <= 1e-6, "TotalTime is " << v << ", the intervals sum to " << sum);
}
}

LAW(simulated_clock, 60000, 800000, "more than two clicks") { simulated(s, false); }
LAW(clock_steps, 60000, 800000, "more than two clicks and the wall clock was stepped") { simulated(s, true); }
LAW(real_clock, 1500, 20000, "more than two clicks with waits") { real(s); }
LAW(many_clicks, 800, 10000, "more than two clicks") { simulated(s, s.chance(0.5), 700); }

PBT_MAIN
