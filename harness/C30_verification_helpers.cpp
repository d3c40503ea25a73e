// C30: run-time verification helpers throw exactly when they are meant to
// technique: property-based testing: random conditions and messages against the definition, in a build with and a build without NDEBUG
// note: the debug and the release flavour are the two build configurations the property speaks of; the header is included first, so it must compile on its own.
#include "utilities.hpp"
#include "gen.hpp"
using pbt::S;

namespace
{
#ifdef NDEBUG
const bool asserts = false;
#else
const bool asserts = true;
#endif
std::string message(S& s) { std::string o; if (s.chance(0.02)) { return std::string((size_t) s.i(60, 5000), s.pick({'x', ' ', '\n'})) + "end"; } int n = s.size(0, 60); for (int i = 0; i < n; ++i) { o += (char) s.i(1, 255); } return o; }
// how the call ends: "" (returns), "T" + message, or "?" (another exception)
template <typename F> std::string outcome(F f) { try { f(); } catch (const std::runtime_error& e) { return "T" + std::string(e.what()); } catch (...) { return "?"; } return ""; }
// conditions computed in the ways callers write them
bool condition(S& s, bool want) { volatile int a = s.sgn_int(100), b = want ? a : a + 1; switch (s.u(3)) { case 0: return want; case 1: return a == b; case 2: return !(a < b); default: return want && a + 0 == a; } }

void calls(S& s)
{
    int n = s.size(1, 8), falses = 0;
    for (int k = 0; k < n; ++k)
    {
        bool want = s.chance(0.5); falses += !want; std::string m = message(s); bool which = s.chance(0.5), dflt = s.chance(0.25), c_string = s.chance(0.3);
        s.say(std::string(which ? "verify" : "assert") + (want ? "(true" : "(false") + (dflt ? ")" : ", \"" + m + "\")")); bool c = condition(s, want);
        std::string got = which ? (dflt ? outcome([&] { la::linalgcpp_verify(c); }) : c_string ? outcome([&] { la::linalgcpp_verify(c, m.c_str()); }) : outcome([&] { la::linalgcpp_verify(c, m); }))
                          : (dflt ? outcome([&] { la::linalgcpp_assert(c); }) : c_string ? outcome([&] { la::linalgcpp_assert(c, m.c_str()); }) : outcome([&] { la::linalgcpp_assert(c, m); }));
        const char* what = which ? "linalgcpp_verify" : "linalgcpp_assert"; bool must = !want && (which || asserts);
        if (!must) { CHECK(got.empty(), what << "(" << want << ") threw " << got << (asserts ? " in a debug build" : " in a release build")); continue; }
        CHECK(!got.empty(), what << "(false) did not throw" << (asserts ? " in a debug build" : " in a release build")); CHECK(got[0] == 'T', what << "(false) threw something other than std::runtime_error");
        if (dflt) { CHECK(got.size() > 1, what << "(false) threw an empty message"); } else { CHECK(got == "T" + m, what << "(false, \"" << m << "\") threw \"" << got.substr(1) << "\""); }
    }
    s.nontrivial(falses > 0 && falses < n);
}
}

LAW(calls, 60000, 600000, "true and false conditions") { calls(s); }

PBT_MAIN
