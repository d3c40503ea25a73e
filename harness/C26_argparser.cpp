// C26: command-line parsing assigns every option its argument and reports mistakes
// technique: model-based property testing: random sets of declared options of every type and random argument lists in random order, against a map from option to argument
#include "gen.hpp"
#include "argparser.hpp"
using pbt::S;

namespace
{
enum Type { Int, Dbl, Str, Bool, Flt, Long };
struct Opt
{
    std::string name, help; Type type; bool given = false, twice = false, declared_twice = false; std::string arg;
    int i = 0; double d = 0; std::string t; bool b = false; float f = 0; long long l = 0; // default, then the parsed value
    int i0 = 0; double d0 = 0; std::string t0; bool b0 = false; float f0 = 0; long long l0 = 0;
};
std::string word(S& s, const char* alphabet, int lo, int hi) { int n = s.i(lo, hi), k = (int) strlen(alphabet); std::string o; for (int i = 0; i < n; ++i) { o += alphabet[s.u(k - 1)]; } return o; }
std::string text_arg(S& s)
{
    switch (s.weighted({4, 3, 2, 1, 1}))
    {
        case 0: return word(s, "abcXYZ019._/", 1, s.chance(0.04) ? 400 : 10);
        case 1: { std::string o = word(s, "ab c,;:=", 1, 14); return o; }
        case 2: return "-" + word(s, "abc12.", 0, 5);
        case 3: return s.pick({std::string("a b"), std::string(" lead"), std::string("trail "), std::string("tab\tbed"), std::string("=x"), std::string("a--b"), std::string("true"), std::string("%d%s"), std::string("x\ny")});
        default: return std::to_string(s.sgn_int(1000));
    }
}
void declare(la::ArgParser& p, Opt& o) { switch (o.type) { case Int: p.Parse(o.i, o.name, o.help); break; case Dbl: p.Parse(o.d, o.name, o.help); break; case Str: p.Parse(o.t, o.name, o.help); break; case Bool: p.Parse(o.b, o.name, o.help); break; case Flt: p.Parse(o.f, o.name, o.help); break; default: p.Parse(o.l, o.name, o.help); } }

void parse(S& s, bool mistakes, int many = 0)
{
    int n = many ? s.i(8, many) : s.size(0, 7); std::vector<Opt> opts; std::set<std::string> names{"--help"};
    for (int k = 0; k < n; ++k)
    {
        Opt o; o.type = (Type) s.weighted({4, 4, 4, 4, 1, 1}); o.name = "--" + (s.chance(0.3) && !opts.empty() ? opts[s.u((int) opts.size() - 1)].name.substr(2) + word(s, "ab", 1, 1) : word(s, "abcdefg-_1", 1, s.chance(0.03) ? 70 : 6)); while (!names.insert(o.name).second) { o.name += "x"; }
        o.help = s.chance(0.2) ? "" : word(s, "abc de.,()", 1, s.chance(0.03) ? 300 : 25);
        o.i = o.i0 = s.sgn_int(100); o.d = o.d0 = value<double>(s, REAL); o.t = o.t0 = s.chance(0.3) ? "" : text_arg(s); o.b = o.b0 = s.chance(0.5); o.f = o.f0 = (float) s.sgn_int(9); o.l = o.l0 = s.sgn_int(9); o.given = s.chance(0.65);
        char buf[64];
        switch (o.type)
        {
            case Int: snprintf(buf, 64, s.chance(0.1) ? "%+d" : "%d", s.chance(0.2) ? s.pick({2147483647, (int) (-2147483647 - 1), -1000000}) : s.sgn_int(1000)); o.arg = buf; break;
            case Dbl: { double v = s.chance(0.4) ? s.sgn_int(50) : s.chance(0.3) ? s.pick({1e-300, -2.5e17, 0.1, 1e300, -0.0, 6.02214076e23}) : value<double>(s, REAL); const char* f = s.pick({"%.17g", "%g", "%e", "%.3f"}); snprintf(buf, 64, std::fabs(v) > 1e10 ? "%g" : f, v); o.arg = buf; break; }
            case Str: do { o.arg = text_arg(s); } while (o.arg.compare(0, 2, "--") == 0); break;
            case Flt: snprintf(buf, 64, "%g", s.sgn_int(400) / 8.0); o.arg = buf; break;
            case Long: snprintf(buf, 64, "%lld", s.chance(0.3) ? 9000000000000000000LL : (long long) s.sgn_int(100000) * 1000003LL); o.arg = buf; break;
            default: break;
        }
        opts.push_back(o);
    }
    // the command line: declared options, options nobody declares, --help
    struct Item { std::vector<std::string> w; }; std::vector<Item> items; bool help = mistakes && s.chance(0.2);
    for (auto& o : opts) { if (o.given) { Item it; it.w.push_back(o.name); if (o.type != Bool) { it.w.push_back(o.arg); } items.push_back(it); } }
    int unknown = s.chance(0.2) ? s.i(1, 2) : 0; for (int k = 0; k < unknown; ++k) { std::string nm = "--" + word(s, "uvw", 1, 5); while (!names.insert(nm).second) { nm += "x"; } Item it; it.w.push_back(nm); if (s.chance(0.5)) { it.w.push_back("7"); } items.push_back(it); }
    if (help) { items.push_back({{"--help"}}); if (s.chance(0.2)) { items.push_back({{"--help"}}); } }
    std::vector<int> q = s.permutation((int) items.size()); std::vector<Item> line; for (int k : q) { line.push_back(items[k]); }
    bool bad = false;
    if (mistakes) for (auto& o : opts)
    {
        if (o.given && s.chance(0.15)) { Item it; it.w.push_back(o.name); if (o.type != Bool) { it.w.push_back(o.type == Str ? "other" : "77"); } line.push_back(it); o.twice = bad = true; }
        if (s.chance(0.1)) { o.declared_twice = bad = true; }
    }
    std::vector<std::string> argv(1, s.pick({std::string("prog"), std::string("./a b"), std::string("--help"), std::string("--x"), std::string("")})); for (auto& it : line) for (auto& w : it.w) { argv.push_back(w); }
    std::vector<const char*> ptr; for (auto& w : argv) { ptr.push_back(w.c_str()); } ptr.push_back(nullptr);
    s.note([&](std::ostream & o) { for (auto& w : argv) { o << "\"" << w << "\" "; } o << "declared:"; for (auto& p : opts) { o << " " << p.name << ":" << "idsbfl"[p.type] << (p.declared_twice ? " (twice)" : ""); } });
    bool spaces = false, neg = false; for (auto& o : opts) { if (o.given) { spaces = spaces || (o.type == Str && o.arg.find_first_of(" \t\n") != std::string::npos); neg = neg || o.arg[0] == '-'; } }
    s.nontrivial(items.size() > 1); s.label("argument with spaces", spaces); s.label("argument starting with a dash", neg); s.label("help", help); s.label("mistake", bad);
    la::ArgParser parser((int) argv.size(), ptr.data()); bool dup = false; for (auto& o : opts) { dup = dup || o.twice; }
    CHECK(parser.IsGood() == !(help || dup), "before any declaration IsGood is " << parser.IsGood() << (help ? ", help was requested" : "") << (dup ? ", an option was entered twice" : ""));
    std::vector<int> order = s.permutation(n); for (int k : order) { declare(parser, opts[k]); if (opts[k].declared_twice) { Opt copy = opts[k]; declare(parser, copy); } }
    for (auto& o : opts)
    {
        std::string what = "option " + o.name + (o.given ? " given as \"" + o.arg + "\"" : " not given"); bool g = o.given;
        CHECK(o.i == (g && o.type == Int ? (int) strtol(o.arg.c_str(), nullptr, 10) : o.i0), what << ": value " << o.i << ", default " << o.i0); CHECK(o.d == (g && o.type == Dbl ? strtod(o.arg.c_str(), nullptr) : o.d0), what << ": value " << o.d << ", default " << o.d0);
        CHECK(o.t == (g && o.type == Str ? o.arg : o.t0), what << ": value \"" << o.t << "\", default \"" << o.t0 << "\""); CHECK(o.b == (g && o.type == Bool ? !o.b0 : o.b0), what << ": value " << o.b << ", default " << o.b0);
        CHECK(o.f == (g && o.type == Flt ? strtof(o.arg.c_str(), nullptr) : o.f0), what << ": value " << o.f << ", default " << o.f0); CHECK(o.l == (g && o.type == Long ? strtoll(o.arg.c_str(), nullptr, 10) : o.l0), what << ": value " << o.l << ", default " << o.l0);
    }
    CHECK(parser.IsGood() == !(help || bad), "IsGood is " << parser.IsGood() << (help ? ", help was requested" : "") << (bad ? ", a mistake was made" : ", no mistake was made"));
    std::ostringstream e, h, p; parser.ShowErrors(e); parser.ShowHelp(h); parser.ShowOptions(p); std::string es = e.str(), hs = h.str(), ps = p.str();
    CHECK(bad || es.empty(), "errors shown although none was made: " << es);
    for (auto& o : opts)
    {
        if (o.twice || o.declared_twice) { CHECK(es.find(o.name) != std::string::npos, "the error about " << o.name << " is not shown: " << es); }
        std::ostringstream v; switch (o.type) { case Int: v << o.i; break; case Dbl: v << o.d; break; case Str: v << o.t; break; case Bool: v << (o.b ? "true" : "false"); break; case Flt: v << o.f; break; default: v << o.l; }
        auto trim = [](std::string x) { size_t b = x.find_first_not_of(" \t"), e = x.find_last_not_of(" \t"); return b == std::string::npos ? std::string() : x.substr(b, e - b + 1); };
        // exactly one line for the option: its name, (its value,) its description
        auto has = [&](const std::string& text, bool value)
        {
            int found = 0; std::istringstream in(text); std::string val = trim(v.str()), help = trim(o.help);
            for (std::string l; std::getline(in, l);)
            {
                l = trim(l); if (l.compare(0, o.name.size(), o.name) != 0) { continue; } std::string rest = l.substr(o.name.size()); if (!rest.empty() && !isspace((unsigned char) rest[0])) { continue; } rest = trim(rest);
                if (value && val.find('\n') != std::string::npos) { ++found; continue; } // spread over several lines
                if (value) { if (rest.compare(0, val.size(), val) != 0) { return false; } rest = trim(rest.substr(val.size())); }
                if (rest != help) { return false; } ++found;
            }
            return found == 1;
        };
        CHECK(has(hs, false), "the help does not list " << o.name << " with \"" << o.help << "\": " << hs); CHECK(has(ps, true), "the options do not list " << o.name << " with value \"" << v.str() << "\" and \"" << o.help << "\": " << ps);
    }
}
}

LAW(assign, 40000, 500000, "at least two options on the command line") { parse(s, false); }
LAW(mistakes, 30000, 400000, "at least two options on the command line") { parse(s, true); }
LAW(assign_many, 600, 8000, "at least two options on the command line") { parse(s, false, 70); }
LAW(mistakes_many, 500, 6000, "at least two options on the command line") { parse(s, true, 40); }

PBT_MAIN
