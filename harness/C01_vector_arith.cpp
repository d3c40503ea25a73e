// C01: elementwise arithmetic of vectors and views
// technique: stateful property-based testing of view/vector operation histories against an array model of the whole buffer
#include "gen.hpp"
using pbt::S;

namespace
{
// One buffer; windows of it are seen through views.  The model is a plain
// array; after every step the WHOLE buffer is compared, so a write outside of
// the viewed window is seen.
template <typename T>
struct World
{
    std::vector<T> buf;            // real storage
    std::vector<T> model;
    int n;                         // window length
    std::vector<int> off;          // disjoint windows
};

template <typename T> ld tol_of(ld mag) { return std::is_integral<T>::value ? 0 : mag * 8 * EPS; }

template <typename T>
void compare(S&, World<T>& w, const std::vector<ld>& mag, const char* what)
{
    for (size_t k = 0; k < w.buf.size(); ++k)
    {
        ld g = (ld) w.buf[k], e = (ld) w.model[k];
        bool ok = g == e || std::fabs(g - e) <= tol_of<T>(mag[k]);
        if (!ok)
        {
            FAIL(what << ": slot " << k << " of a buffer with " << w.n << "-entry windows at " << show(w.off)
                 << " is " << (double) g << ", expected " << (double) e);
        }
    }
    w.model = w.buf;
}

template <typename T>
void history(S& s, Mode m, bool huge = false)
{
    World<T> w;
    w.n = huge ? huge_length(s) : s.weighted({8, 1}) == 0 ? s.size(0, 20) : s.i(20, s.thorough ? 20000 : 3000);
    int nw = 3;
    int gap = s.i(0, 2);
    for (int k = 0; k < nw; ++k) { w.off.push_back(gap + k * (w.n + gap)); }
    int total = gap + nw * (w.n + gap);
    w.buf = values<T>(s, total, m);
    w.model = w.buf;
    s.label("large", w.n > 1000); s.label("empty", w.n == 0);
    int steps = s.i(1, w.n > 100 ? 4 : 14);
    std::vector<ld> mag(total);
    std::string log;
    bool wrote = false;
    for (int st = 0; st < steps; ++st)
    {
        for (int k = 0; k < total; ++k) { mag[k] = std::fabs((ld) w.model[k]); }
        int a = s.i(0, nw - 1), b = s.i(0, nw - 1), c = s.i(0, nw - 1);
        // views on the chosen windows, obtained in different ways
        T* base = w.buf.data();
        la::VectorView<T> va(base + w.off[a], w.n);
        la::VectorView<T> vb(base + w.off[b], w.n);
        la::VectorView<T> vc(base + w.off[c], w.n);
        la::VectorView<T> va2(va);
        la::VectorView<T> va3(std::move(va2));
        la::VectorView<T>& x = s.chance(0.5) ? va : va3;
        const la::VectorView<T>& y = vb;
        auto M = [&](int win, int i) -> T & { return w.model[w.off[win] + i]; };
        auto G = [&](int win, int i) -> ld & { return mag[w.off[win] + i]; };
        int op = s.i(0, 24);
        T val = std::is_integral<T>::value ? (T) s.sgn_int(5) : (m == INT ? (T) s.sgn_int(5) : value<T>(s, m));
        double al = m == INT || std::is_integral<T>::value ? (double) s.sgn_int(4) : value<double>(s, m);
        const char* what = "?";
        std::vector<T> old(w.model);
        auto O = [&](int win, int i) -> T { return old[w.off[win] + i]; };
        bool bzero = false; for (int i = 0; i < w.n; ++i) { bzero = bzero || O(b, i) == 0; }
        // keep integers from growing over the history
        if (std::is_integral<T>::value || m == INT)
        { for (int k = 0; k < total; ++k) { if (std::fabs((double) w.buf[k]) > 1e4) { w.buf[k] = (T) ((long) w.buf[k] % 97); w.model[k] = old[k] = w.buf[k]; mag[k] = std::fabs((ld) w.buf[k]); } } }
        bzero = false; for (int i = 0; i < w.n; ++i) { bzero = bzero || O(b, i) == 0; }
        switch (op)
        {
            case 0: what = "view += vector"; x += y; for (int i = 0; i < w.n; ++i) { M(a, i) = O(a, i) + O(b, i); G(a, i) += std::fabs((ld) O(b, i)); } break;
            case 1: what = "view -= vector"; x -= y; for (int i = 0; i < w.n; ++i) { M(a, i) = O(a, i) - O(b, i); G(a, i) += std::fabs((ld) O(b, i)); } break;
            case 2: what = "view *= vector"; x *= y; for (int i = 0; i < w.n; ++i) { M(a, i) = O(a, i) * O(b, i); G(a, i) = std::fabs((ld) M(a, i)); } break;
            case 3: if (bzero) { break; } what = "view /= vector"; x /= y; for (int i = 0; i < w.n; ++i) { M(a, i) = O(a, i) / O(b, i); G(a, i) = std::fabs((ld) M(a, i)); } break;
            case 4: what = "view *= scalar"; x *= val; for (int i = 0; i < w.n; ++i) { M(a, i) = O(a, i) * val; G(a, i) = std::fabs((ld) M(a, i)); } break;
            case 5: if (val == 0) { break; } what = "view /= scalar"; x /= val; for (int i = 0; i < w.n; ++i) { M(a, i) = O(a, i) / val; G(a, i) = std::fabs((ld) M(a, i)); } break;
            case 6: what = "view += scalar"; x += val; for (int i = 0; i < w.n; ++i) { M(a, i) = O(a, i) + val; G(a, i) += std::fabs((ld) val); } break;
            case 7: what = "view -= scalar"; x -= val; for (int i = 0; i < w.n; ++i) { M(a, i) = O(a, i) - val; G(a, i) += std::fabs((ld) val); } break;
            case 8: what = "Add(alpha, v)"; x.Add(al, y); for (int i = 0; i < w.n; ++i) { M(a, i) = O(a, i) + al * O(b, i); G(a, i) += std::fabs((ld) al * O(b, i)); } break;
            case 9: what = "Sub(alpha, v)"; x.Sub(al, y); for (int i = 0; i < w.n; ++i) { M(a, i) = O(a, i) - al * O(b, i); G(a, i) += std::fabs((ld) al * O(b, i)); } break;
            case 10: what = "Set(alpha, v)"; x.Set(al, y); for (int i = 0; i < w.n; ++i) { M(a, i) = al * O(b, i); G(a, i) = std::fabs((ld) al * O(b, i)); } break;
            case 11: what = "Add(v)"; x.Add(y); for (int i = 0; i < w.n; ++i) { M(a, i) = O(a, i) + O(b, i); G(a, i) += std::fabs((ld) O(b, i)); } break;
            case 12: what = "Sub(v)"; x.Sub(y); for (int i = 0; i < w.n; ++i) { M(a, i) = O(a, i) - O(b, i); G(a, i) += std::fabs((ld) O(b, i)); } break;
            case 13: what = "Set(v)"; x.Set(y); for (int i = 0; i < w.n; ++i) { M(a, i) = O(b, i); G(a, i) = 0; } break;
            case 14: what = "view = scalar"; x = val; for (int i = 0; i < w.n; ++i) { M(a, i) = val; G(a, i) = 0; } break;
            case 15: what = "view = view"; if (s.chance(0.5)) { x = vb; } else { x = y; } for (int i = 0; i < w.n; ++i) { M(a, i) = O(b, i); G(a, i) = 0; } break;
            case 16: what = "view = temporary view"; x = la::VectorView<T>(base + w.off[b], w.n); for (int i = 0; i < w.n; ++i) { M(a, i) = O(b, i); G(a, i) = 0; } break;
            case 17:
            {
                what = "Add(alpha, x, beta, y, gamma, z)";
                T A = val, B = (T) (int) al, C = (T) s.sgn_int(3);
                la::Add(A, y, B, (const la::VectorView<T>&) vc, C, la::VectorView<T>(x));
                for (int i = 0; i < w.n; ++i)
                {
                    M(a, i) = A * O(b, i) + B * O(c, i) + C * O(a, i);
                    G(a, i) = std::fabs((ld) A * O(b, i)) + std::fabs((ld) B * O(c, i)) + std::fabs((ld) C * O(a, i));
                }
                break;
            }
            case 18: what = "view[i] = val"; if (w.n > 0) { int i = s.i(0, w.n - 1); x[i] = val; M(a, i) = val; CHECK(((const la::VectorView<T>&) x)[i] == val, "read back"); } break;
            case 19:
            {
                what = "swap(view, view) then write";
                swap(x, vb); x = val;       // x now looks at window b
                for (int i = 0; i < w.n; ++i) { M(b, i) = val; G(b, i) = 0; }
                break;
            }
            case 20:
            {
                what = "iterators"; int i = 0;
                CHECK(x.end() - x.begin() == w.n && x.size() == w.n, "view extent");
                for (T& e : x) { e = (T) (e + (T) (i % 3)); M(a, i) = O(a, i) + (T) (i % 3); G(a, i) += 2; ++i; }
                break;
            }
            case 21:
            {
                // the scalar is one of the entries it is applied to
                what = "entry as scalar"; if (w.n == 0) { break; } int k = s.i(0, w.n - 1), sub = s.i(0, 5); T v = O(a, k); T* e = base + w.off[a] + k; la::Vector<T> own(w.n); bool owned = s.chance(0.3);
                if (owned) { for (int i = 0; i < w.n; ++i) { own[i] = O(a, i); } e = own.begin() + k; }
                la::VectorView<T>& t = owned ? static_cast<la::VectorView<T>&>(own) : x;
                switch (sub)
                {
                    case 0: t *= *e; for (int i = 0; i < w.n; ++i) { M(a, i) = O(a, i) * v; G(a, i) = std::fabs((ld) M(a, i)); } break;
                    case 1: if (v == 0) { break; } t /= *e; for (int i = 0; i < w.n; ++i) { M(a, i) = O(a, i) / v; G(a, i) = std::fabs((ld) M(a, i)); } break;
                    case 2: t += *e; for (int i = 0; i < w.n; ++i) { M(a, i) = O(a, i) + v; G(a, i) += std::fabs((ld) v); } break;
                    case 3: t -= *e; for (int i = 0; i < w.n; ++i) { M(a, i) = O(a, i) - v; G(a, i) += std::fabs((ld) v); } break;
                    case 4: t = *e; for (int i = 0; i < w.n; ++i) { M(a, i) = v; G(a, i) = 0; } break;
                    default: t.Add(*e, owned ? (const la::VectorView<T>&) own : y); for (int i = 0; i < w.n; ++i) { T other = owned ? O(a, i) : O(b, i); M(a, i) = O(a, i) + (double) v * other; G(a, i) += std::fabs((ld) v * other); } break;
                }
                if (owned) { for (int i = 0; i < w.n; ++i) { base[w.off[a] + i] = own[i]; } }
                break;
            }
            case 22: what = "Add(x, y, z)"; la::Add(y, (const la::VectorView<T>&) vc, la::VectorView<T>(x)); for (int i = 0; i < w.n; ++i) { M(a, i) = O(b, i) + O(c, i); G(a, i) = std::fabs((ld) O(b, i)) + std::fabs((ld) O(c, i)); } break;
            case 23: what = "Sub(x, y, z)"; la::Sub(y, (const la::VectorView<T>&) vc, la::VectorView<T>(x)); for (int i = 0; i < w.n; ++i) { M(a, i) = O(b, i) - O(c, i); G(a, i) = std::fabs((ld) O(b, i)) + std::fabs((ld) O(c, i)); } break;
            default:
            {
                // operators returning a view return one that still aliases the left operand
                what = "chained (v += w) += c"; (x += y) += val;
                for (int i = 0; i < w.n; ++i) { M(a, i) = O(a, i) + O(b, i) + val; G(a, i) += std::fabs((ld) O(b, i)) + std::fabs((ld) val); }
                break;
            }
        }
        if (s.verbose) { s.say(std::string(what) + " a=" + std::to_string(a) + " b=" + std::to_string(b)); }
        s.label(std::string("op:") + what);
        if (a != b && w.n > 0) { wrote = true; }
        compare(s, w, mag, what);
    }
    s.note([&](std::ostream & o) { o << "n=" << w.n << " gap=" << gap << " final " << show(w.model); });
    s.nontrivial(wrote && w.n >= 2 && steps >= 2);
}
}

LAW(history_double_exact, 120000, 2000000, "at least two steps on windows of at least two entries, with two different windows involved")
{ history<double>(s, INT); }
LAW(history_double_real, 80000, 1200000, "at least two steps on windows of at least two entries, with two different windows involved")
{ history<double>(s, REAL); }
LAW(history_huge, 150, 2000, "at least two steps on windows of at least two entries, with two different windows involved")
{ if (s.chance(0.5)) { history<double>(s, s.chance(0.5) ? INT : REAL, true); } else { history<int>(s, INT, true); } }
LAW(history_int, 80000, 1200000, "at least two steps on windows of at least two entries, with two different windows involved")
{ history<int>(s, INT); }

// Operators that build new vectors: correct result, operands unchanged.
template <typename T>
static void fresh(S& s, Mode m)
{
    int n = s.weighted({8, 1}) == 0 ? s.size(0, 20) : s.i(20, 4000);
    la::Vector<T> x = vec<T>(s, n, m), y = vec<T>(s, n, m);
    const la::Vector<T> x0(x), y0(y);
    T c = nonzero<T>(s, m);
    int op = s.i(0, 8);
    la::Vector<T> z; std::vector<ld> want(n), mag(n);
    const char* what = "";
    auto X = [&](int i) { return x0.data()[i]; }; auto Y = [&](int i) { return y0.data()[i]; };
    switch (op)
    {
        case 0: what = "x + y"; z = x + y; for (int i = 0; i < n; ++i) { want[i] = (ld) X(i) + Y(i); mag[i] = std::fabs((ld) X(i)) + std::fabs((ld) Y(i)); } break;
        case 1: what = "x - y"; z = x - y; for (int i = 0; i < n; ++i) { want[i] = (ld) X(i) - Y(i); mag[i] = std::fabs((ld) X(i)) + std::fabs((ld) Y(i)); } break;
        case 2: what = "x * c"; z = x * c; for (int i = 0; i < n; ++i) { want[i] = (ld) X(i) * c; mag[i] = std::fabs(want[i]); } break;
        case 3: what = "c * x"; z = c * x; for (int i = 0; i < n; ++i) { want[i] = (ld) X(i) * c; mag[i] = std::fabs(want[i]); } break;
        case 4: what = "x / c"; z = x / c; for (int i = 0; i < n; ++i) { want[i] = (ld) (T) (X(i) / c); mag[i] = std::fabs(want[i]); } break;
        case 5: what = "c / x"; for (auto& e : x) { if (e == 0) { e = 1; } } { const la::Vector<T> xs(x); z = c / x; for (int i = 0; i < n; ++i) { want[i] = (ld) (T) (c / xs.data()[i]); mag[i] = std::fabs(want[i]); } CHECK(x.data() == xs.data(), "c / x changed x"); x = x0; } break;
        case 6: what = "x + x"; z = x + x; for (int i = 0; i < n; ++i) { want[i] = 2 * (ld) X(i); mag[i] = std::fabs(want[i]); } break;
        case 7: what = "x - x"; z = x - x; for (int i = 0; i < n; ++i) { want[i] = 0; mag[i] = std::fabs((ld) X(i)); } break;
        default: what = "(x + y) * c - y";
            z = (x + y) * c - y;
            for (int i = 0; i < n; ++i) { want[i] = ((ld) X(i) + Y(i)) * c - Y(i); mag[i] = (std::fabs((ld) X(i)) + std::fabs((ld) Y(i))) * std::fabs((ld) c) + std::fabs((ld) Y(i)); }
    }
    s.label(std::string("op:") + what);
    s.note([&](std::ostream & o) { o << what << " n=" << n << " c=" << (double) c << " x=" << show(x0.data()) << " y=" << show(y0.data()); });
    expect_vec(z, want, mag, std::is_integral<T>::value ? 0 : 8, what);
    CHECK(x.data() == x0.data(), what << " changed its left operand");
    CHECK(y.data() == y0.data(), what << " changed its right operand");
    s.nontrivial(n >= 2);
}
LAW(fresh_double, 60000, 900000, "at least two entries") { fresh<double>(s, s.chance(0.5) ? REAL : INT); }
LAW(fresh_int, 40000, 600000, "at least two entries") { fresh<int>(s, INT); }

// three-operand free functions writing into a window of a larger buffer, mixed types
LAW(free_functions, 60000, 900000, "at least two entries")
{
    Mode m = s.chance(0.5) ? REAL : INT;
    int n = s.weighted({8, 1}) == 0 ? s.size(0, 20) : s.i(20, 4000);
    la::Vector<double> x = vec<double>(s, n, m), y = vec<double>(s, n, m);
    std::vector<double> z0 = values<double>(s, n + 4, m), z(z0);
    const la::Vector<double> x0(x), y0(y);
    double a = value<double>(s, m), b = value<double>(s, m), g = value<double>(s, m);
    la::VectorView<double> zv(z.data() + 2, n);
    int op = s.i(0, 3);
    // the two-operand forms define their output: whatever it held before must not matter
    bool special = op < 2 && n > 0 && s.chance(0.3);
    if (special) { z[2 + s.i(0, n - 1)] = s.chance(0.5) ? std::numeric_limits<double>::quiet_NaN() : std::numeric_limits<double>::infinity(); }
    s.label("stale NaN/inf in the output", special);
    const char* what = "";
    std::vector<ld> want(n), mag(n);
    if (op == 0) { what = "Add(x, y, z)"; la::Add(x, y, la::VectorView<double>(zv)); }
    else if (op == 1) { what = "Sub(x, y, z)"; la::Sub(x, y, la::VectorView<double>(zv)); }
    else if (op == 2) { what = "Add(a, x, b, y, g, z)"; la::Add(a, x, b, y, g, la::VectorView<double>(zv)); }
    else { what = "double view += int vector"; }
    std::vector<int> iv;
    if (op == 3) { iv = values<int>(s, n, INT); la::Vector<int> w(iv); zv += w; }
    for (int i = 0; i < n; ++i)
    {
        ld X = x0.data()[i], Y = y0.data()[i], Z = z0[i + 2];
        want[i] = op == 0 ? X + Y : op == 1 ? X - Y : op == 2 ? a * X + b * Y + g * Z : Z + iv[i];
        mag[i] = op == 3 ? std::fabs(Z) + std::abs(iv[i]) : op == 2 ? std::fabs(a * X) + std::fabs(b * Y) + std::fabs(g * Z) : std::fabs(X) + std::fabs(Y);
    }
    s.label(std::string("op:") + what);
    s.note([&](std::ostream & o) { o << what << " n=" << n << " a=" << a << " b=" << b << " g=" << g << " x=" << show(x0.data()) << " y=" << show(y0.data()) << " z=" << show(z0); });
    expect_vec(std::vector<double>(z.begin() + 2, z.begin() + 2 + n), want, mag, 8, what);
    for (int k : {0, 1, n + 2, n + 3}) { CHECK(z[k] == z0[k], what << " wrote outside of the view, slot " << k); }
    CHECK(x.data() == x0.data() && y.data() == y0.data(), what << " changed an input");
    s.nontrivial(n >= 2);
}

PBT_MAIN
