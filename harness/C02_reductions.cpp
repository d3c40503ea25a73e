// C02: reductions, norms, statistics, comparison and Randomize of vectors
// technique: property-based testing: long-double reference reductions, algebraic identities and boundary-straddling comparisons over generated vectors
#include "gen.hpp"
using pbt::S;

namespace
{
bool only_huge = false;                                                   // draw lengths beyond 16 bits only
struct Huge { Huge() { only_huge = true; } ~Huge() { only_huge = false; } };
int length(S& s, int lo)
{
    if (only_huge) { return huge_length(s); }
    int k = s.weighted({10, 3, 1});
    if (k == 0) { return s.size(lo, 12); }
    if (k == 1) { return s.i(lo, 300); }
    return s.i(lo, s.thorough ? 20000 : 4000);
}
template <typename T>
std::vector<T> content(S& s, int n, bool& exact)
{
    int k = s.weighted({3, 3, 2, 1, 1});
    exact = std::is_integral<T>::value || k != 1;
    std::vector<T> v;
    if (k == 0) { v = values<T>(s, n, INT); }                    // ties, zeros
    else if (k == 1) { v = values<T>(s, n, REAL); }
    else if (k == 2)                                             // one extreme value at a chosen place
    {
        v = values<T>(s, n, INT);
        if (n > 0) { int at = s.weighted({1, 1, 2}); int p = at == 0 ? 0 : at == 1 ? n - 1 : s.i(0, n - 1); v[p] = (T) s.sgn_int(1000); }
    }
    else if (k == 3) { v.assign(n, (T) s.sgn_int(9)); if (n > 0 && s.chance(0.5)) { v[s.i(0, n - 1)] = (T) s.sgn_int(20); } }
    else { v = values<T>(s, n, INT); for (auto& x : v) { x = (T) (s.chance(0.5) ? -std::fabs((double) x) - 1 : -1); } }     // all negative
    return v;
}

template <typename T>
void reductions(S& s)
{
    bool exact; int n = length(s, 1);
    std::vector<T> x = content<T>(s, n, exact), y = content<T>(s, n, exact);
    if (s.chance(0.1)) { y = x; }
    bool ints = true; for (auto e : x) { ints = ints && e == (T) (long) e && std::fabs((double) e) <= 1e6; } for (auto e : y) { ints = ints && e == (T) (long) e && std::fabs((double) e) <= 1e6; }
    exact = ints;
    s.note([&](std::ostream & o) { o << "n=" << n << " x=" << show(x) << " y=" << show(y); });
    s.label("all negative", *std::max_element(x.begin(), x.end()) < 0); s.label("long", n > 64); s.label("ties", n > 1 && x[0] == x[1]);
    // the same values seen through an owning vector, a view on foreign storage, a window
    std::vector<T> buf(n + 4, (T) 100000); std::copy(x.begin(), x.end(), buf.begin() + 2);
    la::Vector<T> own(x), oy(y);
    la::VectorView<T> win(buf.data() + 2, n);
    std::vector<T> sto(x); la::VectorView<T> full(sto);
    const la::VectorView<T>* vs[3] = { &own, &win, &full };
    const la::VectorView<T>& v = *vs[s.i(0, 2)];
    ld sum = 0, asum = 0, sq = 0, ip = 0, aip = 0, mx = x[0], mn = x[0], amx = 0, amn = std::fabs((ld) x[0]);
    for (int k = 0; k < n; ++k)
    {
        ld e = x[k], f = y[k];
        sum += e; asum += std::fabs(e); sq += e * e; ip += e * f; aip += std::fabs(e * f);
        mx = std::max(mx, e); mn = std::min(mn, e); amx = std::max(amx, std::fabs(e)); amn = std::min(amn, std::fabs(e));
    }
    double f = exact ? 0 : n + 4;
    CHECK(v.size() == n, "size");
    CHECK(near(v.Sum(), sum, asum, f), "member Sum() is " << v.Sum() << ", expected " << (double) sum);
    CHECK(near(la::Sum(v), sum, asum, f), "Sum() is " << la::Sum(v) << ", expected " << (double) sum);
    CHECK(near(la::Mean(v), sum / n, asum / n, n + 8), "Mean() is " << la::Mean(v) << ", expected " << (double) (sum / n));
    CHECK(la::Max(v) == mx, "Max() is " << la::Max(v) << ", expected " << (double) mx);
    CHECK(la::Min(v) == mn, "Min() is " << la::Min(v) << ", expected " << (double) mn);
    CHECK(la::AbsMax(v) == amx, "AbsMax() is " << la::AbsMax(v) << ", expected " << (double) amx);
    CHECK(la::AbsMin(v) == amn, "AbsMin() is " << la::AbsMin(v) << ", expected " << (double) amn);
    CHECK(near(v.L2Norm(), std::sqrt(sq), std::sqrt(sq), n + 8), "member L2Norm() is " << v.L2Norm() << ", expected " << (double) std::sqrt(sq));
    CHECK(near(la::L2Norm(v), std::sqrt(sq), std::sqrt(sq), n + 8), "L2Norm() is " << la::L2Norm(v) << ", expected " << (double) std::sqrt(sq));
    CHECK(near(v.Mult(oy), ip, aip, f), "Mult is " << v.Mult(oy) << ", expected " << (double) ip);
    CHECK(near(la::InnerProduct(v, oy), ip, aip, f), "InnerProduct is " << la::InnerProduct(v, oy) << ", expected " << (double) ip);
    CHECK(near(v * (const la::VectorView<T>&) oy, ip, aip, f), "v * w is not the inner product");
    CHECK(near(la::InnerProduct(oy, v), ip, aip, f), "InnerProduct is not symmetric");
    CHECK(near(v.Mult(v), sq, sq, f), "v . v is " << v.Mult(v) << ", expected " << (double) sq);
    CHECK(own.data() == x && sto == x && oy.data() == y, "a reduction changed its argument");
    for (int k = 0; k < n + 4; ++k) { CHECK(buf[k] == (k >= 2 && k < n + 2 ? x[k - 2] : (T) 100000), "a reduction wrote to storage"); }
    s.nontrivial(n >= 2);
}

template <typename T>
void equality(S& s)
{
    int n = length(s, 0);
    std::vector<T> x = values<T>(s, n, s.chance(0.5) ? INT : REAL), y(x);
    bool want = true;
    int kind = s.weighted({3, 4, 1, 2});
    int at = n > 0 ? (s.chance(0.3) ? n - 1 : s.i(0, n - 1)) : 0;
    std::string desc = "same";
    if (kind == 1 && n > 0)
    {
        if (std::is_integral<T>::value) { y[at] = y[at] + (T) (s.chance(0.5) ? 1 : -1); want = false; desc = "off by one"; }
        else
        {
            // differences clearly inside or outside of the tolerance 1e-12
            double d = s.pick({5e-13, 2e-12, 1e-13, 1e-11, 1e-6, 1.0, 1e-15});
            if (s.chance(0.5)) { d = -d; }
            x[at] = 0; y[at] = 0;
            if (s.chance(0.5)) { x[at] = y[at] = (T) s.sgn_int(3); }
            y[at] = (T) (x[at] + d); want = std::fabs(d) < 1e-12; desc = "differs by " + std::to_string(d * 1e12) + "e-12";
        }
    }
    else if (kind == 2)
    {
        y = x; if (n > 0 && s.chance(0.5)) { y.pop_back(); } else { y.push_back((T) 0); } want = false; desc = "other length";
    }
    else if (kind == 3 && n > 0 && !std::is_integral<T>::value)
    {
        const double inf = std::numeric_limits<double>::infinity(), nan = std::numeric_limits<double>::quiet_NaN();
        switch (s.i(0, 4))
        {
            case 0: y[at] = (T) inf; x[at] = (T) 3; want = false; desc = "inf against number"; break;
            case 1: y[at] = (T) inf; x[at] = (T) inf; want = true; desc = "inf against inf"; break;
            case 2: y[at] = (T) inf; x[at] = (T) - inf; want = false; desc = "inf against -inf"; break;
            case 3: y[at] = (T) nan; x[at] = (T) 3; want = false; desc = "NaN against number"; break;
            default: y[at] = (T) nan; x[at] = (T) inf; want = false; desc = "NaN against inf"; break;
        }
    }
    s.label(desc.substr(0, 12));
    s.note([&](std::ostream & o) { o << desc << " at " << at << " of " << n << " x=" << show(x) << " y=" << show(y); });
    la::Vector<T> a(x), b(y);
    std::vector<T> sx(x), sy(y);
    la::VectorView<T> va(sx), vb(sy);
    CHECK((a == b) == want, desc << ": Vector == Vector is " << (a == b));
    CHECK((b == a) == want, desc << ": comparison is not symmetric");
    CHECK((va == vb) == want, desc << ": view == view");
    CHECK((a == vb) == want && (va == b) == want, desc << ": mixed Vector/view comparison");
    s.nontrivial(n >= 2 && kind != 0);
}
}

LAW(reductions_double, 120000, 1500000, "at least two entries") { reductions<double>(s); }
LAW(reductions_int, 80000, 800000, "at least two entries") { reductions<int>(s); }
LAW(equality_double, 60000, 800000, "at least two entries and the operands differ in a chosen way") { equality<double>(s); }
LAW(equality_int, 30000, 300000, "at least two entries and the operands differ in a chosen way") { equality<int>(s); }

LAW(equality_mixed, 20000, 200000, "at least two entries and the operands differ in a chosen way")
{
    int n = length(s, 0);
    std::vector<int> x = values<int>(s, n, INT); std::vector<double> y(x.begin(), x.end());
    bool want = true;
    if (n > 0 && s.chance(0.6)) { double d = s.pick({0.5, 1e-9, 5e-13, -0.25}); int at = s.i(0, n - 1); x[at] = 0; y[at] = d; want = d == 5e-13; }
    la::Vector<int> a(x); la::Vector<double> b(y);
    s.note([&](std::ostream & o) { o << show(x) << show(y); });
    CHECK((a == b) == want && (b == a) == want, "int vector against double vector");
    s.nontrivial(n >= 2 && !want);
}

LAW(subvector, 60000, 800000, "at least two selected entries, not in increasing order")
{
    int n = length(s, 0); Mode m = s.chance(0.5) ? INT : REAL;
    std::vector<double> x = values<double>(s, n, m);
    int k = n == 0 ? 0 : s.size(0, 20);
    std::vector<int> idx; for (int i = 0; i < k; ++i) { idx.push_back(s.i(0, n - 1)); }
    la::Vector<double> own(x); std::vector<double> sto(x); la::VectorView<double> v(sto);
    std::vector<ld> want; for (int i : idx) { want.push_back(x[i]); }
    s.note([&](std::ostream & o) { o << "x=" << show(x) << " indices " << show(idx); });
    expect_vec_exact(own.GetSubVector(idx), want, "GetSubVector");
    expect_vec_exact(v.GetSubVector(idx), want, "GetSubVector of a view");
    la::Vector<double> out(s.i(0, 25), 777.0);
    v.GetSubVector(idx, out);
    expect_vec_exact(out, want, "GetSubVector into a vector");
    CHECK((int) out.data().size() == k, "GetSubVector left the storage at another size");
    CHECK(own.data() == x && sto == x, "GetSubVector changed its source");
    s.nontrivial(k >= 2 && !std::is_sorted(idx.begin(), idx.end()));
}

LAW(normalize_and_subavg, 80000, 800000, "at least two entries, not all equal")
{
    int n = length(s, 1); Mode m = s.chance(0.5) ? INT : REAL;
    std::vector<double> buf = values<double>(s, n + 4, m), b0(buf);
    la::VectorView<double> w(buf.data() + 2, n);
    ld sq = 0, sum = 0, asum = 0;
    for (int i = 0; i < n; ++i) { ld e = b0[i + 2]; sq += e * e; sum += e; asum += std::fabs(e); }
    bool norm = s.chance(0.5);
    if (norm && sq < 1e-250L) { throw pbt::Discard{}; }
    s.note([&](std::ostream & o) { o << (norm ? "Normalize" : "SubAvg") << " n=" << n << " " << show(b0); });
    bool free = s.chance(0.5), own = s.chance(0.3);
    la::Vector<double> o(std::vector<double>(b0.begin() + 2, b0.begin() + 2 + n));
    if (norm) { if (own) { if (free) { la::Normalize(o); } else { o.Normalize(); } } else if (free) { la::Normalize(w); } else { w.Normalize(); } }
    else { if (own) { la::SubAvg(o); } else { la::SubAvg(w); } }
    std::vector<double> got = own ? o.data() : std::vector<double>(buf.begin() + 2, buf.begin() + 2 + n);
    std::vector<ld> want(n), mag(n);
    bool equal = true;
    for (int i = 0; i < n; ++i)
    {
        ld e = b0[i + 2]; equal = equal && e == b0[2];
        if (norm) { want[i] = e / std::sqrt(sq); mag[i] = std::fabs(want[i]); }
        else { want[i] = e - sum / n; mag[i] = std::fabs(e) + asum / n; }
    }
    expect_vec(got, want, mag, n + 10, norm ? "Normalize" : "SubAvg");
    ld s2 = 0, ss = 0, sm = 0; for (double g : got) { s2 += (ld) g * g; ss += g; }
    for (auto g : mag) { sm += g; }
    if (norm) { CHECK(near(s2, 1, 1, 4 * n + 40), "norm after Normalize is " << (double) std::sqrt(s2)); }
    else { CHECK(std::fabs(ss) <= (n + 10) * EPS * sm, "sum after SubAvg is " << (double) ss); }
    for (int k : {0, 1, n + 2, n + 3}) { CHECK(buf[k] == b0[k], "wrote outside of the view"); }
    s.nontrivial(n >= 2 && !equal);
}

LAW(randomize, 60000, 600000, "at least eight entries and a range of positive width")
{
    int n = length(s, 0);
    bool ints = s.chance(0.4);
    int lo = s.sgn_int(20), width = s.pick({0, 1, 2, 10, 1000});
    int seed = s.chance(0.75) ? (s.chance(0.15) ? s.pick({0, 1, 2147483646}) : s.i(0, 100000)) : -1 - s.i(0, 3);
    if (s.chance(0.1))
    {
        // default range and no seed: [0, 1], a new draw every time
        s.label("default range"); la::Vector<double> a(n, 7777.0), b(n, 7777.0); la::Vector<int> c(n, 7777), d(n, 7777);
        if (s.chance(0.5)) { a.Randomize(); b.Randomize(); c.Randomize(); d.Randomize(); } else { la::Randomize(a); la::Randomize(b); la::Randomize(c); la::Randomize(d); }
        bool same = true; int ones = 0; for (int i = 0; i < n; ++i) { CHECK(a[i] >= 0 && a[i] <= 1 && b[i] >= 0 && b[i] <= 1, "entry " << i << " of a vector with the default range is " << a[i] << " or " << b[i]); CHECK((c[i] == 0 || c[i] == 1) && (d[i] == 0 || d[i] == 1), "entry " << i << " of an integer vector with the default range is " << c[i] << " or " << d[i]); same = same && a[i] == b[i]; ones += c[i]; }
        CHECK(n < 8 || !same, "two draws without a seed are equal"); CHECK(n < 100 || (ones > 0 && ones < n), "all " << n << " integers of the default range are equal");
        s.note([&](std::ostream & o) { o << "default range, n=" << n; }); s.nontrivial(n >= 8); return;
    }
    int style = s.i(0, 2);
    s.note([&](std::ostream & o) { o << (ints ? "int" : "double") << " n=" << n << " [" << lo << "," << lo + width << "] seed " << seed << " style " << style; });
    s.label("unseeded", seed < 0); s.label("integers", ints);
    if (ints)
    {
        std::vector<int> buf(n + 2, 7777);
        la::VectorView<int> v(buf.data() + 1, n);
        if (style == 0) { v.Randomize(lo, lo + width, seed); } else { la::Randomize(v, lo, lo + width, seed); }
        std::set<int> seen;
        for (int i = 0; i < n; ++i) { CHECK(buf[i + 1] >= lo && buf[i + 1] <= lo + width, "entry " << i << " is " << buf[i + 1] << " outside of [" << lo << "," << lo + width << "]"); seen.insert(buf[i + 1]); }
        CHECK(buf[0] == 7777 && buf[n + 1] == 7777, "Randomize wrote outside of the view");
        if (width <= 2 && n >= 250) { CHECK((int) seen.size() == width + 1, "only " << seen.size() << " of " << width + 1 << " values occur among " << n << " entries"); }
        if (seed >= 0)
        {
            la::Vector<int> w(n, 3); la::Randomize(w, lo, lo + width, seed);
            for (int i = 0; i < n; ++i) { CHECK(w[i] == buf[i + 1], "same seed, different values"); }
        }
    }
    else
    {
        double a = lo, b = lo + width;
        if (style == 1) { double sh = s.i(0, 8) / 16.0; a += sh; b += 2 * sh; }
        std::vector<double> buf(n + 2, 7777.0);
        la::VectorView<double> v(buf.data() + 1, n);
        if (style == 0) { v.Randomize((int) a, (int) b, seed); } else { la::Randomize(v, a, b, seed); }
        for (int i = 0; i < n; ++i) { CHECK(buf[i + 1] >= a && buf[i + 1] <= b, "entry " << i << " is " << buf[i + 1] << " outside of [" << a << "," << b << "]"); }
        CHECK(buf[0] == 7777 && buf[n + 1] == 7777, "Randomize wrote outside of the view");
        if (b > a && n >= 8)
        {
            std::set<double> seen(buf.begin() + 1, buf.begin() + 1 + n);
            CHECK((int) seen.size() >= n / 2, "only " << seen.size() << " different values among " << n);
            if (n >= 200) { double mx = *seen.rbegin(), mn = *seen.begin(); CHECK(mx - mn > 0.7 * (b - a), "values only cover [" << mn << "," << mx << "] of [" << a << "," << b << "]"); }
        }
        if (seed >= 0)
        {
            la::Vector<double> w(n, 3.0); la::Randomize(w, a, b, seed);
            for (int i = 0; i < n; ++i) { CHECK(w[i] == buf[i + 1], "same seed, different values"); }
            if (b > a && n >= 8 && seed > 0 && seed < 2147483646)
            {
                la::Randomize(w, a, b, seed + 1); bool same = true;
                for (int i = 0; i < n; ++i) { same = same && w[i] == buf[i + 1]; }
                CHECK(!same, "seeds " << seed << " and " << seed + 1 << " give the same values");
            }
        }
    }
    s.nontrivial(n >= 8 && width > 0);
}

// dense matrices compare like vectors
LAW(equality_dense, 40000, 400000, "a nonempty matrix pair that differs in a chosen way")
{
    int r = s.size(0, 6), c = s.size(0, 6);
    la::DenseMatrix a = dense(s, r, c, s.chance(0.5) ? INT : REAL), b(a);
    bool want = true; int kind = s.weighted({2, 4, 2, 2});
    std::string desc = "same";
    if (kind == 1 && r * c > 0)
    {
        int i = s.i(0, r - 1), j = s.i(0, c - 1); double d = s.pick({5e-13, 2e-12, 1e-9, 1.0, 1e-14}); if (s.chance(0.5)) { d = -d; }
        a(i, j) = s.sgn_int(2); b(i, j) = a(i, j) + d; want = std::fabs(d) < 1e-12; desc = "one entry differs";
    }
    else if (kind == 2)
    {
        desc = "other shape"; want = false;
        if (s.chance(0.5) && r != c) { std::vector<double> d; a.CopyData(d); b = la::DenseMatrix(c, r, d); desc = "transposed shape"; }
        else { b = la::DenseMatrix(r + 1, c); b = 0.0; if (c == 0) { desc = "other shape without entries"; } }
    }
    else if (kind == 3 && r * c > 0)
    {
        int i = s.i(0, r - 1), j = s.i(0, c - 1); const double inf = std::numeric_limits<double>::infinity();
        a(i, j) = 2; b(i, j) = s.chance(0.5) ? inf : std::numeric_limits<double>::quiet_NaN(); want = false; desc = "special value against number";
        if (s.chance(0.3)) { a(i, j) = b(i, j) = inf; want = true; desc = "inf against inf"; }
    }
    s.label(desc);
    s.note([&](std::ostream & o) { o << desc << " " << ref(a) << " " << ref(b); });
    CHECK((a == b) == want, desc << ": == is " << (a == b));
    CHECK((b == a) == want, desc << ": not symmetric");
    s.nontrivial(r * c > 0 && kind != 0);
}

// lengths that 16 bits cannot count
LAW(reductions_huge, 150, 1500, "at least two entries") { Huge h; if (s.chance(0.6)) { reductions<double>(s); } else { reductions<int>(s); } }
LAW(equality_huge, 150, 1500, "at least two entries and the operands differ in a chosen way") { Huge h; switch (s.i(0, 2)) { case 0: equality<double>(s); break; case 1: equality<int>(s); break; default: law_equality_mixed(s); } }
LAW(selection_huge, 150, 1500, "at least two selected entries out of order, or entries that differ") { Huge h; if (s.chance(0.5)) { law_subvector(s); } else { law_normalize_and_subavg(s); } }
LAW(randomize_huge, 60, 600, "at least eight entries and a range of positive width") { Huge h; law_randomize(s); }

PBT_MAIN
