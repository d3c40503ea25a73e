// C18: all operators are linear, consistent across overloads, and adjoint-correct
// technique: metamorphic and differential property testing: every operator type built from the same random entries, compared with each other and checked for linearity, adjointness and repeatability
#include "huge.hpp"
using pbt::S;

namespace
{
using View = la::VectorView<double>;

// user-defined operators: the product and the weighted sum of two others, used through the base class only
struct Product : public la::Operator
{
    const la::Operator& a; const la::Operator& b; Product(const la::Operator& x, const la::Operator& y) : la::Operator(x.Rows(), y.Cols()), a(x), b(y) { }
    void Mult(const View& x, View y) const override { la::Vector<double> t = b.Mult(x); a.Mult(t, y); }
    void MultAT(const View& x, View y) const override { la::Vector<double> t = a.MultAT(x); b.MultAT(t, y); }
    using la::Operator::Mult; using la::Operator::MultAT;
};
struct Sum : public la::Operator
{
    const la::Operator& a; const la::Operator& b; double k; Sum(const la::Operator& x, const la::Operator& y, double f) : la::Operator(x.Rows(), x.Cols()), a(x), b(y), k(f) { }
    void Mult(const View& x, View y) const override { a.Mult(x, y); la::Vector<double> t(Rows()); b.Mult(x, t); for (int i = 0; i < y.size(); ++i) { y[i] += k * t[i]; } }
    void MultAT(const View& x, View y) const override { a.MultAT(x, y); la::Vector<double> t(Cols()); b.MultAT(x, t); for (int i = 0; i < y.size(); ++i) { y[i] += k * t[i]; } }
    using la::Operator::Mult; using la::Operator::MultAT;
};
struct Forward : public la::Operator   // no transpose
{
    const la::Operator& a; Forward(const la::Operator& x) : la::Operator(x.Rows(), x.Cols()), a(x) { }
    void Mult(const View& x, View y) const override { a.Mult(x, y); }
    using la::Operator::Mult;
};

struct Ops { std::vector<std::unique_ptr<la::Operator>> own; std::vector<std::pair<std::string, const la::Operator*>> all; };

std::vector<int> cut(S& s, int n) { std::vector<int> o {0}; int k = s.i(0, 3); for (int i = 0; i < k; ++i) { o.push_back(s.i(o.back(), n)); } o.push_back(n); return o; }

template <typename T>
Csr<T> part(const Csr<T>& m, int r0, int r1, int c0, int c1)
{
    Csr<T> o; o.r = r1 - r0; o.c = c1 - c0;
    for (int i = r0; i < r1; ++i) { for (int k = m.p[i]; k < m.p[i + 1]; ++k) { if (m.x[k] >= c0 && m.x[k] < c1) { o.x.push_back(m.x[k] - c0); o.d.push_back(m.d[k]); } } o.p.push_back((int) o.x.size()); }
    return o;
}

template <typename T>
void represent(S& s, Ops& o, const Csr<T>& m, bool large = false)   // large: no dense representation
{
    int r = m.r, c = m.c;
    auto add = [&](const char* n, la::Operator * p) { o.own.emplace_back(p); o.all.push_back({n, p}); return p; };
    add("sparse", new la::SparseMatrix<T>(m.mat()));
    if (!large) { Ref a = m.ref(); auto* q = new la::DenseMatrix(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { (*q)(i, j) = (double) a(i, j); } add("dense", q); }
    std::vector<int> ord; for (int k = 0; k < (int) m.d.size(); ++k) { ord.push_back(k); }
    std::vector<int> row(m.d.size()); for (int i = 0; i < r; ++i) for (int k = m.p[i]; k < m.p[i + 1]; ++k) { row[k] = i; }
    if (s.chance(0.5)) { ord = s.permutation((int) ord.size()); }
    bool split = s.chance(0.3);   // add an entry in two parts: duplicates are summed
    { auto* q = new la::CooMatrix<T>(r, c); for (int k : ord) { if (split) { q->Add(row[k], m.x[k], (T)(m.d[k] - T(1))); q->Add(row[k], m.x[k], T(1)); } else { q->Add(row[k], m.x[k], m.d[k]); } } add("COO", q); }
    { auto* q = new la::LilMatrix<T>(r, c); for (int k : ord) { if (split) { q->Add(row[k], m.x[k], (T)(m.d[k] - T(1))); q->Add(row[k], m.x[k], T(1)); } else { q->Add(row[k], m.x[k], m.d[k]); } } add("LIL", q); }
    std::vector<int> ro = cut(s, r), co = cut(s, c);
    {
        auto* q = new la::BlockMatrix<T>(ro, co);
        for (int i = 0; i + 1 < (int) ro.size(); ++i) for (int j = 0; j + 1 < (int) co.size(); ++j) { Csr<T> b = part(m, ro[i], ro[i + 1], co[j], co[j + 1]); if (b.d.size() || s.chance(0.3)) { q->SetBlock(i, j, b.mat()); } }
        add("block matrix", q);
    }
    {
        auto* q = new la::BlockOperator(ro, co); std::vector<std::unique_ptr<la::Operator>> parts;
        for (int i = 0; i + 1 < (int) ro.size(); ++i) for (int j = 0; j + 1 < (int) co.size(); ++j)
        {
            Csr<T> b = part(m, ro[i], ro[i + 1], co[j], co[j + 1]); if (!b.d.size() && s.chance(0.7)) { continue; }
            la::Operator* p; if (large || s.chance(0.5)) { p = new la::SparseMatrix<T>(b.mat()); } else { Ref f = b.ref(); auto* d = new la::DenseMatrix(f.r, f.c); for (int x = 0; x < f.r; ++x) for (int y = 0; y < f.c; ++y) { (*d)(x, y) = (double) f(x, y); } p = d; }
            o.own.emplace_back(p); q->SetBlock(i, j, *p);
        }
        add("block operator", q);
    }
}

inline la::Vector<double> draw(S& s, int n) { return n > 5000 ? huge::vec(s, n) : vec<double>(s, n, INT); }
typedef std::function<std::vector<ld>(bool, const std::vector<ld>&)> Action;   // the reference action, transposed or not
void apply_all(S& s, const la::Operator& A, int rows, int cols, const Action& want, const std::string& name)
{
    CHECK(A.Rows() == rows && A.Cols() == cols, name << " is " << A.Rows() << "x" << A.Cols() << ", expected " << rows << "x" << cols);
    for (int t = 0; t < 2; ++t)   // t = 1: the transposed action
    {
        const int mr = t ? cols : rows, mc = t ? rows : cols;
        auto go = [&](const View & x, View y) { if (t) { A.MultAT(x, y); } else { A.Mult(x, y); } };
        la::Vector<double> x = draw(s, mc), y = draw(s, mc), x0(x);
        std::vector<double> buf(mr + 2, std::nan("")); buf[0] = buf.back() = 77; const char* w = t ? " MultAT" : " Mult";
        go(x, View(buf.data() + 1, mr));
        std::vector<double> first(buf.begin() + 1, buf.end() - 1);
        CHECK(buf[0] == 77 && buf.back() == 77, name << w << " wrote outside of the output");
        expect_vec_exact(first, want(t, ldv(x)), (name + w).c_str());
        // repeat over another previous content
        la::Vector<double> again(mr, 1e30); go(x, again); CHECK(std::equal(first.begin(), first.end(), again.begin()), name << w << " is not repeatable or depends on the output");
        la::Vector<double> out(s.i(0, 4), 5.0); if (t) { A.MultAT(x, out); } else { A.Mult(x, out); }
        CHECK(out.size() == mr && std::equal(first.begin(), first.end(), out.begin()), name << w << "(vector, vector) differs: size " << out.size());
        la::Vector<double> ret = t ? A.MultAT(x) : A.Mult(x); CHECK(ret.size() == mr && std::equal(first.begin(), first.end(), ret.begin()), name << w << "(vector) differs");
        CHECK(std::equal(x.begin(), x.end(), x0.begin()), name << w << " modified its input");
        // linearity: A(k x + y) = k A x + A y
        double k = s.sgn_int(4); la::Vector<double> z(mc); for (int i = 0; i < mc; ++i) { z[i] = k * x[i] + y[i]; }
        la::Vector<double> Az(mr), Ay(mr); go(z, Az); go(y, Ay);
        for (int i = 0; i < mr; ++i) { CHECK(Az[i] == k * first[i] + Ay[i], name << w << " is not linear: entry " << i << " is " << Az[i] << ", expected " << k * first[i] + Ay[i]); }
        la::Vector<double> zero(mc, 0.0), Z(mr, 3.0); go(zero, Z); for (int i = 0; i < mr; ++i) { CHECK(Z[i] == 0, name << w << " of zero is not zero"); }
        // the input as a window of a larger vector
        std::vector<double> wide(mc + 4, std::nan("")); std::copy(x.begin(), x.end(), wide.begin() + 2); la::Vector<double> W(mr); go(View(wide.data() + 2, mc), W);
        CHECK(std::equal(first.begin(), first.end(), W.begin()), name << w << " of a window differs");
    }
    // adjoint and inner product
    la::Vector<double> x = draw(s, cols), y = draw(s, rows); la::Vector<double> Ax = A.Mult(x), ATy = A.MultAT(y);
    ld l = 0, r = 0; for (int i = 0; i < rows; ++i) { l += (ld) Ax[i] * y[i]; } for (int j = 0; j < cols; ++j) { r += (ld) ATy[j] * x[j]; }
    CHECK(l == r, name << ": <A x, y> = " << (double) l << ", <x, A^T y> = " << (double) r);
    double ip = A.InnerProduct(x, y); CHECK((ld) ip == l, name << ": InnerProduct is " << ip << ", expected " << (double) l);
}

void apply_all(S& s, const la::Operator& A, const Ref& a, const std::string& name) { Ref at = a.T(); apply_all(s, A, a.r, a.c, [&](bool t, const std::vector<ld>& x) { return mulv(t ? at : a, x); }, name); }

template <typename T>
void types(S& s, int r, int c)
{
    Csr<T> m = csr<T>(s, r, c, INT); Ref a = m.ref(); Ops o; represent(s, o, m);
    s.note([&](std::ostream & z) { z << m.show(); }); s.nontrivial(m.d.size() > 1); s.label("zero dimension", r * c == 0); s.label("rectangular", r != c);
    for (auto& e : o.all) { s.say(e.first); apply_all(s, *e.second, a, e.first); }
}

void compose(S& s, int r, int k, int c)
{
    Csr<double> m1 = csr<double>(s, r, k, INT), m2 = csr<double>(s, k, c, INT), m3 = csr<double>(s, r, c, INT); Ops o1, o2, o3; represent(s, o1, m1); represent(s, o2, m2); represent(s, o3, m3);
    s.note([&](std::ostream & z) { z << "A=" << m1.show() << " B=" << m2.show() << " C=" << m3.show(); }); s.nontrivial(m1.d.size() + m2.d.size() + m3.d.size() > 3);
    auto pick = [&](Ops & o) -> const la::Operator& { return *o.all[s.i(0, (int) o.all.size() - 1)].second; };
    const la::Operator& A = pick(o1), &B = pick(o2), &C = pick(o3); double f = s.sgn_int(3);
    Product P(A, B); Sum Q(P, C, f); Ref p = mul(m1.ref(), m2.ref()), q(p), c3 = m3.ref(); for (size_t i = 0; i < q.v.size(); ++i) { q.v[i] += f * c3.v[i]; }
    apply_all(s, P, p, "product"); apply_all(s, Q, q, "sum of a product and an operator");
    la::BlockOperator G({0, r, 2 * r}, {0, c}); G.SetBlock(0, 0, P); G.SetBlock(1, 0, Q); Ref g(2 * r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { g(i, j) = p(i, j); g(r + i, j) = q(i, j); }
    apply_all(s, G, g, "block operator of compositions");
    Forward F(C); la::Vector<double> x = vec<double>(s, c, INT), y(r, 1.0), z(c, 9.0);
    expect_vec_exact(F.Mult(x), mulv(c3, ldv(x)), "operator without a transpose");
    const la::Operator& f0 = F; bool threw = false; try { f0.MultAT(y, static_cast<View&>(z)); } catch (const std::runtime_error&) { threw = true; }
    CHECK(threw, "MultAT of an operator that does not define it must throw");
    threw = false; try { f0.MultAT(y, z); } catch (const std::runtime_error&) { threw = true; } CHECK(threw, "MultAT of an operator that does not define it must throw");
    // sizes of lists of matrices
    std::vector<la::DenseMatrix> ds; std::vector<la::SparseMatrix<double>> ss; int sr = 0, sc = 0; for (int i = s.i(0, 4); i > 0; --i) { int u = s.i(0, 5), v = s.i(0, 5); ds.push_back(la::DenseMatrix(u, v)); ss.push_back(la::SparseMatrix<double>(u, v)); sr += u; sc += v; }
    CHECK(la::SumRows(ds) == sr && la::SumCols(ds) == sc && la::SumRows(ss) == sr && la::SumCols(ss) == sc, "SumRows/SumCols are wrong");
}

void real(S& s, int r, int c)
{
    Csr<double> m = csr<double>(s, r, c, REAL); Ref a = m.ref(), b = a.abs(); Ops o; represent(s, o, m);
    s.note([&](std::ostream & z) { z << m.show(); }); s.nontrivial(m.d.size() > 1);
    la::Vector<double> x = vec<double>(s, c, REAL), y = vec<double>(s, r, REAL); double f = 4 * fac(std::max(r, c));
    auto wx = mulv(a, ldv(x)), mx = mulv(b, absv(ldv(x))), wy = mulv(a.T(), ldv(y)), my = mulv(b.T(), absv(ldv(y)));
    for (size_t i = 0; i < mx.size(); ++i) { mx[i] += 4; } for (size_t i = 0; i < my.size(); ++i) { my[i] += 4; }   // entries added in two parts
    ld ip = 0, mag = 1; for (int i = 0; i < r; ++i) { ip += wx[i] * y[i]; mag += 2 * mx[i] * std::fabs((ld) y[i]); }
    for (auto& e : o.all)
    {
        if (e.first == "COO" || e.first == "LIL") { ld big = 1; for (int j = 0; j < c; ++j) { big = std::max(big, std::fabs((ld) x[j])); } ld bigy = 1; for (int i = 0; i < r; ++i) { bigy = std::max(bigy, std::fabs((ld) y[i])); } auto nx = mx; auto ny = my; for (auto& q : nx) { q += 3 * c * big; } for (auto& q : ny) { q += 3 * r * bigy; } expect_vec(e.second->Mult(x), wx, nx, f, e.first.c_str()); expect_vec(e.second->MultAT(y), wy, ny, f, e.first.c_str()); continue; }
        expect_vec(e.second->Mult(x), wx, mx, f, e.first.c_str()); expect_vec(e.second->MultAT(y), wy, my, f, e.first.c_str());
        CHECK(std::fabs(e.second->InnerProduct(x, y) - ip) <= f * EPS * mag * 4 + 1e-300L, e.first << ": InnerProduct is " << e.second->InnerProduct(x, y) << ", expected " << (double) ip);
    }
}
}

LAW(all_types, 15000, 200000, "at least two stored entries") { types<double>(s, dim(s, 7, 25), dim(s, 7, 25)); }
LAW(all_types_int, 6000, 60000, "at least two stored entries") { types<int>(s, dim(s, 7, 25), dim(s, 7, 25)); }
LAW(real_values, 15000, 150000, "at least two stored entries") { real(s, dim(s, 7, 25), dim(s, 7, 25)); }
LAW(compositions, 8000, 80000, "at least four stored entries") { compose(s, dim(s, 6, 15), dim(s, 6, 15), dim(s, 6, 15)); }
LAW(large, 150, 1500, "at least two stored entries") { types<double>(s, s.i(30, 120), s.i(30, 120)); }
LAW(long_shapes, 150, 1500, "at least two stored entries") { Shape q = big_shape(s, 150, 1500); types<double>(s, q.r, q.c); }
LAW(huge, 60, 800, "at least two stored entries")
{
    Shape q = huge::shape(s); Csr<double> m = huge::csr<double>(s, q.r, q.c, true); huge::Map e = huge::entries(m), t = huge::transposed(e); Ops o; represent(s, o, m, true);
    s.note([&](std::ostream & z) { z << q.r << "x" << q.c << " " << huge::show(e); }); s.nontrivial(m.d.size() > 1);
    for (auto& a : o.all) { s.say(a.first); apply_all(s, *a.second, q.r, q.c, [&](bool tr, const std::vector<ld>& x) { return tr ? huge::times(t, q.c, x) : huge::times(e, q.r, x); }, a.first); }
}

PBT_MAIN
