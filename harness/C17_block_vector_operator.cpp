// C17: block vectors and block operators act blockwise at their offsets
// technique: model-based property testing: histories over a pool of block vectors against plain arrays, random grids of mixed operators against one reference matrix
#include "huge.hpp"
using pbt::S;

namespace
{
std::vector<int> offsets(S& s, int blocks, int big)
{
    std::vector<int> o(1, 0); for (int i = 0; i < blocks; ++i) { o.push_back(o.back() + (s.chance(0.15) ? 0 : s.size(0, big))); }
    return o;
}

template <typename T>
struct Vec
{
    std::vector<int> off; std::vector<T> v;
    int blocks() const { return (int) off.size() - 1; }
};

template <typename T>
void verify(la::BlockVector<T>& b, const Vec<T>& m, const std::string& when)
{
    CHECK(b.size() == (int) m.v.size() && b.GetOffsets() == m.off, when << ": size " << b.size() << " and offsets " << show(b.GetOffsets()) << ", expected " << m.v.size() << " and " << show(m.off));
    for (int i = 0; i < b.size(); ++i) { CHECK(b[i] == m.v[i], when << ": entry " << i << " is " << b[i] << ", expected " << m.v[i]); }
    const la::BlockVector<T>& c = b;
    for (int k = 0; k < m.blocks(); ++k)
    {
        la::VectorView<T> w = b.GetBlock(k); const la::VectorView<T>& cw = c.GetBlock(k);
        int n = m.off[k + 1] - m.off[k];
        CHECK(w.size() == n && cw.size() == n, when << ": block " << k << " has size " << w.size() << "/" << cw.size() << ", expected " << n);
        for (int i = 0; i < n; ++i) { CHECK(w[i] == m.v[m.off[k] + i] && cw[i] == m.v[m.off[k] + i], when << ": block " << k << " entry " << i << " is " << w[i] << "/" << cw[i] << ", expected " << m.v[m.off[k] + i]); }
    }
}

template <typename T>
void vectors(S& s, int steps, int blocks, int big)
{
    struct Obj { la::BlockVector<T> b; Vec<T> m; };
    std::vector<std::unique_ptr<Obj>> pool;
    auto fresh = [&]()
    {
        std::unique_ptr<Obj> o(new Obj); Vec<T>& m = o->m; m.off = {0};
        switch (s.weighted({1, 3, 3, 3}))
        {
            case 0: s.label("default constructed"); break;
            case 1: m.off = offsets(s, s.size(0, blocks), big); m.v.assign(m.off.back(), T(0)); o->b = la::BlockVector<T>(m.off); break;
            case 2: { m.off = offsets(s, s.size(0, blocks), big); T x = value<T>(s, INT); m.v.assign(m.off.back(), x); o->b = la::BlockVector<T>(m.off, x); break; }
            default:
            {
                m.off = offsets(s, s.size(0, blocks), big); la::Vector<T> d = vec<T>(s, m.off.back(), INT); m.v.assign(d.begin(), d.end());
                o->b = la::BlockVector<T>(d, m.off); for (auto& x : d) { x = T(99); } break;   // a copy, not a window onto d
            }
        }
        pool.push_back(std::move(o));
    };
    fresh(); fresh();
    bool wrote = false, copied = false;
    for (int q = 0; q < steps; ++q)
    {
        int k = s.i(0, (int) pool.size() - 1), l = s.i(0, (int) pool.size() - 1); Obj& o = *pool[k]; Obj& p = *pool[l]; Vec<T>& m = o.m;
        int blk = m.blocks() > 0 ? s.i(0, m.blocks() - 1) : -1, lo = blk < 0 ? 0 : m.off[blk], n = blk < 0 ? 0 : m.off[blk + 1] - lo;
        std::string what;
        switch (s.weighted({4, 4, 3, 3, 2, 2, 2, 2, 2, 1, 2, 2}))
        {
            case 0: what = "write through a block"; if (n > 0) { int i = s.i(0, n - 1); T x = value<T>(s, INT); la::VectorView<T> w = o.b.GetBlock(blk); w[i] = x; m.v[lo + i] = x; wrote = true; } break;
            case 1: what = "write through the whole"; if (o.b.size() > 0) { int i = s.i(0, o.b.size() - 1); T x = value<T>(s, INT); o.b[i] = x; m.v[i] = x; wrote = true; } break;
            case 2: what = "fill a block"; if (blk >= 0) { T x = value<T>(s, INT); o.b.GetBlock(blk) = x; std::fill(m.v.begin() + lo, m.v.begin() + lo + n, x); wrote = true; } break;
            case 3:
            {
                what = "assign a vector to a block"; if (blk < 0) { break; }
                la::Vector<T> d = vec<T>(s, n, INT); la::VectorView<T> w = o.b.GetBlock(blk); w = d; std::copy(d.begin(), d.end(), m.v.begin() + lo); wrote = true; break;
            }
            case 4:
            {
                what = "assign a block to a block"; if (blk < 0) { break; }
                for (int t = 0; t < p.m.blocks(); ++t)
                {
                    if (p.m.off[t + 1] - p.m.off[t] != n) { continue; }
                    o.b.GetBlock(blk) = p.b.GetBlock(t); for (int i = 0; i < n; ++i) { m.v[lo + i] = p.m.v[p.m.off[t] + i]; }
                    wrote = true; break;
                }
                break;
            }
            case 5: what = "scale a block"; if (blk >= 0) { la::VectorView<T> w = o.b.GetBlock(blk); w += w; for (int i = 0; i < n; ++i) { m.v[lo + i] += m.v[lo + i]; if (std::fabs((double) m.v[lo + i]) > 1e6) { m.v[lo + i] = 1; w[i] = 1; } } wrote = true; } break;
            case 6: { what = "copy construction"; std::unique_ptr<Obj> c(new Obj{la::BlockVector<T>(o.b), m}); copied = true; if (pool.size() < 5) { pool.push_back(std::move(c)); } else { *pool[l] = *c; } break; }
            case 7: what = "assignment"; p.b = o.b; { Vec<T> c = m; p.m = c; } copied = true; break;
            case 8: { what = "move"; la::BlockVector<T> t(std::move(o.b)); verify(t, m, "the moved-to object"); o.b = std::move(t); break; }
            case 9: what = "swap"; if (&p != &o) { swap(p.b, o.b); std::swap(p.m, m); } break;
            case 10: what = "fill the whole"; { T x = value<T>(s, INT); o.b = x; std::fill(m.v.begin(), m.v.end(), x); } break;
            default: { what = "assign a vector to the whole"; la::Vector<T> d = vec<T>(s, o.b.size(), INT); const la::VectorView<T>& view = d; o.b = view; m.v.assign(d.begin(), d.end()); for (auto& x : d) { x = T(98); } break; }
        }
        s.label(what); s.note([&](std::ostream & z) { z << what << " (object " << k << ", block " << blk << "); "; });
        for (auto& e : pool) { verify(e->b, e->m, what); }
    }
    s.nontrivial(wrote && copied);
}

// an operator defined by the user, with or without a transpose
struct Custom : public la::Operator
{
    Ref a; bool has_t; Custom(const Ref& m, bool t) : la::Operator(m.r, m.c), a(m), has_t(t) { }
    void Mult(const la::VectorView<double>& x, la::VectorView<double> y) const override { for (int i = 0; i < a.r; ++i) { double t = 0; for (int j = 0; j < a.c; ++j) { t += (double) a(i, j) * x[j]; } y[i] = t; } }
    void MultAT(const la::VectorView<double>& x, la::VectorView<double> y) const override
    {
        if (!has_t) { la::Operator::MultAT(x, y); return; }
        for (int j = 0; j < a.c; ++j) { double t = 0; for (int i = 0; i < a.r; ++i) { t += (double) a(i, j) * x[i]; } y[j] = t; }
    }
    using la::Operator::Mult; using la::Operator::MultAT;
};

struct Grid { std::vector<std::unique_ptr<la::Operator>> own; };

std::pair<const la::Operator*, Ref> any_operator(S& s, Grid& g, int r, int c, int depth, bool with_t)
{
    Csr<double> m = csr<double>(s, r, c, INT); Ref a = m.ref(); la::Operator* op = nullptr;
    switch (s.weighted({3, 3, 2, 2, 2, 2, 1, depth > 0 ? 2 : 0}))
    {
        case 0: { la::DenseMatrix* d = new la::DenseMatrix(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { (*d)(i, j) = (double) a(i, j); } op = d; s.label("dense block"); break; }
        case 1: op = new la::SparseMatrix<double>(m.mat()); s.label("sparse block"); break;
        case 2: { auto* q = new la::CooMatrix<double>(r, c); for (int i = 0; i < r; ++i) for (int k = m.p[i]; k < m.p[i + 1]; ++k) { q->Add(i, m.x[k], m.d[k]); } op = q; s.label("COO block"); break; }
        case 3: { auto* q = new la::LilMatrix<double>(r, c); for (int i = 0; i < r; ++i) for (int k = m.p[i]; k < m.p[i + 1]; ++k) { q->Add(i, m.x[k], m.d[k]); } op = q; s.label("LIL block"); break; }
        case 4: { auto* q = new la::BlockMatrix<double>(std::vector<int> {0, r}, std::vector<int> {0, c}); q->SetBlock(0, 0, m.mat()); op = q; s.label("block matrix block"); break; }
        case 5: op = new Custom(a, with_t || s.chance(0.5)); s.label("user-defined block"); break;
        case 6: { Csr<int> mi = csr<int>(s, r, c, INT); a = mi.ref(); op = new la::SparseMatrix<int>(mi.mat()); s.label("sparse int block"); break; }
        default:
        {
            std::vector<int> ro {0, r}, co {0, c}; for (int k = s.u(2); k > 0; --k) { ro.push_back(s.i(0, r)); } for (int k = s.u(2); k > 0; --k) { co.push_back(s.i(0, c)); } std::sort(ro.begin(), ro.end()); std::sort(co.begin(), co.end());
            auto* q = new la::BlockOperator(ro, co); a = Ref(r, c); s.label("nested with several blocks", ro.size() > 2 || co.size() > 2);
            for (int i = 0; i + 1 < (int) ro.size(); ++i) for (int j = 0; j + 1 < (int) co.size(); ++j)
            {
                if (!s.chance(0.8)) { continue; }
                auto sub = any_operator(s, g, ro[i + 1] - ro[i], co[j + 1] - co[j], depth - 1, with_t); q->SetBlock(i, j, *sub.first);
                for (int x = 0; x < sub.second.r; ++x) for (int y = 0; y < sub.second.c; ++y) { a(ro[i] + x, co[j] + y) = sub.second(x, y); }
            }
            op = q; s.label("nested block operator"); break;
        }
    }
    g.own.emplace_back(op); return {op, a};
}

void check_op(S& s, const la::BlockOperator& B, const std::vector<int>& ro, const std::vector<int>& co, const Ref& a, const std::map<std::pair<int, int>, std::pair<const la::Operator*, Ref>>& set, bool can_t, const char* when)
{
    CHECK(B.GetRowOffsets() == ro && B.GetColOffsets() == co && B.Rows() == a.r && B.Cols() == a.c, when << ": sizes or offsets changed");
    for (int i = 0; i + 1 < (int) ro.size(); ++i) for (int j = 0; j + 1 < (int) co.size(); ++j)
    { auto it = set.find({i, j}); CHECK(B.GetBlock(i, j) == (it == set.end() ? nullptr : it->second.first), when << ": GetBlock(" << i << "," << j << ") is not the operator that was set"); }
    la::Vector<double> x = vec<double>(s, a.c, INT), y = vec<double>(s, a.r, INT), x0(x), y0(y);
    std::vector<double> o(a.r + 2, 77), p(a.c + 2, 77);
    for (int i = 1; i + 1 < (int) o.size(); ++i) { o[i] = std::nan(""); } for (int i = 1; i + 1 < (int) p.size(); ++i) { p[i] = std::nan(""); }
    B.Mult(x, la::VectorView<double>(o.data() + 1, a.r));
    expect_vec_exact(std::vector<double>(o.begin() + 1, o.end() - 1), mulv(a, ldv(x)), when);
    const la::Operator& op = B;
    if (can_t)
    {
        B.MultAT(y, la::VectorView<double>(p.data() + 1, a.c));
        expect_vec_exact(std::vector<double>(p.begin() + 1, p.end() - 1), mulv(a.T(), ldv(y)), when);
        CHECK(p[0] == 77 && p.back() == 77, when << ": written outside of the output");
        la::Vector<double> q = op.MultAT(y); expect_vec_exact(q, mulv(a.T(), ldv(y)), when);
    }
    la::Vector<double> r = op.Mult(x); expect_vec_exact(r, mulv(a, ldv(x)), when);
    CHECK(o[0] == 77 && o.back() == 77, when << ": written outside of the output");
    CHECK(std::equal(x.begin(), x.end(), x0.begin()) && std::equal(y.begin(), y.end(), y0.begin()), when << ": the input was modified");
}

void operators(S& s, int blocks, int big, int applications)
{
    Grid g; bool with_t = s.chance(0.85);
    std::vector<int> ro = offsets(s, s.size(0, blocks), big), co = offsets(s, s.size(0, blocks), big);
    std::unique_ptr<la::BlockOperator> B;
    if (s.chance(0.05)) { B.reset(new la::BlockOperator()); ro = co = {0}; s.label("default constructed"); }
    else if (s.chance(0.3)) { co = ro; B.reset(new la::BlockOperator(ro)); }
    else { B.reset(new la::BlockOperator(ro, co)); }
    int nr = (int) ro.size() - 1, nc = (int) co.size() - 1;
    std::map<std::pair<int, int>, std::pair<const la::Operator*, Ref>> set;
    std::vector<std::pair<const la::Operator*, Ref>> pool;
    int applied = 0;
    for (int q = 0; q < applications; ++q)
    {
        int changes = nr * nc == 0 ? 0 : s.i(0, nr * nc);
        for (int t = 0; t < changes; ++t)
        {
            int i = s.i(0, nr - 1), j = s.i(0, nc - 1); std::pair<const la::Operator*, Ref> e; bool reuse = false;
            if (s.chance(0.3)) { for (auto& c : pool) { if (c.second.r == ro[i + 1] - ro[i] && c.second.c == co[j + 1] - co[j]) { e = c; reuse = true; s.label("one operator in two blocks"); break; } } }
            if (!reuse) { e = any_operator(s, g, ro[i + 1] - ro[i], co[j + 1] - co[j], 2, with_t); pool.push_back(e); }
            B->SetBlock(i, j, *e.first); s.label("block replaced", set.count({i, j}) > 0); set[ {i, j}] = e;
        }
        Ref a(ro.back(), co.back()); bool can_t = true;
        for (auto& e : set)
        {
            const Ref& b = e.second.second; for (int i = 0; i < b.r; ++i) for (int j = 0; j < b.c; ++j) { a(ro[e.first.first] + i, co[e.first.second] + j) = b(i, j); }
        }
        if (!with_t) { for (auto& o : g.own) { if (auto* c = dynamic_cast<Custom*>(o.get())) { can_t = can_t && c->has_t; } } }
        s.note([&](std::ostream & o) { o << "row offsets " << show(ro) << " column offsets " << show(co) << " " << show(a) << "; "; });
        check_op(s, *B, ro, co, a, set, can_t, "block operator"); ++applied;
        if (!can_t)   // the transpose may be refused by a block; that must not damage anything
        {
            la::Vector<double> y(a.r, 1.0), z(a.c); bool threw = false; try { B->MultAT(y, static_cast<la::VectorView<double>&>(z)); } catch (const std::runtime_error&) { threw = true; s.label("MultAT refused by a block"); }
            if (!threw) { s.label("operator without transpose not placed"); } check_op(s, *B, ro, co, a, set, false, "after a refused transpose");
        }
        switch (s.u(5))
        {
            case 0: { la::BlockOperator C(*B); check_op(s, C, ro, co, a, set, can_t, "copy"); check_op(s, *B, ro, co, a, set, can_t, "copied object"); if (s.chance(0.5)) { B.reset(new la::BlockOperator(C)); } s.label("copied"); break; }
            case 1: { std::unique_ptr<la::BlockOperator> C(new la::BlockOperator(std::move(*B))); B = std::move(C); check_op(s, *B, ro, co, a, set, can_t, "moved object"); s.label("moved"); break; }
            case 2: { std::unique_ptr<la::BlockOperator> C(new la::BlockOperator(std::vector<int> {0, 1})); swap(*B, *C); check_op(s, *C, ro, co, a, set, can_t, "swapped object"); B = std::move(C); s.label("swapped"); break; }
            default: break;
        }
    }
    s.label("empty block", std::adjacent_find(ro.begin(), ro.end()) != ro.end() || std::adjacent_find(co.begin(), co.end()) != co.end());
    s.label("unset blocks", (int) set.size() < nr * nc); s.nontrivial(set.size() > 1 && applied > 1);
}
}

LAW(vectors_double, 25000, 300000, "a write and a copy or assignment") { vectors<double>(s, s.size(2, 14), 5, 6); }
LAW(vectors_int, 15000, 150000, "a write and a copy or assignment") { vectors<int>(s, s.size(2, 14), 5, 6); }
LAW(operators, 25000, 300000, "at least two blocks set, applied at least twice") { operators(s, 4, 5, s.size(1, 4)); }
LAW(operators_large, 400, 5000, "at least two blocks set, applied at least twice") { operators(s, 6, 30, s.i(2, 5)); }
LAW(vectors_long, 400, 5000, "a write and a copy or assignment") { vectors<double>(s, s.i(3, 12), 4, 600); }
LAW(vectors_many, 400, 5000, "a write and a copy or assignment") { vectors<double>(s, s.i(3, 12), 90, 4); }
LAW(operators_long, 60, 800, "at least two blocks set, applied at least twice") { operators(s, 2, 200, s.i(2, 3)); }
LAW(operators_many, 150, 2000, "at least two blocks set, applied at least twice") { operators(s, 18, 3, s.i(2, 3)); }

LAW(vectors_huge, 100, 1200, "a write and a copy or assignment") { if (s.chance(0.6)) { vectors<double>(s, s.i(3, 8), 3, 70000); } else { vectors<int>(s, s.i(3, 8), 3, 70000); } }
LAW(operators_huge, 60, 800, "at least two blocks set")
{
    auto offs = [&]() { std::vector<int> o(1, 0); int n = s.i(1, 3), big = s.u(n - 1); for (int i = 0; i < n; ++i) { o.push_back(o.back() + (i == big ? huge::extent(s) : s.weighted({2, 1}) == 0 ? s.i(0, 4) : huge::extent(s))); } return o; };
    std::vector<int> ro = offs(), co = offs(); int nr = (int) ro.size() - 1, nc = (int) co.size() - 1, R = ro.back(), C = co.back(); la::BlockOperator B(ro, co);
    std::vector<std::unique_ptr<la::Operator>> own; std::map<std::pair<int, int>, huge::Map> set; int steps = s.i(1, 5);
    for (int q = 0; q < steps; ++q)
    {
        int i = s.u(nr - 1), j = s.u(nc - 1), r = ro[i + 1] - ro[i], c = co[j + 1] - co[j]; Csr<double> a = huge::csr<double>(s, r, c, true); huge::Map e = huge::entries(a);
        switch (s.weighted({3, 1, 1}))
        {
            case 0: own.emplace_back(new la::SparseMatrix<double>(a.mat())); break;
            case 1: { auto* m = new la::CooMatrix<double>(r, c); own.emplace_back(m); for (auto& v : e) { m->Add(v.first.first, v.first.second, (double) v.second); } break; }
            default: { auto* m = new la::LilMatrix<double>(r, c); own.emplace_back(m); for (auto& v : e) { m->Add(v.first.first, v.first.second, (double) v.second); } }
        }
        B.SetBlock(i, j, *own.back()); set[ {i, j}] = e;
        if (q + 1 < steps && s.chance(0.7)) { continue; }
        huge::Map m; for (auto& b : set) { for (auto& v : b.second) { m[ {ro[b.first.first] + v.first.first, co[b.first.second] + v.first.second}] = v.second; } }
        s.note([&](std::ostream & o) { o << "offsets " << show(ro) << " x " << show(co) << " " << huge::show(m) << "; "; });
        la::Vector<double> x = huge::vec(s, C), y = huge::vec(s, R), u(R, std::nan("")), v(C, std::nan("")); const la::Operator& op = B;
        op.Mult(x, u); huge::same(u, huge::times(m, R, ldv(x)), "Mult"); op.MultAT(y, v); huge::same(v, huge::times(huge::transposed(m), C, ldv(y)), "MultAT");
    }
    s.nontrivial(set.size() > 1);
}

PBT_MAIN
