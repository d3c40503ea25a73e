// C16: a block matrix behaves as the matrix combined from its blocks
// technique: model-based property testing: random offsets and histories of setting, replacing, copying and transposing against one reference matrix holding every block at its offset
#include "huge.hpp"
using pbt::S;

namespace
{
std::vector<int> offsets(S& s, int blocks, int big)
{
    std::vector<int> o(1, 0); for (int i = 0; i < blocks; ++i) { o.push_back(o.back() + (s.chance(0.15) ? 0 : s.size(0, big))); }
    return o;
}

template <typename T>
struct Model
{
    std::vector<int> ro, co; std::map<std::pair<int, int>, Csr<T>> b;
    int rows() const { return ro.back(); } int cols() const { return co.back(); }
    int nr() const { return (int) ro.size() - 1; } int nc() const { return (int) co.size() - 1; }
    Ref ref() const
    {
        Ref o(rows(), cols());
        for (auto& e : b) { const Csr<T>& m = e.second; for (int i = 0; i < m.r; ++i) for (int k = m.p[i]; k < m.p[i + 1]; ++k) { o(ro[e.first.first] + i, co[e.first.second] + m.x[k]) += (ld) m.d[k]; } }
        return o;
    }
    size_t nnz() const { size_t n = 0; for (auto& e : b) { n += e.second.d.size(); } return n; }
    Model<T> transposed() const
    {
        Model<T> t; t.ro = co; t.co = ro;
        for (auto& e : b)
        {
            const Csr<T>& m = e.second; Csr<T> n; n.r = m.c; n.c = m.r; n.p.assign(n.r + 1, 0);
            std::vector<std::vector<std::pair<int, T>>> row(n.r); for (int i = 0; i < m.r; ++i) for (int k = m.p[i]; k < m.p[i + 1]; ++k) { row[m.x[k]].push_back({i, m.d[k]}); }
            for (int i = 0; i < n.r; ++i) { for (auto& q : row[i]) { n.x.push_back(q.first); n.d.push_back(q.second); } n.p[i + 1] = (int) n.x.size(); }
            t.b[ {e.first.second, e.first.first}] = n;
        }
        return t;
    }
    std::string show() const { std::ostringstream o; o << "offsets " << ::show(ro) << " x " << ::show(co); for (auto& e : b) { o << " block(" << e.first.first << "," << e.first.second << ")=" << e.second.show(); } return o.str(); }
};

template <typename T>
void verify(S& s, const la::BlockMatrix<T>& B, const Model<T>& m, const char* when)
{
    s.say(when);
    CHECK(B.GetRowOffsets() == m.ro && B.GetColOffsets() == m.co, when << ": the offsets are not the given ones");
    CHECK(B.Rows() == m.rows() && B.Cols() == m.cols(), when << ": the size is " << B.Rows() << "x" << B.Cols() << ", expected " << m.rows() << "x" << m.cols());
    Ref a = m.ref();
    for (int i = 0; i < m.nr(); ++i) for (int j = 0; j < m.nc(); ++j)
    {
        const la::SparseMatrix<T>& blk = B.GetBlock(i, j); auto it = m.b.find({i, j});
        if (it == m.b.end()) { CHECK(blk.nnz() == 0, when << ": unset block (" << i << "," << j << ") has entries"); continue; }
        CHECK(blk.Rows() == it->second.r && blk.Cols() == it->second.c, when << ": block (" << i << "," << j << ") is " << blk.Rows() << "x" << blk.Cols());
        expect_sparse_exact(blk, it->second.ref(), "GetBlock");
    }
    double f = fac(std::max(a.r, a.c));
    la::Vector<double> x = vec<double>(s, a.c, s.chance(0.5) ? REAL : INT), y = vec<double>(s, a.r, s.chance(0.5) ? REAL : INT), x0(x), y0(y);
    auto wx = mulv(a, ldv(x)), mx = mulv(a.abs(), absv(ldv(x))), wy = mulv(a.T(), ldv(y)), my = mulv(a.T().abs(), absv(ldv(y)));
    la::Vector<double> ox(a.r, std::nan("")), oy(a.c, std::nan(""));
    B.Mult(x, static_cast<la::VectorView<double>&>(ox)); B.MultAT(y, static_cast<la::VectorView<double>&>(oy));
    expect_vec(ox, wx, mx, f, when); expect_vec(oy, wy, my, f, when);
    CHECK(std::equal(x.begin(), x.end(), x0.begin()) && std::equal(y.begin(), y.end(), y0.begin()), when << ": the input was modified");
    const la::Operator& op = B; la::Vector<double> px = op.Mult(x), py = op.MultAT(y);
    CHECK(std::equal(px.begin(), px.end(), ox.begin()) && px.size() == a.r && std::equal(py.begin(), py.end(), oy.begin()) && py.size() == a.c, when << ": the overloads disagree");
    la::SparseMatrix<T> c = B.Combine();
    expect_csr(c, when); expect_sparse_exact(c, a, when);
    CHECK(c.nnz() == (int) m.nnz(), when << ": Combine stores " << c.nnz() << " entries, the blocks " << m.nnz());
    if (a.r * a.c <= 3000)
    {
        std::ostringstream got, want; B.PrintDense("label", got); c.PrintDense("label", want);
        CHECK(got.str() == want.str(), when << ": PrintDense prints\n" << got.str() << "the combined matrix prints\n" << want.str());
        std::ostringstream p; B.Print("the label", p); int heads = 0; for (size_t q = 0; (q = p.str().find("block (", q)) != std::string::npos; ++q) { ++heads; }
        CHECK(heads == m.nr() * m.nc() && p.str().compare(0, 10, "the label\n") == 0, when << ": Print shows " << heads << " blocks: " << p.str());
    }
}

template <typename T>
Csr<T> block(S& s, const Model<T>& m, int i, int j) { return csr<T>(s, m.ro[i + 1] - m.ro[i], m.co[j + 1] - m.co[j], s.chance(0.4) ? REAL : INT); }

template <typename T>
void history(S& s, int steps, int blocks, int big)
{
    struct Obj { la::BlockMatrix<T> b; Model<T> m; };
    std::vector<std::unique_ptr<Obj>> pool;
    auto fresh = [&]()
    {
        std::unique_ptr<Obj> o(new Obj); Model<T>& m = o->m;
        if (s.chance(0.04)) { m.ro = m.co = {0}; o->b = la::BlockMatrix<T>(); s.label("default constructed"); }
        else if (s.chance(0.3)) { m.ro = m.co = offsets(s, s.size(0, blocks), big); o->b = la::BlockMatrix<T>(m.ro); }
        else { m.ro = offsets(s, s.size(0, blocks), big); m.co = offsets(s, s.size(0, blocks), big); o->b = la::BlockMatrix<T>(m.ro, m.co); }
        pool.push_back(std::move(o));
    };
    fresh();
    int set = 0, replaced = 0, transposes = 0;
    for (int q = 0; q < steps; ++q)
    {
        int k = s.i(0, (int) pool.size() - 1); Obj& o = *pool[k]; Model<T>& m = o.m;
        const char* what = "";
        switch (s.weighted({10, 1, 2, 1, 1, 2, 1}))
        {
            case 0:
            {
                what = "SetBlock"; if (m.nr() == 0 || m.nc() == 0) { break; }
                int i = s.i(0, m.nr() - 1), j = s.i(0, m.nc() - 1); Csr<T> c = block(s, m, i, j); replaced += (int) m.b.count({i, j});
                la::SparseMatrix<T> mat = c.mat(); if (s.chance(0.5)) { o.b.SetBlock(i, j, mat); CHECK(same_csr(mat, c), "SetBlock changed its argument"); } else { o.b.SetBlock(i, j, std::move(mat)); }
                m.b[ {i, j}] = c; ++set; break;
            }
            case 1: what = "new"; if (pool.size() < 4) { fresh(); } break;
            case 2:
            {
                what = "Transpose"; ++transposes; la::BlockMatrix<T> t = o.b.Transpose(); Model<T> mt = m.transposed();
                s.note([&](std::ostream & p) { p << "Transpose of " << m.show() << "; "; });
                verify(s, t, mt, "Transpose"); verify(s, t.Transpose(), m, "Transpose twice");
                if (s.chance(0.5)) { o.b = t; m = mt; }
                break;
            }
            case 3: { what = "copy construction"; if (pool.size() < 4) { std::unique_ptr<Obj> n(new Obj{la::BlockMatrix<T>(o.b), m}); pool.push_back(std::move(n)); } break; }
            case 4: { what = "assignment"; Obj& p = *pool[s.i(0, (int) pool.size() - 1)]; p.b = o.b; Model<T> c = m; p.m = c; break; }
            case 5: { what = "swap"; Obj& p = *pool[s.i(0, (int) pool.size() - 1)]; if (&p != &o) { swap(p.b, o.b); std::swap(p.m, m); } break; }
            default: { what = "move"; la::BlockMatrix<T> t(std::move(o.b)); o.b = std::move(t); break; }
        }
        s.label(what);
        if (s.chance(0.5) || q + 1 == steps)
        {
            for (auto& p : pool) { s.note([&](std::ostream & z) { z << "after " << what << ": " << p->m.show() << "; "; }); verify(s, p->b, p->m, what); }
        }
    }
    bool partial = false, zero = false;
    for (auto& p : pool)
    {
        partial = partial || (p->m.b.size() > 0 && (int) p->m.b.size() < p->m.nr() * p->m.nc());
        for (size_t i = 1; i < p->m.ro.size(); ++i) { zero = zero || p->m.ro[i] == p->m.ro[i - 1]; } for (size_t i = 1; i < p->m.co.size(); ++i) { zero = zero || p->m.co[i] == p->m.co[i - 1]; }
    }
    s.label("unset blocks", partial); s.label("zero-sized block", zero); s.label("block replaced", replaced > 0); s.nontrivial(set > 1);
}
}

LAW(block_double, 20000, 250000, "at least two blocks set") { history<double>(s, s.size(1, 10), 4, 5); }
LAW(block_int, 8000, 100000, "at least two blocks set") { history<int>(s, s.size(1, 10), 4, 5); }
LAW(block_large, 400, 5000, "at least two blocks set") { history<double>(s, s.i(3, 12), 6, 30); }
LAW(block_long, 60, 800, "at least two blocks set") { history<double>(s, s.i(3, 6), 2, 250); }
LAW(block_many, 200, 2500, "at least two blocks set") { history<double>(s, s.i(5, 25), 20, 3); }

// offsets and entry counts that 16 bits cannot hold, positions that 32 bits cannot number
namespace
{
std::vector<int> huge_offsets(S& s) { std::vector<int> o(1, 0); int n = s.i(1, 3), big = s.u(n - 1); for (int i = 0; i < n; ++i) { o.push_back(o.back() + (i == big ? huge::extent(s) : s.weighted({2, 1, 1}) == 0 ? s.i(1, 4) : s.chance(0.2) ? 0 : huge::extent(s))); } return o; }

template <typename T>
void huge_history(S& s)
{
    std::vector<int> ro = huge_offsets(s), co = s.chance(0.3) ? ro : huge_offsets(s); int nr = (int) ro.size() - 1, nc = (int) co.size() - 1, R = ro.back(), C = co.back();
    la::BlockMatrix<T> B = ro == co && s.chance(0.5) ? la::BlockMatrix<T>(ro) : la::BlockMatrix<T>(ro, co); std::map<std::pair<int, int>, Csr<T>> set; int steps = s.i(1, 5);
    for (int q = 0; q < steps; ++q)
    {
        int i = s.u(nr - 1), j = s.u(nc - 1); Csr<T> a = huge::csr<T>(s, ro[i + 1] - ro[i], co[j + 1] - co[j], true);
        la::SparseMatrix<T> m = a.mat(); if (s.chance(0.5)) { B.SetBlock(i, j, m); } else { B.SetBlock(i, j, std::move(m)); } set[ {i, j}] = a;
    }
    huge::Map m; size_t n = 0; for (auto& e : set) { n += e.second.d.size(); for (auto& v : huge::entries(e.second)) { m[ {ro[e.first.first] + v.first.first, co[e.first.second] + v.first.second}] = v.second; } }
    s.note([&](std::ostream & o) { o << "offsets " << ::show(ro) << " x " << ::show(co) << " " << huge::show(m); }); s.nontrivial(set.size() > 1);
    for (auto& e : set) { CHECK(same_csr(B.GetBlock(e.first.first, e.first.second), e.second), "block (" << e.first.first << "," << e.first.second << ") is not the one that was set"); }
    CHECK(B.Rows() == R && B.Cols() == C && B.GetRowOffsets() == ro && B.GetColOffsets() == co, "sizes or offsets");
    la::SparseMatrix<T> c = B.Combine(); huge::expect(c, R, C, m, "Combine"); CHECK(c.nnz() == (int) n, "Combine stores " << c.nnz() << " entries, the blocks " << n);
    la::BlockMatrix<T> t = B.Transpose(); CHECK(t.GetRowOffsets() == co && t.GetColOffsets() == ro, "offsets of the transpose"); huge::expect(t.Combine(), C, R, huge::transposed(m), "Transpose");
    la::Vector<double> x = huge::vec(s, C), y = huge::vec(s, R); const la::Operator& op = B; la::Vector<double> u(R, std::nan("")), v(C, std::nan(""));
    op.Mult(x, u); huge::same(u, huge::times(m, R, ldv(x)), "Mult"); op.MultAT(y, v); huge::same(v, huge::times(huge::transposed(m), C, ldv(y)), "MultAT"); huge::same(op.Mult(x), huge::times(m, R, ldv(x)), "Mult returning a vector");
    const la::Operator& ot = t; huge::same(ot.Mult(y), huge::times(huge::transposed(m), C, ldv(y)), "Mult with the transpose");
}
}
LAW(block_huge, 80, 1000, "at least two blocks set") { if (s.chance(0.7)) { huge_history<double>(s); } else { huge_history<int>(s); } }

PBT_MAIN
