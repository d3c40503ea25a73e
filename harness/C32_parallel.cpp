// C32: distributed matrices, vectors and solvers agree with their serial counterparts, for every distribution
// technique: model-based property testing with simulated processes: histories over distributed matrices and vectors on 1 to 6 ranks against one global reference, the ranks being fibres on a stand-in for MPI and Hypre
// note: MPI and Hypre are not installed: the module's own sources are compiled against a stand-in (harness/standin) that simulates the ranks deterministically and implements the part of Hypre it calls; what is decided is the module, not Hypre
// modules: parlinalgcpp
#include "gen.hpp"
#include <sys/mman.h>
#include <unistd.h>
#include "standin/standin.hpp"
#include "parlinalgcpp.hpp"
using pbt::S;

namespace
{
typedef std::vector<int> Starts;                               // first index of every rank, and the end
const MPI_Comm W = MPI_COMM_WORLD;

// the standard output goes to a file of its own meanwhile
struct Quiet
{
    int saved, fd;
    Quiet() { std::cout.flush(); fflush(stdout); saved = dup(1); fd = memfd_create("stdout", 0); dup2(fd, 1); }
    std::string text() { std::cout.flush(); fflush(stdout); std::string s(200, 0); ssize_t n = pread(fd, &s[0], s.size(), 0); s.resize(n < 0 ? 0 : n); return s; }
    ~Quiet() { std::cout.flush(); fflush(stdout); dup2(saved, 1); close(saved); close(fd); }
};
void world(int P, const std::function<void(int)>& body)
{
    standin::live().clear(); Quiet quiet;
    try { standin::run(P, body); } catch (standin::Broken& e) { pbt::fail(std::string("the distributed program cannot go on: ") + e.what()); }
    CHECK(standin::live().empty(), standin::live().size() << " Hypre solvers were never destroyed");
    std::string text = quiet.text(); CHECK(text.empty(), "the module printed something of its own: " << text);
}
int ranks(S& s) { int P = s.weighted({2, 4, 4, 2, 1, 1}) + 1; s.label(std::to_string(P) + (P == 1 ? " rank" : " ranks")); return P; }
// every rank owns something
Starts partition(S& s, int P, int big)
{
    Starts o(1, 0); for (int r = 0; r < P; ++r) { o.push_back(o.back() + 1 + s.size(0, big)); } return o;
}
std::vector<HYPRE_Int> mine(const Starts& p, int r) { return {p[r], p[r + 1], p.back()}; }
int owner(const Starts& p, int g) { int r = 0; while (g >= p[r + 1]) { ++r; } return r; }

struct Blocks { la::SparseMatrix<double> diag, offd; std::vector<HYPRE_Int> map; };
// the blocks of one rank; extra columns of the map hold no entries
Blocks blocks(const Csr<double>& a, const Starts& rs, const Starts& cs, int r, const std::set<int>& extra)
{
    std::set<int> out; Csr<double> d, o; d.r = o.r = rs[r + 1] - rs[r]; d.c = cs[r + 1] - cs[r];
    auto in = [&](int j) { return j >= cs[r] && j < cs[r + 1]; };
    for (int i = rs[r]; i < rs[r + 1]; ++i) for (int k = a.p[i]; k < a.p[i + 1]; ++k) { if (!in(a.x[k])) { out.insert(a.x[k]); } }
    for (int j : extra) { if (!in(j)) { out.insert(j); } }
    Blocks b; b.map.assign(out.begin(), out.end()); o.c = (int) b.map.size();
    for (int i = rs[r]; i < rs[r + 1]; ++i)
    {
        for (int k = a.p[i]; k < a.p[i + 1]; ++k)
        {
            if (in(a.x[k])) { d.x.push_back(a.x[k] - cs[r]); d.d.push_back(a.d[k]); }
            else { o.x.push_back((int) (std::lower_bound(b.map.begin(), b.map.end(), a.x[k]) - b.map.begin())); o.d.push_back(a.d[k]); }
        }
        d.p.push_back((int) d.x.size()); o.p.push_back((int) o.x.size());
    }
    b.diag = d.mat(); b.offd = o.mat(); return b;
}
bool block_diagonal(const Csr<double>& a, const Starts& rs, const Starts& cs)
{
    for (int i = 0; i < a.r; ++i) for (int k = a.p[i]; k < a.p[i + 1]; ++k) { if (owner(rs, i) != owner(cs, a.x[k])) { return false; } } return true;
}
// only what stays within a rank
void keep_blocks(Csr<double>& a, const Starts& rs, const Starts& cs)
{
    Csr<double> o; o.r = a.r; o.c = a.c;
    for (int i = 0; i < a.r; ++i) { for (int k = a.p[i]; k < a.p[i + 1]; ++k) { if (owner(rs, i) == owner(cs, a.x[k])) { o.x.push_back(a.x[k]); o.d.push_back(a.d[k]); } } o.p.push_back((int) o.x.size()); }
    a = o;
}
// way: which constructor
la::ParMatrix distribute(const Csr<double>& a, const Starts& rs, const Starts& cs, int r, int way, const std::set<int>& extra)
{
    Blocks b = blocks(a, rs, cs, r, extra);
    switch (way)
    {
        case 1: return la::ParMatrix(W, b.diag, b.offd, b.map);
        case 2: return la::ParMatrix(W, b.diag);                              // the rest need a block diagonal matrix
        case 3: return la::ParMatrix(W, mine(rs, r), mine(cs, r), b.diag);
        case 4: return la::ParMatrix(W, mine(rs, r), b.diag);                 // and equal partitions
        default: return la::ParMatrix(W, mine(rs, r), mine(cs, r), b.diag, b.offd, b.map);
    }
}
int way(S& s, const Csr<double>& a, const Starts& rs, const Starts& cs, bool extra)
{
    if (extra || !block_diagonal(a, rs, cs)) { return s.u(1); } return s.u(rs == cs ? 4 : 3);
}
ld global_sum(ld v) { double x = (double) v, y = 0; MPI_Allreduce(&x, &y, 1, MPI_DOUBLE, MPI_SUM, W); return y; }

// the rows of this rank against the global reference; the products by two vectors
void check(const la::ParMatrix& A, const Ref& m, const Ref& mag, double fac, const Starts& rs, const Starts& cs, int r, const std::string& when, int salt)
{
    CHECK(A.GetRowStarts() == mine(rs, r) && A.GetColStarts() == mine(cs, r), when << ": rank " << r << " has rows " << show(A.GetRowStarts()) << " and columns " << show(A.GetColStarts()) << ", expected " << show(mine(rs, r)) << " and " << show(mine(cs, r)));
    CHECK(A.GlobalRows() == m.r && A.GlobalCols() == m.c && A.Rows() == rs[r + 1] - rs[r] && A.Cols() == cs[r + 1] - cs[r], when << ": rank " << r << " has size " << A.Rows() << "x" << A.Cols() << " of " << A.GlobalRows() << "x" << A.GlobalCols());
    CHECK(A.GetComm() == W && A.GetMyId() == r, when << ": rank " << r << " thinks it is rank " << A.GetMyId());
    const la::SparseMatrix<double>& d = A.GetDiag(); const la::SparseMatrix<double>& o = A.GetOffd(); const std::vector<HYPRE_Int>& map = A.GetColMap(); std::string name = when + " (rank " + std::to_string(r) + ")";
    CHECK(d.Rows() == A.Rows() && d.Cols() == A.Cols() && o.Rows() == A.Rows() && o.Cols() == (int) map.size(), name << ": blocks of " << d.Rows() << "x" << d.Cols() << " and " << o.Rows() << "x" << o.Cols() << " with " << map.size() << " mapped columns");
    expect_csr(d, (name + " diagonal block").c_str()); expect_csr(o, (name + " off-diagonal block").c_str()); expect_no_dups(d, (name + " diagonal block").c_str()); expect_no_dups(o, (name + " off-diagonal block").c_str());
    for (size_t k = 0; k < map.size(); ++k) { CHECK(map[k] >= 0 && map[k] < m.c && (map[k] < cs[r] || map[k] >= cs[r + 1]) && (k == 0 || map[k] > map[k - 1]), name << ": column map " << show(map) << " with own columns [" << cs[r] << "," << cs[r + 1] << ")"); }
    Ref g(m.r, m.c), gd = ref(d), go = ref(o);
    for (int i = 0; i < A.Rows(); ++i) { for (int j = 0; j < A.Cols(); ++j) { g(rs[r] + i, cs[r] + j) += gd(i, j); } for (size_t k = 0; k < map.size(); ++k) { g(rs[r] + i, map[k]) += go(i, (int) k); } }
    ld top = 0; for (ld v : m.v) { top = std::max(top, std::fabs(v)); }
    for (int i = rs[r]; i < rs[r + 1]; ++i) for (int j = 0; j < m.c; ++j) { CHECK(near(g(i, j), m(i, j), mag(i, j), fac), name << ": entry (" << i << "," << j << ") is " << (double) g(i, j) << ", expected " << (double) m(i, j)); }
    ld stored = global_sum(d.nnz() + o.nnz()); CHECK((ld) A.nnz() == stored, name << ": nnz is " << A.nnz() << " where " << (double) stored << " entries are stored");
    ld seen = 0, mm = 0; for (ld v : mag.v) { mm = std::max(mm, v); } seen = A.MaxNorm(); CHECK(near(seen, top, mm, fac), name << ": the maximum norm is " << (double) seen << ", expected " << (double) top);
    const hypre_ParCSRMatrix* h = A; CHECK(h && h->diag->num_rows == d.Rows() && h->diag->num_cols == d.Cols() && h->offd->num_cols == o.Cols() && h->global_num_rows == m.r && h->global_num_cols == m.c, name << ": the Hypre matrix has another shape");
    std::vector<ld> x(m.c), z(m.r); for (int j = 0; j < m.c; ++j) { x[j] = (j * 7 + salt) % 5 - 2; } for (int i = 0; i < m.r; ++i) { z[i] = (i * 11 + salt) % 7 - 3; }
    la::Vector<double> lx(A.Cols()), lz(A.Rows()), y(A.Rows()), t(A.Cols()); for (int j = 0; j < A.Cols(); ++j) { lx[j] = (double) x[cs[r] + j]; t[j] = 5e55; } for (int i = 0; i < A.Rows(); ++i) { lz[i] = (double) z[rs[r] + i]; y[i] = -3e44; }
    A.Mult(lx, y); A.MultAT(lz, t);
    std::vector<ld> wy = mulv(m, x), ay = mulv(mag, absv(x)), wt = mulv(m.T(), z), at = mulv(mag.T(), absv(z));
    for (int i = 0; i < A.Rows(); ++i) { CHECK(near(y[i], wy[rs[r] + i], ay[rs[r] + i], fac ? fac + 2 * m.c : 0), name << ": row " << rs[r] + i << " times a vector is " << y[i] << ", expected " << (double) wy[rs[r] + i]); CHECK(lz[i] == (double) z[rs[r] + i], name << ": MultAT changed its input"); }
    for (int j = 0; j < A.Cols(); ++j) { CHECK(near(t[j], wt[cs[r] + j], at[cs[r] + j], fac ? fac + 2 * m.r : 0), name << ": column " << cs[r] + j << " times a vector is " << t[j] << ", expected " << (double) wt[cs[r] + j]); CHECK(lx[j] == (double) x[cs[r] + j], name << ": Mult changed its input"); }
}
void check(const la::ParMatrix& A, const Ref& m, const Starts& rs, const Starts& cs, int r, const std::string& when, int salt) { check(A, m, m, 0, rs, cs, r, when, salt); }

void check_empty(const la::ParMatrix& A, const std::string& when)
{
    CHECK(A.Rows() == 0 && A.Cols() == 0 && A.GlobalRows() == 0 && A.GlobalCols() == 0 && A.nnz() == 0 && A.GetColMap().empty() && A.GetDiag().nnz() == 0 && A.GetOffd().nnz() == 0, when << ": a default constructed matrix has size " << A.Rows() << "x" << A.Cols() << " of " << A.GlobalRows() << "x" << A.GlobalCols());
}

// the copied communication package against the column maps of all ranks
void check_package(const la::ParMatrix& A, const Starts& cs, int r, const std::string& when)
{
    la::ParCommPkg p = A.MakeCommPkg(); auto all = standin::gather("column maps", A.GetColMap()); const std::vector<int>& map = A.GetColMap(); int P = (int) all.size();
    std::vector<int> rp, rv(1, 0), sp, ss(1, 0), se;
    for (size_t k = 0; k < map.size(); ++k) { int o = owner(cs, map[k]); if (rp.empty() || rp.back() != o) { rp.push_back(o); rv.push_back(rv.back()); } ++rv.back(); }
    for (int q = 0; q < P; ++q) { size_t b = se.size(); if (q != r) { for (int g : all[q]) { if (owner(cs, g) == r) { se.push_back(g - cs[r]); } } } if (se.size() > b) { sp.push_back(q); ss.push_back((int) se.size()); } }
    CHECK(p.comm_ == W && p.num_recvs_ == (int) rp.size() && p.recv_procs_ == rp && p.recv_vec_starts_ == rv, when << ": rank " << r << " receives from " << show(p.recv_procs_) << " at " << show(p.recv_vec_starts_) << ", expected " << show(rp) << " at " << show(rv));
    CHECK(p.num_sends_ == (int) sp.size() && p.send_procs_ == sp && p.send_map_starts_ == ss && p.send_map_elmts_ == se, when << ": rank " << r << " sends to " << show(p.send_procs_) << " the entries " << show(p.send_map_elmts_) << ", expected " << show(sp) << " and " << show(se));
    la::ParCommPkg c(p), d(std::move(c)), e; e = std::move(d);
    CHECK(e.num_sends_ == p.num_sends_ && e.send_map_elmts_ == p.send_map_elmts_ && e.recv_vec_starts_ == p.recv_vec_starts_ && e.num_recvs_ == p.num_recvs_, when << ": a copied package differs");
}

// ------------------------------------------------------------------ histories

struct Obj                  // what a distributed matrix holds, in exact arithmetic: multiples of 2^-e below big
{
    Ref m; int row = -1, col = -1; bool known = false; std::set<std::pair<int, int>> pat; ld big = 1; int e = 0;
    bool fits() const { return big * std::ldexp(1.0L, e) < 0x1p46L; }
};
struct Rank { std::vector<la::ParMatrix> pool; std::vector<std::vector<int>> marker; };
struct Step { std::string name; std::function<void(Rank&, int)> run; std::vector<int> touched; std::vector<std::shared_ptr<const Obj>> after; };

void history(S& s, int big, int steps)
{
    int P = ranks(s), N = 4; std::vector<Starts> sp; int spaces = s.i(1, 3);
    for (int k = 0; k < spaces; ++k) { sp.push_back(partition(s, P, big)); }
    std::vector<Obj> now(N); std::vector<Step> script; bool made = false, changed = false, product = false;
    auto n = [&](int k) { return sp[k].back(); };
    auto record = [&](const std::string& name, std::function<void(Rank&, int)> f, std::vector<int> touched)
    {
        Step t; t.name = "step " + std::to_string(script.size()) + " " + name; t.run = f; t.touched = touched; for (int k : touched) { t.after.push_back(std::make_shared<Obj>(now[k])); } script.push_back(t); s.say(t.name);
    };
    auto fresh = [&](int k, int row, int col)
    {
        CsrOpt o; o.full_diag = row == col && s.chance(0.6); Csr<double> a = csr<double>(s, n(row), n(col), INT, o); if (s.chance(0.2)) { keep_blocks(a, sp[row], sp[col]); s.label("block diagonal"); }
        std::set<int> extra; if (s.chance(0.15)) { for (int q = s.i(1, 3); q > 0; --q) { extra.insert(s.i(0, n(col) - 1)); } s.label("mapped column without entries"); }
        int w = way(s, a, sp[row], sp[col], !extra.empty()); Starts rs = sp[row], cs = sp[col]; Obj& x = now[k]; x.m = a.ref(); x.row = row; x.col = col; x.known = true; x.pat.clear(); x.big = 9; x.e = 0;
        for (int i = 0; i < a.r; ++i) for (int q = a.p[i]; q < a.p[i + 1]; ++q) { x.pat.insert({i, a.x[q]}); }
        s.note([&](std::ostream& out) { out << "matrix " << k << " = " << a.show() << " rows at " << show(rs) << " columns at " << show(cs) << " constructor " << w; });
        record("constructor " + std::to_string(w), [=](Rank& R, int r) { R.pool[k] = distribute(a, rs, cs, r, w, extra); }, {k});
    };
    for (int k = 0; k < 2; ++k) { fresh(k, s.i(0, spaces - 1), s.i(0, spaces - 1)); }
    // operand with the given spaces (-1: any), made when there is none
    auto find = [&](int row, int col, int avoid) -> int
    {
        std::vector<int> c; for (int k = 0; k < N; ++k) { if (now[k].row >= 0 && (row < 0 || now[k].row == row) && (col < 0 || now[k].col == col)) { c.push_back(k); } }
        if (!c.empty() && s.chance(0.85)) { return s.pick(c); }
        int k = s.i(0, N - 1); if (k == avoid) { k = (k + 1) % N; } fresh(k, row < 0 ? s.i(0, spaces - 1) : row, col < 0 ? s.i(0, spaces - 1) : col); return k;
    };
    auto bound = [&](const Obj& x, const Obj& y) { Obj z; z.big = x.big * y.big * x.m.c; z.e = x.e + y.e; return z; };
    for (int q = 0; q < steps; ++q)
    {
        int kind = s.weighted({2, 2, 2, 2, 4, 5, 3, 4, 2, 2, 2, 3, 3, 2, 3, 1}), to = s.i(0, N - 1), a = -1;
        if (kind != 0 && kind != 15) { a = find(-1, -1, -1); }
        switch (kind)
        {
            case 0: fresh(to, s.i(0, spaces - 1), s.i(0, spaces - 1)); break;
            case 1: { now[to] = now[a]; int how = s.u(2); record("copy " + std::to_string(how), [=](Rank& R, int) { if (how == 0) { la::ParMatrix c(R.pool[a]); swap(R.pool[to], c); } else if (how == 1) { R.pool[to] = R.pool[a]; } else { la::ParMatrix c; c = R.pool[a]; la::ParMatrix d(c); R.pool[to] = d; } }, {to, a}); s.label("copy"); break; }
            case 2: { now[to] = now[a]; int how = s.u(1); record("move", [=](Rank& R, int) { la::ParMatrix c(std::move(R.pool[a])); if (how) { R.pool[a] = c; } else { R.pool[a] = la::ParMatrix(c); } if (to != a) { R.pool[to] = std::move(c); } }, {to, a}); s.label("move"); break; }
            case 3: { std::swap(now[to], now[a]); record("swap", [=](Rank& R, int) { swap(R.pool[to], R.pool[a]); }, {to, a}); s.label("swap"); break; }
            case 4:
            {
                Obj x = now[a]; x.m = x.m.T(); std::swap(x.row, x.col); std::set<std::pair<int, int>> p; for (auto& ij : x.pat) { p.insert({ij.second, ij.first}); } x.pat = p; now[to] = x; bool how = s.chance(0.5);
                record("transpose", [=](Rank& R, int) { R.pool[to] = how ? R.pool[a].Transpose() : la::Transpose(R.pool[a]); }, to == a ? std::vector<int> {to} : std::vector<int> {to, a}); s.label("transpose"); made = true; break;
            }
            case 5:
            {
                int b = find(now[a].col, -1, a); Obj x = bound(now[a], now[b]); if (!x.fits()) { break; } x.m = mul(now[a].m, now[b].m); x.row = now[a].row; x.col = now[b].col; now[to] = x; int how = s.u(2);
                record("product", [=](Rank& R, int) { R.pool[to] = how == 0 ? R.pool[a].Mult(R.pool[b]) : how == 1 ? R.pool[a] * R.pool[b] : la::Mult(R.pool[a], R.pool[b]); }, {to, a, b}); s.label("product"); s.label("product of rectangular matrices", now[a].row != now[a].col); made = product = true; break;
            }
            case 6:
            {
                int p = find(now[a].col, -1, a); if (now[a].row < 0) { break; } bool two = now[a].row == now[a].col && s.chance(0.5); int w = two ? p : find(now[a].row, -1, a); if (now[p].row != now[a].col || now[w].row != now[a].row) { break; }
                Obj x = bound(now[a], now[p]); x.m = now[a].m; Obj z; z.big = now[w].big * x.big * now[w].m.r; z.e = now[w].e + x.e; if (!z.fits()) { break; }
                z.m = mul(now[w].m.T(), mul(now[a].m, now[p].m)); z.row = now[w].col; z.col = now[p].col; now[to] = z;
                record("RAP", [=](Rank& R, int) { R.pool[to] = two ? la::RAP(R.pool[a], R.pool[p]) : la::RAP(R.pool[w], R.pool[a], R.pool[p]); }, {to, a, p, w}); s.label("RAP"); made = product = true; break;
            }
            case 7:
            {
                int b = find(now[a].row, now[a].col, a); if (now[a].row != now[b].row || now[a].col != now[b].col) { break; } int how = s.u(2); bool sub = s.chance(0.5); double al = how == 0 ? 1 : dyadic(s) * s.i(1, 3), be = how == 0 ? 1 : dyadic(s) * s.i(1, 3); if (how && s.chance(0.1)) { al = 0; }
                Obj x; x.big = now[a].big * 24 + now[b].big * 24; x.e = std::max(now[a].e, now[b].e) + 3; if (!x.fits()) { break; } x.m = now[a].m; for (size_t k = 0; k < x.m.v.size(); ++k) { x.m.v[k] = al * now[a].m.v[k] + (sub ? -1 : 1) * be * now[b].m.v[k]; } x.row = now[a].row; x.col = now[a].col; int cols = n(now[a].col); now[to] = x;
                bool dirty = s.chance(0.4);
                record(sub ? "difference" : "sum", [=](Rank& R, int r)
                {
                    la::ParMatrix& A = R.pool[a]; la::ParMatrix& B = R.pool[b];
                    if (how == 2)
                    {
                        std::vector<int>& m = R.marker[r]; if ((int) m.size() < cols) { m.resize(cols, -1); }
                        if (dirty) { for (size_t k = 0; k < m.size(); ++k) { m[k] = (int) (k % 3); } }
                        la::ParMatrix c = sub ? la::ParSub(al, A, be, B, m) : la::ParAdd(al, A, be, B, m); R.pool[to] = std::move(c);
                    }
                    else if (how == 1) { R.pool[to] = sub ? la::ParSub(al, A, be, B) : la::ParAdd(al, A, be, B); }
                    else { R.pool[to] = sub ? la::ParSub(A, B) : la::ParAdd(A, B); }
                }, {to, a, b}); s.label("sum"); made = true; break;
            }
            case 8: { double v = s.chance(0.1) ? 0 : dyadic(s); Obj& x = now[a]; x.big *= 8; x.e += 2; for (auto& y : x.m.v) { y *= v; } record("scaling", [=](Rank& R, int) { la::ParMatrix& c = (R.pool[a] *= v); CHECK(&c == &R.pool[a], "*= returns another matrix"); }, {a}); s.label("scaling"); changed = true; break; }
            case 9: { Obj& x = now[a]; if (!x.known) { break; } double v = s.sgn_int(5); x.m = Ref(x.m.r, x.m.c); for (auto& ij : x.pat) { x.m(ij.first, ij.second) = v; } x.big = 9; x.e = 0; record("set entries", [=](Rank& R, int) { R.pool[a] = v; }, {a}); s.label("set entries"); changed = true; break; }
            case 10: { Obj x = now[a]; for (auto& y : x.m.v) { y = -y; } now[to] = x; record("negative", [=](Rank& R, int) { R.pool[to] = -R.pool[a]; }, to == a ? std::vector<int> {to} : std::vector<int> {to, a}); s.label("negative"); made = true; break; }
            case 11:
            {
                Obj& x = now[a]; std::vector<double> v(x.m.r); for (auto& y : v) { y = dyadic(s); } int how = s.u(3); if (how < 2 && s.chance(0.2)) { v[s.i(0, x.m.r - 1)] = 0; } x.big *= 8; x.e += 3; Starts rs = sp[x.row];
                for (int i = 0; i < x.m.r; ++i) for (int j = 0; j < x.m.c; ++j) { x.m(i, j) = how < 2 ? x.m(i, j) * v[i] : x.m(i, j) / v[i]; }
                record(how < 2 ? "row scaling" : "inverse row scaling", [=](Rank& R, int r) { std::vector<double> w(v.begin() + rs[r], v.begin() + rs[r + 1]); la::SparseMatrix<double> d(w); la::ParMatrix& A = R.pool[a]; how == 0 ? A.ScaleRows(w) : how == 1 ? A.ScaleRows(d) : how == 2 ? A.InverseScaleRows(w) : A.InverseScaleRows(d); }, {a}); s.label("row scaling"); changed = true; break;
            }
            case 12:
            {
                Obj& x = now[a]; if (!x.known || x.row != x.col) { break; } bool full = true; for (int i = 0; i < x.m.r; ++i) { full = full && x.pat.count({i, i}); } if (!full) { break; }
                bool one = s.chance(0.5); std::vector<double> v(x.m.r); double c = s.sgn_int(4); for (auto& y : v) { y = one ? c : (double) s.sgn_int(4); } for (int i = 0; i < x.m.r; ++i) { x.m(i, i) += v[i]; } x.big += 4; Starts rs = sp[x.row];
                record("diagonal added", [=](Rank& R, int r) { if (one) { R.pool[a].AddDiag(c); } else { R.pool[a].AddDiag(std::vector<double>(v.begin() + rs[r], v.begin() + rs[r + 1])); } }, {a}); s.label("diagonal added"); changed = true; break;
            }
            case 13:
            {
                Obj& x = now[a]; std::vector<int> at(P, -1); Starts rs = sp[x.row]; for (int r = 0; r < P; ++r) { if (s.chance(0.5)) { at[r] = s.i(0, rs[r + 1] - rs[r] - 1); for (int j = 0; j < x.m.c; ++j) { x.m(rs[r] + at[r], j) = 0; } } }
                record("row eliminated", [=](Rank& R, int r) { if (at[r] >= 0) { R.pool[a].EliminateRow(at[r]); } }, {a}); s.label("row eliminated"); changed = true; break;
            }
            case 14:
            {
                const Starts rs = sp[now[a].row], cs = sp[now[a].col];
                record("package and print", [=](Rank& R, int r)
                {
                    const la::ParMatrix& A = R.pool[a]; check_package(A, cs, r, "communication package");
                    std::ostringstream o, want, tail; A.Print("title", o); want << "title\n"; A.GetDiag().Print("Diag:", want); A.GetOffd().Print("Offd:", want); for (int c : A.GetColMap()) { tail << c << " "; }
                    std::string got = o.str(), front = want.str(); CHECK(got.compare(0, front.size(), front) == 0, "Print shows " << got << " where " << front << " was expected first");
                    std::vector<int> nums; std::string rest = got.substr(front.size()); CHECK(rest.compare(0, 7, "ColMap:") == 0, "Print ends with " << rest); std::istringstream in(rest.substr(7)); for (int v; in >> v;) { nums.push_back(v); } CHECK(nums == A.GetColMap(), "Print shows the column map " << rest << " of " << show(A.GetColMap()));
                }, {a}); s.label("package and print"); break;
            }
            default:
            {
                now[to] = Obj(); int how = s.u(3);
                record("default", [=](Rank& R, int) { la::ParMatrix e; check_empty(e, "default"); if (how == 0) { R.pool[to] = e; } else if (how == 1) { swap(R.pool[to], e); } else if (how == 2) { la::ParMatrix f(e); check_empty(f, "copy"); R.pool[to] = std::move(f); } else { la::ParMatrix f(std::move(R.pool[to])); R.pool[to] = la::ParMatrix(); } }, {to}); s.label("default constructed"); break;
            }
        }
    }
    s.nontrivial(P > 1 && (made || changed)); s.label("history with a product", product);
    world(P, [&](int r)
    {
        Rank R; R.pool.resize(N); R.marker.resize(P); int salt = 0; std::vector<std::shared_ptr<const Obj>> last(N);
        for (auto& t : script)
        {
            t.run(R, r); ++salt;
            for (size_t k = 0; k < t.touched.size(); ++k) { last[t.touched[k]] = t.after[k]; }
            for (size_t k = 0; k < t.touched.size(); ++k) { int at = t.touched[k]; const Obj& x = *t.after[k]; std::string when = t.name + ", matrix " + std::to_string(at); if (x.row < 0) { check_empty(R.pool[at], when); } else { check(R.pool[at], x.m, sp[x.row], sp[x.col], r, when, salt); } }
        }
        for (int k = 0; k < N; ++k) { if (last[k] && last[k]->row >= 0) { check(R.pool[k], last[k]->m, sp[last[k]->row], sp[last[k]->col], r, "in the end, matrix " + std::to_string(k), 3); } }
    });
}
}

LAW(matrix_history, 2500, 60000, "more than one rank and a matrix was made from or changed by an operation") { history(s, s.thorough ? 8 : 5, s.i(1, s.thorough ? 14 : 9)); }

LEAK_LAW(matrix_memory, 400, 8000, "more than one rank and a matrix was made from or changed by an operation") { history(s, 4, s.i(1, 8)); }

// ------------------------------------------------------------------- products

static void products(S& s, int big)
{
    int P = ranks(s); Starts rs = partition(s, P, big), cs = s.chance(0.3) ? rs : partition(s, P, big); Mode m = s.chance(0.7) ? REAL : INT; Csr<double> a = csr<double>(s, rs.back(), cs.back(), m); if (s.chance(0.15)) { keep_blocks(a, rs, cs); }
    std::vector<double> x = values<double>(s, a.c, m), z = values<double>(s, a.r, m); double al = value<double>(s, m); bool simple; int w = way(s, a, rs, cs, false); uint64_t junk = s.bulk(simple).next(); s.nontrivial(P > 1 && !block_diagonal(a, rs, cs));
    s.label(m == REAL ? "real values" : "integers"); s.label("square blocks", rs == cs); s.note([&](std::ostream& o) { o << "A = " << a.show() << " rows at " << show(rs) << " columns at " << show(cs) << " x = " << show(x) << " z = " << show(z); });
    Ref A = a.ref(), B = A.abs(); std::vector<ld> y = mulv(A, ldv(x)), my = mulv(B, absv(ldv(x))), t = mulv(A.T(), ldv(z)), mt = mulv(B.T(), absv(ldv(z))); double fac = m == REAL ? 4.0 * (a.r + a.c) + 8 : 0;
    world(P, [&](int r)
    {
        la::ParMatrix M = distribute(a, rs, cs, r, w, {}); check(M, A, B, m == REAL ? 1 : 0, rs, cs, r, "constructed", 2);
        std::vector<double> lx(x.begin() + cs[r], x.begin() + cs[r + 1]), lz(z.begin() + rs[r], z.begin() + rs[r + 1]); auto cut = [&](const std::vector<ld>& v, const Starts& p) { return std::vector<ld>(v.begin() + p[r], v.begin() + p[r + 1]); };
        std::vector<ld> wy = cut(y, rs), wmy = cut(my, rs), wt = cut(t, cs), wmt = cut(mt, cs); la::Vector<double> vx(lx), vz(lz); pbt::Rng g(junk + r);
        auto stale = [&](int n) { la::Vector<double> v(n); for (auto& q : v) { q = real_from(g) * 1e3; } if (n && g.below(4) == 0) { v[(int) g.below(n)] = std::numeric_limits<double>::quiet_NaN(); } return v; };
        la::Vector<double> o = stale(M.Rows()), p = stale(M.Cols()); const la::Operator& op = M; const la::ParOperator& pop = M;
        M.Mult(vx, o); expect_vec(o, wy, wmy, fac, "Mult"); M.MultAT(vz, p); expect_vec(p, wt, wmt, fac, "MultAT");
        expect_vec(M.Mult(vx), wy, wmy, fac, "Mult by value"); expect_vec(M.MultAT(vz), wt, wmt, fac, "MultAT by value");
        o = stale(M.Rows()); op.Mult(vx, o); expect_vec(o, wy, wmy, fac, "Mult of the operator"); o = stale(M.Rows()); pop.Mult(vx, o); expect_vec(o, wy, wmy, fac, "Mult of the distributed operator"); expect_vec(op.Mult(vx), wy, wmy, fac, "Mult by value of the operator");
        la::VectorView<double> wx(lx), wz(lz); o = stale(M.Rows()); la::VectorView<double> wo(o); M.Mult(wx, wo); expect_vec(o, wy, wmy, fac, "Mult of views");
        la::ParVector px(W, vx, mine(cs, r)), pz(W, vz, mine(rs, r)), py(W, 3.5, mine(rs, r)), pt(W, std::numeric_limits<double>::quiet_NaN(), mine(cs, r));
        M.Mult(px, py); expect_vec(py, wy, wmy, fac, "Mult of distributed vectors"); M.MultAT(pz, pt); expect_vec(pt, wt, wmt, fac, "MultAT of distributed vectors");
        la::ParVector qy = M.Mult(px), qt = M.MultAT(pz); expect_vec(qy, wy, wmy, fac, "Mult of a distributed vector by value"); expect_vec(qt, wt, wmt, fac, "MultAT of a distributed vector by value");
        CHECK(qy.GlobalSize() == a.r && qt.GlobalSize() == a.c, "the products have global sizes " << qy.GlobalSize() << " and " << qt.GlobalSize());
        M.Mult(px, pt.size() == py.size() && a.r == a.c && rs == cs ? pt : py); expect_vec(rs == cs ? pt : py, wy, wmy, fac, "Mult again");
        la::ParMatrix N(M); M *= 0.0; N *= al; std::vector<ld> sy(wy), sm(wmy); for (auto& q : sy) { q *= al; } for (auto& q : sm) { q *= std::fabs(al); } N.Mult(vx, o); expect_vec(o, sy, sm, fac ? fac + 2 : 0, "Mult of a scaled copy");
        M.Mult(vx, o); for (double q : o) { CHECK(q == 0, "a matrix scaled by zero has a product of " << q); }
    });
}
LAW(products, 1500, 30000, "more than one rank and entries that couple ranks") { products(s, s.chance(0.1) ? 25 : 6); }
LAW(big_products, 40, 600, "more than one rank and entries that couple ranks") { products(s, 60); }

// -------------------------------------------------------------------- vectors

LAW(vectors, 700, 15000, "more than one rank and vectors were combined")
{
    int P = ranks(s), N = 3; Starts p = partition(s, P, s.thorough ? 10 : 6); int n = p.back(); std::vector<std::vector<ld>> now(N), before; std::vector<std::function<void(std::vector<la::ParVector>&, int)>> script; std::vector<std::vector<std::vector<ld>>> after; std::vector<std::string> names; std::vector<bool> none(N, true); std::vector<std::vector<bool>> empty; bool combined = false;
    auto record = [&](const std::string& name, std::function<void(std::vector<la::ParVector>&, int)> f) { script.push_back(f); after.push_back(now); names.push_back(name); empty.push_back(none); s.say(name); };
    auto fresh = [&](int k)
    {
        std::vector<double> v = values<double>(s, n, INT); int how = s.u(2); if (how == 0) { v.assign(n, 0); } if (how == 1) { v.assign(n, v[0]); } now[k] = ldv(v); none[k] = false;
        record("constructor " + std::to_string(how), [=](std::vector<la::ParVector>& x, int r) { std::vector<double> l(v.begin() + p[r], v.begin() + p[r + 1]); x[k] = how == 0 ? la::ParVector(W, mine(p, r)) : how == 1 ? la::ParVector(W, v[0], mine(p, r)) : la::ParVector(W, la::VectorView<double>(l), mine(p, r)); for (auto& q : l) { q = 77; } });
    };
    fresh(0); fresh(1);
    auto exact = [&](const std::vector<ld>& v) { for (ld q : v) { if (std::fabs(q) > 0x1p40L || std::ldexp(q, 8) != std::floor(std::ldexp(q, 8))) { return false; } } return true; };
    for (int steps = s.i(1, 12); steps > 0; --steps)
    {
        int a = s.i(0, N - 1), b = s.i(0, N - 1), to = s.i(0, N - 1); if (none[a]) { fresh(a); } if (none[b]) { fresh(b); }
        switch (s.weighted({1, 2, 1, 1, 3, 2, 1, 2, 1, 1}))
        {
            case 0: fresh(to); break;
            case 1: { now[to] = now[a]; none[to] = false; int how = s.u(1); record("copy", [=](std::vector<la::ParVector>& x, int) { if (how) { x[to] = x[a]; } else { la::ParVector c(x[a]); swap(c, x[to]); } }); s.label("copy"); break; }
            case 2: { now[to] = now[a]; none[to] = false; record("move", [=](std::vector<la::ParVector>& x, int) { la::ParVector c(std::move(x[a])); x[a] = c; x[to] = std::move(c); }); s.label("move"); break; }
            case 3: { std::swap(now[a], now[b]); record("swap", [=](std::vector<la::ParVector>& x, int) { swap(x[a], x[b]); }); s.label("swap"); break; }
            case 4:
            {
                int how = s.u(2); std::vector<ld> v = now[a]; for (int i = 0; i < n; ++i) { v[i] = how == 0 ? v[i] + now[b][i] : how == 1 ? v[i] - now[b][i] : v[i] * now[b][i]; } if (!exact(v)) { break; } now[a] = v; combined = true;
                record(how == 0 ? "+=" : how == 1 ? "-=" : "*=", [=](std::vector<la::ParVector>& x, int) { la::ParVector& q = how == 0 ? (x[a] += x[b]) : how == 1 ? (x[a] -= x[b]) : (x[a] *= x[b]); CHECK(&q == &x[a], "returns another vector"); }); s.label("arithmetic"); break;
            }
            case 5: { double v = dyadic(s); std::vector<ld> q = now[a]; for (auto& e : q) { e *= v; } if (!exact(q)) { break; } now[a] = q; bool divide = s.chance(0.3); record("scaled", [=](std::vector<la::ParVector>& x, int) { if (divide) { x[a] /= 1 / v; } else { x[a] *= v; } }); break; }
            case 6: { double v = s.sgn_int(9); now[a].assign(n, v); record("=", [=](std::vector<la::ParVector>& x, int) { la::ParVector& q = (x[a] = v); CHECK(&q == &x[a], "returns another vector"); }); break; }
            case 7: { std::vector<double> w(n); for (auto& e : w) { e = dyadic(s); } std::vector<ld> q = now[a]; for (int i = 0; i < n; ++i) { q[i] /= w[i]; } if (!exact(q)) { break; } now[a] = q; combined = true; record("/=", [=](std::vector<la::ParVector>& x, int r) { std::vector<double> l(w.begin() + p[r], w.begin() + p[r + 1]); la::ParVector d(W, la::VectorView<double>(l), mine(p, r)); x[a] /= d; }); s.label("arithmetic"); break; }
            case 8: { now[to].clear(); none[to] = true; record("default", [=](std::vector<la::ParVector>& x, int) { la::ParVector e; CHECK(e.size() == 0 && e.GlobalSize() == 0, "a default constructed vector has global size " << e.GlobalSize()); la::ParVector f(e), g(std::move(e)); CHECK(f.size() == 0 && f.GlobalSize() == 0 && g.size() == 0 && g.GlobalSize() == 0, "a copy of it has global size " << f.GlobalSize()); x[to] = f; }); s.label("default constructed"); break; }
            default:
            {
                ld sum = 0; for (ld e : now[a]) { sum += e; } std::vector<ld> q = now[a]; if (std::fmod(sum, (ld) n) != 0) { break; } for (auto& e : q) { e -= sum / n; } now[a] = q; record("SubAvg", [=](std::vector<la::ParVector>& x, int) { la::SubAvg(x[a]); }); s.label("SubAvg"); break;
            }
        }
    }
    s.nontrivial(P > 1 && combined); s.note([&](std::ostream& o) { o << "partition " << show(p); });
    world(P, [&](int r)
    {
        std::vector<la::ParVector> x(N);
        for (size_t t = 0; t < script.size(); ++t)
        {
            script[t](x, r);
            for (int k = 0; k < N; ++k)
            {
                std::string when = "step " + std::to_string(t) + " " + names[t] + ", vector " + std::to_string(k) + " on rank " + std::to_string(r); if (empty[t][k]) { CHECK(x[k].size() == 0 && x[k].GlobalSize() == 0, when << ": has size " << x[k].size() << " of " << x[k].GlobalSize()); continue; }
                const std::vector<ld>& v = after[t][k]; la::ParVector& w = x[k]; CHECK(w.size() == p[r + 1] - p[r] && w.GlobalSize() == n, when << ": size " << w.size() << " of " << w.GlobalSize()); ld sum = 0, sq = 0, local = 0; for (ld e : v) { sum += e; sq += e * e; }
                for (int i = 0; i < w.size(); ++i) { CHECK(w[i] == (double) v[p[r] + i], when << ": entry " << p[r] + i << " is " << w[i] << ", expected " << (double) v[p[r] + i]); local += v[p[r] + i]; }
                CHECK(w.LocalSum() == (double) local && w.GlobalSum() == (double) sum, when << ": sums " << w.LocalSum() << " and " << w.GlobalSum() << ", expected " << (double) local << " and " << (double) sum);
                double dot = 0; la::Vector<double> loc(static_cast<const la::VectorView<double>&>(w)); const la::VectorView<double>& view = w; const la::Vector<double>& base = w; ld lim = 64 * EPS * sq; 
                for (int way = 0; way < 5; ++way) { dot = way == 0 ? w.Mult(w) : way == 1 ? la::Mult(w, w) : way == 2 ? la::ParMult(W, loc, loc) : way == 3 ? la::ParMult(loc, loc) : view.Mult(w); CHECK(std::fabs(dot - sq) <= lim, when << ": inner product " << way << " with itself is " << dot << ", expected " << (double) sq); }
                for (int way = 0; way < 4; ++way) { double nm = way == 0 ? w.L2Norm() : way == 1 ? la::L2Norm(w) : way == 2 ? la::ParL2Norm(W, loc) : base.L2Norm(); CHECK(std::fabs(nm - std::sqrt(sq)) <= 64 * EPS * std::sqrt(sq), when << ": norm " << way << " is " << nm << ", expected " << (double) std::sqrt(sq)); }
                for (int o = 0; o < N; ++o) { if (!empty[t][o]) { ld d = 0, m = 0; for (int i = 0; i < n; ++i) { d += v[i] * after[t][o][i]; m += std::fabs(v[i] * after[t][o][i]); } double q = la::Mult(w, x[o]), q2 = w.Mult(x[o]); CHECK(std::fabs(q - d) <= 64 * EPS * m && std::fabs(q2 - d) <= 64 * EPS * m, when << ": inner product with vector " << o << " is " << q << " and " << q2 << ", expected " << (double) d); } }
            }
        }
        // Hypre sees the entries: twice the identity
        la::ParMatrix two(W, mine(p, r), la::SparseMatrix<double>(std::vector<double>(p[r + 1] - p[r], 2.0)));
        for (int k = 0; k < N; ++k) { if (!empty.back()[k]) { la::ParVector y = two.Mult(x[k]); for (int i = 0; i < y.size(); ++i) { CHECK(y[i] == 2 * x[k][i], "twice entry " << i << " of vector " << k << " is " << y[i] << ", expected " << 2 * x[k][i]); } } }
    });
}

// ------------------------------------------------------------ splits, utilities

LAW(split, 1500, 30000, "more than one rank and entries that couple ranks")
{
    int P = ranks(s), n = P + s.size(0, s.thorough ? 20 : 12); Csr<double> a = csr<double>(s, n, n, INT); std::vector<int> part(n); std::vector<int> perm = s.permutation(n); for (int k = 0; k < n; ++k) { part[perm[k]] = k < P ? k : s.i(0, P - 1); }
    bool sym = s.chance(0.3); if (sym) { Ref m = a.ref(); Csr<double> b; b.r = b.c = n; for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) { if (m(i, j) + m(j, i) != 0) { b.x.push_back(j); b.d.push_back((double) (m(i, j) + m(j, i))); } } b.p.push_back((int) b.x.size()); } a = b; } s.label(sym ? "symmetric" : "unsymmetric");
    // what belongs to rank 0 in its order, then rank 1, ...
    std::vector<int> old; Starts st(1, 0); for (int r = 0; r < P; ++r) { for (int i = 0; i < n; ++i) { if (part[i] == r) { old.push_back(i); } } st.push_back((int) old.size()); }
    Ref A = a.ref(), m(n, n); bool coupled = false; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { m(i, j) = A(old[i], old[j]); coupled = coupled || (m(i, j) != 0 && part[old[i]] != part[old[j]]); }
    s.nontrivial(P > 1 && coupled); s.note([&](std::ostream& o) { o << "A = " << a.show() << " split by " << show(part); });
    world(P, [&](int r) { la::SparseMatrix<double> g = a.mat(); la::ParMatrix M = la::ParSplit(W, g, part); check(M, m, st, st, r, "split", 1); CHECK(same_csr(g, a), "ParSplit changed the matrix"); check_package(M, st, r, "split"); });
}

LAW(utilities, 600, 10000, "more than one rank or a column map that was not sorted")
{
    int P = ranks(s), k = s.i(0, 4); std::vector<std::vector<int>> size(P, std::vector<int>(k)); for (auto& v : size) for (auto& x : v) { x = s.size(0, 50); } int one = s.size(0, 9);
    int n = s.size(0, 12), rows = s.size(1, 8); std::vector<int> map; std::vector<int> perm = s.permutation(n); for (int q = 0; q < n; ++q) { map.push_back(perm[q] * 3 + 1); } Csr<double> a = csr<double>(s, rows, n, INT); s.nontrivial(P > 1 || !std::is_sorted(map.begin(), map.end()));
    s.note([&](std::ostream& o) { o << "column map " << show(map) << " of " << a.show(); });
    world(P, [&](int r)
    {
        auto o = la::GenerateOffsets(W, size[r]); CHECK((int) o.size() == k, o.size() << " offsets for " << k << " sizes");
        for (int q = 0; q < k; ++q) { int before = 0, all = 0; for (int p = 0; p < P; ++p) { before += p < r ? size[p][q] : 0; all += size[p][q]; } CHECK(o[q] == (std::vector<int> {before, before + size[r][q], all}), "offsets " << q << " of rank " << r << " are " << show(o[q]) << ", expected " << before << " " << before + size[r][q] << " " << all); }
        auto e = la::GenerateOffsets(W, one + r); int b = one * r + r * (r - 1) / 2, all = one * P + P * (P - 1) / 2; CHECK(e == (std::vector<int> {b, b + one + r, all}), "offsets of rank " << r << " are " << show(e));
        la::CooMatrix<double> coo(rows, n); for (int i = 0; i < rows; ++i) for (int q = a.p[i]; q < a.p[i + 1]; ++q) { coo.Add(i, a.x[q], a.d[q]); } std::vector<int> m(map); la::SortColumnMap(m, coo); std::vector<int> want(map); std::sort(want.begin(), want.end()); CHECK(m == want, "sorted column map " << show(m));
        Ref g = ref(coo.ToSparse()), A = a.ref(); CHECK(g.r == rows && g.c == n, "SortColumnMap changed the shape"); for (int i = 0; i < rows; ++i) for (int j = 0; j < n; ++j) { int at = (int) (std::find(map.begin(), map.end(), m[j]) - map.begin()); CHECK(g(i, j) == A(i, at), "row " << i << " of column " << m[j] << " is " << (double) g(i, j) << ", expected " << (double) A(i, at)); }
    });
}

// ------------------------------------------------------------- solvers

struct System { Csr<double> a; Ref A; Starts st; std::vector<double> b; std::vector<ld> diag, l1; };
// symmetric, diagonally dominant, every diagonal entry stored
System spd(S& s, int P, int big)
{
    System y; y.st = partition(s, P, big); int n = y.st.back(); Csr<double> g = csr<double>(s, n, n, INT); Ref m = g.ref(), A(n, n);
    for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) { A(i, j) = A(j, i) = std::fmod(m(i, j), 4.0L); }
    for (int i = 0; i < n; ++i) { ld t = 1 + s.i(0, 3); for (int j = 0; j < n; ++j) { t += j != i ? std::fabs(A(i, j)) : 0; } A(i, i) = t; }
    y.a.r = y.a.c = n; for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) { if (A(i, j) != 0) { y.a.x.push_back(j); y.a.d.push_back((double) A(i, j)); } } y.a.p.push_back((int) y.a.x.size()); }
    y.A = A; for (int i = 0; i < n; ++i) { y.diag.push_back(A(i, i)); ld t = 0; for (int j = 0; j < n; ++j) { t += std::fabs(A(i, j)); } y.l1.push_back(t); }
    for (int i = 0; i < n; ++i) { y.b.push_back(nonzero<double>(s, INT)); } return y;
}
// preconditioned conjugate gradients by the textbook; sure says whether the number of iterations is beyond rounding
template <typename F>
std::vector<F> textbook(const System& y, const std::vector<ld>& d, int iter, double tol, bool& sure)
{
    size_t n = y.b.size(); std::vector<F> x(n), r(y.b.begin(), y.b.end()), p(n), z(n), w(n); for (size_t i = 0; i < n; ++i) { p[i] = r[i] / (F) d[i]; }
    auto dot = [n](const std::vector<F>& a, const std::vector<F>& b) { F t = 0; for (size_t i = 0; i < n; ++i) { t += a[i] * b[i]; } return t; }; F bb = dot(p, r), g = bb; sure = true;
    for (int k = 0; k < iter; ++k)
    {
        ld q = (ld) g / bb / ((ld) tol * tol); if (q > 0.999 && q < 1.001) { sure = false; } if (q < 1 || g / bb < 1e-26L) { break; }
        for (size_t i = 0; i < n; ++i) { w[i] = 0; for (size_t j = 0; j < n; ++j) { w[i] += (F) y.A((int) i, (int) j) * p[j]; } }
        F a = g / dot(w, p); for (size_t i = 0; i < n; ++i) { x[i] += a * p[i]; r[i] -= a * w[i]; } for (size_t i = 0; i < n; ++i) { z[i] = r[i] / (F) d[i]; } F old = g; g = dot(r, z); for (size_t i = 0; i < n; ++i) { p[i] = z[i] + g / old * p[i]; }
    }
    return x;
}
// ... and whether the iterates themselves are: the same recurrence in long double and in double
std::vector<ld> pcg(const System& y, const std::vector<ld>& d, int iter, double tol, bool& sure)
{
    bool also; std::vector<ld> x = textbook<ld>(y, d, iter, tol, sure); std::vector<double> c = textbook<double>(y, d, iter, tol, also); ld top = 0, drift = 0; sure = sure && also;
    for (size_t i = 0; i < x.size(); ++i) { top = std::max(top, std::fabs(x[i])); drift = std::max(drift, std::fabs(x[i] - c[i])); } sure = sure && drift <= 1e-11L * top; return x;
}
// one solver through a life of copies, moves, assignments and swaps; what is left must still work
template <typename T>
T survive(T first, const T& other, const std::vector<int>& life)
{
    std::unique_ptr<T> a(new T(std::move(first)));
    for (int k : life)
    {
        if (k == 0) { std::unique_ptr<T> c(new T(*a)); a = std::move(c); }
        else if (k == 1) { T m(std::move(*a)); a.reset(new T(std::move(m))); }
        else if (k == 2) { std::unique_ptr<T> c(new T); *c = *a; a = std::move(c); }
        else if (k == 3) { T c(other); c = *a; swap(*a, c); }
        else if (k == 4) { T c(other); swap(c, *a); *a = std::move(c); }
        else { T c(*a), d; d = c; swap(d, *a); }
    }
    return std::move(*a);
}
std::vector<int> lifetime(S& s) { std::vector<int> l(s.chance(0.3) ? 0 : s.i(1, 4)); for (int& k : l) { k = s.u(5); } s.label("copied, moved or swapped", !l.empty()); return l; }
std::vector<double> apply(const la::ParSolver& M, const std::vector<double>& b, double junk, bool through)
{
    la::Vector<double> in(b), out((int) b.size(), junk); if (through) { const la::Operator& op = M; op.Mult(in, out); } else { M.Mult(in, out); }
    for (size_t i = 0; i < b.size(); ++i) { CHECK(in[(int) i] == b[i], "a solver changed its right-hand side"); } return std::vector<double>(out.begin(), out.end());
}
std::vector<double> part(const std::vector<double>& v, const Starts& p, int r) { return std::vector<double>(v.begin() + p[r], v.begin() + p[r + 1]); }

LAW(conjugate_gradients, 1500, 25000, "more than one rank, entries that couple ranks and a preconditioner or an object copied, moved or swapped")
{
    int P = ranks(s); System y = spd(s, P, s.thorough ? 8 : 5), other = spd(s, P, 3); int kind = s.u(4), iter = s.chance(0.6) ? s.i(1, 4) : 500; double tol = iter > 4 ? s.pick({1e-2, 1e-4, 1e-6, 1e-9, 0.3}) : s.pick({1e-12, 1e-1, 1e-3}); std::vector<int> life = lifetime(s); bool again = s.chance(0.3), through = s.chance(0.3), defaults = iter > 4 && s.chance(0.2);
    if (defaults) { iter = 1000; tol = 1e-8; s.label("default arguments"); } static const char* names[] = {"none", "diagonal scaling switched on", "BoomerAMG", "ParaSails", "ParDiagScale"}; s.label(std::string("preconditioner: ") + names[kind]); s.nontrivial(P > 1 && !block_diagonal(y.a, y.st, y.st) && (kind > 0 || !life.empty()));
    s.note([&](std::ostream& o) { o << "A = " << y.a.show() << " b = " << show(y.b) << " rows at " << show(y.st) << " preconditioner " << names[kind] << " iterations " << iter << " tolerance " << tol << " life " << show(life); });
    std::vector<ld> d = kind == 0 ? std::vector<ld>(y.b.size(), 1.0L) : kind == 1 || kind == 4 ? y.diag : y.l1; bool sure; std::vector<ld> want = pcg(y, d, iter, tol, sure); s.label(sure ? "iterates compared" : "residual only"); ld top = 0; for (ld v : want) { top = std::max(top, std::fabs(v)); }
    world(P, [&](int r)
    {
        std::unique_ptr<la::ParMatrix> A(new la::ParMatrix(distribute(y.a, y.st, y.st, r, 0, {}))); la::ParMatrix O = distribute(other.a, other.st, other.st, r, 0, {}); std::unique_ptr<la::ParSolver> M;
        if (kind == 2) { M.reset(new la::BoomerAMG(*A)); } if (kind == 3) { M.reset(new la::ParaSails(*A)); } if (kind == 4) { M.reset(new la::ParDiagScale(*A)); }
        la::ParCG first = M ? (defaults ? la::ParCG(*A, *M) : la::ParCG(*A, *M, iter, tol)) : (defaults ? la::ParCG(*A) : la::ParCG(*A, iter, tol)); if (kind == 1) { first.EnableDiagScaling(); } A.reset();
        la::ParCG cg = survive(std::move(first), la::ParCG(O, 7, 0.5), life); CHECK(cg.Rows() == y.st[r + 1] - y.st[r] && cg.Cols() == cg.Rows() && cg.GlobalRows() == (int) y.b.size() && cg.GetRowStarts() == mine(y.st, r), "the solver has " << cg.Rows() << " of " << cg.GlobalRows() << " rows");
        check(cg.GetMatrix(), y.A, y.st, y.st, r, "matrix of the solver", 1);
        for (int t = 0; t < 1 + again; ++t)
        {
            std::vector<double> x = apply(cg, part(y.b, y.st, r), t ? 1e30 : -7, through);
            if (sure) { for (size_t i = 0; i < x.size(); ++i) { CHECK(std::fabs(x[i] - want[y.st[r] + i]) <= 1e-7L * top, "unknown " << y.st[r] + i << " is " << x[i] << ", expected " << (double) want[y.st[r] + i]); } }
            std::vector<double> all; for (auto& part : standin::gather("check", x)) { all.insert(all.end(), part.begin(), part.end()); } CHECK(all.size() == y.b.size(), all.size() << " unknowns");
            std::vector<ld> res = mulv(y.A, ldv(all)); ld rr = 0, bb = 0; for (size_t i = 0; i < res.size(); ++i) { res[i] = y.b[i] - res[i]; rr += res[i] * res[i] / d[i]; bb += (ld) y.b[i] * y.b[i] / d[i]; }
            CHECK(iter < 100 || rr <= (1.02L * tol * tol + 1e-16L) * bb, "the residual is " << (double) std::sqrt(rr / bb) << " of the right-hand side");
        }
    });
}

LAW(preconditioners, 1500, 25000, "more than one rank, entries that couple ranks and an object copied, moved or swapped or applied several times")
{
    int P = ranks(s); System y = spd(s, P, s.thorough ? 8 : 5), other = spd(s, P, 3); int kind = s.u(2), sweeps = s.i(1, 5); double tol = s.chance(0.3) ? s.pick({0.5, 0.1, 1e-3}) : 0; std::vector<int> life = lifetime(s); bool through = s.chance(0.3), again = s.chance(0.3); s.nontrivial(P > 1 && !block_diagonal(y.a, y.st, y.st) && (!life.empty() || again || sweeps > 1));
    int reuse = s.u(1), sym = s.u(2), levels = s.i(0, 3); double load = s.u(1) * 0.25, thr = s.pick({0.1, 0.2, 0.01}), filter = s.pick({0.1, 0.05, 0.0}); bool defaults = s.chance(0.2); static const char* names[] = {"BoomerAMG", "ParaSails", "ParDiagScale"}; s.label(names[kind]);
    s.note([&](std::ostream& o) { o << "A = " << y.a.show() << " b = " << show(y.b) << " rows at " << show(y.st) << " " << names[kind] << " sweeps " << sweeps << " tolerance " << tol << " life " << show(life) << " reuse " << reuse << " sym " << sym << " levels " << levels << " load " << load << " threshold " << thr << " filter " << filter; });
    world(P, [&](int r)
    {
        la::ParMatrix A = distribute(y.a, y.st, y.st, r, 0, {}), O = distribute(other.a, other.st, other.st, r, 0, {}); std::vector<double> b = part(y.b, y.st, r), x, x2; std::vector<ld> want(y.b.size());
        if (kind == 0)
        {
            la::BoomerAMG one(A), M = survive(la::BoomerAMG(A, sweeps, tol), la::BoomerAMG(O, 3, 0.9), life); std::vector<double> o = apply(one, b, 3e3, false); x = apply(M, b, -8, through); if (again) { x2 = apply(M, b, 55, through); }
            ld w = o[0] * y.l1[y.st[r]] / b[0], bb = 0; for (double v : y.b) { bb += (ld) v * v; } bool sure = true;
            for (int k = 0; k < sweeps; ++k) { std::vector<ld> t = mulv(y.A, want); ld rr = 0; for (size_t i = 0; i < t.size(); ++i) { t[i] = y.b[i] - t[i]; rr += t[i] * t[i]; } ld q = tol > 0 ? rr / bb / ((ld) tol * tol) : 2; sure = sure && (q < 0.999 || q > 1.001); if (q <= 1) { break; } for (size_t i = 0; i < t.size(); ++i) { want[i] += w * t[i] / y.l1[i]; } }
            if (!sure) { return; }
        }
        else if (kind == 1)
        {
            la::ParaSails M = survive(defaults ? la::ParaSails(A) : la::ParaSails(A, false, reuse, sym, load, thr, filter, levels), la::ParaSails(O, false, 1, 1, 0.5, 0.3, 0.2, 2), life); x = apply(M, b, -8, through); if (again) { x2 = apply(M, b, 55, through); }
            // Hypre called directly
            HYPRE_Solver h; HYPRE_ParaSailsCreate(W, &h); HYPRE_ParaSailsSetParams(h, defaults ? 0.1 : thr, defaults ? 1 : levels); HYPRE_ParaSailsSetFilter(h, defaults ? 0.1 : filter); HYPRE_ParaSailsSetSym(h, defaults ? 0 : sym); HYPRE_ParaSailsSetLoadbal(h, defaults ? 0 : load); HYPRE_ParaSailsSetReuse(h, defaults ? 0 : reuse);
            hypre_ParCSRMatrix* a = A; HYPRE_ParaSailsSetup(h, a, nullptr, nullptr); ld w = standin::get(h, 3, "check").par["used"]; HYPRE_ParaSailsDestroy(h); for (size_t i = 0; i < y.b.size(); ++i) { want[i] = w * y.b[i] / y.l1[i]; }
        }
        else { la::ParDiagScale M = survive(la::ParDiagScale(A), la::ParDiagScale(O), life); x = apply(M, b, -8, through); if (again) { x2 = apply(M, b, 55, through); } for (size_t i = 0; i < y.b.size(); ++i) { want[i] = y.b[i] / y.diag[i]; } }
        for (size_t i = 0; i < x.size(); ++i) { ld q = want[y.st[r] + i]; CHECK(std::fabs(x[i] - q) <= 1e-11L * (1 + std::fabs(q)), "unknown " << y.st[r] + i << " is " << x[i] << ", expected " << (double) q); }
        CHECK(x2.empty() || x2 == x, "applied again, the preconditioner gives another result");
    });
}

LAW(smoothers, 1500, 25000, "more than one rank and entries that couple ranks")
{
    int P = ranks(s); System y = spd(s, P, s.thorough ? 8 : 5), other = spd(s, P, 3); int type = s.u(3), times = s.i(1, 4); double weight = s.pick({1.0, 0.5, 0.75}), omega = type == 2 ? 1.0 : s.pick({1.0, 0.5, 0.875}); if (type == 2) { weight = 1; } bool defaults = s.chance(0.15), through = s.chance(0.3), again = s.chance(0.3); if (defaults) { type = 0; times = 1; weight = omega = 1; }
    std::vector<int> life = lifetime(s); bool negative = s.chance(0.15); if (negative) { for (auto& v : y.A.v) { v = -v; } for (auto& v : y.a.d) { v = -v; } for (auto& v : y.diag) { v = -v; } } s.label(negative ? "negative definite" : "positive definite"); s.label("type " + std::to_string(type)); s.nontrivial(P > 1 && !block_diagonal(y.a, y.st, y.st));
    s.note([&](std::ostream& o) { o << "A = " << y.a.show() << " b = " << show(y.b) << " rows at " << show(y.st) << " type " << type << " times " << times << " weight " << weight << " omega " << omega << " life " << show(life); });
    int n = (int) y.b.size(); std::vector<ld> u(n), l(n); for (int i = 0; i < n; ++i) { ld own = 0, off = 0, sq = 0; int q = owner(y.st, i); for (int j = 0; j < n; ++j) { ld v = std::fabs(y.A(i, j)); sq += v * v; (owner(y.st, j) == q ? own : off) += v; } l[i] = type == 1 ? own + off : type == 2 ? std::fabs(y.diag[i]) + off : type == 3 ? sq : 1; if (y.diag[i] < 0) { l[i] = -l[i]; } }
    for (int t = 0; t < times; ++t)
    {
        std::vector<ld> x(u); auto entry = [&](int i, int j) { return owner(y.st, i) == owner(y.st, j) ? u[j] : x[j]; };
        if (type < 2) { std::vector<ld> w = mulv(y.A, x); for (int i = 0; i < n; ++i) { u[i] += weight * (y.b[i] - w[i]) / (type == 0 ? y.diag[i] : l[i]); } }
        else { for (int r = 0; r < P; ++r) for (int pass = 0; pass < 2; ++pass) for (int k = y.st[r]; k < y.st[r + 1]; ++k) { int i = pass ? y.st[r] + y.st[r + 1] - 1 - k : k; ld v = y.b[i]; for (int j = 0; j < n; ++j) { v -= y.A(i, j) * entry(i, j); } v *= omega / l[i]; if (type == 2) { u[i] += v; } else { for (int j = y.st[r]; j < y.st[r + 1]; ++j) { u[j] += v * y.A(i, j); } } } }
    }
    world(P, [&](int r)
    {
        la::ParMatrix A = distribute(y.a, y.st, y.st, r, 0, {}), O = distribute(other.a, other.st, other.st, r, 0, {}); la::SmoothType ty = type == 0 ? la::SmoothType::Jacobi : type == 1 ? la::SmoothType::L1_Jacobi : type == 2 ? la::SmoothType::L1_GS : la::SmoothType::Kaczmarz;
        la::ParSmoother M = survive(defaults ? la::ParSmoother(A) : la::ParSmoother(A, ty, times, weight, omega), la::ParSmoother(O, la::SmoothType::L1_Jacobi, 2, 0.3, 0.2), life); std::vector<double> b = part(y.b, y.st, r);
        for (int t = 0; t < 1 + again; ++t) { std::vector<double> x = apply(M, b, 0.0, through); for (size_t i = 0; i < x.size(); ++i) { ld q = u[y.st[r] + i]; CHECK(std::fabs(x[i] - q) <= 1e-10L * (1 + std::fabs(q)), "unknown " << y.st[r] + i << " is " << x[i] << ", expected " << (double) q); } }
    });
}

LAW(eigenvectors, 500, 8000, "more than one rank and entries that couple ranks")
{
    int P = ranks(s); System y = spd(s, P, 3); int n = (int) y.b.size(), k = s.i(1, n); bool given = s.chance(0.5), pre = s.chance(0.4); s.nontrivial(P > 1 && !block_diagonal(y.a, y.st, y.st)); s.note([&](std::ostream& o) { o << "A = " << y.a.show() << " rows at " << show(y.st) << " eigenvectors " << k; });
    la::EigenSolver serial; la::SparseMatrix<double> whole = y.a.mat(); la::EigenPair all = serial.Solve(whole.ToDense(), 1.0, n); std::vector<double> ev(all.first); std::sort(ev.begin(), ev.end()); CHECK((int) ev.size() == n, "the serial solver finds " << ev.size() << " eigenvalues of " << n); double top = std::fabs(ev.back()) + 1;
    world(P, [&](int r)
    {
        la::ParMatrix A = distribute(y.a, y.st, y.st, r, 0, {}); la::ParDiagScale D(A); const la::Operator* M = pre ? &D : nullptr; std::vector<la::Vector<double>> x(k, la::Vector<double>(A.Rows(), 0.5)); std::vector<double> e = given ? la::LOBPCG(A, x, M) : la::LOBPCG(A, k, M); CHECK((int) e.size() == k, e.size() << " eigenvalues instead of " << k);
        for (int q = 0; q < k; ++q) { CHECK(std::fabs(e[q] - ev[q]) <= 1e-9 * top, "eigenvalue " << q << " is " << e[q] << ", the assembled matrix has " << ev[q]); }
        if (given) { for (int q = 0; q < k; ++q) { la::Vector<double> t = A.Mult(x[q]); double err = 0, nrm = la::ParL2Norm(W, x[q]); for (int i = 0; i < A.Rows(); ++i) { err = std::max(err, std::fabs(t[i] - e[q] * x[q][i])); } CHECK(err <= 1e-8 * top && std::fabs(nrm - 1) < 1e-8, "vector " << q << " of norm " << nrm << " misses the eigenvalue equation by " << err); } }
        check(A, y.A, y.st, y.st, r, "after the eigenvalues", 1);
    });
}

PBT_MAIN
