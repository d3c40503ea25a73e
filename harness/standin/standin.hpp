// Several processes in one: every rank is a fibre with a stack of its own, switched only inside of MPI calls, so a
// distributed program runs deterministically in one thread and a case can be replayed and shrunk.  Collective calls wait for
// all ranks and insist on the same call everywhere; messages are buffered.  When every rank waits, or a rank misuses an
// interface, the run is abandoned and reported.  On top of that the part of Hypre 2.10 that parlinalgcpp calls: the
// data structures, communication packages and products do what Hypre documents; the algebraic preconditioners are
// replaced by simple relaxations that depend on every parameter set and insist on having been set up.
#ifndef STANDIN_HPP
#define STANDIN_HPP
#include "hypre_all.h"
#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <exception>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>
#include <sys/mman.h>
#include <ucontext.h>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
#define STANDIN_ASAN 1
#endif

namespace standin
{
struct Fibre { ucontext_t ctx; char* stack = nullptr; bool started = false, done = false; void* fake = nullptr; };
struct Call { std::string kind; std::vector<std::vector<char>> in; std::vector<bool> here; int count = 0, left = 0; };
struct World
{
    int P = 0, rank = -1; std::vector<Fibre> f; ucontext_t main; std::function<void(int)> body; std::exception_ptr error; std::string broken;
    long progress = 0; std::map<long, Call> calls; std::vector<long> seq; std::map<std::pair<int, int>, std::deque<std::vector<char>>> mail; long collectives = 0, messages = 0;
    void* main_fake = nullptr; const void* main_bottom = nullptr; size_t main_size = 0;
};
inline World& w() { static World x; return x; }
const size_t STACK = 512 * 1024;
inline std::vector<char*>& stacks() { static std::vector<char*> v; return v; }

inline void to_main(bool finished)
{
    World& x = w(); Fibre& f = x.f[x.rank]; (void) finished;
#ifdef STANDIN_ASAN
    __sanitizer_start_switch_fiber(finished ? nullptr : &f.fake, x.main_bottom, x.main_size);
#endif
    swapcontext(&f.ctx, &x.main);
#ifdef STANDIN_ASAN
    __sanitizer_finish_switch_fiber(w().f[w().rank].fake, &x.main_bottom, &x.main_size);
#endif
}
inline void yield() { to_main(false); }
// gives up the whole run
inline void fail(const std::string& what) { World& x = w(); if (x.broken.empty()) { x.broken = "rank " + std::to_string(x.rank) + ": " + what; } for (;;) { yield(); } }
inline void entry()
{
    World& x = w();
#ifdef STANDIN_ASAN
    __sanitizer_finish_switch_fiber(nullptr, &x.main_bottom, &x.main_size);
#endif
    int r = x.rank;
    try { x.body(r); }
    catch (...) { if (!x.error) { x.error = std::current_exception(); } }
    x.f[r].done = true; ++x.progress; for (;;) { to_main(false); }
}
inline void resume(int r)
{
    World& x = w(); Fibre& f = x.f[r]; x.rank = r;
#ifdef STANDIN_ASAN
    __sanitizer_start_switch_fiber(&x.main_fake, f.stack, STACK);
#endif
    swapcontext(&x.main, &f.ctx);
#ifdef STANDIN_ASAN
    const void* b; size_t n; __sanitizer_finish_switch_fiber(x.main_fake, &b, &n);
#endif
    x.rank = -1;
}
struct Broken : std::runtime_error { using std::runtime_error::runtime_error; };

// runs body(rank) on P ranks; throws what a rank throws, or Broken
inline void run(int P, std::function<void(int)> body)
{
    World& x = w(); x.P = P; x.rank = -1; x.f.assign(P, Fibre()); x.body = std::move(body); x.error = nullptr; x.broken.clear(); x.progress = 0; x.calls.clear(); x.seq.assign(P, 0); x.mail.clear(); hypre__global_error = 0;
    while ((int) stacks().size() < P)
    {
        char* m = (char*) mmap(nullptr, STACK + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (m == (char*) MAP_FAILED) { throw std::bad_alloc(); }
        mprotect(m, 4096, PROT_NONE); stacks().push_back(m + 4096);
    }
    for (int r = 0; r < P; ++r)
    {
        Fibre& f = x.f[r]; f.stack = stacks()[r];
#ifdef STANDIN_ASAN
        ASAN_UNPOISON_MEMORY_REGION(f.stack, STACK);
#endif
        getcontext(&f.ctx); f.ctx.uc_stack.ss_sp = f.stack; f.ctx.uc_stack.ss_size = STACK; f.ctx.uc_link = nullptr; makecontext(&f.ctx, (void (*)()) entry, 0);
    }
    for (;;)
    {
        bool all = true; long before = x.progress;
        for (int r = 0; r < P; ++r)
        {
            if (x.f[r].done) { continue; } all = false; resume(r);
            if (x.error) { std::rethrow_exception(x.error); }
            if (!x.broken.empty()) { throw Broken(x.broken); }
        }
        if (all) { break; }
        if (x.progress == before) { std::string t = "the ranks wait for each other forever:"; for (int r = 0; r < P; ++r) { t += " rank " + std::to_string(r) + (x.f[r].done ? " has ended" : " waits"); auto c = x.calls.find(x.seq[r]); if (!x.f[r].done && c != x.calls.end() && c->second.here[r]) { t += " in " + c->second.kind; } t += r + 1 < P ? "," : ""; } throw Broken(t); }
    }
    for (auto& m : x.mail) { if (!m.second.empty()) { throw Broken("a message from rank " + std::to_string(m.first.first) + " to rank " + std::to_string(m.first.second) + " was never received"); } }
}

// everybody's bytes, in order of rank
inline std::vector<std::vector<char>> gather(const std::string& kind, const void* data, size_t n)
{
    World& x = w(); int me = x.rank; long k = x.seq[me]; Call& c = x.calls[k];
    if (c.here.empty()) { c.kind = kind; c.here.assign(x.P, false); c.in.resize(x.P); } else if (c.kind != kind) { fail("calls " + kind + " while another rank calls " + c.kind); }
    c.in[me].assign((const char*) data, (const char*) data + n); c.here[me] = true; ++c.count; ++x.progress; ++x.collectives;
    while (x.calls[k].count < x.P) { yield(); }
    Call& d = x.calls[k]; std::vector<std::vector<char>> o = d.in; ++x.progress; ++x.seq[me]; if (++d.left == x.P) { x.calls.erase(k); } return o;
}
inline void check_comm(MPI_Comm c) { if (c != MPI_COMM_WORLD) { fail("a communicator that does not exist"); } }
inline size_t width(MPI_Datatype t) { switch (t) { case MPI_CHAR: return 1; case MPI_INT: case MPI_FLOAT: case MPI_UNSIGNED: return 4; case MPI_DOUBLE: case MPI_LONG: case MPI_LONG_LONG: case MPI_UNSIGNED_LONG: return 8; } fail("unknown data type"); return 1; }
template <typename T> void fold(T* a, const T* b, int n, MPI_Op op) { for (int i = 0; i < n; ++i) { a[i] = op == MPI_SUM ? a[i] + b[i] : op == MPI_MAX ? std::max(a[i], b[i]) : op == MPI_MIN ? std::min(a[i], b[i]) : op == MPI_PROD ? a[i] * b[i] : op == MPI_LOR ? T(a[i] || b[i]) : T(a[i] && b[i]); } }
inline void fold(std::vector<char>& a, const std::vector<char>& b, int n, MPI_Datatype t, MPI_Op op)
{
    if (op < MPI_MAX || op > MPI_LAND) { fail("unknown operation"); }
    switch (t) { case MPI_INT: fold((int*) a.data(), (const int*) b.data(), n, op); break; case MPI_UNSIGNED: fold((unsigned*) a.data(), (const unsigned*) b.data(), n, op); break; case MPI_FLOAT: fold((float*) a.data(), (const float*) b.data(), n, op); break; case MPI_DOUBLE: fold((double*) a.data(), (const double*) b.data(), n, op); break; case MPI_CHAR: fold((signed char*) a.data(), (const signed char*) b.data(), n, op); break; default: fold((long*) a.data(), (const long*) b.data(), n, op); }
}
inline std::string what(const char* name, int n, MPI_Datatype t, int op) { return std::string(name) + "(count " + std::to_string(n) + ", type " + std::to_string(t) + ", operation or root " + std::to_string(op) + ")"; }
inline void reduce(const char* name, const void* in, void* out, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c, int first, int last, int root)
{
    check_comm(c); size_t wd = width(t); if (n < 0) { fail("negative count"); } if (in == MPI_IN_PLACE) { in = out; } auto all = gather(what(name, n, t, op * 100 + root), in, n * wd); int me = w().rank; first = 0; if (last < -1) { last = me + last + 2; } else if (last == -1) { last = w().P - 1; }
    if (root >= 0 && root != me) { return; } if (first > last) { return; } std::vector<char> a = all[first]; for (int r = first + 1; r <= last; ++r) { fold(a, all[r], n, t, op); } if (!a.empty()) { std::memcpy(out, a.data(), a.size()); }
}
inline std::vector<double> sum(const std::vector<double>& v) { std::vector<double> o(v.size()); reduce("Allreduce", v.data(), o.data(), (int) v.size(), MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD, 0, -1, -1); return o; }
inline double sum(double v) { return sum(std::vector<double>(1, v))[0]; }
template <typename T> std::vector<std::vector<T>> gather(const std::string& kind, const std::vector<T>& v)
{ auto b = gather(kind, v.data(), v.size() * sizeof(T)); std::vector<std::vector<T>> o; for (auto& x : b) { o.emplace_back((const T*) x.data(), (const T*) (x.data() + x.size())); } return o; }
inline void send(int to, const void* data, size_t n) { World& x = w(); if (to < 0 || to >= x.P || to == x.rank) { fail("message to rank " + std::to_string(to)); } x.mail[ {x.rank, to}].emplace_back((const char*) data, (const char*) data + n); ++x.progress; ++x.messages; }
inline std::vector<char> receive(int from) { World& x = w(); if (from < 0 || from >= x.P || from == x.rank) { fail("message from rank " + std::to_string(from)); } int me = x.rank; while (x.mail[ {from, me}].empty()) { yield(); } auto& q = x.mail[ {from, me}]; std::vector<char> o = std::move(q.front()); q.pop_front(); ++x.progress; return o; }
}

int hypre__global_error = 0;
int MPI_Init(int*, char***) { return 0; }
int MPI_Finalize() { return 0; }
int MPI_Comm_rank(MPI_Comm c, int* r) { standin::check_comm(c); *r = standin::w().rank; return 0; }
int MPI_Comm_size(MPI_Comm c, int* n) { standin::check_comm(c); *n = standin::w().P; return 0; }
int MPI_Barrier(MPI_Comm c) { standin::check_comm(c); standin::gather("Barrier", "", 0); return 0; }
int MPI_Allreduce(const void* in, void* out, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { standin::reduce("Allreduce", in, out, n, t, op, c, 0, -1, -1); return 0; }
int MPI_Reduce(const void* in, void* out, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) { standin::reduce("Reduce", in, out, n, t, op, c, 0, -1, root); return 0; }
int MPI_Scan(const void* in, void* out, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { standin::reduce("Scan", in, out, n, t, op, c, 0, -2, -1); return 0; }
int MPI_Exscan(const void* in, void* out, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { standin::reduce("Exscan", in, out, n, t, op, c, 0, -3, -1); return 0; }
int MPI_Bcast(void* data, int n, MPI_Datatype t, int root, MPI_Comm c)
{
    standin::check_comm(c); size_t wd = standin::width(t); if (root < 0 || root >= standin::w().P) { standin::fail("broadcast from rank " + std::to_string(root)); }
    auto all = standin::gather(standin::what("Bcast", n, t, root), data, n * wd); if (!all[root].empty()) { std::memcpy(data, all[root].data(), all[root].size()); } return 0;
}
double MPI_Wtime() { return 0; }
int MPI_Allgatherv(const void* in, int n, MPI_Datatype t, void* out, const int* counts, const int* at, MPI_Datatype u, MPI_Comm c)
{
    standin::check_comm(c); size_t wd = standin::width(t); if (t != u) { standin::fail("Allgatherv with two types"); } if (in == MPI_IN_PLACE) { n = counts[standin::w().rank]; in = (char*) out + at[standin::w().rank] * wd; }
    auto all = standin::gather("Allgatherv", in, n * wd); for (size_t r = 0; r < all.size(); ++r) { if (all[r].size() != counts[r] * wd) { standin::fail("Allgatherv with a wrong count"); } if (counts[r] > 0) { std::memcpy((char*) out + at[r] * wd, all[r].data(), all[r].size()); } } return 0;
}
int MPI_Gather(const void* in, int n, MPI_Datatype t, void* out, int m, MPI_Datatype u, int root, MPI_Comm c)
{
    standin::check_comm(c); size_t wd = standin::width(t); bool me = standin::w().rank == root; if (me && (n != m || t != u)) { standin::fail("Gather with two sizes"); } if (in == MPI_IN_PLACE) { in = (char*) out + root * n * wd; }
    auto all = standin::gather(standin::what("Gather", n, t, root), in, n * wd); for (size_t r = 0; me && r < all.size(); ++r) { if (n > 0) { std::memcpy((char*) out + r * n * wd, all[r].data(), n * wd); } } return 0;
}
int MPI_Allgather(const void* in, int n, MPI_Datatype t, void* out, int m, MPI_Datatype u, MPI_Comm c)
{
    standin::check_comm(c); size_t wd = standin::width(t); if (n != m || t != u) { standin::fail("Allgather with two sizes"); } if (in == MPI_IN_PLACE) { in = (char*) out + standin::w().rank * n * wd; }
    auto all = standin::gather(standin::what("Allgather", n, t, 0), in, n * wd); for (size_t r = 0; r < all.size(); ++r) { if (n > 0) { std::memcpy((char*) out + r * n * wd, all[r].data(), n * wd); } } return 0;
}

void* standin_calloc(size_t n, size_t size) { return n ? std::calloc(n, size) : nullptr; }
void standin_free(void* p) { std::free(p); }
HYPRE_Int HYPRE_AssumedPartitionCheck() { return 1; }
HYPRE_Int hypre_BinarySearch(HYPRE_Int* l, HYPRE_Int v, HYPRE_Int n) { HYPRE_Int* p = std::lower_bound(l, l + n, v); return p != l + n && *p == v ? (HYPRE_Int) (p - l) : -1; }

hypre_ParVector* hypre_ParVectorCreate(MPI_Comm c, HYPRE_Int n, HYPRE_Int* part)
{
    standin::check_comm(c); if (!part) { standin::fail("hypre_ParVectorCreate without a partition"); }
    hypre_ParVector* v = hypre_CTAlloc(hypre_ParVector, 1); v->comm = c; v->global_size = n; v->first_index = part[0]; v->last_index = part[1] - 1; v->partitioning = part; v->local_vector = hypre_CTAlloc(hypre_Vector, 1); v->local_vector->size = part[1] - part[0]; v->local_vector->num_vectors = 1; v->local_vector->owns_data = 1; v->owns_data = 1; v->owns_partitioning = 1; return v;
}
HYPRE_Int hypre_ParVectorInitialize(hypre_ParVector* v) { if (!v->local_vector->data) { v->local_vector->data = hypre_CTAlloc(HYPRE_Complex, v->local_vector->size); } return 0; }
HYPRE_Int hypre_ParVectorDestroy(hypre_ParVector* v)
{
    if (!v) { return 0; } if (v->owns_data) { if (v->local_vector->owns_data) { hypre_TFree(v->local_vector->data); } hypre_TFree(v->local_vector); }
    if (v->owns_partitioning) { hypre_TFree(v->partitioning); } hypre_TFree(v); return 0;
}
HYPRE_Int hypre_ParVectorSetDataOwner(hypre_ParVector* v, HYPRE_Int o) { v->owns_data = o; return 0; }
HYPRE_Int hypre_ParVectorSetPartitioningOwner(hypre_ParVector* v, HYPRE_Int o) { v->owns_partitioning = o; return 0; }
HYPRE_Int hypre_SeqVectorSetDataOwner(hypre_Vector* v, HYPRE_Int o) { v->owns_data = o; return 0; }

hypre_ParCSRMatrix* hypre_ParCSRMatrixCreate(MPI_Comm c, HYPRE_Int rows, HYPRE_Int cols, HYPRE_Int* rs, HYPRE_Int* cs, HYPRE_Int offd, HYPRE_Int nd, HYPRE_Int no)
{
    standin::check_comm(c); if (!rs || !cs) { standin::fail("hypre_ParCSRMatrixCreate without a partition"); }
    hypre_ParCSRMatrix* m = hypre_CTAlloc(hypre_ParCSRMatrix, 1); m->comm = c; m->global_num_rows = rows; m->global_num_cols = cols; m->first_row_index = rs[0]; m->last_row_index = rs[1] - 1; m->first_col_diag = cs[0]; m->last_col_diag = cs[1] - 1; m->row_starts = rs; m->col_starts = cs;
    m->diag = hypre_CTAlloc(hypre_CSRMatrix, 1); m->diag->num_rows = rs[1] - rs[0]; m->diag->num_cols = cs[1] - cs[0]; m->diag->num_nonzeros = nd; m->diag->owns_data = 1; m->offd = hypre_CTAlloc(hypre_CSRMatrix, 1); m->offd->num_rows = rs[1] - rs[0]; m->offd->num_cols = offd; m->offd->num_nonzeros = no; m->offd->owns_data = 1;
    m->owns_data = m->owns_row_starts = m->owns_col_starts = 1; m->num_nonzeros = -1; return m;
}
HYPRE_Int hypre_CSRMatrixDestroy(hypre_CSRMatrix* m) { if (!m) { return 0; } hypre_TFree(m->i); if (m->rownnz) { hypre_TFree(m->rownnz); } if (m->owns_data) { hypre_TFree(m->data); hypre_TFree(m->j); } hypre_TFree(m); return 0; }
HYPRE_Int hypre_MatvecCommPkgDestroy(hypre_ParCSRCommPkg* p)
{ if (!p) { return 0; } if (p->num_sends) { hypre_TFree(p->send_procs); } hypre_TFree(p->send_map_starts); if (p->send_map_elmts) { hypre_TFree(p->send_map_elmts); } if (p->num_recvs) { hypre_TFree(p->recv_procs); } hypre_TFree(p->recv_vec_starts); hypre_TFree(p); return 0; }
HYPRE_Int hypre_ParCSRMatrixDestroy(hypre_ParCSRMatrix* m)
{
    if (!m) { return 0; } if (m->owns_data) { hypre_CSRMatrixDestroy(m->diag); hypre_CSRMatrixDestroy(m->offd); if (m->col_map_offd) { hypre_TFree(m->col_map_offd); } if (m->comm_pkg) { hypre_MatvecCommPkgDestroy(m->comm_pkg); } }
    if (m->owns_row_starts) { hypre_TFree(m->row_starts); } if (m->owns_col_starts) { hypre_TFree(m->col_starts); } hypre_TFree(m); return 0;
}
HYPRE_Int hypre_ParCSRMatrixSetNumNonzeros(hypre_ParCSRMatrix* m) { HYPRE_Int n = m->diag->i[m->diag->num_rows] + m->offd->i[m->offd->num_rows]; MPI_Allreduce(&n, &m->num_nonzeros, 1, MPI_INT, MPI_SUM, m->comm); return 0; }
HYPRE_Int hypre_CSRMatrixSetRownnz(hypre_CSRMatrix* m)
{
    HYPRE_Int n = 0; for (int i = 0; i < m->num_rows; ++i) { n += m->i[i + 1] > m->i[i]; } m->num_rownnz = n; if (n == 0 || n == m->num_rows) { m->rownnz = nullptr; return 0; }
    m->rownnz = hypre_CTAlloc(HYPRE_Int, n); n = 0; for (int i = 0; i < m->num_rows; ++i) { if (m->i[i + 1] > m->i[i]) { m->rownnz[n++] = i; } } return 0;
}
// moves the diagonal entry to the front of its row; stops at the first row without one
HYPRE_Int hypre_CSRMatrixReorder(hypre_CSRMatrix* m)
{
    if (m->num_rows != m->num_cols) { return -1; }
    for (int i = 0; i < m->num_rows; ++i) for (int k = m->i[i]; k < m->i[i + 1]; ++k) { if (m->j[k] == i) { std::swap(m->j[k], m->j[m->i[i]]); std::swap(m->data[k], m->data[m->i[i]]); break; } if (k == m->i[i + 1] - 1) { return -2; } }
    return 0;
}
HYPRE_Int hypre_MatvecCommPkgCreate(hypre_ParCSRMatrix* A)
{
    standin::World& x = standin::w(); int me = x.rank, P = x.P; std::vector<int> mine{A->col_starts[0], A->col_starts[1]}; mine.insert(mine.end(), A->col_map_offd, A->col_map_offd + A->offd->num_cols); auto all = standin::gather("MatvecCommPkgCreate", mine);
    int owner = 0; hypre_ParCSRCommPkg* p = hypre_CTAlloc(hypre_ParCSRCommPkg, 1); p->comm = A->comm; std::vector<int> rp, rs(1, 0), sp, ss(1, 0), se;
    for (int k = 0; k < A->offd->num_cols; ++k)
    {
        int g = A->col_map_offd[k]; for (owner = 0; owner < P && !(g >= all[owner][0] && g < all[owner][1]); ++owner) {} if (owner == P || owner == me) { standin::fail("column map entry " + std::to_string(g) + " is not a column of another rank"); } if (k > 0 && g <= A->col_map_offd[k - 1]) { standin::fail("the column map is not sorted"); }
        if (rp.empty() || rp.back() != owner) { rp.push_back(owner); rs.push_back(rs.back()); } ++rs.back();
    }
    for (int r = 0; r < P; ++r) { if (r == me) { continue; } size_t before = se.size(); for (size_t k = 2; k < all[r].size(); ++k) { if (all[r][k] >= mine[0] && all[r][k] < mine[1]) { se.push_back(all[r][k] - mine[0]); } } if (se.size() > before) { sp.push_back(r); ss.push_back((int) se.size()); } }
    auto copy = [](const std::vector<int>& v) { HYPRE_Int* o = hypre_CTAlloc(HYPRE_Int, v.size()); if (!v.empty()) { std::memcpy(o, v.data(), v.size() * sizeof(int)); } return o; };
    p->num_sends = (int) sp.size(); p->send_procs = copy(sp); p->send_map_starts = copy(ss); p->send_map_elmts = copy(se); p->num_recvs = (int) rp.size(); p->recv_procs = copy(rp); p->recv_vec_starts = copy(rs); A->comm_pkg = p; return 0;
}
struct hypre_ParCSRCommHandle { int job; hypre_ParCSRCommPkg* p; char* out; size_t wd; };
// 1 and 2: complex values, forward (send map to receive vector) and backward; 11 and 12: the same for integers.  What is received is there after Destroy.
hypre_ParCSRCommHandle* hypre_ParCSRCommHandleCreate(HYPRE_Int job, hypre_ParCSRCommPkg* p, void* in, void* out)
{
    if (job != 1 && job != 2 && job != 11 && job != 12) { standin::fail("unknown communication job"); } size_t wd = job < 10 ? 8 : 4; const char* s = (const char*) in;
    if (job % 10 == 1) { for (int i = 0; i < p->num_sends; ++i) { standin::send(p->send_procs[i], s + p->send_map_starts[i] * wd, (p->send_map_starts[i + 1] - p->send_map_starts[i]) * wd); } }
    else { for (int i = 0; i < p->num_recvs; ++i) { standin::send(p->recv_procs[i], s + p->recv_vec_starts[i] * wd, (p->recv_vec_starts[i + 1] - p->recv_vec_starts[i]) * wd); } }
    return new hypre_ParCSRCommHandle{job, p, (char*) out, wd};
}
HYPRE_Int hypre_ParCSRCommHandleDestroy(hypre_ParCSRCommHandle* h)
{
    if (!h) { return 0; } hypre_ParCSRCommPkg* p = h->p; bool forward = h->job % 10 == 1; int n = forward ? p->num_recvs : p->num_sends; int* procs = forward ? p->recv_procs : p->send_procs; int* starts = forward ? p->recv_vec_starts : p->send_map_starts;
    for (int i = 0; i < n; ++i) { std::vector<char> m = standin::receive(procs[i]); if (m.size() != (starts[i + 1] - starts[i]) * h->wd) { standin::fail("a message of " + std::to_string(m.size()) + " bytes where " + std::to_string((starts[i + 1] - starts[i]) * h->wd) + " were expected"); } if (!m.empty()) { std::memcpy(h->out + starts[i] * h->wd, m.data(), m.size()); } }
    delete h; return 0;
}
// the rows of B that belong to the off-diagonal columns of A, with global columns
hypre_CSRMatrix* hypre_ParCSRMatrixExtractBExt(hypre_ParCSRMatrix* B, hypre_ParCSRMatrix* A, HYPRE_Int)
{
    std::vector<double> mine{(double) B->row_starts[0], (double) B->row_starts[1]};      // rows as global row, count, (column, value) ...
    for (int i = 0; i < B->diag->num_rows; ++i)
    {
        mine.push_back(B->diag->i[i + 1] - B->diag->i[i] + B->offd->i[i + 1] - B->offd->i[i]);
        for (int k = B->diag->i[i]; k < B->diag->i[i + 1]; ++k) { mine.push_back(B->diag->j[k] + B->first_col_diag); mine.push_back(B->diag->data[k]); }
        for (int k = B->offd->i[i]; k < B->offd->i[i + 1]; ++k) { mine.push_back(B->col_map_offd[B->offd->j[k]]); mine.push_back(B->offd->data[k]); }
    }
    auto all = standin::gather("ExtractBExt", mine); int n = A->offd->num_cols; std::vector<int> I(1, 0), J; std::vector<double> D;
    for (int c = 0; c < n; ++c)
    {
        int g = A->col_map_offd[c], r = 0; for (; r < (int) all.size() && !(g >= all[r][0] && g < all[r][1]); ++r) {} if (r == (int) all.size()) { standin::fail("no rank has row " + std::to_string(g) + " of the right factor"); }
        size_t at = 2; for (int i = (int) all[r][0]; i < g; ++i) { at += 1 + 2 * (size_t) all[r][at]; } int m = (int) all[r][at++]; for (int k = 0; k < m; ++k) { J.push_back((int) all[r][at++]); D.push_back(all[r][at++]); } I.push_back((int) J.size());
    }
    hypre_CSRMatrix* e = hypre_CTAlloc(hypre_CSRMatrix, 1); e->num_rows = n; e->num_cols = B->global_num_cols; e->num_nonzeros = (int) J.size(); e->owns_data = 1; e->i = hypre_CTAlloc(HYPRE_Int, n + 1); e->j = hypre_CTAlloc(HYPRE_Int, J.size()); e->data = hypre_CTAlloc(HYPRE_Complex, D.size());
    std::copy(I.begin(), I.end(), e->i); std::copy(J.begin(), J.end(), e->j); std::copy(D.begin(), D.end(), e->data); return e;
}
HYPRE_Int hypre_ParCSRMatrixMatvec(HYPRE_Complex alpha, hypre_ParCSRMatrix* A, hypre_ParVector* xv, HYPRE_Complex beta, hypre_ParVector* yv)
{
    if (!A->comm_pkg) { hypre_MatvecCommPkgCreate(A); } hypre_ParCSRCommPkg* p = A->comm_pkg; const double* x = xv->local_vector->data; double* y = yv->local_vector->data; std::vector<double> buf, ext(A->offd->num_cols);
    for (int k = 0; k < p->send_map_starts[p->num_sends]; ++k) { buf.push_back(x[p->send_map_elmts[k]]); } hypre_ParCSRCommHandleDestroy(hypre_ParCSRCommHandleCreate(1, p, buf.data(), ext.data()));
    for (int i = 0; i < A->diag->num_rows; ++i) { double s = 0; for (int k = A->diag->i[i]; k < A->diag->i[i + 1]; ++k) { s += A->diag->data[k] * x[A->diag->j[k]]; } for (int k = A->offd->i[i]; k < A->offd->i[i + 1]; ++k) { s += A->offd->data[k] * ext[A->offd->j[k]]; } y[i] = (beta == 0 ? 0 : beta * y[i]) + alpha * s; }
    return 0;
}
HYPRE_Int hypre_ParCSRMatrixMatvecT(HYPRE_Complex alpha, hypre_ParCSRMatrix* A, hypre_ParVector* xv, HYPRE_Complex beta, hypre_ParVector* yv)
{
    if (!A->comm_pkg) { hypre_MatvecCommPkgCreate(A); } hypre_ParCSRCommPkg* p = A->comm_pkg; const double* x = xv->local_vector->data; double* y = yv->local_vector->data; std::vector<double> ext(A->offd->num_cols), buf(p->send_map_starts[p->num_sends]), o(A->diag->num_cols);
    for (int i = 0; i < A->diag->num_rows; ++i) { for (int k = A->diag->i[i]; k < A->diag->i[i + 1]; ++k) { o[A->diag->j[k]] += A->diag->data[k] * x[i]; } for (int k = A->offd->i[i]; k < A->offd->i[i + 1]; ++k) { ext[A->offd->j[k]] += A->offd->data[k] * x[i]; } }
    hypre_ParCSRCommHandleDestroy(hypre_ParCSRCommHandleCreate(2, p, ext.data(), buf.data())); for (size_t k = 0; k < buf.size(); ++k) { o[p->send_map_elmts[k]] += buf[k]; }
    for (int j = 0; j < A->diag->num_cols; ++j) { y[j] = (beta == 0 ? 0 : beta * y[j]) + alpha * o[j]; } return 0;
}

namespace standin
{
// one sweep of a relaxation by type: 0 Jacobi, 1 l1-Jacobi, 2 symmetric Gauss-Seidel with l1 diagonal, 3 Kaczmarz with l1 as row norms; others as 1
inline std::vector<double> matvec(hypre_ParCSRMatrix* A, const std::vector<double>& x)
{
    std::vector<double> y(A->diag->num_rows); hypre_Vector lx{(double*) x.data(), (int) x.size(), 0, 1, 0, 0, 0}, ly{y.data(), (int) y.size(), 0, 1, 0, 0, 0}; hypre_ParVector px{A->comm, A->global_num_cols, A->first_col_diag, A->last_col_diag, A->col_starts, &lx, 0, 0}, py{A->comm, A->global_num_rows, A->first_row_index, A->last_row_index, A->row_starts, &ly, 0, 0};
    hypre_ParCSRMatrixMatvec(1, A, &px, 0, &py); return y;
}
inline std::vector<double> local(hypre_ParVector* v, int n) { return std::vector<double>(v->local_vector->data, v->local_vector->data + n); }
inline double dot(const std::vector<double>& a, const std::vector<double>& b) { double s = 0; for (size_t i = 0; i < a.size(); ++i) { s += a[i] * b[i]; } return sum(s); }
inline std::vector<double> diagonal(hypre_ParCSRMatrix* A) { std::vector<double> d(A->diag->num_rows); for (int i = 0; i < A->diag->num_rows; ++i) { for (int k = A->diag->i[i]; k < A->diag->i[i + 1]; ++k) { if (A->diag->j[k] == i) { d[i] += A->diag->data[k]; } } } return d; }
inline std::vector<double> l1(hypre_ParCSRMatrix* A) { std::vector<double> d(A->diag->num_rows); for (int i = 0; i < A->diag->num_rows; ++i) { for (int k = A->diag->i[i]; k < A->diag->i[i + 1]; ++k) { d[i] += std::fabs(A->diag->data[k]); } for (int k = A->offd->i[i]; k < A->offd->i[i + 1]; ++k) { d[i] += std::fabs(A->offd->data[k]); } } return d; }

struct Solver
{
    virtual ~Solver() {}
    int kind; bool ready = false; int rows = -1; std::map<std::string, double> par;          // 1 PCG, 2 AMG, 3 ParaSails, 4 LOBPCG
    HYPRE_PtrToParSolverFcn precond = nullptr, precond_setup = nullptr; HYPRE_Solver precond_solver = nullptr; bool has_precond = false;
    HYPRE_MatvecFunctions* mv = nullptr; mv_InterfaceInterpreter* interp = nullptr; void* A = nullptr; HYPRE_PtrToSolverFcn lob_precond = nullptr;
};
inline std::set<Solver*>& live() { static std::set<Solver*> s; return s; }
inline HYPRE_Solver make(int kind) { Solver* s = new Solver; s->kind = kind; live().insert(s); return (HYPRE_Solver) s; }
inline Solver& get(HYPRE_Solver h, int kind, const char* call) { Solver* s = (Solver*) h; if (!live().count(s)) { fail(std::string(call) + " of a solver that does not exist"); } if (s->kind != kind) { fail(std::string(call) + " of a solver of another kind"); } return *s; }
inline HYPRE_Int destroy(HYPRE_Solver h, int kind, const char* call) { Solver* s = &get(h, kind, call); live().erase(s); delete s; return 0; }
// a number in (0.4, 0.9) that depends on all parameters but the stopping criterion
inline double weight(const Solver& s) { unsigned long h = 1469598103934665603ul; for (auto& p : s.par) { if (p.first == "print" || p.first == "iter" || p.first == "tol") { continue; } for (char c : p.first) { h = (h ^ (unsigned char) c) * 1099511628211ul; } unsigned long u; std::memcpy(&u, &p.second, 8); h = (h ^ u ^ (u >> 32)) * 1099511628211ul; } return 0.4 + 0.5 * (double) (h >> 40) / (double) (1 << 24); }
}
HYPRE_Int hypre_ParCSRRelax(hypre_ParCSRMatrix* A, hypre_ParVector* fv, HYPRE_Int type, HYPRE_Int times, HYPRE_Real* l1, HYPRE_Real w, HYPRE_Real omega, HYPRE_Real, HYPRE_Real, HYPRE_Int, HYPRE_Real, hypre_ParVector* uv, hypre_ParVector* vv, hypre_ParVector*)
{
    int n = A->diag->num_rows; const double* f = fv->local_vector->data; double* u = uv->local_vector->data; if (!vv) { standin::fail("relaxation without a work vector"); } double* v = vv->local_vector->data; std::vector<double> d = standin::diagonal(A);
    for (int s = 0; s < times; ++s)
    {
        std::vector<double> x(u, u + n), a = standin::matvec(A, x); for (int i = 0; i < n; ++i) { v[i] = f[i] - a[i]; }
        auto off = [&](int i) { double t = a[i]; for (int k = A->diag->i[i]; k < A->diag->i[i + 1]; ++k) { t -= A->diag->data[k] * x[A->diag->j[k]]; } return t; };      // what other ranks contribute to row i
        auto row = [&](int i) { double t = 0; for (int k = A->diag->i[i]; k < A->diag->i[i + 1]; ++k) { t += A->diag->data[k] * u[A->diag->j[k]]; } return t; };
        if (type == 2) { for (int i = 0; i < n; ++i) { u[i] += omega * (f[i] - off(i) - row(i)) / l1[i]; } for (int i = n - 1; i >= 0; --i) { u[i] += omega * (f[i] - off(i) - row(i)) / l1[i]; } }
        else if (type == 3) { for (int pass = 0; pass < 2; ++pass) for (int q = 0; q < n; ++q) { int i = pass ? n - 1 - q : q; double r = omega * (f[i] - off(i) - row(i)) / l1[i]; for (int k = A->diag->i[i]; k < A->diag->i[i + 1]; ++k) { u[A->diag->j[k]] += r * A->diag->data[k]; } } }
        else if (type == 1) { for (int i = 0; i < n; ++i) { u[i] += w * v[i] / l1[i]; } }
        else { for (int i = 0; i < n; ++i) { u[i] += w * v[i] / d[i]; } }
    }
    return 0;
}

HYPRE_Int HYPRE_ParCSRPCGCreate(MPI_Comm c, HYPRE_Solver* s) { standin::check_comm(c); *s = standin::make(1); auto& p = standin::get(*s, 1, "PCGCreate"); p.par["tol"] = 1e-6; p.par["iter"] = 1000; return 0; }
HYPRE_Int HYPRE_ParCSRPCGDestroy(HYPRE_Solver s) { return standin::destroy(s, 1, "ParCSRPCGDestroy"); }
HYPRE_Int HYPRE_PCGSetTol(HYPRE_Solver s, HYPRE_Real t) { standin::get(s, 1, "PCGSetTol").par["tol"] = t; return 0; }
HYPRE_Int HYPRE_PCGSetMaxIter(HYPRE_Solver s, HYPRE_Int n) { standin::get(s, 1, "PCGSetMaxIter").par["iter"] = n; return 0; }
HYPRE_Int HYPRE_ParCSRPCGSetTol(HYPRE_Solver s, HYPRE_Real t) { return HYPRE_PCGSetTol(s, t); }
HYPRE_Int HYPRE_ParCSRPCGSetMaxIter(HYPRE_Solver s, HYPRE_Int n) { return HYPRE_PCGSetMaxIter(s, n); }
HYPRE_Int HYPRE_ParCSRPCGSetPrintLevel(HYPRE_Solver s, HYPRE_Int) { standin::get(s, 1, "PCGSetPrintLevel"); return 0; }
HYPRE_Int HYPRE_ParCSRPCGSetPrecond(HYPRE_Solver s, HYPRE_PtrToParSolverFcn m, HYPRE_PtrToParSolverFcn setup, HYPRE_Solver data) { auto& p = standin::get(s, 1, "PCGSetPrecond"); p.precond = m; p.precond_setup = setup; p.precond_solver = data; p.has_precond = true; return 0; }
HYPRE_Int HYPRE_ParCSRPCGSetup(HYPRE_Solver s, HYPRE_ParCSRMatrix A, HYPRE_ParVector b, HYPRE_ParVector x) { auto& p = standin::get(s, 1, "PCGSetup"); if (!A) { standin::fail("PCGSetup without a matrix"); } p.ready = true; p.rows = A->diag->num_rows; if (p.has_precond) { p.precond_setup(p.precond_solver, A, b, x); } return 0; }
HYPRE_Int HYPRE_ParCSRPCGSolve(HYPRE_Solver h, HYPRE_ParCSRMatrix A, HYPRE_ParVector bv, HYPRE_ParVector xv)
{
    auto& q = standin::get(h, 1, "PCGSolve"); if (!q.ready) { standin::fail("PCGSolve before PCGSetup"); } int n = A->diag->num_rows; if (n != q.rows) { standin::fail("PCGSolve of a matrix of another size than set up"); }
    std::vector<double> b = standin::local(bv, n), x = standin::local(xv, n), r = standin::matvec(A, x), z, p;
    auto M = [&](std::vector<double>& in) { if (!q.has_precond) { return in; } std::vector<double> out(n, 0.0); hypre_Vector li{in.data(), n, 0, 1, 0, 0, 0}, lo{out.data(), n, 0, 1, 0, 0, 0}; hypre_ParVector pi = *bv, po = *xv; pi.local_vector = &li; po.local_vector = &lo; q.precond(q.precond_solver, A, &pi, &po); return out; };
    p = M(b); double bb = standin::dot(p, b), tol = q.par["tol"]; if (bb == 0) { std::copy(b.begin(), b.end(), xv->local_vector->data); return 0; }
    for (int i = 0; i < n; ++i) { r[i] = b[i] - r[i]; } p = M(r); double gamma = standin::dot(r, p);
    for (int it = 0; it < (int) q.par["iter"] && gamma / bb >= tol * tol && gamma > 0; ++it)
    {
        std::vector<double> s = standin::matvec(A, p); double a = gamma / standin::dot(s, p); for (int i = 0; i < n; ++i) { x[i] += a * p[i]; r[i] -= a * s[i]; } z = M(r); double old = gamma; gamma = standin::dot(r, z); for (int i = 0; i < n; ++i) { p[i] = z[i] + gamma / old * p[i]; }
    }
    std::copy(x.begin(), x.end(), xv->local_vector->data); return 0;
}
HYPRE_Int HYPRE_ParCSRDiagScaleSetup(HYPRE_Solver, HYPRE_ParCSRMatrix, HYPRE_ParVector, HYPRE_ParVector) { return 0; }
HYPRE_Int HYPRE_ParCSRDiagScale(HYPRE_Solver, HYPRE_ParCSRMatrix A, HYPRE_ParVector y, HYPRE_ParVector x) { for (int i = 0; i < A->diag->num_rows; ++i) { x->local_vector->data[i] = y->local_vector->data[i] / A->diag->data[A->diag->i[i]]; } return 0; }

HYPRE_Int HYPRE_BoomerAMGCreate(HYPRE_Solver* s) { *s = standin::make(2); standin::get(*s, 2, "BoomerAMGCreate").par = {{"coarsen", 6}, {"agg", 0}, {"relax", 3}, {"sweeps", 1}, {"strong", 0.25}, {"interp", 0}, {"pmax", 0}, {"levels", 25}, {"print", 0}, {"iter", 20}, {"tol", 1e-7}}; return 0; }
HYPRE_Int HYPRE_BoomerAMGDestroy(HYPRE_Solver s) { return standin::destroy(s, 2, "BoomerAMGDestroy"); }
#define STANDIN_AMG(F, key, T) HYPRE_Int HYPRE_BoomerAMGSet##F(HYPRE_Solver s, T v) { standin::get(s, 2, "BoomerAMGSet" #F).par[key] = v; return 0; }
STANDIN_AMG(CoarsenType, "coarsen", HYPRE_Int) STANDIN_AMG(AggNumLevels, "agg", HYPRE_Int) STANDIN_AMG(RelaxType, "relax", HYPRE_Int) STANDIN_AMG(NumSweeps, "sweeps", HYPRE_Int) STANDIN_AMG(StrongThreshold, "strong", HYPRE_Real) STANDIN_AMG(InterpType, "interp", HYPRE_Int)
STANDIN_AMG(PMaxElmts, "pmax", HYPRE_Int) STANDIN_AMG(MaxLevels, "levels", HYPRE_Int) STANDIN_AMG(PrintLevel, "print", HYPRE_Int) STANDIN_AMG(MaxIter, "iter", HYPRE_Int) STANDIN_AMG(Tol, "tol", HYPRE_Real)
HYPRE_Int HYPRE_BoomerAMGSetup(HYPRE_Solver s, HYPRE_ParCSRMatrix A, HYPRE_ParVector, HYPRE_ParVector) { auto& p = standin::get(s, 2, "BoomerAMGSetup"); if (!A) { standin::fail("BoomerAMGSetup without a matrix"); } p.ready = true; p.rows = A->diag->num_rows; return 0; }
HYPRE_Int HYPRE_BoomerAMGSolve(HYPRE_Solver h, HYPRE_ParCSRMatrix A, HYPRE_ParVector bv, HYPRE_ParVector xv)
{
    auto& q = standin::get(h, 2, "BoomerAMGSolve"); if (!q.ready) { standin::fail("BoomerAMGSolve before BoomerAMGSetup"); } int n = A->diag->num_rows; if (n != q.rows) { standin::fail("BoomerAMGSolve of a matrix of another size than set up"); }
    std::vector<double> b = standin::local(bv, n), x = standin::local(xv, n), d = standin::l1(A); double w = standin::weight(q), bb = standin::dot(b, b), tol = q.par["tol"];
    for (int it = 0; it < (int) q.par["iter"]; ++it) { std::vector<double> a = standin::matvec(A, x); for (int i = 0; i < n; ++i) { a[i] = b[i] - a[i]; } if (tol > 0 && standin::dot(a, a) <= tol * tol * bb) { break; } for (int i = 0; i < n; ++i) { x[i] += w * a[i] / d[i]; } }
    std::copy(x.begin(), x.end(), xv->local_vector->data); return 0;
}

HYPRE_Int HYPRE_ParaSailsCreate(MPI_Comm c, HYPRE_Solver* s) { standin::check_comm(c); *s = standin::make(3); standin::get(*s, 3, "ParaSailsCreate").par = {{"thresh", 0.1}, {"nlevels", 1}, {"filter", 0.1}, {"sym", 1}, {"loadbal", 0}, {"reuse", 0}}; return 0; }
HYPRE_Int HYPRE_ParaSailsDestroy(HYPRE_Solver s) { return standin::destroy(s, 3, "ParaSailsDestroy"); }
HYPRE_Int HYPRE_ParaSailsSetParams(HYPRE_Solver s, HYPRE_Real t, HYPRE_Int n) { auto& p = standin::get(s, 3, "ParaSailsSetParams"); p.par["thresh"] = t; p.par["nlevels"] = n; return 0; }
HYPRE_Int HYPRE_ParaSailsSetFilter(HYPRE_Solver s, HYPRE_Real v) { standin::get(s, 3, "ParaSailsSetFilter").par["filter"] = v; return 0; }
HYPRE_Int HYPRE_ParaSailsSetSym(HYPRE_Solver s, HYPRE_Int v) { standin::get(s, 3, "ParaSailsSetSym").par["sym"] = v; return 0; }
HYPRE_Int HYPRE_ParaSailsSetLoadbal(HYPRE_Solver s, HYPRE_Real v) { standin::get(s, 3, "ParaSailsSetLoadbal").par["loadbal"] = v; return 0; }
HYPRE_Int HYPRE_ParaSailsSetReuse(HYPRE_Solver s, HYPRE_Int v) { standin::get(s, 3, "ParaSailsSetReuse").par["reuse"] = v; return 0; }
HYPRE_Int HYPRE_ParaSailsSetLogging(HYPRE_Solver s, HYPRE_Int) { standin::get(s, 3, "ParaSailsSetLogging"); return 0; }
HYPRE_Int HYPRE_ParaSailsSetup(HYPRE_Solver s, HYPRE_ParCSRMatrix A, HYPRE_ParVector, HYPRE_ParVector) { auto& p = standin::get(s, 3, "ParaSailsSetup"); if (!A) { standin::fail("ParaSailsSetup without a matrix"); } p.ready = true; p.rows = A->diag->num_rows; p.par["used"] = standin::weight(p); return 0; }
HYPRE_Int HYPRE_ParaSailsSolve(HYPRE_Solver s, HYPRE_ParCSRMatrix A, HYPRE_ParVector b, HYPRE_ParVector x)
{
    auto& p = standin::get(s, 3, "ParaSailsSolve"); if (!p.ready) { standin::fail("ParaSailsSolve before ParaSailsSetup"); } int n = A->diag->num_rows; if (n != p.rows) { standin::fail("ParaSailsSolve of a matrix of another size than set up"); } std::vector<double> d = standin::l1(A);
    for (int i = 0; i < n; ++i) { x->local_vector->data[i] = p.par["used"] * b->local_vector->data[i] / d[i]; } return 0;
}

struct mv_MultiVector { mv_TempMultiVector t; };
static void* standin_create_vector(void* v) { hypre_ParVector* s = (hypre_ParVector*) v; hypre_ParVector* o = hypre_ParVectorCreate(s->comm, s->global_size, s->partitioning); hypre_ParVectorSetPartitioningOwner(o, 0); hypre_ParVectorInitialize(o); return o; }
static HYPRE_Int standin_destroy_vector(void* v) { return hypre_ParVectorDestroy((hypre_ParVector*) v); }
HYPRE_Int HYPRE_ParCSRSetupInterpreter(mv_InterfaceInterpreter* i) { i->CreateVector = standin_create_vector; i->DestroyVector = standin_destroy_vector; return 0; }
HYPRE_Int HYPRE_ParCSRSetupMatvec(HYPRE_MatvecFunctions* m) { std::memset(m, 0, sizeof *m); return 0; }
mv_MultiVectorPtr mv_MultiVectorCreateFromSampleVector(void* i, HYPRE_Int n, void* sample) { mv_MultiVector* m = new mv_MultiVector; m->t.numVectors = n; m->t.mask = nullptr; m->t.ownsVectors = 1; m->t.ownsMask = 0; m->t.interpreter = (mv_InterfaceInterpreter*) i; m->t.vector = (void**) standin_calloc(n, sizeof(void*)); for (int k = 0; k < n; ++k) { m->t.vector[k] = m->t.interpreter->CreateVector(sample); } return m; }
void* mv_MultiVectorGetData(mv_MultiVectorPtr m) { return &m->t; }
void mv_MultiVectorDestroy(mv_MultiVectorPtr m) { for (int k = 0; k < m->t.numVectors; ++k) { m->t.interpreter->DestroyVector(m->t.vector[k]); } standin_free(m->t.vector); delete m; }
HYPRE_Int HYPRE_LOBPCGCreate(mv_InterfaceInterpreter* i, HYPRE_MatvecFunctions* m, HYPRE_Solver* s) { *s = standin::make(4); auto& p = standin::get(*s, 4, "LOBPCGCreate"); p.interp = i; p.mv = m; return 0; }
HYPRE_Int HYPRE_LOBPCGDestroy(HYPRE_Solver s) { return standin::destroy(s, 4, "LOBPCGDestroy"); }
HYPRE_Int HYPRE_LOBPCGSetup(HYPRE_Solver s, HYPRE_Matrix A, HYPRE_Vector, HYPRE_Vector) { auto& p = standin::get(s, 4, "LOBPCGSetup"); p.A = (void*) A; p.ready = true; return 0; }
HYPRE_Int HYPRE_LOBPCGSetPrecond(HYPRE_Solver s, HYPRE_PtrToSolverFcn f, HYPRE_PtrToSolverFcn, HYPRE_Solver data) { auto& p = standin::get(s, 4, "LOBPCGSetPrecond"); p.lob_precond = f; p.precond_solver = data; return 0; }
HYPRE_Int HYPRE_LOBPCGSetPrintLevel(HYPRE_Solver s, HYPRE_Int) { standin::get(s, 4, "LOBPCGSetPrintLevel"); return 0; }
HYPRE_Int HYPRE_LOBPCGSetTol(HYPRE_Solver s, HYPRE_Real) { standin::get(s, 4, "LOBPCGSetTol"); return 0; }
HYPRE_Int HYPRE_LOBPCGSetMaxIter(HYPRE_Solver s, HYPRE_Int) { standin::get(s, 4, "LOBPCGSetMaxIter"); return 0; }
// the eigenvectors of the smallest eigenvalues: the operator is applied to the unit vectors and the (small) matrix diagonalised by Jacobi rotations on every rank
HYPRE_Int HYPRE_LOBPCGSolve(HYPRE_Solver h, mv_MultiVectorPtr, mv_MultiVectorPtr xm, HYPRE_Real* evals)
{
    auto& q = standin::get(h, 4, "LOBPCGSolve"); if (!q.ready) { standin::fail("LOBPCGSolve before LOBPCGSetup"); } mv_TempMultiVector& t = xm->t; if (t.numVectors == 0) { return 0; } hypre_ParVector* v0 = (hypre_ParVector*) t.vector[0]; int first = v0->first_index, m = v0->last_index - first + 1, n = v0->global_size;
    hypre_ParVector* in = (hypre_ParVector*) q.interp->CreateVector(v0); hypre_ParVector* out = (hypre_ParVector*) q.interp->CreateVector(v0); void* data = q.mv->MatvecCreate ? q.mv->MatvecCreate(q.A, in) : nullptr; std::vector<std::vector<double>> a(n, std::vector<double>(n)), e(n, std::vector<double>(n));
    for (int j = 0; j < n; ++j)
    {
        for (int i = 0; i < m; ++i) { in->local_vector->data[i] = first + i == j; out->local_vector->data[i] = 7e77; } q.mv->Matvec(data, 1.0, q.A, in, 0.0, out); auto all = standin::gather("LOBPCG", standin::local(out, m)); int i = 0; for (auto& part : all) { for (double y : part) { a[i++][j] = y; } } e[j][j] = 1;
        for (int k = 0; k < m; ++k) { if (in->local_vector->data[k] != (first + k == j)) { standin::fail("the operator changed its input"); } }
    }
    if (q.mv->MatvecDestroy) { q.mv->MatvecDestroy(data); }
    if (q.lob_precond) { for (int i = 0; i < m; ++i) { in->local_vector->data[i] = ((hypre_ParVector*) t.vector[0])->local_vector->data[i]; out->local_vector->data[i] = 0; } q.lob_precond(q.precond_solver, (HYPRE_Matrix) q.A, (HYPRE_Vector) in, (HYPRE_Vector) out); for (int i = 0; i < m; ++i) { if (!std::isfinite(out->local_vector->data[i])) { standin::fail("the preconditioner gives numbers that are not finite"); } } }
    for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) { a[i][j] = a[j][i] = (a[i][j] + a[j][i]) / 2; }
    for (int sweep = 0; sweep < 60; ++sweep)
    {
        double off = 0; for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) { off += a[i][j] * a[i][j]; } if (off == 0) { break; }
        for (int p = 0; p < n; ++p) for (int r = p + 1; r < n; ++r)
        {
            if (a[p][r] == 0) { continue; } double th = (a[r][r] - a[p][p]) / (2 * a[p][r]), tt = (th >= 0 ? 1 : -1) / (std::fabs(th) + std::sqrt(th * th + 1)), c = 1 / std::sqrt(tt * tt + 1), s = tt * c;
            for (int k = 0; k < n; ++k) { double x = a[k][p], y = a[k][r]; a[k][p] = c * x - s * y; a[k][r] = s * x + c * y; } for (int k = 0; k < n; ++k) { double x = a[p][k], y = a[r][k]; a[p][k] = c * x - s * y; a[r][k] = s * x + c * y; } for (int k = 0; k < n; ++k) { double x = e[k][p], y = e[k][r]; e[k][p] = c * x - s * y; e[k][r] = s * x + c * y; }
        }
    }
    std::vector<int> ord(n); for (int i = 0; i < n; ++i) { ord[i] = i; } std::sort(ord.begin(), ord.end(), [&](int x, int y) { return a[x][x] < a[y][y]; });
    for (int k = 0; k < t.numVectors; ++k) { evals[k] = a[ord[k]][ord[k]]; for (int i = 0; i < m; ++i) { ((hypre_ParVector*) t.vector[k])->local_vector->data[i] = e[first + i][ord[k]]; } }
    q.interp->DestroyVector(in); q.interp->DestroyVector(out); return 0;
}
#endif
