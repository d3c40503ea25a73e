// C07: sparse structural operations preserve entries and produce valid matrices
// technique: property-based testing: random CSR matrices, selections and permutations against entry-by-entry reference models, plus sequences of extractions sharing a workspace
#include "gen.hpp"
#include "huge.hpp"
using pbt::S;

namespace
{
template <typename T>
Csr<T> gen(S& s, int r, int c) { return csr<T>(s, r, c, s.chance(0.4) ? REAL : INT); }

// the stored entries (row, column, value) as a multiset
template <typename T>
std::multiset<std::tuple<int, int, double>> entries(const la::SparseMatrix<T>& m)
{
    std::multiset<std::tuple<int, int, double>> o;
    for (int i = 0; i < m.Rows(); ++i) for (int k = m.GetIndptr()[i]; k < m.GetIndptr()[i + 1]; ++k) { o.insert(std::make_tuple(i, m.GetIndices()[k], (double) m.GetData()[k])); }
    return o;
}
template <typename T>
std::multiset<std::tuple<int, int, double>> entries(const Csr<T>& m) { return entries(m.mat()); }

template <typename T>
void transpose(S& s, int r, int c)
{
    Csr<T> a = gen<T>(s, r, c); la::SparseMatrix<T> m = a.mat(); Ref A = a.ref();
    s.note([&](std::ostream & o) { o << a.show(); }); s.nontrivial(a.d.size() > 0);
    s.label("empty row", has_empty_row(a)); s.label("unsorted", is_unsorted(a)); s.label("zero dimension", r * c == 0);
    la::SparseMatrix<T> t = m.Transpose();
    expect_sparse_exact(t, A.T(), "Transpose");
    std::multiset<std::tuple<int, int, double>> want;
    for (auto& e : entries(m)) { want.insert(std::make_tuple(std::get<1>(e), std::get<0>(e), std::get<2>(e))); }
    CHECK(entries(t) == want, "Transpose does not store exactly the mirrored entries");
    for (int i = 0; i < t.Rows(); ++i) for (int k = t.GetIndptr()[i] + 1; k < t.GetIndptr()[i + 1]; ++k) { CHECK(t.GetIndices()[k - 1] < t.GetIndices()[k], "row " << i << " of the transpose is not sorted"); }
    la::SparseMatrix<T> b = t.Transpose();
    expect_sparse_exact(b, A, "Transpose twice");
    CHECK(entries(b) == entries(m), "transposing twice does not give the stored entries back");
    // other element type
    la::SparseMatrix<double> d = m.template Transpose<double>();
    expect_sparse_exact(d, A.T(), "Transpose<double>");
    expect_mat_exact(m.ToDense(), A, "ToDense");
    expect_mat_exact(m.TransposeDense(), A.T(), "TransposeDense");
    la::DenseMatrix o = stale(s);
    m.ToDense(o); expect_mat_exact(o, A, "ToDense(output)");
    m.TransposeDense(o); expect_mat_exact(o, A.T(), "TransposeDense(output)");
    la::DenseMatrix same(r, c, std::vector<double>(r * c, std::nan(""))); m.ToDense(same); expect_mat_exact(same, A, "ToDense over NaN");
    la::DenseMatrix samet(c, r, std::vector<double>(r * c, std::nan(""))); m.TransposeDense(samet); expect_mat_exact(samet, A.T(), "TransposeDense over NaN");
    CHECK(same_csr(m, a), "the matrix was modified");
}

template <typename T>
void sorting(S& s, int r, int c)
{
    Csr<T> a = gen<T>(s, r, c); la::SparseMatrix<T> m = a.mat();
    s.note([&](std::ostream & o) { o << a.show(); }); s.nontrivial(is_unsorted(a));
    m.SortIndices();
    expect_csr(m, "SortIndices");
    CHECK(m.GetIndptr() == a.p, "SortIndices moved entries between rows");
    for (int i = 0; i < r; ++i) for (int k = a.p[i] + 1; k < a.p[i + 1]; ++k) { CHECK(m.GetIndices()[k - 1] < m.GetIndices()[k], "row " << i << " is not sorted"); }
    CHECK(entries(m) == entries(a), "SortIndices changed the stored entries");
    la::SparseMatrix<T> n(m); n.SortIndices();
    CHECK(n.GetIndices() == m.GetIndices() && n.GetData() == m.GetData(), "sorting a sorted matrix changes it");
}

template <typename T>
void submatrix(S& s, int r, int c)
{
    Csr<T> a = gen<T>(s, r, c); la::SparseMatrix<T> m = a.mat(); Ref A = a.ref();
    std::vector<int> w(c + s.i(0, 3), -1);
    int rounds = s.i(1, 4);
    s.note([&](std::ostream & o) { o << a.show(); });
    bool nz = false;
    for (int q = 0; q < rounds; ++q)
    {
        std::vector<int> cols = s.permutation(c); cols.resize(s.chance(0.2) ? c : s.i(0, c));
        std::vector<int> rows; int how = s.i(0, 2);
        if (r > 0)
        {
            if (how == 0) { rows = s.permutation(r); rows.resize(s.i(0, r)); }
            else if (how == 1) { rows.resize(s.size(0, 2 * r)); for (auto& i : rows) { i = s.i(0, r - 1); } }
            else { rows = s.permutation(r); }
        }
        s.note([&](std::ostream & o) { o << "rows" << show(rows) << " cols" << show(cols); });
        Ref want(rows.size(), cols.size()); std::set<std::pair<int, int>> pat, full = pattern(m);
        for (int i = 0; i < want.r; ++i) for (int j = 0; j < want.c; ++j) { want(i, j) = A(rows[i], cols[j]); if (full.count({rows[i], cols[j]})) { pat.insert({i, j}); } }
        la::SparseMatrix<T> sub = m.GetSubMatrix(rows, cols);
        expect_sparse_exact(sub, want, "GetSubMatrix");
        CHECK(pattern(sub) == pat, "GetSubMatrix does not store exactly the selected stored entries");
        la::SparseMatrix<T> sub2 = m.GetSubMatrix(rows, cols, w);
        expect_sparse_exact(sub2, want, "GetSubMatrix with a shared workspace");
        CHECK(pattern(sub2) == pat, "GetSubMatrix with a shared workspace does not store exactly the selected stored entries");
        nz = nz || sub.nnz() > 0;
    }
    s.nontrivial(nz);
    CHECK(same_csr(m, a), "the matrix was modified");
}

template <typename T>
void permute(S& s, int r, int c)
{
    Csr<T> a = gen<T>(s, r, c); la::SparseMatrix<T> m = a.mat(); Ref A = a.ref();
    std::vector<int> p = s.permutation(c), inv(c);
    for (int j = 0; j < c; ++j) { inv[p[j]] = j; }
    s.note([&](std::ostream & o) { o << a.show() << " perm" << show(p); }); s.nontrivial(a.d.size() > 0 && !std::is_sorted(p.begin(), p.end()));
    m.PermuteCols(p);
    Ref want(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { want(i, p[j]) = A(i, j); }
    expect_sparse_exact(m, want, "PermuteCols");
    CHECK(m.nnz() == (int) a.d.size(), "PermuteCols changed the number of stored entries");
    m.PermuteCols(inv);
    expect_sparse_exact(m, A, "PermuteCols with the inverse permutation");
    CHECK(entries(m) == entries(a), "permuting back changed the stored entries");
}

template <typename T>
void access(S& s, int r, int c)
{
    Csr<T> a = gen<T>(s, r, c); la::SparseMatrix<T> m = a.mat(); const la::SparseMatrix<T>& cm = m; Ref A = a.ref();
    s.note([&](std::ostream & o) { o << a.show(); }); s.nontrivial(a.d.size() > 0);
    CHECK(m.Rows() == r && m.Cols() == c && m.nnz() == (int) a.d.size(), "sizes");
    CHECK(same_csr(m, a), "construction from CSR arrays");
    for (int i = 0; i < r; ++i)
    {
        int n = a.p[i + 1] - a.p[i];
        CHECK(m.RowSize(i) == n, "RowSize(" << i << ") is " << m.RowSize(i) << ", expected " << n);
        std::vector<int> ix(a.x.begin() + a.p[i], a.x.begin() + a.p[i + 1]); std::vector<T> dd(a.d.begin() + a.p[i], a.d.begin() + a.p[i + 1]);
        CHECK(cm.GetIndices(i) == ix, "GetIndices(" << i << ")"); CHECK(cm.GetData(i) == dd, "GetData(" << i << ")");
        la::VectorView<int> v = m.GetIndicesView(i); CHECK(v.size() == n && std::equal(v.begin(), v.end(), ix.begin()), "GetIndicesView(" << i << ")");
        CHECK(n == 0 || v.begin() == m.GetIndices().data() + a.p[i], "GetIndicesView(" << i << ") is not a view");
        const la::VectorView<int>& cv = cm.GetIndicesView(i); CHECK(cv.size() == n && std::equal(cv.begin(), cv.end(), ix.begin()), "const GetIndicesView(" << i << ")");
    }
    if (r == c)
    {
        std::vector<double> d = m.GetDiag(); CHECK((int) d.size() == r, "GetDiag: size " << d.size());
        for (int i = 0; i < r; ++i) { CHECK(d[i] == A(i, i), "GetDiag: entry " << i << " is " << d[i] << ", expected " << (double) A(i, i)); }
    }
    // construction from a diagonal and from sizes
    std::vector<T> dg = values<T>(s, s.size(0, 20), s.chance(0.5) ? REAL : INT);
    la::SparseMatrix<T> D(dg); Ref wd(dg.size(), dg.size()); for (size_t i = 0; i < dg.size(); ++i) { wd(i, i) = dg[i]; }
    expect_sparse_exact(D, wd, "construction from a diagonal"); CHECK(D.nnz() == (int) dg.size(), "construction from a diagonal: nnz " << D.nnz());
    la::SparseMatrix<T> z(r, c), q(r), e;
    expect_sparse_exact(z, Ref(r, c), "construction from sizes"); expect_sparse_exact(q, Ref(r, r), "construction from a size"); expect_sparse_exact(e, Ref(0, 0), "default construction");
    CHECK(z.nnz() == 0 && q.nnz() == 0 && e.nnz() == 0, "an empty matrix stores entries");
}
}

#define SHAPE int r = dim(s, 10, 50), c = dim(s, 10, 50)
LAW(transpose_double, 60000, 600000, "at least one stored entry") { SHAPE; transpose<double>(s, r, c); }
LAW(transpose_int, 20000, 200000, "at least one stored entry") { SHAPE; transpose<int>(s, r, c); }
LAW(transpose_large, 300, 5000, "at least one stored entry") { transpose<double>(s, s.i(30, 250), s.i(30, 250)); }
LAW(sort_double, 40000, 400000, "some row unsorted") { SHAPE; sorting<double>(s, r, c); }
LAW(sort_int, 15000, 150000, "some row unsorted") { SHAPE; sorting<int>(s, r, c); }
LAW(sort_large, 300, 5000, "some row unsorted") { sorting<double>(s, s.i(1, 60), s.i(30, 250)); }
LAW(submatrix_double, 50000, 500000, "a nonempty selection") { int r = dim(s, 8, 30), c = dim(s, 8, 30); submatrix<double>(s, r, c); }
LAW(submatrix_large, 500, 8000, "a nonempty selection") { Shape q = big_shape(s, 200); submatrix<double>(s, q.r, q.c); }
LAW(submatrix_int, 15000, 150000, "a nonempty selection") { int r = dim(s, 8, 20), c = dim(s, 8, 20); submatrix<int>(s, r, c); }
LAW(permute_double, 40000, 400000, "stored entries and a permutation other than the identity") { SHAPE; permute<double>(s, r, c); }
LAW(permute_large, 300, 6000, "stored entries and a permutation other than the identity") { Shape q = big_shape(s, 200); permute<double>(s, q.r, q.c); }
LAW(permute_int, 15000, 150000, "stored entries and a permutation other than the identity") { SHAPE; permute<int>(s, r, c); }
LAW(access_double, 50000, 500000, "at least one stored entry") { int r = dim(s, 10, 40), c = s.chance(0.5) ? r : dim(s, 10, 40); access<double>(s, r, c); }
LAW(access_large, 300, 6000, "at least one stored entry") { Shape q = s.chance(0.3) ? Shape {s.i(30, 200), 0} : big_shape(s, 200); if (q.c == 0) { q.c = q.r; } access<double>(s, q.r, q.c); }
LAW(transpose_long, 300, 6000, "at least one stored entry") { Shape q = big_shape(s, 200); transpose<double>(s, q.r, q.c); }
LAW(sort_long, 300, 6000, "some row unsorted") { Shape q = big_shape(s, 200); sorting<double>(s, q.r, q.c); }
LAW(access_int, 20000, 200000, "at least one stored entry") { int r = dim(s, 10, 40), c = s.chance(0.5) ? r : dim(s, 10, 40); access<int>(s, r, c); }

// shapes whose number of positions exceeds the range of int
LAW(structure_huge, 400, 6000, "at least one stored entry")
{
    Shape q = huge::shape(s); if (s.chance(0.2)) { q.c = q.r; } std::vector<int> rp = huge::pool(s, q.r), cp = huge::pool(s, q.c); Csr<double> a = huge::csr<double>(s, q.r, q.c, rp, cp, true); la::SparseMatrix<double> A = a.mat(); huge::Map m = huge::entries(a);
    s.note([&](std::ostream & o) { o << q.r << "x" << q.c << " " << huge::show(m); }); s.nontrivial(!a.d.empty());
    la::SparseMatrix<double> t = A.Transpose(); huge::expect(t, q.c, q.r, huge::transposed(m), "Transpose"); huge::expect(t.Transpose(), q.r, q.c, m, "Transpose twice");
    la::SparseMatrix<double> o(A); o.SortIndices(); huge::expect(o, q.r, q.c, m, "SortIndices"); for (int i : rp) for (int k = o.GetIndptr()[i] + 1; k < o.GetIndptr()[i + 1]; ++k) { CHECK(o.GetIndices()[k - 1] < o.GetIndices()[k], "row " << i << " is not sorted"); }
    ld sum = 0, mx = 0; for (auto& e : m) { sum += e.second; mx += std::fabs(e.second); } CHECK((ld) A.Sum() == sum, "Sum"); CHECK((ld) A.MaxNorm() == mx, "MaxNorm"); CHECK(A.nnz() == (int) a.d.size(), "nnz");
    // a submatrix of the rows and columns in use, in any order; rows may repeat
    std::vector<int> rows, cols; { std::set<int> u(cp.begin(), cp.end()); cols.assign(u.begin(), u.end()); std::vector<int> pm = s.permutation((int) cols.size()), c2; for (int k : pm) { if (s.chance(0.8)) { c2.push_back(cols[k]); } } cols = c2; } for (int k = s.i(0, 12); k > 0; --k) { rows.push_back(rp[s.u((int) rp.size() - 1)]); }
    huge::Map w; for (int i = 0; i < (int) rows.size(); ++i) for (int j = 0; j < (int) cols.size(); ++j) { auto f = m.find({rows[i], cols[j]}); if (f != m.end()) { w[ {i, j}] = f->second; } }
    huge::expect(A.GetSubMatrix(rows, cols), (int) rows.size(), (int) cols.size(), w, "GetSubMatrix"); std::vector<int> mark(q.c, -1); huge::expect(A.GetSubMatrix(rows, cols, mark), (int) rows.size(), (int) cols.size(), w, "GetSubMatrix with a marker"); for (int v : mark) { CHECK(v == -1, "the marker was not reset"); }
    if (q.r == q.c) { std::vector<double> d = A.GetDiag(); CHECK((int) d.size() == q.r, "GetDiag size"); for (int i = 0; i < q.r; ++i) { CHECK(d[i] == 0 || m.count({i, i}), "diagonal entry " << i); } for (auto& e : m) { if (e.first.first == e.first.second) { CHECK((ld) d[e.first.first] == e.second, "diagonal entry " << e.first.first); } } }
    // columns moved by a rotation and a reversal
    int shift = s.i(0, q.c - 1); bool rev = s.chance(0.5); std::vector<int> p(q.c); for (int j = 0; j < q.c; ++j) { int k = (int) ((j + (long long) shift) % q.c); p[j] = rev ? q.c - 1 - k : k; }
    la::SparseMatrix<double> z(A); z.PermuteCols(p); huge::Map pw; for (auto& e : m) { pw[ {e.first.first, p[e.first.second]}] = e.second; } huge::expect(z, q.r, q.c, pw, "PermuteCols");
    CHECK(same_csr(A, a), "the matrix was modified");
}

PBT_MAIN
