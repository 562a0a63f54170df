//@unit {"lib":["dndsstub.cpp"]}
//@run {"prop":"P01","entry":"h_csr_roundtrip","bounds":"<=3 rows, <=2 entries/row, any entries, compress/decompress/resize sequences of length 3","reach":["csr"]}
//@run {"prop":"P01","entry":"h_csr_fn","bounds":"<=4 rows, row sizes 0..2","reach":["csrfn"]}
//@run {"prop":"P01","entry":"h_fixed","bounds":"<=3 rows x <=3 columns, any two cells","reach":["fixed"]}
//@run {"prop":"P01","entry":"h_static_fixed","bounds":"<=4 rows x 3 columns, any two cells","reach":["sfixed"]}
//@run {"prop":"P01","entry":"h_max","bounds":"<=3 rows, max row <=3, row resize sequences of length 2","reach":["max"]}
//@run {"prop":"P01","entry":"h_static_max","bounds":"<=3 rows, static max 3, row resize sequences of length 2","reach":["smax"]}
//@run {"prop":"P01","entry":"h_shared_rows","bounds":"<=3 rows, copy then row resize","reach":["shared"]}
//@run {"prop":"P01","entry":"h_swap","bounds":"<=3 rows, <=2 entries/row","reach":["swap"]}
//@run {"prop":"P01","entry":"h_swapmax","bounds":"<=2 rows, <=2 entries/row, padded layouts and mixed compressed / uncompressed rows","reach":["swapmax"]}
//@run {"prop":"P01","entry":"h_range","bounds":"every layout, <=2 rows of <=2 entries, any row and column number","reach":["in","refused"]}
#include "vh.h"
#include <vector>
#include "DNDS/Array.hpp"
namespace DNDS::VH {
using CSRA = Array<index, NonUniformSize, NonUniformSize>;
using MaxA = Array<index, NonUniformSize, DynamicSize>;
using SMaxA = Array<index, NonUniformSize, 3>;
using FixA = Array<index, DynamicSize>;
using SFixA = Array<index, 3>;

template <class A>
static void checkAgainst(A &a, std::vector<std::vector<index>> &ref, const char *m)
{
    vh_assert(a.Size() == (index)ref.size(), m);
    for (index i = 0; i < (index)ref.size(); i++)
    {
        vh_assert(a.RowSize(i) == (rowsize)ref[i].size(), m);
        for (rowsize j = 0; j < (rowsize)ref[i].size(); j++)
        {
            vh_assert(a(i, j) == ref[i][j], m);
            vh_assert(a[i][j] == ref[i][j], m);
        }
    }
}
VH_ENTRY h_csr_roundtrip()
{
    CSRA a;
    index n = vh_concretize(vh_int("n", 0, 3));
    a.Resize(n);
    std::vector<std::vector<index>> ref(n);
    for (index i = 0; i < n; i++)
    {
        rowsize r = vh_concretize(vh_int("r", 0, 2));
        a.ResizeRow(i, r);
        ref[i].resize(r);
        for (rowsize j = 0; j < r; j++) a(i, j) = ref[i][j] = vh_int("v", -1000, 1000);
    }
    checkAgainst(a, ref, "uncompressed CSR array holds what was written");
    for (int k = 0; k < 3; k++)
    {
        long op = vh_concretize(vh_int("op", 0, 3));
        if (op == 0) a.Compress();
        if (op == 1) a.Decompress();
        if (op == 2 && n > 0)
        {
            index i = vh_concretize(vh_int("i", 0, n - 1));
            a.Decompress();
            rowsize r = vh_concretize(vh_int("r2", 0, 3));
            size_t o = ref[i].size();
            a.ResizeRow(i, r);
            ref[i].resize(r, 0);
            for (size_t j = o; j < (size_t)r; j++) a(i, j) = ref[i][j] = 77;
        }
        if (op == 3)
        {
            a.Decompress();
            index n2 = vh_concretize(vh_int("n2", 0, 3));
            a.Resize(n2);
            ref.resize(n2);
            n = n2;
        }
        checkAgainst(a, ref, "CSR array content survives compress, decompress and resize");
        if (n > 0 && op == 0)
        {
            vh_assert(a.IfCompressed(), "a non-empty array is compressed after Compress");
            size_t tot = 0;
            for (auto &r : ref) tot += r.size();
            vh_assert(a.DataSize() == tot, "compressed data holds exactly the entries");
            vh_assert(a[n] - a[0] == (index)tot, "past-the-end row pointer closes the data");
        }
    }
    vh_reach("csr");
}
VH_ENTRY h_csr_fn()
{
    CSRA a;
    index n = vh_concretize(vh_int("n", 0, 4));
    std::vector<rowsize> rs(n);
    for (auto &x : rs) x = vh_concretize(vh_int("r", 0, 2));
    a.Resize(n, [&](index i) { return rs[i]; });
    std::vector<std::vector<index>> ref(n);
    for (index i = 0; i < n; i++)
        for (rowsize j = 0; j < rs[i]; j++)
        {
            index v = vh_int("v", -5, 5);
            a(i, j) = v;
            ref[i].push_back(v);
        }
    checkAgainst(a, ref, "CSR array sized by a function holds what was written");
    a.Decompress();
    checkAgainst(a, ref, "... after decompression");
    CSRA b(a);
    b.Compress();
    checkAgainst(b, ref, "a copy holds the same content");
    checkAgainst(a, ref, "compressing a copy leaves the original alone");
    vh_reach("csrfn");
}
template <class A>
static void twoCells(A &a, index n, rowsize m)
{
    std::vector<std::vector<index>> ref(n, std::vector<index>(m));
    for (index i = 0; i < n; i++)
        for (rowsize j = 0; j < m; j++) a(i, j) = ref[i][j] = vh_int("v", -9, 9);
    if (n > 0 && m > 0)
    {
        index i = vh_int("i", 0, n - 1), j = vh_int("j", 0, m - 1);
        i = vh_concretize(i), j = vh_concretize(j);
        index x = vh_int("x", 100, 200);
        a(i, j) = x;
        ref[i][j] = x;
    }
    checkAgainst(a, ref, "writing one cell changes that cell only");
    vh_assert(a.DataSize() == size_t(n * m), "table data size is rows times columns");
    vh_assert(a.RowSize() == m, "row size is the declared one");
    A b;
    b.CopyData(a);
    if (n > 0 && m > 0) a(n - 1, m - 1) = -12345;
    checkAgainst(b, ref, "a copy is independent of the original");
}
VH_ENTRY h_fixed()
{
    FixA a;
    index n = vh_concretize(vh_int("n", 0, 3));
    rowsize m = vh_concretize(vh_int("m", 1, 3));
    a.Resize(n, m);
    twoCells(a, n, m);
    vh_reach("fixed");
}
VH_ENTRY h_static_fixed()
{
    SFixA a;
    index n = vh_concretize(vh_int("n", 0, 4));
    if (vh_concretize(vh_int("two", 0, 1))) a.Resize(n, 3);
    else a.Resize(n);
    twoCells(a, n, 3);
    vh_reach("sfixed");
}
template <class A>
static void maxTable(A &a, index n, rowsize m)
{
    std::vector<std::vector<index>> ref(n);
    for (index i = 0; i < n; i++)
    {
        rowsize r = vh_concretize(vh_int("r", 0, m));
        a.ResizeRow(i, r);
        for (rowsize j = 0; j < r; j++)
        {
            index v = vh_int("v", -9, 9);
            a(i, j) = v;
            ref[i].push_back(v);
        }
    }
    checkAgainst(a, ref, "max-row table holds what was written");
    for (int k = 0; k < 2 && n > 0; k++)
    {
        index i = vh_concretize(vh_int("i", 0, n - 1));
        rowsize r = vh_concretize(vh_int("r2", 0, m));
        rowsize o = ref[i].size();
        a.ResizeRow(i, r);
        ref[i].resize(r);
        for (rowsize j = o; j < r; j++) a(i, j) = ref[i][j] = 50 + k;
        checkAgainst(a, ref, "resizing a row keeps the other rows and the kept prefix");
    }
    vh_assert(a.RowSizeMax() == m, "row capacity is the declared one");
}
VH_ENTRY h_max()
{
    MaxA a;
    index n = vh_concretize(vh_int("n", 0, 3));
    rowsize m = vh_concretize(vh_int("m", 1, 3));
    a.Resize(n, m);
    maxTable(a, n, m);
    vh_reach("max");
}
VH_ENTRY h_static_max()
{
    SMaxA a;
    index n = vh_concretize(vh_int("n", 0, 3));
    a.Resize(n);
    maxTable(a, n, 3);
    vh_reach("smax");
}
VH_ENTRY h_shared_rows()
{
    // row sizes are shared between copies until one of them is resized
    MaxA a;
    index n = vh_concretize(vh_int("n", 1, 3));
    a.Resize(n, 3);
    std::vector<std::vector<index>> ra(n), rb;
    for (index i = 0; i < n; i++)
    {
        rowsize r = vh_concretize(vh_int("r", 0, 2));
        a.ResizeRow(i, r);
        for (rowsize j = 0; j < r; j++)
        {
            index v = vh_int("v", -9, 9);
            a(i, j) = v;
            ra[i].push_back(v);
        }
    }
    MaxA b(a);
    rb = ra;
    index i = vh_concretize(vh_int("i", 0, n - 1));
    rowsize r = vh_concretize(vh_int("r2", 0, 3));
    bool first = vh_concretize(vh_int("first", 0, 1));
    MaxA &c = first ? a : b;
    auto &rc = first ? ra : rb;
    rowsize o = rc[i].size();
    c.ResizeRow(i, r);
    rc[i].resize(r);
    for (rowsize j = o; j < r; j++) c(i, j) = rc[i][j] = 5;
    checkAgainst(a, ra, "resizing a row of one copy does not affect the other");
    checkAgainst(b, rb, "resizing a row of one copy does not affect the other");
    vh_reach("shared");
}
VH_ENTRY h_swap()
{
    index n = vh_concretize(vh_int("n", 0, 3));
    CSRA a, b;
    std::vector<rowsize> rs(n), rs2(n);
    rowsize sa = 0, sb = 0;
    for (index i = 0; i < n; i++) rs[i] = vh_concretize(vh_int("r", 0, 2)), sa += rs[i];
    for (index i = 0; i < n; i++) rs2[i] = vh_concretize(vh_int("q", 0, 2)), sb += rs2[i];
    vh_assume(sa == sb);
    a.Resize(n, [&](index i) { return rs[i]; });
    b.Resize(n, [&](index i) { return rs2[i]; });
    std::vector<std::vector<index>> ra(n), rb(n);
    for (index i = 0; i < n; i++)
    {
        for (rowsize j = 0; j < rs[i]; j++) { index v = vh_int("v", 0, 9); a(i, j) = v; ra[i].push_back(v); }
        for (rowsize j = 0; j < rs2[i]; j++) { index v = vh_int("w", 0, 9); b(i, j) = v; rb[i].push_back(v); }
    }
    a.SwapData(b);
    checkAgainst(a, rb, "SwapData exchanges the content of two CSR arrays");
    checkAgainst(b, ra, "SwapData exchanges the content of two CSR arrays");
    FixA c, e;
    c.Resize(n, 2);
    e.Resize(n, 2);
    std::vector<std::vector<index>> rc(n), re(n);
    for (index i = 0; i < n; i++)
        for (rowsize j = 0; j < 2; j++)
        {
            index v = vh_int("s", 0, 9), w = vh_int("t", 0, 9);
            c(i, j) = v, e(i, j) = w;
            rc[i].push_back(v), re[i].push_back(w);
        }
    c.SwapData(e);
    checkAgainst(c, re, "SwapData exchanges the content of two tables");
    checkAgainst(e, rc, "SwapData exchanges the content of two tables");
    vh_reach("swap");
}
template <class A> static void swapRows(A &a, A &b, index n, bool cmpA, bool cmpB)
{
    std::vector<std::vector<index>> ra(n), rb(n);
    auto fill = [n](A &x, std::vector<std::vector<index>> &r) {
        for (index i = 0; i < n; i++)
        {
            r[i].resize(vh_concretize(vh_int("r", 0, 2)));
            x.ResizeRow(i, r[i].size());
            for (size_t j = 0; j < r[i].size(); j++) x(i, j) = r[i][j] = vh_int("v", 0, 9);
        }
    };
    fill(a, ra), fill(b, rb);
    if constexpr (std::is_same_v<A, CSRA>)
    {
        size_t sa = 0, sb = 0;
        for (index i = 0; i < n; i++) sa += ra[i].size(), sb += rb[i].size();
        if (cmpA) a.Compress();
        if (cmpB) b.Compress();
        vh_assume((cmpA ? sa : 0) == (cmpB ? sb : 0)); // what the swap requires
    }
    a.SwapData(b);
    checkAgainst(a, rb, "SwapData exchanges rows and row sizes");
    checkAgainst(b, ra, "SwapData exchanges rows and row sizes");
}
VH_ENTRY h_swapmax()
{
    index n = vh_concretize(vh_int("n", 0, 2));
    long k = vh_concretize(vh_int("kind", 0, 2));
    if (k == 0) { MaxA a, b; a.Resize(n, 2), b.Resize(n, 2); swapRows(a, b, n, 0, 0); }
    if (k == 1) { SMaxA a, b; a.Resize(n), b.Resize(n); swapRows(a, b, n, 0, 0); }
    if (k == 2) { CSRA a, b; a.Resize(n), b.Resize(n); bool ca = vh_concretize(vh_int("ca", 0, 1)), cb = vh_concretize(vh_int("cb", 0, 1)); swapRows(a, b, n, ca, cb); }
    vh_reach("swapmax");
}
template <class A> static void range(A &a, const std::vector<rowsize> &sz)
{
    index i = vh_int("i", -(1l << 40), 1l << 40);
    rowsize j = vh_int("j", -(1l << 31), (1l << 31) - 1);
    index n = sz.size();
    bool in = false;
    for (index k = 0; k < n; k++) in = in | ((i == k) & (j >= 0) & (j < sz[k]));
    if (in)
    {
        i = vh_concretize(i), j = vh_concretize(j);
        a(i, j) = 7;
        vh_assert(((const A &)a)(i, j) == 7, "a cell in range can be written and read");
        vh_reach("in");
        return;
    }
    vh_expect_refuse();
    index v;
    if (vh_concretize(vh_int("const", 0, 1))) v = ((const A &)a)(i, j);
    else a(i, j) = 3;
    vh_assert(false, "access out of range is refused");
}
VH_ENTRY h_range()
{
    index n = vh_concretize(vh_int("n", 0, 2));
    long lay = vh_concretize(vh_int("lay", 0, 5));
    std::vector<rowsize> sz(n);
    for (auto &x : sz) x = lay == 0 ? 3 : lay == 1 ? 2 : vh_concretize(vh_int("r", 0, 2));
    auto rows = [&](auto &a) { for (index i = 0; i < n; i++) a.ResizeRow(i, sz[i]); };
    if (lay == 0) { SFixA a; a.Resize(n); range(a, sz); }
    if (lay == 1) { FixA a; a.Resize(n, 2); range(a, sz); }
    if (lay == 2) { SMaxA a; a.Resize(n); rows(a); range(a, sz); }
    if (lay == 3) { MaxA a; a.Resize(n, 3); rows(a); range(a, sz); }
    if (lay == 4) { CSRA a; a.Resize(n); rows(a); range(a, sz); }
    if (lay == 5) { CSRA a; a.Resize(n); rows(a); a.Compress(); range(a, sz); }
}
} // namespace
