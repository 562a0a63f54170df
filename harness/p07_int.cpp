//@unit {"lib":["dndsstub.cpp"]}
//@run {"prop":"P07","entry":"h_overflow","bounds":"any two values of 8, 16, 32 and 64 bits","reach":["ovf","fit"],"shard":[["w",0,3]]}
//@run {"prop":"P07","entry":"h_safeadd","bounds":"any two values of 8, 16, 32 and 64 bits","reach":["sum","refused"],"shard":[["w",0,3]]}
//@run {"prop":"P07","entry":"h_narrow","bounds":"any 64-bit value to 8, 16, 32, 64 bits","reach":["narrow","refused"],"shard":[["w",0,3]]}
//@run {"prop":"P07","entry":"h_accum","bounds":"0..4 row sizes of any 32-bit value, 32- and 64-bit row starts","reach":["accum","refused"],"shard":[["n",0,4]]}
//@run {"prop":"P07","entry":"h_uniform","bounds":"vectors of 0..4 any values","reach":["uni","nonuni"]}
//@run {"prop":"P07","entry":"h_div","bounds":"any 16-bit dividends and divisors; 32/64-bit dividends below 2^31 with divisors 1..8","reach":["div"],"shard":[["w",0,2]]}
//@run {"prop":"P07","entry":"h_fmod","bounds":"any a in [-20,20], divisors 0.5, 1, 3","reach":["fmod"]}
//@run {"prop":"P07","entry":"h_sign","bounds":"any reals in [-4,4]","reach":["sign"]}
//@run {"prop":"P07","entry":"h_identical","bounds":"two strictly ascending lists of 0..3 any 32-bit values, any stopping point","reach":["ident","stop"],"shard":[["n",0,3],["m",0,3]]}
#include "vh.h"
#include <vector>
#include "DNDS/Defines.hpp"
namespace DNDS::VH {
template <class T> static T any(const char *n) { return (T)vh_int(n, std::numeric_limits<T>::min(), std::numeric_limits<T>::max()); }
template <class T> static void overflow()
{
    T a = any<T>("a"), b = any<T>("b"), r;
    bool o = __builtin_add_overflow(a, b, &r);
    vh_assert(signedIntWillAddOverflow<T>(a, b) == o, "overflow is predicted exactly");
    if (o) vh_reach("ovf"); else vh_reach("fit");
}
VH_ENTRY h_overflow()
{
    switch (vh_concretize(vh_int("w", 0, 3)))
    {
    case 0: return overflow<int8_t>();
    case 1: return overflow<int16_t>();
    case 2: return overflow<int32_t>();
    default: return overflow<int64_t>();
    }
}
template <class T> static void safeadd()
{
    T a = any<T>("a"), b = any<T>("b"), r;
    if (__builtin_add_overflow(a, b, &r))
    {
        vh_expect_refuse();
        signedIntSafeAdd<T>(a, b);
        vh_assert(false, "an overflowing addition is refused");
    }
    vh_assert(signedIntSafeAdd<T>(a, b) == r, "an addition that fits is exact");
    vh_reach("sum");
}
VH_ENTRY h_safeadd()
{
    switch (vh_concretize(vh_int("w", 0, 3)))
    {
    case 0: return safeadd<int8_t>();
    case 1: return safeadd<int16_t>();
    case 2: return safeadd<int32_t>();
    default: return safeadd<int64_t>();
    }
}
template <class T> static void narrow()
{
    uint64_t v = (uint64_t)any<int64_t>("v");
    bool fits = v <= (uint64_t)std::numeric_limits<T>::max();
    if (!fits)
    {
        vh_expect_refuse();
        size_t_to_signed<T>(v);
        vh_assert(false, "a size that does not fit is refused");
    }
    vh_assert((uint64_t)size_t_to_signed<T>(v) == v, "a size that fits is kept");
    vh_reach("narrow");
}
VH_ENTRY h_narrow()
{
    switch (vh_concretize(vh_int("w", 0, 3)))
    {
    case 0: return narrow<int8_t>();
    case 1: return narrow<int16_t>();
    case 2: return narrow<int64_t>();
    default:
        index v = any<int64_t>("v");
        bool fits = v >= INT32_MIN && v <= INT32_MAX;
        if (!fits)
        {
            vh_expect_refuse();
            checkedIndexTo32(v);
            vh_assert(false, "an index that does not fit 32 bits is refused");
        }
        vh_assert(index(checkedIndexTo32(v)) == v, "an index that fits is kept");
        vh_reach("narrow");
        narrow<int32_t>();
    }
}
template <class T> static void accum()
{
    int n = vh_concretize(vh_int("n", 0, 4));
    std::vector<rowsize> sz(n);
    std::vector<T> st(vh_concretize(vh_int("old", 0, 1)) * 3, T(7));
    int64_t sum = 0;
    bool bad = false;
    for (int i = 0; i < n; i++)
    {
        sz[i] = any<int32_t>("s");
        sum += sz[i];
        bad = bad | (sum > (int64_t)std::numeric_limits<T>::max()) | (sum < (int64_t)std::numeric_limits<T>::min());
    }
    if (bad)
    {
        vh_expect_refuse();
        AccumulateRowSize(sz, st);
        vh_assert(false, "row starts that overflow are refused");
    }
    AccumulateRowSize(sz, st);
    vh_assert((int)st.size() == n + 1 && st[0] == 0, "one start per row and one end, from 0");
    int64_t q = 0;
    for (int i = 0; i < n; i++) q += sz[i], vh_assert(int64_t(st[i + 1]) == q, "row starts are the partial sums");
    vh_reach("accum");
}
VH_ENTRY h_accum() { vh_concretize(vh_int("wide", 0, 1)) ? accum<int64_t>() : accum<int32_t>(); }
VH_ENTRY h_uniform()
{
    int n = vh_concretize(vh_int("n", 0, 4));
    std::vector<rowsize> v(n);
    bool same = n > 0;
    for (int i = 0; i < n; i++) v[i] = any<int32_t>("v"), same = same & (v[i] == v[0]);
    rowsize val = 123;
    bool r = checkUniformVector(v, val);
    vh_assert(r == same, "uniform exactly when non-empty and all equal");
    if (r) vh_assert(val == v[0], "the common value"), vh_reach("uni"); else vh_reach("nonuni");
}
template <class T> static void divs(T lo, T hi, T dlo, T dhi, bool conc)
{
    T a = (T)vh_int("a", lo, hi), b = (T)vh_int("b", dlo, dhi);
    if (conc) b = (T)vh_concretize(b);
    T m = mod<T>(a, b);
    vh_assert(m >= 0 && m < b, "modulus lies in [0,b)");
    vh_assert((a - m) % b == 0, "modulus is congruent");
    if (a >= 0)
    {
        int64_t c = divide_ceil<T>(a, b), d = divCeil(a, b);
        vh_assert(c * b >= a && (c - 1) * b < a, "divide_ceil rounds up");
        vh_assert(d == c, "divCeil rounds up");
    }
    vh_reach("div");
}
VH_ENTRY h_div()
{
    switch (vh_concretize(vh_int("w", 0, 2)))
    {
    case 0: return divs<int16_t>(-255, 255, 1, 63, false);
    case 1: return divs<int32_t>(INT32_MIN + 16, INT32_MAX - 16, 1, 8, true);
    default: return divs<int64_t>(INT32_MIN, INT32_MAX, 1, 8, true);
    }
}
VH_ENTRY h_fmod()
{
    static const double bs[3] = {0.5, 1, 3};
    double b = bs[vh_concretize(vh_int("b", 0, 2))], a = vh_real("a", -20, 20);
    double r = float_mod(a, b);
    vh_le(0, r, 0, "the remainder is not negative");
    vh_assert(r < b, "the remainder is below the divisor");
    long k = (long)((a - r) / b);
    vh_close(double(k) * b + r, a, 1e-9, "an integer multiple is taken off");
    vh_reach("fmod");
}
VH_ENTRY h_sign()
{
    double a = vh_real("a", -4, 4), t = vh_real("t", 0, 2);
    vh_close(sign(a) * a, a < 0 ? -a : a, 0, "sign"), vh_close(a == 0 ? sign(a) : 0, 0, 0, "sign of 0");
    double st = signTol(a, t);
    vh_close(st, a > t ? 1 : a < -t ? -1 : 0, 0, "sign with tolerance");
    vh_close(signP(a), a < 0 ? -1 : 1, 0, "signP"), vh_close(signM(a), a > 0 ? 1 : -1, 0, "signM");
    vh_close(sqr(a) * a, cube(a), 0, "square and cube"), vh_close(sqr(a), a * a, 0, "square");
    vh_reach("sign");
}
VH_ENTRY h_identical()
{
    int n = vh_concretize(vh_int("n", 0, 3)), m = vh_concretize(vh_int("m", 0, 3));
    std::vector<int32_t> a(n), b(m);
    for (int i = 0; i < n; i++) { a[i] = any<int32_t>("a"); if (i) vh_assume(a[i - 1] < a[i]); }
    for (int i = 0; i < m; i++) { b[i] = any<int32_t>("b"); if (i) vh_assume(b[i - 1] < b[i]); }
    int stop = vh_concretize(vh_int("stop", -1, 2)), calls = 0;
    bool seen[4] = {};
    bool r = iterateIdentical(a.begin(), a.end(), b.begin(), b.end(), [&](int32_t v, size_t i, size_t j)
                              {
                                  vh_assert(i < (size_t)n && j < (size_t)m && a[i] == v && b[j] == v, "positions of a common value");
                                  vh_assert(!seen[i], "each common value once");
                                  seen[i] = true;
                                  return calls++ == stop; });
    int common = 0;
    for (int i = 0; i < n; i++)
    {
        bool c = false;
        for (int j = 0; j < m; j++) c = c | (a[i] == b[j]);
        if (c)
        {
            vh_assert(seen[i] || (stop >= 0 && common > stop), "every common value up to the stop is visited");
            common++;
        }
    }
    vh_assert(r == (stop >= 0 && common > stop), "reports whether it was stopped");
    vh_assert(calls == (r ? stop + 1 : common), "stops when told");
    if (r) vh_reach("stop");
    vh_reach("ident");
}
}
