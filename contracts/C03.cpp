#include "dec.inc.h"

// Equality through the contract of normalize(): the magnitudes of a and b (scaled to 15 digits) are two numbers ma, mb about
// which only this is known: ma == 0 iff the mantissa is 0 (magnitude64), and normalize() returns the one decimal without
// trailing zeros that has the same sign and magnitude (normalize64).
template <class D> struct Ghost {
    DV<D> a, b;
    typename Dec<D>::W ma, mb;
    int used;
};
template <class D> Ghost<D> ghost;

template <class D> D normalized_spec(const D* self)
{
    Ghost<D>& g = ghost<D>;
    DV<D> v = view(*self);
    typename Dec<D>::W m;
    if (v.bits == g.a.bits)
        m = g.ma;
    else if (v.bits == g.b.bits)
        m = g.mb;
    else {
        v.e = unsigned(vc_conc(v.e));
        m = v.mag();
    }
    DV<D> r = any_dec<D>(unsigned(vc_pick(0, Dec<D>::me, "normalized digits")), "normalized", v.neg);
    if (r.e != 0)
        vc_assume(r.man % 10 != 0);
    vc_assume(r.mag() == m);
    ++g.used;
    return r.d;
}

template <class W> W any_wide(const char* n)
{
    if constexpr (sizeof(W) == 16)
        return vc_any128(114, n);
    else
        return W(vc_any128(128, n)) | W(vc_any(64, n)) << 128;
}

template <class D> void equality_contract(int signs, int (*use)())
{
    using W = typename Dec<D>::W;
    Ghost<D>& g = ghost<D>;
    g.used = 0;
    g.a = any_dec<D>(unsigned(vc_any(4, "a digits")), "a", signs & 1);
    g.b = any_dec<D>(unsigned(vc_any(4, "b digits")), "b", signs & 2);
    int n = use();
    auto fix = [&] {
        g.a.e = unsigned(vc_conc(g.a.e));
        g.b.e = unsigned(vc_conc(g.b.e));
        vc_assume(g.a.mag() == g.ma && g.b.mag() == g.mb);
    };
#ifdef VC_SYMBOLIC
    g.ma = any_wide<W>("a value");
    g.mb = any_wide<W>("b value");
    vc_assume((g.ma == 0) == (g.a.man == 0));
    vc_assume((g.mb == 0) == (g.b.man == 0));
    vc_assume(g.a.bits != g.b.bits || g.ma == g.mb);
    if (n == 0)
        fix(); // restructured code: executed in full
    bool eq = g.a.d == g.b.d;
    if (n != 0 && g.used < 2)
        fix();
#else
    g.ma = g.a.mag();
    g.mb = g.b.mag();
    bool eq = g.a.d == g.b.d;
#endif
    typename Dec<D>::SW va = g.ma, vb = g.mb;
    ENSURES_(eq == ((g.a.neg ? -va : va) == (g.b.neg ? -vb : vb)), "a == b iff the exact rational values are equal");
}

VC_SUMMARY(norm64)(const D64* self) -> D64 { return normalized_spec(self); }

VC_CONTRACT(magnitude64, 1, "proof", "(lemma)", "a decimal is zero exactly when its mantissa is")
{
    auto a = any_dec<D64>(unsigned(vc_pick(0, 15, "digits")), "a");
    ENSURES((a.mag() == 0) == (a.man == 0));
    ENSURES(a.mag() >> 114 == 0);
}

VC_CONTRACT(normalize64, 16, "proof", "awl::decimal<uint64_t,4>::normalize",
    "the result has the same sign and rational value and no trailing zeros after the point")
{
    auto a = any_dec<D64>(vc_case, "a");
    auto r = view(a.d.normalize());
    ENSURES(r.neg == a.neg);
    ENSURES(r.e <= a.e);
    unsigned k = r.e = unsigned(vc_conc(r.e));
    ENSURES(r.mag(a.e) == a.mag(a.e));
    ENSURES(k == 0 || r.man % 10 != 0);
}

VC_CONTRACT(order64, 16, "proof", "awl::decimal<uint64_t,4>::operator< <= > >=, compare, compare_positive",
    "for every a, b: a<b, a<=b, a>b, a>=b agree with the exact rational values")
{
    auto a = any_dec<D64>(vc_case, "a");
    auto b = any_dec<D64>(unsigned(vc_pick(0, 15, "b digits")), "b");
    ENSURES((a.d < b.d) == (a.val() < b.val()));
    ENSURES((a.d <= b.d) == (a.val() <= b.val()));
    ENSURES((a.d > b.d) == (a.val() > b.val()));
    ENSURES((a.d >= b.d) == (a.val() >= b.val()));
}

VC_CONTRACT(equality64, 4, "proof", "awl::decimal<uint64_t,4>::operator==, !=",
    "for every a, b: a==b iff the exact rational values are equal, and a!=b is its negation")
{
    equality_contract<D64>(vc_case, [] { return int(VC_USE(norm64, "^awl::decimal<unsigned long, .*4, .*>::normalize\\(\\) const$")); });
}

VC_SUMMARY(eq64)(const D64* a, const D64* b) -> bool { return view(*a).val() == view(*b).val(); }

VC_CONTRACT(inequality64, 16, "proof", "awl::decimal<uint64_t,4>::operator!=",
    "for every a, b: a!=b iff the exact rational values differ")
{
    VC_USE(eq64, "^awl::decimal<unsigned long, .*4, .*>::operator==\\(awl::decimal.*\\) const$");
    auto a = any_dec<D64>(vc_case, "a");
    auto b = any_dec<D64>(unsigned(vc_pick(0, 15, "b digits")), "b");
    bool ne = a.d != b.d;
    ENSURES(ne == (a.val() != b.val()));
}

// the same for the 128-bit format
VC_SUMMARY(norm128)(const D128* self) -> D128 { return normalized_spec(self); }
VC_SUMMARY(eq128)(const D128* a, const D128* b) -> bool { return view(*a).val() == view(*b).val(); }

VC_CONTRACT(normalize128, 16, "proof@thorough", "awl::decimal<__uint128_t,4>::normalize",
    "the result has the same sign and rational value and no trailing zeros after the point")
{
    auto a = any_dec<D128>(vc_case, "a");
    auto r = view(a.d.normalize());
    ENSURES(r.neg == a.neg);
    ENSURES(r.e <= a.e);
    unsigned k = r.e = unsigned(vc_conc(r.e));
    ENSURES(r.mag(a.e) == a.mag(a.e));
    ENSURES(k == 0 || r.man % 10 != 0);
}

VC_CONTRACT(order128, 16, "proof@thorough", "awl::decimal<__uint128_t,4>::operator< <= > >=, compare, compare_positive",
    "for every a, b: a<b, a<=b, a>b, a>=b agree with the exact rational values")
{
    auto a = any_dec<D128>(vc_case, "a");
    auto b = any_dec<D128>(unsigned(vc_pick(0, 15, "b digits")), "b");
    ENSURES((a.d < b.d) == (a.val() < b.val()));
    ENSURES((a.d <= b.d) == (a.val() <= b.val()));
    ENSURES((a.d > b.d) == (a.val() > b.val()));
    ENSURES((a.d >= b.d) == (a.val() >= b.val()));
}

VC_CONTRACT(equality128, 4, "proof@thorough", "awl::decimal<__uint128_t,4>::operator==, !=",
    "for every a, b: a==b iff the exact rational values are equal, and a!=b is its negation")
{
    equality_contract<D128>(vc_case, [] { return int(VC_USE(norm128, "^awl::decimal<unsigned __int128, .*4, .*>::normalize\\(\\) const$")); });
}
