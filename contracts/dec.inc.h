// Specification of decimals: the represented rational number, scaled by 10^max_exp to an integer.
#pragma once
#include "vc.h"
#include "Awl/Decimal.h"
#include <stdexcept>

template <class D> struct Dec;
template <> struct Dec<awl::decimal<uint64_t, 4>> { using U = uint64_t; using W = unsigned __int128; using SW = __int128; static constexpr unsigned ex = 4, me = 15, mb = 59; };
template <> struct Dec<awl::decimal<unsigned __int128, 4>> { using U = unsigned __int128; using W = unsigned _BitInt(256); using SW = _BitInt(256); static constexpr unsigned ex = 4, me = 15, mb = 123; };

template <class W> constexpr W p10(unsigned n)
{
    W r = 1;
    while (n--)
        r *= 10;
    return r;
}

template <class D> struct DV {
    using S = Dec<D>;
    typename S::U bits, man;
    bool neg;
    unsigned e;
    D d;
    // |value| * 10^k, for k >= e
    typename S::W mag(unsigned k = S::me) const { return typename S::W(man) * p10<typename S::W>(k - e); }
    typename S::SW val(unsigned k = S::me) const { typename S::SW s = typename S::SW(mag(k)); return neg ? -s : s; }
};

// an arbitrary decimal with e digits after the point: any sign, any mantissa
template <class D> DV<D> any_dec(unsigned e, const char* n, bool neg)
{
    using S = Dec<D>;
    DV<D> v;
    if constexpr (S::mb <= 64)
        v.man = vc_any(S::mb, n);
    else
        v.man = vc_any128(S::mb, n);
    v.neg = neg;
    v.e = e;
    v.bits = (typename S::U)(v.neg) | (typename S::U)(e) << 1 | v.man << (1 + S::ex);
    v.d = D::from_bits(v.bits);
    return v;
}

template <class D> DV<D> any_dec(unsigned e, const char* n) { return any_dec<D>(e, n, vc_val<bool>(n)); }

template <class D> DV<D> view(const D& d)
{
    using S = Dec<D>;
    DV<D> v;
    v.bits = d.to_bits();
    v.neg = v.bits & 1;
    v.e = unsigned(v.bits >> 1) & ((1u << S::ex) - 1);
    v.man = v.bits >> (1 + S::ex);
    v.d = d;
    return v;
}

using D64 = awl::decimal<uint64_t, 4>;
using D128 = awl::decimal<unsigned __int128, 4>;
