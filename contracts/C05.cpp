// C05: changing the scale of a decimal.
// SOURCES:
#include "dec.inc.h"

template <class D> typename Dec<D>::W unit(unsigned from, unsigned to) { return p10<typename Dec<D>::W>(from - to); }

template <class D> void scale_contract(int ea)
{
    using S = Dec<D>;
    using W = typename S::W;
    auto a = any_dec<D>(ea, "a");
    unsigned n = unsigned(vc_pick(0, S::me, "digits"));
    const W max = (W(1) << S::mb) - 1;
    D r;

    // more digits (or the same): exact, or throws exactly when the mantissa does not fit
    if (n >= a.e) {
        bool fits = a.mag(n) <= max;
        bool t = vc_throws<std::logic_error>([&] { r = a.d.rescale(uint8_t(n)); });
        ENSURES_(t == !fits, "rescale to more digits throws exactly when the value does not fit");
        if (!t) {
            vc_cover("rescaled up");
            auto c = view(r);
            ENSURES_(c.e == n && c.neg == a.neg && W(c.man) == a.mag(n), "rescale to more digits keeps the value");
        }
        t = vc_throws<std::logic_error>([&] { r = a.d.extend(uint8_t(n)); });
        ENSURES_(t == !fits, "extend throws exactly when the value does not fit");
        if (!t) {
            auto c = view(r);
            ENSURES_(c.e == n && c.neg == a.neg && W(c.man) == a.mag(n), "extend keeps the value");
        }
        ENSURES_(a.d.truncate(uint8_t(n)).to_bits() == a.bits, "truncate to more digits changes nothing");
        ENSURES_(a.d.floor(uint8_t(n)).to_bits() == a.bits, "floor to more digits changes nothing");
        ENSURES_(a.d.ceil(uint8_t(n)).to_bits() == a.bits, "ceil to more digits changes nothing");
    }
    else {
        const W u = unit<D>(a.e, n);
        const W q = W(a.man) / u, rem = W(a.man) % u;
        bool t = vc_throws<std::logic_error>([&] { r = a.d.rescale(uint8_t(n)); });
        ENSURES_(t == (rem != 0), "rescale to fewer digits throws exactly when digits would be lost");
        if (!t) {
            auto c = view(r);
            ENSURES_(c.e == n && c.neg == a.neg && W(c.man) == q, "rescale to fewer digits keeps the value");
        }
        auto c = view(a.d.rescale(uint8_t(n), false));
        ENSURES_(c.e == n && c.neg == a.neg && W(c.man) == q, "unchecked rescale rounds toward zero");
        c = view(a.d.truncate(uint8_t(n)));
        ENSURES_(c.e == n && c.neg == a.neg && W(c.man) == q, "truncate rounds toward zero");
        c = view(a.d.floor(uint8_t(n)));
        ENSURES_(c.e == n && c.neg == a.neg && W(c.man) == q + W(a.neg && rem != 0), "floor rounds down");
        c = view(a.d.ceil(uint8_t(n)));
        ENSURES_(c.e == n && c.neg == a.neg && W(c.man) == q + W(!a.neg && rem != 0), "ceil rounds up");
        ENSURES_(a.d.extend(uint8_t(n)).to_bits() == a.bits, "extend to fewer digits changes nothing");
    }
}

VC_CONTRACT(scale64, 16, "proof", "awl::decimal<uint64_t,4>::rescale, extend, truncate, floor, ceil, rescale_self, extend_self, trim_self, round_self",
    "each change of scale gives exactly the documented value, or throws exactly when it cannot")
{
    scale_contract<D64>(vc_case);
}

VC_CONTRACT(scale128, 16, "proof@thorough", "awl::decimal<__uint128_t,4>::rescale, extend, truncate, floor, ceil",
    "each change of scale gives exactly the documented value, or throws exactly when it cannot")
{
    scale_contract<D128>(vc_case);
}

VC_CONTRACT(digits64, 1, "proof", "awl::decimal<uint64_t,4>::rescale, extend, check_exp",
    "more digits than the type has are rejected, and the decimal is not changed")
{
    auto a = any_dec<D64>(unsigned(vc_pick(0, 15, "a digits")), "a");
    uint8_t n = vc_val<uint8_t>("digits");
    REQUIRES(n > 15);
    ENSURES(vc_throws<std::logic_error>([&] { (void)a.d.rescale(n); }));
    ENSURES(vc_throws<std::logic_error>([&] { (void)a.d.extend(n); }));
    ENSURES(vc_throws<std::logic_error>([&] { (void)a.d.rescaled_mantissa(n); }));
    ENSURES(a.d.to_bits() == a.bits);
}

template <class D> void normalize_contract(int ea)
{
    auto a = any_dec<D>(ea, "a");
    auto c = view(a.d.normalize());
    c.e = unsigned(vc_conc(c.e));
    ENSURES_(c.e <= a.e && c.neg == a.neg, "no more digits than before, the same sign");
    if (c.e <= a.e)
        ENSURES_(c.mag(a.e) == a.mag(a.e), "the same value");
    ENSURES_(c.e == 0 || c.man % 10 != 0, "no trailing zero is left");
}

VC_CONTRACT(normalize64, 16, "proof", "awl::decimal<uint64_t,4>::normalize, normalize_self", "keeps the value, removes all trailing zeros")
{
    normalize_contract<D64>(vc_case);
}

VC_CONTRACT(normalize128, 16, "proof@thorough", "awl::decimal<__uint128_t,4>::normalize", "keeps the value, removes all trailing zeros")
{
    normalize_contract<D128>(vc_case);
}

VC_CONTRACT(bits64, 1, "proof", "awl::decimal<uint64_t,4>::to_bits, from_bits, mantissa, exponent, positive, decimal(Int, uint8_t)",
    "the bit representation and the accessors are lossless")
{
    uint64_t b = vc_val<uint64_t>("bits");
    D64 d = D64::from_bits(b);
    ENSURES(d.to_bits() == b);
    ENSURES(d.unsigned_mantissa() == b >> 5);
    ENSURES(d.exponent() == (b >> 1 & 15));
    ENSURES(d.positive() == ((b & 1) == 0));
    D64 e(d.mantissa(), d.exponent());
    ENSURES(e.mantissa() == d.mantissa() && e.exponent() == d.exponent());
    D64 z;
    ENSURES(z.mantissa() == 0 && z.exponent() == 0 && z.positive());
    unsigned dg = unsigned(vc_pick(0, 15, "digits"));
    uint64_t den = 1;
    for (unsigned i = 0; i < dg; ++i)
        den *= 10;
    ENSURES(D64(uint8_t(dg)).denominator() == den);
    ENSURES(D64(uint8_t(dg)).exponent() == dg && D64(uint8_t(dg)).unsigned_mantissa() == 0);
}

VC_CONTRACT(bits128, 1, "proof", "awl::decimal<__uint128_t,4>::to_bits, from_bits, mantissa, exponent, positive",
    "the bit representation and the accessors are lossless")
{
    unsigned __int128 b = vc_any128(128, "bits");
    D128 d = D128::from_bits(b);
    ENSURES(d.to_bits() == b);
    ENSURES(d.unsigned_mantissa() == b >> 5);
    ENSURES(d.exponent() == (unsigned(b) >> 1 & 15));
    ENSURES(d.positive() == ((b & 1) == 0));
}
