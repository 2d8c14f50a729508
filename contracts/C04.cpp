#include "dec.inc.h"

// Exact sum at the common scale; an exception exactly when an operand or the sum does not fit at that scale.
template <class D, class Op> void add_contract(int ea, Op op, bool sub)
{
    using S = Dec<D>;
    auto a = any_dec<D>(ea, "a");
    auto b = any_dec<D>(unsigned(vc_pick(0, S::me, "b digits")), "b");
    unsigned e = a.e > b.e ? a.e : b.e;
    const typename S::W max = (typename S::W(1) << S::mb) - 1;
    typename S::SW sum = sub ? a.val(e) - b.val(e) : a.val(e) + b.val(e);
    typename S::W mag = typename S::W(sum < 0 ? -sum : sum);
    bool fits = a.mag(e) <= max && b.mag(e) <= max && mag <= max;
    D r;
    bool thrown = vc_throws<std::logic_error>([&] { r = op(a.d, b.d); });
    if (thrown) {
        vc_cover("throws");
        ENSURES_(!fits, "throws only when the exact result is not representable at the common scale");
    }
    else {
        vc_cover("returns");
        auto c = view(r);
        c.e = unsigned(vc_conc(c.e));
        ENSURES_(c.e == e, "the result has the larger scale");
        ENSURES_(c.val(e) == sum, "the result is exactly the mathematical one");
    }
}

VC_CONTRACT(add64, 16, "proof", "awl::decimal<uint64_t,4>::operator+, align, rescale_self, extend_self, set_mantissa",
    "a+b is the exact sum, or throws when it is not representable at the common scale")
{
    add_contract<D64>(vc_case, [](D64 a, D64 b) { return a + b; }, false);
}

VC_CONTRACT(sub64, 16, "proof", "awl::decimal<uint64_t,4>::operator-",
    "a-b is the exact difference, or throws when it is not representable at the common scale")
{
    add_contract<D64>(vc_case, [](D64 a, D64 b) { return a - b; }, true);
}

VC_CONTRACT(add_assign64, 16, "proof", "awl::decimal<uint64_t,4>::operator+=",
    "a+=b assigns the exact sum and returns a; on an exception a is unchanged")
{
    add_contract<D64>(vc_case, [](D64 a, D64 b) {
        D64 old = a;
        D64* p = &a;
        bool t = vc_throws<std::logic_error>([&] { p = &(a += b); });
        if (t) {
            ENSURES_(a.to_bits() == old.to_bits(), "unchanged after an exception");
            throw std::logic_error("");
        }
        ENSURES_(p == &a, "returns itself");
        return a; }, false);
}

VC_CONTRACT(sub_assign64, 16, "proof", "awl::decimal<uint64_t,4>::operator-=",
    "a-=b assigns the exact difference and returns a; on an exception a is unchanged")
{
    add_contract<D64>(vc_case, [](D64 a, D64 b) {
        D64 old = a;
        D64* p = &a;
        bool t = vc_throws<std::logic_error>([&] { p = &(a -= b); });
        if (t) {
            ENSURES_(a.to_bits() == old.to_bits(), "unchanged after an exception");
            throw std::logic_error("");
        }
        ENSURES_(p == &a, "returns itself");
        return a; }, true);
}

VC_CONTRACT(add128, 16, "proof@thorough", "awl::decimal<__uint128_t,4>::operator+",
    "a+b is the exact sum, or throws when it is not representable at the common scale")
{
    add_contract<D128>(vc_case, [](D128 a, D128 b) { return a + b; }, false);
}

VC_CONTRACT(sub128, 16, "proof@thorough", "awl::decimal<__uint128_t,4>::operator-",
    "a-b is the exact difference, or throws when it is not representable at the common scale")
{
    add_contract<D128>(vc_case, [](D128 a, D128 b) { return a - b; }, true);
}

// Multiplication: the exponents add up; exact, or throws when mantissa or exponent do not fit.
template <class D> void mul_contract(int signs)
{
    using S = Dec<D>;
    auto a = any_dec<D>(unsigned(vc_any(S::ex, "a digits")), "a", signs & 1);
    auto b = any_dec<D>(unsigned(vc_any(S::ex, "b digits")), "b", signs & 2);
    const typename S::W max = (typename S::W(1) << S::mb) - 1;
    typename S::W mag = typename S::W(a.man) * b.man;
    bool fits = a.e + b.e <= S::me && mag <= max;
    D r;
    bool thrown = vc_throws<std::logic_error>([&] { r = awl::multiply(a.d, b.d); });
    if (thrown) {
        vc_cover("throws");
        ENSURES_(!fits, "throws only when the exact product is not representable");
    }
    else {
        vc_cover("returns");
        auto c = view(r);
        ENSURES_(a.e + b.e <= S::me, "the product has a representable scale");
        ENSURES_(c.e == a.e + b.e, "the scales add up");
        ENSURES_(c.man == mag, "the mantissa is exact");
        ENSURES_(mag == 0 || c.neg == (a.neg != b.neg), "the sign is exact");
    }
}

VC_CONTRACT(mul64, 4, "proof", "awl::multiply(decimal<uint64_t,4>, decimal<uint64_t,4>)",
    "the product is exact, or an exception is thrown")
{
    mul_contract<D64>(vc_case);
}

VC_CONTRACT(negate64, 1, "proof", "awl::decimal<uint64_t,4>::operator-(), negate, positive, negative, mantissa, set_mantissa",
    "negation is exact and changes nothing else; mantissa() is the signed mantissa")
{
    auto a = any_dec<D64>(unsigned(vc_pick(0, 15, "digits")), "a");
    auto n = view(-a.d);
    ENSURES(n.e == a.e && n.man == a.man && n.neg == !a.neg);
    D64 b = a.d;
    b.negate();
    ENSURES(b.to_bits() == n.bits);
    ENSURES(a.d.positive() == !a.neg && a.d.negative() == a.neg);
    ENSURES(a.d.mantissa() == (a.neg ? -int64_t(a.man) : int64_t(a.man)));
    ENSURES(a.d.unsigned_mantissa() == a.man && a.d.exponent() == a.e);
    int64_t m = vc_val<int64_t>("m");
    D64 c = a.d;
    uint64_t abs = m < 0 ? -uint64_t(m) : uint64_t(m);
    if (vc_throws<std::logic_error>([&] { c.set_mantissa(m); })) {
        ENSURES_(abs > D64::max_mantissa(), "set_mantissa throws only when the mantissa does not fit");
        ENSURES(c.to_bits() == a.bits);
    }
    else {
        auto v = view(c);
        ENSURES(v.man == abs && v.neg == (m < 0) && v.e == a.e);
    }
}
