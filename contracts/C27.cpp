// C27: decimals made of numbers, and numbers made of decimals.
#include "dec.inc.h"
#include <bit>
#include <cmath>

namespace {
using D = D64;
using I = int64_t;
using W = __int128;
constexpr W limit = (W(1) << 59) - 1;

double any_double(const char* n) { return std::bit_cast<double>(vc_any(64, n)); }
double den(unsigned e) { return double(p10<uint64_t>(e)); }
bool same(double a, double b) { return std::bit_cast<uint64_t>(a) == std::bit_cast<uint64_t>(b) || (std::isnan(a) && std::isnan(b)); }

// makes a decimal with e digits by make(): it has the mantissa m, or make() throws iff !fits
template <class F> void made(unsigned e, bool fits, W m, const F& make)
{
    D r;
    const bool t = vc_throws<std::logic_error>([&] { r = make(); });
    ENSURES_(t == !fits, "a number is rejected exactly if it does not fit");
    if (!t) {
        vc_cover("made");
        const auto c = view(r);
        ENSURES_(c.e == e, "it has the requested scale");
        ENSURES_(W(c.man) == (m < 0 ? -m : m) && c.neg == (m < 0), "and exactly the value");
    }
}
// gives d a value by change(): it gets the mantissa m, or change() throws iff !fits and leaves it as it was
template <class F> void changed(DV<D> d, unsigned e, bool fits, W m, const F& change)
{
    const bool t = vc_throws<std::logic_error>([&] { change(d.d); });
    ENSURES_(t == !fits, "a number is rejected exactly if it does not fit");
    const auto c = view(d.d);
    if (t)
        ENSURES_(c.bits == d.bits, "a decimal is not changed by a number that is rejected");
    else
        ENSURES_(c.e == e && W(c.man) == (m < 0 ? -m : m) && c.neg == (m < 0), "it gets exactly the value at its scale");
}
template <class T> void integers(unsigned e)
{
    const T v = vc_val<T>("v");
    const W m = W(v) * p10<W>(e);
    const bool fits = m <= limit && m >= -limit;
    const auto d = any_dec<D>(e, "d");
    changed(d, e, fits, m, [&](D& x) { ENSURES(&(x = v) == &x); });
    const uint8_t n = uint8_t(e);
    made(e, fits, m, [&] { return D::make_decimal(v, n); });
    made(e, fits, m, [&] { return D::make_truncated(v, n); });
    made(e, fits, m, [&] { return D::make_rounded(v, n); });
    made(e, fits, m, [&] { return D::make_ceiled(v, n); });
    made(e, fits, m, [&] { return D::make_floored(v, n); });
}
// an integral double as an integer, whatever it is if it does not fit
bool fits(double p) { return p > -0x1p59 && p < 0x1p59; }
W whole(double p) { return fits(p) ? W(I(p)) : 0; }
} // namespace

VC_CONTRACT(integers_signed, 16, "proof", "awl::decimal::operator=, make_decimal, make_truncated, make_rounded, make_ceiled, make_floored of integers", "a decimal made of an integer is exactly that integer, or the integer is rejected")
{
    integers<I>(vc_case);
}
VC_CONTRACT(integers_other, 16, "proof", "awl::decimal::operator=, make_decimal, make_truncated, make_rounded, make_ceiled, make_floored of integers", "a decimal made of an integer is exactly that integer, or the integer is rejected")
{
    integers<uint64_t>(vc_case);
    integers<int>(vc_case);
    integers<uint8_t>(vc_case);
}
VC_CONTRACT(doubles, 16, "proof", "awl::decimal::operator=, make_decimal, make_truncated, make_rounded, make_ceiled, make_floored of doubles", "a decimal made of a double is the scaled double, rounded as documented, or the double is rejected")
{
    const unsigned e = vc_case;
    const uint8_t n = uint8_t(e);
    const double v = any_double("v"), p = v * den(e);
    const double t = std::trunc(p), r = std::round(p), c = std::ceil(p), f = std::floor(p);
    const auto d = any_dec<D>(e, "d");
    changed(d, e, fits(t), whole(t), [&](D& x) { ENSURES(&(x = v) == &x); });
    made(e, fits(t), whole(t), [&] { return D::make_decimal(v, n); });
    made(e, fits(t), whole(t), [&] { return D::make_truncated(v, n); });
    made(e, fits(r), whole(r), [&] { return D::make_rounded(v, n); });
    made(e, fits(c), whole(c), [&] { return D::make_ceiled(v, n); });
    made(e, fits(f), whole(f), [&] { return D::make_floored(v, n); });
}
VC_CONTRACT(floats, 16, "proof", "awl::decimal::make_decimal, make_rounded of floats", "a decimal made of a float is the scaled float, rounded as documented, or the float is rejected")
{
    const unsigned e = vc_case;
    const float v = std::bit_cast<float>(uint32_t(vc_any(32, "v")));
    const double p = v * den(e), t = std::trunc(p), r = std::round(p);
    made(e, fits(t), whole(t), [&] { return D::make_decimal(v, uint8_t(e)); });
    made(e, fits(r), whole(r), [&] { return D::make_rounded(v, uint8_t(e)); });
}
VC_CONTRACT(to_numbers, 16, "proof", "awl::decimal::cast, operator double", "the number made of a decimal is its mantissa divided once by the power of ten; an integer is the integer part of the value")
{
    const unsigned e = vc_case;
    const auto d = any_dec<D>(e, "d");
    const I m = d.neg ? -I(d.man) : I(d.man), u = p10<I>(e);
    ENSURES_(same(d.d.cast<double>(), double(m) / den(e)), "to double");
    ENSURES_(same(double(d.d), double(m) / den(e)), "by conversion");
    const float f = d.d.cast<float>(), g = float(float(m) / den(e));
    ENSURES_(std::bit_cast<uint32_t>(f) == std::bit_cast<uint32_t>(g), "to float");
    ENSURES_(d.d.cast<int64_t>() == m / u, "to an integer");
    if (m / u <= std::numeric_limits<int>::max() && m / u >= std::numeric_limits<int>::min())
        ENSURES_(d.d.cast<int>() == m / u, "to a narrower integer that can hold it");
}
VC_CONTRACT(products, 16, "proof", "awl::decimal::operator*, /, *=, /= with doubles", "the product and the quotient are those of the double the decimal is converted to")
{
    const unsigned e = vc_case;
    const auto d = any_dec<D>(e, "d");
    const double v = any_double("v"), x = double(d.d);
    ENSURES_(same(d.d * v, v * x) || same(d.d * v, x * v), "the product is that of the doubles");
    ENSURES_(same(d.d / v, x / v), "the quotient is that of the doubles");
    const double q = std::trunc(d.d * v * den(e)), w = std::trunc(d.d / v * den(e));
    changed(d, e, fits(q), whole(q), [&](D& y) { ENSURES(&(y *= v) == &y); });
    changed(d, e, fits(w), whole(w), [&](D& y) { ENSURES(&(y /= v) == &y); });
}
// the sum of decimals is the matter of C04
VC_CONTRACT(sums, 32, "proof", "awl::decimal::operator+, -, +=, -= with doubles", "a sum with a double is that with the decimal made of it, at the scale of the other operand")
{
    const unsigned e = vc_case % 16;
    const auto d = any_dec<D>(e, "d");
    const double v = any_double("v");
    D o;
    REQUIRES(!vc_throws<std::logic_error>([&] { o = D::make_decimal(v, uint8_t(e)); }));
    D s, r, c = d.d;
    bool f, t, u;
    if (vc_case < 16) {
        f = vc_throws<std::logic_error>([&] { s = d.d + o; });
        t = vc_throws<std::logic_error>([&] { r = d.d + v; });
        u = vc_throws<std::logic_error>([&] { ENSURES(&(c += v) == &c); });
    }
    else {
        f = vc_throws<std::logic_error>([&] { s = d.d - o; });
        t = vc_throws<std::logic_error>([&] { r = d.d - v; });
        u = vc_throws<std::logic_error>([&] { ENSURES(&(c -= v) == &c); });
    }
    ENSURES_(t == f && u == f, "a sum is rejected exactly if it does not fit");
    ENSURES_(t || r.to_bits() == s.to_bits(), "and is the sum of the decimals");
    ENSURES_(c.to_bits() == (u ? d.bits : s.to_bits()), "a decimal is changed to the sum unless that is rejected");
}
VC_CONTRACT(rejected_sums, 16, "proof", "awl::decimal::operator+, -, +=, -= with doubles", "a sum with a double that is no decimal is rejected")
{
    const auto d = any_dec<D>(unsigned(vc_case), "d");
    const double v = any_double("v");
    REQUIRES(vc_throws<std::logic_error>([&] { D::make_decimal(v, uint8_t(vc_case)); }));
    D c = d.d;
    ENSURES(vc_throws<std::logic_error>([&] { c = d.d + v; }) && vc_throws<std::logic_error>([&] { c = d.d - v; }));
    ENSURES(vc_throws<std::logic_error>([&] { c += v; }) && vc_throws<std::logic_error>([&] { c -= v; }));
    ENSURES_(c.to_bits() == d.bits, "a decimal is not changed by a number that is rejected");
}
VC_CONTRACT(roundtrip, 16, "enum(arbitrary decimals of up to 15 digits, executed)", "awl::decimal::make_rounded, cast", "a decimal of up to 15 digits survives the conversion to double and back")
{
    const unsigned e = vc_case;
    auto d = any_dec<D>(e, "d");
    REQUIRES(d.man < 1000000000000000u);
    ENSURES_(D::make_rounded(double(d.d), uint8_t(e)) == d.d, "the same value");
    ENSURES_(view(D::make_rounded(double(d.d), uint8_t(e))).e == e, "the same scale");
}
VC_CONTRACT(limits, 1, "proof", "std::numeric_limits of awl::decimal", "the least and the greatest decimal")
{
    using L = std::numeric_limits<D>;
    const auto lo = view(L::min()), hi = view(L::max());
    ENSURES(lo.neg && !hi.neg && W(lo.man) == limit && W(hi.man) == limit && lo.e == 0 && hi.e == 0);
    const auto d = any_dec<D>(unsigned(vc_pick(0, 15, "e")), "d");
    ENSURES_(d.val() <= hi.val() && d.val() >= lo.val(), "every decimal lies between them");
}
