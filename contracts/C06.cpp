// C06: decimals as text.
// SOURCES:
#include "dec.inc.h"
#include <string>
#include <string_view>

namespace {

// What a text means: optional sign, digits, optionally a point and more digits; absent digits count as zero.
struct Parsed {
    bool valid = true, neg = false;
    unsigned e = 0;
    unsigned __int128 man = 0; // saturated
};

template <class C> Parsed meaning(const C* s, size_t n, unsigned max_exp, unsigned __int128 max_man)
{
    Parsed p;
    size_t i = 0;
    if (n != 0 && (s[0] == '+' || s[0] == '-'))
        p.neg = s[i++] == '-';
    bool point = false;
    unsigned zeros = 0;
    for (; i < n; ++i) {
        if (s[i] == '.' && !point) {
            point = true;
            continue;
        }
        if (s[i] < '0' || s[i] > '9') {
            p.valid = false;
            return p;
        }
        unsigned d = unsigned(s[i] - '0');
        if (point && d == 0) {
            ++zeros; // trailing zeros do not count
            continue;
        }
        unsigned k = point ? zeros + 1 : 1;
        zeros = 0;
        for (unsigned j = 0; j < k; ++j) {
            if (point)
                ++p.e;
            if (p.e > max_exp || p.man > max_man) {
                p.man = max_man + 1;
                continue;
            }
            p.man = p.man * 10 + (j + 1 == k ? d : 0);
        }
    }
    if (p.e > max_exp || p.man > max_man)
        p.valid = false;
    return p;
}

template <class D, class C> void check_parse(const C* s, size_t n)
{
    using S = Dec<D>;
    const unsigned __int128 max = ((unsigned __int128)1 << S::mb) - 1;
    D d;
    bool thrown = vc_throws<std::logic_error>([&] { d = D::from_string(std::basic_string_view<C>(s, n)); });
    Parsed p = meaning(s, n, S::me, max);
    ENSURES_(thrown == !p.valid, "exactly the texts that are not representable numbers are rejected");
    if (!thrown && p.valid) {
        auto v = view(d);
        ENSURES_(v.man == p.man && v.e == p.e && v.neg == p.neg, "the parsed value is the written one");
    }
}

template <class C> C any_symbol(unsigned cls)
{
    switch (cls) {
    case 0: return C('0');
    
    case 2: return C('.');
    case 3: return C('-');
    case 4: return C('+');
    default: {
        C c = C(vc_any(sizeof(C) * 8, "symbol"));
        REQUIRES((c < C('0') || c > C('9')) && c != C('.') && c != C('-') && c != C('+'));
        return c;
    }
    }
}

template <class C> C any_symbol2(unsigned cls)
{
    if (cls != 1)
        return any_symbol<C>(cls);
    uint64_t d = vc_any(4, "digit");
    REQUIRES(d >= 1 && d <= 9);
    return C(C('0') + d);
}

}

VC_CONTRACT(parse_short, 36, "bounded", "awl::decimal<uint64_t,4>::from_string<char>, parse_int, symbol_to_digit",
    "every text of at most 5 characters: rejected exactly when it is no number, otherwise the exact value (bound: 5 characters)")
{
    char s[5];
    size_t n = vc_pick(0, 5, "length");
    if (n < 2 && vc_case >= (n ? 6 : 1))
        return;
    for (size_t i = 0; i < n; ++i)
        s[i] = any_symbol2<char>(unsigned(i == 0 ? vc_case % 6 : i == 1 ? vc_case / 6 : vc_pick(0, 5, "class")));
    check_parse<D64>(s, n);
}

VC_CONTRACT(parse_wide, 36, "bounded", "awl::decimal<uint64_t,4>::from_string<wchar_t>",
    "every wide text of at most 3 characters (bound: 3 characters)")
{
    wchar_t s[3];
    size_t n = vc_pick(0, 3, "length");
    if (n < 2 && vc_case >= (n ? 6 : 1))
        return;
    for (size_t i = 0; i < n; ++i)
        s[i] = any_symbol2<wchar_t>(unsigned(i == 0 ? vc_case % 6 : i == 1 ? vc_case / 6 : vc_pick(0, 5, "class")));
    check_parse<D64>(s, n);
}

// digits i, point, z zeros, fraction of f digits, t zeros
VC_CONTRACT(parse_long, 21, "bounded", "awl::decimal<uint64_t,4>::from_string<char>, parse_int",
    "texts of up to 20 nonzero integer digits, up to 17 zeros and up to 3 nonzero digits after the point, trailing zeros; all digits arbitrary")
{
    char s[64];
    size_t n = 0;
    if (vc_pick(0, 1, "minus"))
        s[n++] = '-';
    int id = vc_case;
    for (int i = 0; i < id; ++i)
        s[n++] = any_symbol2<char>(1);
    static const int zs[] = {0, 1, 7, 12, 14, 15, 16, 17};
    int z = zs[vc_pick(0, 7, "zeros after the point")];
    int f = int(vc_pick(0, 3, "fractional digits"));
    s[n++] = '.';
    for (int i = 0; i < z; ++i)
        s[n++] = '0';
    for (int i = 0; i < f; ++i)
        s[n++] = any_symbol2<char>(1);
    for (int i = int(vc_pick(0, 1, "trailing zeros")) * 2; i > 0; --i)
        s[n++] = '0';
    check_parse<D64>(s, n);
}

// ---- executed contracts: the text is produced by the standard library
namespace {
template <class D> void roundtrip(unsigned e)
{
    auto a = any_dec<D>(e, "a");
    std::string digits;
    for (typename Dec<D>::U m = a.man; m != 0; m /= 10)
        digits.insert(digits.begin(), char('0' + unsigned(m % 10)));
    while (digits.size() <= a.e)
        digits.insert(digits.begin(), '0');
    std::string want = (a.neg ? "-" : "") + digits.substr(0, digits.size() - a.e);
    if (a.e != 0)
        want += "." + digits.substr(digits.size() - a.e);
    std::string t = a.d.to_astring();
    ENSURES_(t == want, "the text is the exact decimal notation with all the digits");
    std::wstring w = a.d.to_wstring();
    ENSURES_(std::string(w.begin(), w.end()) == want, "the wide text is the same");
    D b = D::from_string(std::string_view(t));
    auto v = view(b), x = view(a.d.normalize());
    ENSURES_(v.man == x.man && v.e == x.e && v.neg == x.neg, "parsing the text gives the same value");
    ENSURES_(view(D::from_string(std::wstring_view(w))).bits == v.bits, "parsing the wide text gives the same value");
    ENSURES_(view(D(t.c_str())).bits == v.bits, "constructing from the text gives the same value");
    check_parse<D>(t.data(), t.size());
    check_parse<D>(w.data(), w.size());
}
}

VC_CONTRACT(roundtrip64, 16, "enum", "operator<<(ostream, decimal<uint64_t,4>), to_astring, to_wstring, from_string",
    "text of a decimal is exact and parses back to the same value (sampled mantissas: boundary and random)")
{
    roundtrip<D64>(unsigned(vc_case));
}

VC_CONTRACT(roundtrip128, 16, "enum", "operator<<(ostream, decimal<__uint128_t,4>), to_astring, from_string",
    "text of a 128-bit decimal is exact and parses back to the same value (sampled mantissas)")
{
    roundtrip<D128>(unsigned(vc_case));
}

VC_CONTRACT(parse_sampled, 2, "enum", "awl::decimal<uint64_t,4>::from_string, parse_int",
    "texts built of number characters, up to 600 long (sampled)")
{
    std::string s;
    if (vc_case == 0) {
        size_t n = vc_any(8, "#len");
        for (size_t i = 0; i < n; ++i)
            s += char(vc_any(8, "$c"));
    }
    else {
        static const char* const sign[] = {"", "-", "+", "--"};
        static const size_t reps[] = {0, 1, 2, 14, 15, 16, 17, 18, 19, 20, 255, 256, 257, 300};
        s = sign[vc_pick(0, 3, "sign")];
        s += std::string(reps[vc_pick(0, 13, "zeros")], '0');
        s += std::to_string(vc_any(64, "int"));
        s += '.';
        s += std::string(reps[vc_pick(0, 13, "zeros")], '0');
        s += std::to_string(vc_any(32, "frac") % 1000);
        s += std::string(reps[vc_pick(0, 13, "zeros")], '0');
    }
    check_parse<D64>(s.data(), s.size());
    check_parse<D128>(s.data(), s.size());
}
