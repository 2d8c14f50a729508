// C24: text, enumeration and reflection helpers.
// SOURCES:
#include "vc.h"
#include <cstring>
#include <sstream>
#include "Awl/EnumTraits.h"
#include "Awl/FixedString.h"
#include "Awl/Reflection.h"
#include "Awl/Separator.h"
#include "Awl/String.h"

// ---- what is written to a stream ----------------------------------------------------------------------------------
// symbolic: the insertion of a string is replaced by its contract "the text is appended"; native: the stream's text
static char g_text[160];
static size_t g_len = 0;

VC_SUMMARY(insert)(std::ostream& out, const std::string& s) -> std::ostream&
{
    for (size_t i = 0; i != s.size(); ++i)
        g_text[g_len++] = s[i];
    return out;
}

struct Out {
    std::ostringstream s;
    int n = VC_USE(insert, "std::operator<< ?<char, std::char_traits<char>, std::allocator<char> ?>.*basic_string");
    Out() { g_len = 0; }
    size_t size()
    {
        if (!n) {
            std::string t = s.str();
            g_len = t.size() < sizeof g_text ? t.size() : sizeof g_text;
            std::memcpy(g_text, t.data(), g_len);
        }
        return g_len;
    }
    bool is(const char* p, size_t len)
    {
        if (size() != len)
            return false;
        bool r = true;
        for (size_t i = 0; i != len; ++i)
            r &= g_text[i] == p[i];
        return r;
    }
};

// ---- lists of names ----------------------------------------------------------------------------------------------
static bool name_char(char c) { return c != 0 && c != ',' && c != ' '; }

static void member_list(int n, int maxlen, int style)
{
    char text[64];
    size_t len = 0;
    char name[4][4];
    int nl[4];
    for (int i = 0; i != n; ++i) {
        nl[i] = int(vc_pick(1, maxlen, "length"));
        if (i != 0) {
            if (style == 2)
                text[len++] = ' ';
            text[len++] = ',';
            if (style != 1)
                text[len++] = ' ';
        }
        for (int j = 0; j != nl[i]; ++j) {
            name[i][j] = vc_val<char>("c");
            REQUIRES(name_char(name[i][j]));
            text[len++] = name[i][j];
        }
    }
    text[len] = 0;
    awl::helpers::MemberList ml(text);
    ENSURES_(ml.size() == size_t(n), "as many names as declared");
    for (int i = 0; i != n; ++i) {
        const std::string& s = ml[i];
        bool same = s.size() == size_t(nl[i]);
        for (int j = 0; same && j != nl[i]; ++j)
            same = s[j] == name[i][j];
        ENSURES_(same, "every declared name is in its place");
        auto idx = ml.find_index(s);
        ENSURES_(idx <= size_t(i) && ml[idx] == s, "a declared name is found");
        ENSURES_(ml.find_cstr(s.c_str()) == ml.begin() + idx && ml.find(s) == ml.begin() + idx, "find and find_cstr agree");
    }
    ENSURES_(ml.find_index(",") == awl::helpers::MemberList::NotAnIndex, "a name that is not declared is not found");
    ENSURES_(ml.find_cstr("a,") == ml.end(), "a name that is not declared is not found");
}

VC_CONTRACT(names, 10, "bounded", "awl::helpers::MemberList: traverse, getArgCount, getArgNames, find, find_cstr, find_index, size, operator[]",
    "lists of 0..3 names of 1..3 arbitrary characters, every spacing of the commas that the preprocessor can leave")
{
    if (vc_case == 0)
        member_list(0, 0, 0);
    else
        member_list((vc_case - 1) / 3 + 1, vc_case > 6 ? 2 : 3, (vc_case - 1) % 3);
}

// ---- enumerations ------------------------------------------------------------------------------------------------
namespace ns {
AWL_SEQUENTIAL_ENUM(Color, Red, Green, b, re)
AWL_SEQUENTIAL_ENUM(One, Only)
}
AWL_ENUM_TRAITS(ns, Color)
AWL_ENUM_TRAITS(ns, One)

static const char* const color_names[] = {"Red", "Green", "b", "re"};
static const char* const one_names[] = {"Only"};

static bool same_text(const std::string& s, const char* p, bool fold)
{
    size_t n = std::strlen(p);
    if (s.size() != n)
        return false;
    auto low = [&](char c) { return fold && c >= 'A' && c <= 'Z' ? char(c + 32) : c; };
    bool r = true;
    for (size_t i = 0; i != n; ++i)
        r &= low(s[i]) == low(p[i]);
    return r;
}

template <class E> void enum_values(const char* const* names, int n)
{
    uint8_t v = vc_val<uint8_t>("v");
    E e = E(v);
    bool ok = v < n;
    ENSURES_(awl::EnumTraits<E>::count() == n && awl::EnumTraits<E>::names().size() == size_t(n), "count is the number of enumerators");
    ENSURES_(awl::enum_to_underlying(e) == v, "enum_to_underlying is the value");
    ENSURES_((vc_throws<std::runtime_error>([&] { awl::validate_enum(e); }) == !ok), "validate_enum accepts exactly the enumerators");
    ENSURES_((vc_throws<std::runtime_error>([&] { awl::validate_enum_index<E>(v); }) == !ok), "validate_enum_index accepts exactly the indices");
    ENSURES_((vc_throws<std::runtime_error>([&] { ENSURES_(awl::enum_to_index(e) == v, "enum_to_index is the index"); }) == !ok), "enum_to_index rejects other values");
    ENSURES_((vc_throws<std::runtime_error>([&] { ENSURES_(awl::enum_from_index<E>(v) == e, "enum_from_index is the enumerator"); }) == !ok), "enum_from_index rejects other indices");
    bool t = vc_throws<std::runtime_error>([&] {
        const std::string& s = awl::enum_to_string(e);
        ENSURES_(ok, "enum_to_string rejects other values");
        ENSURES_(same_text(s, names[vc_conc(v)], false), "every enumerator has its own name");
        vc_cover("named");
        ENSURES_(awl::enum_from_string<E>(s) == e, "the name of an enumerator gives it back");
        ENSURES_(same_text(awl::enum_to_string(awl::enum_from_string_i<E>(s)), names[vc_conc(v)], true), "the name of an enumerator gives it back ignoring case");
    });
    ENSURES_(t == !ok, "enum_to_string rejects exactly the values that are not enumerators");
}

template <class E> void enum_texts(const char* const* names, int n, int len)
{
    std::string s(size_t(len), ' ');
    for (int i = 0; i != len; ++i)
        s[i] = vc_val<char>("c");
    for (int fold = 0; fold != 2; ++fold) {
        int want = -1;
        for (int i = 0; i != n && want < 0; ++i)
            if (same_text(s, names[i], fold))
                want = i;
        E e{};
        bool t = vc_throws<std::runtime_error>([&] { e = fold ? awl::enum_from_string_i<E>(s) : awl::enum_from_string<E>(s); });
        ENSURES_(t == (want < 0), "exactly the names of enumerators are accepted");
        if (!t)
            ENSURES_(int(e) == want, "a name gives its own enumerator");
    }
}

VC_CONTRACT(enum_values_, 2, "proof", "awl::enum_to_string, enum_from_string, enum_from_string_i, enum_to_index, enum_from_index, validate_enum, validate_enum_index, enum_to_underlying",
    "for every value of the underlying type: accepted exactly when an enumerator, and mapped to its own name and back")
{
    if (vc_case == 0)
        enum_values<ns::Color>(color_names, 4);
    else
        enum_values<ns::One>(one_names, 1);
}

VC_CONTRACT(enum_texts_, 10, "bounded", "awl::enum_from_string, enum_from_string_i, StringEqual, StringInsensitiveEqual, CharInsensitiveEqual",
    "every text of up to 6 characters is accepted exactly when it is the name of an enumerator")
{
    if (vc_case < 7)
        enum_texts<ns::Color>(color_names, 4, vc_case);
    else
        enum_texts<ns::One>(one_names, 1, vc_case - 4);
}

// ---- strings -----------------------------------------------------------------------------------------------------
template <class Ch> long low(Ch c)
{
    long v = sizeof(Ch) == 1 ? long((unsigned char)c) : long(c);
    return v >= 'A' && v <= 'Z' ? v + 32 : v;
}

template <class Ch> void insensitive(int la, int lb)
{
    std::basic_string<Ch> a(size_t(la), Ch('x')), b(size_t(lb), Ch('x'));
    for (auto& c : a) {
        c = vc_val<Ch>("a");
        REQUIRES(sizeof(Ch) == 1 || long(c) >= 0);
    }
    for (auto& c : b) {
        c = vc_val<Ch>("b");
        REQUIRES(sizeof(Ch) == 1 || long(c) >= 0);
    }
    bool eq = la == lb, ieq = la == lb;
    for (int i = 0; i < la && la == lb; ++i) {
        eq &= a[i] == b[i];
        ieq &= low(a[i]) == low(b[i]);
    }
    ENSURES_(awl::StringEqual<Ch>()(a, b) == eq, "StringEqual is equality of the texts");
    ENSURES_(awl::StringInsensitiveEqual<Ch>()(a, b) == ieq, "StringInsensitiveEqual is equality of the lower case texts");
}

VC_CONTRACT(insensitive_, 32, "bounded", "awl::StringEqual, StringInsensitiveEqual, CharInsensitiveEqual, CharToLower (char and wchar_t)",
    "all pairs of texts of up to 3 characters, any characters including zero and non-ASCII ones")
{
    int c = vc_case % 16;
    if (vc_case < 16)
        insensitive<char>(c / 4, c % 4);
    else
        insensitive<wchar_t>(c / 4, c % 4);
}

template <class Ch, size_t N, size_t M> void fixed()
{
    Ch ta[N + 1] = {}, tb[N + 1] = {}, tc[M + 1] = {};
    for (size_t i = 0; i != N; ++i) {
        ta[i] = vc_val<Ch>("a");
        tb[i] = vc_val<Ch>("b");
    }
    for (size_t i = 0; i != M; ++i)
        tc[i] = vc_val<Ch>("c");
    awl::fixed_string a(ta), b(tb);
    awl::fixed_string c(tc);
    static_assert(sizeof(a) == sizeof(ta));
    ENSURES_(a.size() == N && a.end() - a.begin() == ptrdiff_t(N), "size");
    bool eq = true;
    for (size_t i = 0; i != N; ++i) {
        ENSURES_(std::as_const(a)[i] == ta[i] && a.begin()[i] == ta[i] && a.data()[i] == ta[i], "the characters are kept");
        eq &= ta[i] == tb[i];
    }
    ENSURES_(a.c_str()[N] == 0, "zero terminated");
    ENSURES_((a == b) == eq && (a != b) == !eq, "== and != compare the texts");
    if constexpr (N != M)
        ENSURES_(!(a == c) && a != c, "texts of different length differ");
    auto s = a + c;
    ENSURES_(s.size() == N + M && s.c_str()[N + M] == 0, "the length of a concatenation");
    for (size_t i = 0; i != N + M; ++i)
        ENSURES_(std::as_const(s)[i] == (i < N ? ta[i] : tc[i - N]), "concatenation");
    std::basic_string<Ch> str = a;
    bool same = str.size() == N;
    for (size_t i = 0; i != N; ++i)
        same &= str[i] == ta[i];
    ENSURES_(same, "conversion to a string keeps the text");
    std::basic_string_view<Ch> sv = a;
    ENSURES_(sv.size() == N && sv.data() == a.data(), "conversion to a view");
    if constexpr (N != 0) {
        Ch x = vc_val<Ch>("x");
        size_t k = size_t(vc_pick(0, N - 1, "k"));
        a[k] = x;
        for (size_t i = 0; i != N; ++i)
            ENSURES_(std::as_const(a)[i] == (i == k ? x : ta[i]), "writing a character changes only it");
    }
    char ascii[N + 1] = {};
    for (size_t i = 0; i != N; ++i) {
        ascii[i] = vc_val<char>("ascii");
        REQUIRES(ascii[i] >= 0);
    }
    auto f = awl::fixed_string<Ch, N>::from_ascii(ascii);
    for (size_t i = 0; i != N; ++i)
        ENSURES_(std::as_const(f)[i] == Ch(ascii[i]), "from_ascii keeps the characters");
    ENSURES_(f.c_str()[N] == 0, "from_ascii is zero terminated");
}

VC_CONTRACT(fixed_, 6, "proof", "awl::fixed_string: constructors, operators [] + == !=, conversions, from_ascii",
    "for every text; lengths 0, 1, 3, 4, 7 and 12, char and wchar_t")
{
    switch (vc_case) {
    case 0: return fixed<char, 0, 1>();
    case 1: return fixed<char, 3, 4>();
    case 2: return fixed<char, 4, 0>();
    case 3: return fixed<wchar_t, 1, 3>();
    case 4: return fixed<wchar_t, 7, 7>();
    case 5: return fixed<char, 12, 7>();
    }
}

VC_CONTRACT(conversions, 5, "bounded", "awl::EncodeString, DecodeString, StringConvertor, FromACString, FromAString, ToAString, FromWCString, FromWString, StrLen, StrCmp",
    "ASCII texts of up to 4 characters convert losslessly (C locale)")
{
    int n = vc_case;
    char a[8] = {};
    wchar_t w[8] = {};
    for (int i = 0; i != n; ++i) {
        a[i] = vc_val<char>("c");
        REQUIRES(a[i] > 0);
        w[i] = wchar_t(a[i]);
    }
    auto is_a = [&](const std::string& s) {
        bool r = s.size() == size_t(n);
        for (int i = 0; r && i != n; ++i)
            r = s[i] == a[i];
        return r;
    };
    auto is_w = [&](const std::wstring& s) {
        bool r = s.size() == size_t(n);
        for (int i = 0; r && i != n; ++i)
            r = s[i] == w[i];
        return r;
    };
    ENSURES_(is_a(awl::EncodeString(w)), "EncodeString");
    ENSURES_(is_w(awl::DecodeString(a)), "DecodeString");
    ENSURES_(is_a(awl::FromACString(a)), "FromACString");
    ENSURES_(is_a(awl::FromAString(std::string(a))), "FromAString");
    ENSURES_(is_a(awl::ToAString(std::string(a))), "ToAString");
    ENSURES_(is_a(awl::FromWCString(w)), "FromWCString");
    ENSURES_(is_a(awl::FromWString(std::wstring(w))), "FromWString");
    ENSURES_(is_w(awl::StringConvertor<wchar_t>::Decode(a)), "Decode to wide");
    ENSURES_(is_w(awl::StringConvertor<wchar_t>::Encode(w)), "Encode to wide");
    ENSURES_(is_a(awl::StringConvertor<wchar_t>::EncodeToA(w)), "Encode to narrow");
    ENSURES_(awl::StrLen(a) == size_t(n) && awl::StrLen(w) == size_t(n), "StrLen");
    ENSURES_(awl::StrCmp(a, a) == 0 && awl::StrCmp(w, w) == 0, "StrCmp");
}

VC_CONTRACT(separator_, 2, "proof", "awl::basic_separator, operator<<(ostream, basic_separator)",
    "nothing before the first element, the separator before every other one")
{
    char c = vc_val<char>("c");
    char two[3] = {c, ' ', 0};
    Out o;
    std::string s;
    if (vc_case == 1)
        s = std::string(two, 2) + "|";
    awl::aseparator sep = vc_case == 0 ? awl::aseparator(c) : awl::aseparator(s);
    ENSURES_(sep.first(), "first at the beginning");
    o.s << sep;
    ENSURES_(o.size() == 0 && !sep.first(), "nothing before the first element");
    o.s << sep;
    o.s << sep;
    char want[7] = {c, ' ', c, ' '};
    if (vc_case == 1) {
        want[2] = '|';
        want[3] = c;
        want[4] = ' ';
        want[5] = '|';
    }
    ENSURES_(o.is(want, vc_case == 0 ? 4 : 6), "the separator before every other element");
}

// ---- 128-bit integers --------------------------------------------------------------------------------------------
static unsigned __int128 pow10(int n)
{
    unsigned __int128 v = 1;
    while (n--)
        v *= 10;
    return v;
}

VC_CONTRACT(uint128_text, 39, "proof", "awl::operator<<(ostream, __uint128_t)", "the text of every 128-bit unsigned integer is its decimal notation (case = number of digits)")
{
    using awl::operator<<;
    unsigned __int128 v = vc_any128(128, "v");
    int n = vc_case + 1;
    if (n > 1)
        REQUIRES(v >= pow10(n - 1));
    if (n < 39)
        REQUIRES(v < pow10(n));
    Out o;
    o.s << v;
    ENSURES_(o.size() == size_t(n), "the number of digits");
    for (int i = 0; i != n; ++i)
        ENSURES_((unsigned __int128)(unsigned char)(g_text[i] - '0') == v / pow10(n - 1 - i) % 10, "every digit is that of the decimal notation of the value");
}

VC_CONTRACT(int128_text, 1, "enum", "awl::operator<<(ostream, __int128_t), operator<<(ostream, __uint128_t) with width and fill", "sampled values, widths and fills, executed on real streams")
{
    using awl::operator<<;
    unsigned __int128 v = vc_any128(128, "v");
    v >>= vc_any(7, "shift");
    bool neg = vc_val<bool>("neg");
    char buf[48];
    int n = 0;
    unsigned __int128 t = v;
    if (neg && v > (unsigned __int128)1 << 127)
        v = t = (unsigned __int128)1 << 127;
    do {
        buf[n++] = char('0' + int(t % 10));
        t /= 10;
    } while (t != 0);
    std::string digits(buf, size_t(n));
    for (size_t i = 0; i != digits.size() / 2; ++i)
        std::swap(digits[i], digits[digits.size() - 1 - i]);
    if (!neg && v >> 127 == 0 || neg) {
        std::ostringstream o;
        o << (neg ? __int128(-v) : __int128(v));
        ENSURES_(o.str() == (neg && v != 0 ? "-" : "") + digits, "signed 128-bit integers are printed exactly");
    }
    std::ostringstream o;
    int width = int(vc_any(6, "width"));
    o.width(width);
    o.fill('0');
    o << v;
    std::string want = size_t(width) > digits.size() ? std::string(size_t(width) - digits.size(), '0') + digits : digits;
    ENSURES_(o.str() == want, "width and fill");
    std::wostringstream w;
    w << v;
    bool same = w.str().size() == digits.size();
    for (size_t i = 0; same && i != digits.size(); ++i)
        same = w.str()[i] == wchar_t(digits[i]);
    ENSURES_(same, "the wide text is the same");
}

VC_CONTRACT(optional_text, 1, "enum", "awl::operator<<(ostream, std::optional)", "an empty optional prints as empty, another one as its value")
{
    using awl::operator<<;
    std::optional<int> v;
    if (vc_val<bool>("has"))
        v = vc_val<int16_t>("v");
    std::ostringstream o, e;
    o << v;
    if (v)
        e << *v;
    else
        e << "empty";
    ENSURES_(o.str() == e.str(), "the text of an optional");
}
