// C18: comparators define the order they are composed of.
// SOURCES:
#include "vc.h"
#include <memory>
#include <string>
#include <tuple>
#include "Awl/CompositeCompare.h"
#include "Awl/KeyCompare.h"
#include "Awl/ReverseCompare.h"
#include "Awl/String.h"
#include "Awl/TransparentCompositeCompare.h"

struct A {
    int32_t k;
    int16_t m;
    uint64_t w;
    int64_t key() const { return -int64_t(k); }
    uint64_t wide() const { return w; }
    AWL_TUPLIZABLE(k, m, w)
};

static A any_a(const char* n)
{
    A a;
    a.k = vc_val<int32_t>(n);
    a.m = vc_val<int16_t>(n);
    a.w = vc_val<uint64_t>(n);
    return a;
}

template <class C, class V, class K, class L> void key_forms(const C& c, const V& x, const V& y, K kx, K ky, L less)
{
    ENSURES_(c(x, y) == less(kx, ky), "objects compare as their keys");
    ENSURES_(c(x, ky) == less(kx, ky), "an object compares with a bare key as its key does");
    ENSURES_(c(kx, y) == less(kx, ky), "a bare key compares with an object as with its key");
}

struct NoDelete {
    void operator()(A*) const {}
};

VC_CONTRACT(keys, 13, "proof", "awl::KeyCompare (value, pointer, shared_ptr, unique_ptr), make_compare, make_shared_compare, member/pointer/shared/unique/smart/tuplizable_compare, field_getter, func_getter, getter",
    "for all objects and keys the comparison is that of the selected keys")
{
    A x = any_a("x"), y = any_a("y");
    std::less<> lt;
    std::greater<> gt;
    switch (vc_case) {
    case 0: return key_forms(awl::member_compare<&A::k>{}, x, y, x.k, y.k, lt);
    case 1: return key_forms(awl::member_compare<&A::key>{}, x, y, x.key(), y.key(), lt);
    case 2: return key_forms(awl::member_compare<&A::w, std::greater<>>{}, x, y, x.w, y.w, gt);
    case 3: return key_forms(awl::pointer_compare<&A::m>{}, static_cast<const A*>(&x), static_cast<const A*>(&y), x.m, y.m, lt);
    case 4: return key_forms(awl::pointer_compare<&A::wide, std::greater<>>{}, static_cast<const A*>(&x), static_cast<const A*>(&y), x.w, y.w, gt);
    case 5: {
        auto p = std::make_shared<A>(x), q = std::make_shared<A>(y);
        return key_forms(awl::shared_compare<&A::k>{}, p, q, x.k, y.k, lt);
    }
    case 6: {
        auto p = std::make_unique<A>(x), q = std::make_unique<A>(y);
        return key_forms(awl::unique_compare<&A::key>{}, p, q, x.key(), y.key(), lt);
    }
    case 7: {
        std::unique_ptr<A, NoDelete> p(&x), q(&y);
        return key_forms(awl::smart_compare<std::unique_ptr<A, NoDelete>, &A::w, std::greater<>>{}, p, q, x.w, y.w, gt);
    }
    case 8: return key_forms(awl::make_compare(&A::m), x, y, x.m, y.m, lt);
    case 9: return key_forms(awl::make_compare(&A::wide, gt), x, y, x.w, y.w, gt);
    case 10: {
        auto p = std::make_shared<A>(x), q = std::make_shared<A>(y);
        return key_forms(awl::make_shared_compare(&A::key), p, q, x.key(), y.key(), lt);
    }
    case 11: return key_forms(awl::tuplizable_compare<A, 1>{}, x, y, x.m, y.m, lt);
    case 12: return key_forms(awl::tuplizable_compare<A*, 2>{}, &x, &y, x.w, y.w, lt);
    }
}

// what it means to be a strict weak order, for any three objects
template <class C> void strict_weak_order(const C& c, const A& x, const A& y, const A& z)
{
    ENSURES_(!c(x, x), "irreflexive");
    ENSURES_(!(c(x, y) && c(y, x)), "asymmetric");
    ENSURES_(!(c(x, y) && c(y, z)) || c(x, z), "transitive");
    ENSURES_(!(!c(x, y) && !c(y, x) && !c(y, z) && !c(z, y)) || (!c(x, z) && !c(z, x)), "incomparability is transitive");
}

using CmpK = awl::member_compare<&A::k>;
using CmpM = awl::member_compare<&A::m>;
using CmpMR = awl::member_compare<&A::m, std::greater<>>;
using CmpW = awl::member_compare<&A::w>;

VC_CONTRACT(composite, 6, "proof", "awl::CompositeCompare, awl::compose_comparers",
    "the composite order is lexicographic in its components and a strict weak order")
{
    A x = any_a("x"), y = any_a("y"), z = any_a("z");
    auto lex3 = [](const A& l, const A& r) { return std::tie(l.k, l.m, l.w) < std::tie(r.k, r.m, r.w); };
    switch (vc_case) {
    case 0: {
        using P = awl::CompositeCompare<const A*, awl::pointer_compare<&A::k>, awl::pointer_compare<&A::w>>;
        P c;
        ENSURES_(c(&x, &y) == (x.k != y.k ? x.k < y.k : x.w < y.w), "a composite of pointer comparators");
        return;
    }
    case 1: {
        awl::CompositeCompare<A, CmpW> c;
        ENSURES_(c(x, y) == (x.w < y.w), "a composite of one component is that component");
        return;
    }
    case 2: {
        awl::CompositeCompare<A, CmpK, CmpM, CmpW> c;
        ENSURES_(c(x, y) == lex3(x, y), "lexicographic in three components");
        return strict_weak_order(c, x, y, z);
    }
    case 3: {
        awl::CompositeCompare<A, CmpW, CmpMR> c;
        ENSURES_(c(x, y) == (x.w != y.w ? x.w < y.w : x.m > y.m), "lexicographic with a reversed component");
        return strict_weak_order(c, x, y, z);
    }
    case 4: {
        auto c = awl::compose_comparers<A>(awl::make_compare(&A::m), awl::make_compare(&A::key), CmpW{});
        ENSURES_(c(x, y) == (std::make_tuple(x.m, x.key(), x.w) < std::make_tuple(y.m, y.key(), y.w)), "lexicographic with stateful components");
        return strict_weak_order(c, x, y, z);
    }
    case 5: {
        auto c = awl::compose_comparers<A>(CmpMR{}, awl::ReverseCompare<A, CmpK>{});
        ENSURES_(c(x, y) == (x.m != y.m ? x.m > y.m : x.k > y.k), "lexicographic with reversed components");
        return strict_weak_order(c, x, y, z);
    }
    }
}

VC_CONTRACT(transparent, 4, "proof", "awl::TransparentCompositeCompare, make_key, compose_transparent_comparers, make_similar_tuple",
    "comparison with a tuple of keys agrees with the comparison of objects that have those keys")
{
    A x = any_a("x"), y = any_a("y");
    switch (vc_case) {
    case 0: {
        using C = awl::TransparentCompositeCompare<A, CmpK, CmpM, CmpW>;
        C c;
        bool spec = std::tie(x.k, x.m, x.w) < std::tie(y.k, y.m, y.w);
        ENSURES_(c(x, y) == spec, "objects");
        ENSURES_(c(x, C::key_type(y.k, y.m, y.w)) == spec, "an object and a key tuple");
        ENSURES_(c(C::key_type(x.k, x.m, x.w), y) == spec, "a key tuple and an object");
        auto ky = C::make_key(y.k, y.m, y.w);
        auto kx = C::make_key(x.k, std::move(x.m), x.w);
        ENSURES_(c(x, ky) == spec, "an object and a made key");
        ENSURES_(c(kx, y) == spec, "a made key and an object");
        return;
    }
    case 1: {
        using C = awl::TransparentCompositeCompare<A, CmpW, CmpMR>;
        C c;
        bool spec = x.w != y.w ? x.w < y.w : x.m > y.m;
        ENSURES_(c(x, y) == spec, "objects");
        auto ky = C::make_key(uint64_t(y.w), int16_t(y.m));
        auto kx = C::make_key(x.w, int16_t(x.m));
        ENSURES_(c(x, ky) == spec, "an object and a key of values");
        ENSURES_(c(kx, y) == spec, "a mixed key and an object");
        return;
    }
    case 2: {
        auto c = awl::compose_transparent_comparers<A>(awl::make_compare(&A::m), awl::make_compare(&A::k));
        using C = decltype(c);
        bool spec = std::tie(x.m, x.k) < std::tie(y.m, y.k);
        ENSURES_(c(x, y) == spec, "objects");
        ENSURES_(c(x, C::key_type(y.m, y.k)) == spec, "an object and a key tuple");
        ENSURES_(c(C::key_type(x.m, x.k), y) == spec, "a key tuple and an object");
        return;
    }
    case 3: {
        using R = awl::TransparentReverseCompare<A, CmpM>;
        using C = awl::TransparentCompositeCompare<A, CmpK, R>;
        C c(CmpK{}, R{});
        bool spec = x.k != y.k ? x.k < y.k : x.m > y.m;
        ENSURES_(c(x, y) == spec, "objects");
        ENSURES_(c(x, C::key_type(y.k, y.m)) == spec, "an object and a key tuple");
        ENSURES_(c(C::key_type(x.k, x.m), y) == spec, "a key tuple and an object");
        return;
    }
    }
}

VC_CONTRACT(reversed, 3, "proof", "awl::ReverseCompare, TransparentReverseCompare, reverse_comparer, reverse_transparent_comparer",
    "a reversed comparator swaps its arguments, also against bare keys")
{
    A x = any_a("x"), y = any_a("y");
    switch (vc_case) {
    case 0: {
        awl::ReverseCompare<A, CmpK> c;
        ENSURES_(c(x, y) == (y.k < x.k), "swaps its arguments");
        auto d = awl::reverse_comparer<A>(CmpMR{});
        ENSURES_(d(x, y) == (x.m < y.m), "reversing a reversed order");
        return;
    }
    case 1: {
        awl::TransparentReverseCompare<A, CmpW> c;
        return key_forms(c, x, y, x.w, y.w, std::greater<>());
    }
    case 2: {
        auto c = awl::reverse_transparent_comparer<A>(awl::make_compare(&A::m, std::greater<>()));
        return key_forms(c, x, y, x.m, y.m, std::less<>());
    }
    }
}

VC_CONTRACT(tuplizable, 1, "proof", "awl::objects_equal, objects_less, objects_greater", "objects compare as the tuples of their members")
{
    A x = any_a("x"), y = any_a("y");
    ENSURES_(awl::objects_equal(x, y) == (x.k == y.k && x.m == y.m && x.w == y.w), "equal");
    ENSURES_(awl::objects_less(x, y) == (std::tie(x.k, x.m, x.w) < std::tie(y.k, y.m, y.w)), "less");
    ENSURES_(awl::objects_greater(x, y) == (std::tie(x.k, x.m, x.w) > std::tie(y.k, y.m, y.w)), "greater");
}

template <class Ch> static long fold(Ch c)
{
    long v = sizeof(Ch) == 1 ? long((unsigned char)c) : long(c);
    return v >= 'A' && v <= 'Z' ? v + 32 : v;
}

template <class Ch> static bool is_char(Ch c) { return sizeof(Ch) == 1 || (long(c) >= 0 && long(c) <= 0x10ffff); }

template <class Ch> static long unit(Ch c)
{
    return sizeof(Ch) == 1 ? long((unsigned char)c) : long(c);
}

// lexicographic order of zero terminated strings by a projection of their characters
template <class Ch, class F> static bool lex(const Ch* a, const Ch* b, F f)
{
    for (;; ++a, ++b) {
        if (*a == 0 || *b == 0)
            return *a == 0 && *b != 0;
        if (f(*a) != f(*b))
            return f(*a) < f(*b);
    }
}

template <class Ch> void cstrings(int la, int lb)
{
    Ch a[5] = {}, b[5] = {};
    for (int i = 0; i != la; ++i) {
        a[i] = vc_val<Ch>("a");
        REQUIRES(a[i] != 0 && is_char(a[i]));
    }
    for (int i = 0; i != lb; ++i) {
        b[i] = vc_val<Ch>("b");
        REQUIRES(b[i] != 0 && is_char(b[i]));
    }
    ENSURES_(awl::CStringInsensitiveLess<Ch>()(a, b) == lex(a, b, [](Ch c) { return fold(c); }), "case-insensitive order is the lexicographic order of the lower case strings");
    ENSURES_(awl::CStringLess<Ch>()(a, b) == lex(a, b, [](Ch c) { return unit(c); }), "C string order is the lexicographic order of the characters");
}

VC_CONTRACT(cstrings_char, 16, "bounded", "awl::CStringLess<char>, CStringInsensitiveLess<char>, CharToLower", "all pairs of strings of up to 3 characters, any characters")
{
    cstrings<char>(vc_case / 4, vc_case % 4);
}

VC_CONTRACT(cstrings_wide, 9, "bounded", "awl::CStringLess<wchar_t>, CStringInsensitiveLess<wchar_t>, CharToLower", "all pairs of strings of up to 2 characters, any characters")
{
    cstrings<wchar_t>(vc_case / 3, vc_case % 3);
}
