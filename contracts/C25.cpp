// C25: integer helpers.
// SOURCES:
#include "vc.h"
#include "Awl/Int2Array.h"
#include "Awl/IntRange.h"
#include "Awl/Math.h"
#include "Awl/RangeUtil.h"
#include <functional>
#include <list>
#include <set>
#include <vector>

template <class T> void array_contract()
{
    using U = std::conditional_t<sizeof(T) == 16, unsigned __int128, std::make_unsigned_t<std::conditional_t<sizeof(T) == 16, int, T>>>;
    T v = vc_val<T>("v");
    auto a = awl::to_array(v);
    static_assert(a.size() == sizeof(T));
    for (unsigned i = 0; i != sizeof(T); ++i)
        ENSURES_(a[i] == uint8_t(U(v) >> (8 * (sizeof(T) - 1 - i))), "byte i of to_array is byte i of the value, most significant first");
    ENSURES_(awl::from_array<T>(a) == v, "from_array inverts to_array");

    std::array<uint8_t, sizeof(T)> b;
    vc_bytes(b.data(), sizeof(T), "bytes");
    T w = awl::from_array<T>(b);
    U u = 0;
    for (unsigned i = 0; i != sizeof(T); ++i)
        u |= U(U(b[i]) << (8 * (sizeof(T) - 1 - i)));
    ENSURES_(U(w) == u, "from_array takes the most significant byte first");
    ENSURES_(awl::to_array(w) == b, "to_array inverts from_array");
}

VC_CONTRACT(int2array, 10, "proof", "awl::to_array, awl::from_array for 8..128-bit signed and unsigned integers",
    "conversion to bytes is lossless in both directions and most significant byte first")
{
    switch (vc_case) {
    case 0: return array_contract<uint8_t>();
    case 1: return array_contract<int8_t>();
    case 2: return array_contract<uint16_t>();
    case 3: return array_contract<int16_t>();
    case 4: return array_contract<uint32_t>();
    case 5: return array_contract<int32_t>();
    case 6: return array_contract<uint64_t>();
    case 7: return array_contract<int64_t>();
    case 8: return array_contract<unsigned __int128>();
    case 9: return array_contract<__int128>();
    }
}

template <class T> void clamp_contract()
{
    T v = vc_val<T>("v"), lo = vc_val<T>("lo"), hi = vc_val<T>("hi");
    REQUIRES(!(hi < lo));
    T r = v;
    awl::math::clamp(r, lo, hi);
    ENSURES_(!(r < lo) && !(hi < r), "clamp gives a value of the interval");
    ENSURES_(v < lo ? r == lo : hi < v ? r == hi : r == v, "clamp gives the nearest value of the interval");
    T q = v;
    awl::math::clamp(q, hi, lo, std::greater<>());
    ENSURES_(q == r, "clamp with a reversed order and bounds is the same");
}

VC_CONTRACT(clamp, 6, "proof", "awl::math::clamp (both overloads)", "the nearest value of the interval, for every value and interval")
{
    switch (vc_case) {
    case 0: return clamp_contract<int8_t>();
    case 1: return clamp_contract<uint16_t>();
    case 2: return clamp_contract<int32_t>();
    case 3: return clamp_contract<uint64_t>();
    case 4: return clamp_contract<int64_t>();
    case 5: return clamp_contract<__int128>();
    }
}

template <class T> void sign_contract()
{
    T v = vc_val<T>("v");
    ENSURES_(awl::math::sign(v) == (v == 0 ? 0 : v > 0 ? 1 : -1), "sign is -1, 0 or 1");
}

VC_CONTRACT(sign, 8, "proof", "awl::math::sign", "-1, 0 or 1 exactly as the value is negative, zero or positive")
{
    switch (vc_case) {
    case 0: return sign_contract<int8_t>();
    case 1: return sign_contract<uint8_t>();
    case 2: return sign_contract<int16_t>();
    case 3: return sign_contract<int32_t>();
    case 4: return sign_contract<uint32_t>();
    case 5: return sign_contract<int64_t>();
    case 6: return sign_contract<uint64_t>();
    case 7: return sign_contract<__int128>();
    }
}

// The iteration of a range is described by induction: the first element, one step from any element, and the end.
template <class R, class T> void walk(R& r, T lo, T hi)
{
    auto it = r.begin();
    if (lo == hi) {
        ENSURES_(it == r.end(), "a range between equal bounds is empty");
        return;
    }
    vc_cover("not empty");
    ENSURES_(it != r.end() && *it == lo, "the first integer of a range is its lower bound");
    T k = vc_val<T>("k");
    REQUIRES(lo <= k && k < hi);
    auto i = std::ranges::iterator_t<R>(k);           // the iterator that has reached k
    ENSURES_(i != r.end() && *i == k, "an integer below the upper bound is visited");
    ++i;
    ENSURES_(*i == T(k + 1), "the integers of a range are visited in order");
    ENSURES_((i == r.end()) == (T(k + 1) == hi), "a range ends exactly at its upper bound");
}

template <class T> void range_contract()
{
    T lo = vc_val<T>("lo"), hi = vc_val<T>("hi");
    REQUIRES(lo <= hi);
    auto r = awl::make_int_range(lo, hi);
    walk(r, lo, hi);
    T n = vc_val<T>("n");
    REQUIRES(n >= 0);
    auto c = awl::make_count(n);
    walk(c, T(0), n);
    ENSURES_(uint64_t(c.size()) == uint64_t(n), "a count has the given length");
}

VC_CONTRACT(ranges, 6, "proof", "awl::make_int_range, awl::make_count", "ranges visit exactly the integers between their bounds, in order")
{
    switch (vc_case) {
    case 0: return range_contract<int8_t>();
    case 1: return range_contract<uint8_t>();
    case 2: return range_contract<int32_t>();
    case 3: return range_contract<uint32_t>();
    case 4: return range_contract<int64_t>();
    case 5: return range_contract<uint64_t>();
    }
}

template <class T> struct Span {
    T* b;
    T* e;
    T* begin() const { return b; }
    T* end() const { return e; }
};

VC_CONTRACT(position_array, 2, "proof", "awl::position_changed",
    "true exactly when the element is out of order with a neighbour, for an array of any length")
{
    uint64_t n = vc_any(32, "n");
    REQUIRES(n >= 1);
    uint64_t k = vc_any(32, "k");
    REQUIRES(k < n);
    using T = int32_t;
    T* p = static_cast<T*>(vc_symarray(n, sizeof(T), "elems"));
    Span<T> r{p, p + n};
    auto check = [&](auto comp) {
        bool out = false;
        if (k != 0)
            out = !comp(p[k - 1], p[k]);
        if (k + 1 != n)
            out = out || !comp(p[k], p[k + 1]);
        ENSURES_(awl::position_changed(r, comp, p + k) == out, "position_changed is true exactly when a neighbour is out of order");
    };
    if (vc_case == 0)
        check(std::less<>());
    else
        check(std::greater<>());
}

VC_CONTRACT(position_list, 4, "bounded", "awl::position_changed over std::list", "lists of 1..4 elements, any values, any position")
{
    int n = vc_case + 1;
    std::list<int16_t> l;
    int16_t v[4];
    for (int i = 0; i != n; ++i) {
        v[i] = vc_val<int16_t>("v");
        l.push_back(v[i]);
    }
    int k = int(vc_pick(0, n - 1, "k"));
    auto it = std::next(l.begin(), k);
    bool out = (k > 0 && !(v[k - 1] < v[k])) || (k + 1 < n && !(v[k] < v[k + 1]));
    ENSURES_(awl::position_changed(l, std::less<>(), it) == out, "position_changed is true exactly when a neighbour is out of order");
}
