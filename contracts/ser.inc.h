// Values of every serializable type, and the serialization both ways.
#pragma once
#include "vc.h"
#include <cstring>
#include <istream>
#include "Awl/Io/ReadWrite.h"
#include "Awl/Io/MeasureStream.h"
#include "Awl/Io/VectorStream.h"
#include "Awl/EnumTraits.h"
#include "Awl/Reflection.h"
#include <bit>
#include <chrono>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <variant>
#include <vector>

namespace ser {

using Bytes = std::vector<uint8_t>;

AWL_SEQUENTIAL_ENUM(Fruit, Apple, Pear, Plum)
enum class Plain : int16_t { A = -7, B = 300 };
enum class Wide : uint64_t { A = 1 };

struct Point {
    int x = 0;
    uint8_t y = 0;
    AWL_TUPLIZABLE(x, y)
};
AWL_MEMBERWISE_EQUATABLE_AND_COMPARABLE(Point)

struct Nested {
    bool b = false;
    Point p;
    uint16_t z = 0;
    AWL_REFLECT(b, p, z)
};
AWL_MEMBERWISE_EQUATABLE(Nested)

struct Rich {
    int a = 0;
    std::string s;
    std::vector<Point> v;
    std::optional<uint8_t> o;
    Nested n;
    AWL_REFLECT(a, s, v, o, n)
};
AWL_MEMBERWISE_EQUATABLE(Rich)

} // namespace ser
AWL_ENUM_TRAITS(ser, Fruit)

namespace ser {

using Colours = awl::bitmap<Fruit, 3>;
using Decimal = awl::decimal<uint64_t, 4>;
using Decimal128 = awl::decimal<unsigned __int128, 4>;

inline int size_pick(int max) { return int(vc_pick(0, uint64_t(max), "size")); }

// an arbitrary value; containers have up to Gen<T>::max elements
template <class T> struct Gen;
template <class T> T any() { return Gen<T>::get(); }

template <class T> requires std::is_integral_v<T> struct Gen<T> {
    static T get() { return vc_val<T>("v"); }
    static bool eq(T a, T b) { return a == b; }
};
template <> struct Gen<float> {
    static float get() { return std::bit_cast<float>(vc_val<uint32_t>("f")); }
    static bool eq(float a, float b) { return std::bit_cast<uint32_t>(a) == std::bit_cast<uint32_t>(b); }
};
template <> struct Gen<double> {
    static double get() { return std::bit_cast<double>(vc_val<uint64_t>("f")); }
    static bool eq(double a, double b) { return std::bit_cast<uint64_t>(a) == std::bit_cast<uint64_t>(b); }
};
template <> struct Gen<Fruit> {
    static Fruit get()
    {
        uint8_t i = vc_val<uint8_t>("e");
        REQUIRES(i < 3);
        return Fruit(i);
    }
    static bool eq(Fruit a, Fruit b) { return a == b; }
};
template <class T> requires(std::is_same_v<T, Plain> || std::is_same_v<T, Wide>) struct Gen<T> {
    static T get() { return T(vc_val<std::underlying_type_t<T>>("e")); }
    static bool eq(T a, T b) { return a == b; }
};
template <> struct Gen<Decimal> {
    static Decimal get() { return Decimal::from_bits(vc_val<uint64_t>("d")); }
    static bool eq(Decimal a, Decimal b) { return a.to_bits() == b.to_bits(); }
};
template <> struct Gen<Decimal128> {
    static Decimal128 get() { return Decimal128::from_bits(vc_val<unsigned __int128>("d")); }
    static bool eq(Decimal128 a, Decimal128 b) { return a.to_bits() == b.to_bits(); }
};
template <class C, class D> struct Gen<std::chrono::time_point<C, D>> {
    using T = std::chrono::time_point<C, D>;
    static T get()
    {
        // representable in nanoseconds
        int64_t c = vc_val<int64_t>("t");
        constexpr int64_t lim = INT64_MAX / std::chrono::duration_cast<std::chrono::nanoseconds>(D(1)).count();
        REQUIRES(c <= lim && c >= -lim);
        return T(D(c));
    }
    static bool eq(T a, T b) { return a == b; }
};
template <> struct Gen<Point> {
    static Point get()
    {
        Point p;
        p.x = any<int>();
        p.y = any<uint8_t>();
        return p;
    }
    static bool eq(const Point& a, const Point& b) { return a.x == b.x && a.y == b.y; }
};
template <> struct Gen<Nested> {
    static Nested get()
    {
        Nested n;
        n.b = any<bool>();
        n.p = any<Point>();
        n.z = any<uint16_t>();
        return n;
    }
    static bool eq(const Nested& a, const Nested& b) { return a.b == b.b && Gen<Point>::eq(a.p, b.p) && a.z == b.z; }
};
// strings of up to 3 characters, vectors of up to 3 elements
template <class T> requires(requires(T t) { t.data(); t.resize(1); t.front(); } || std::is_same_v<T, std::vector<bool>>) struct Gen<T> {
    static T get()
    {
        T t;
        int n = size_pick(std::is_class_v<typename T::value_type> ? 2 : 3);
        if (std::is_same_v<T, std::vector<bool>> && n == 3)
            n = 9;
        for (int i = 0; i != n; ++i)
            t.push_back(any<typename T::value_type>());
        return t;
    }
    static bool eq(const T& a, const T& b)
    {
        if (a.size() != b.size())
            return false;
        bool r = true;
        for (size_t i = 0; i != a.size(); ++i)
            r = r && Gen<typename T::value_type>::eq(a[i], b[i]);
        return r;
    }
};
template <class T, size_t N> struct Gen<std::array<T, N>> {
    using A = std::array<T, N>;
    static A old()
    {
        A a;
        a.fill(T());
        if (vc_pick(0, 1, "target"))
            a.fill(any<T>());
        return a;
    }
    static A get()
    {
        A a;
        for (auto& x : a)
            x = any<T>();
        return a;
    }
    static bool eq(const A& a, const A& b)
    {
        bool r = true;
        for (size_t i = 0; i != N; ++i)
            r = r && Gen<T>::eq(a[i], b[i]);
        return r;
    }
};
template <class T> struct Gen<std::deque<T>> {
    using D = std::deque<T>;
    static D get()
    {
        D d;
        for (int i = size_pick(3); i != 0; --i)
            d.push_back(any<T>());
        return d;
    }
    static bool eq(const D& a, const D& b) { return a == b; }
};
template <class T> struct Gen<awl::ring<T>> {
    using R = awl::ring<T>;
    static R old() { return get(); }                                                       // with room for what is read
    static R get()
    {
        R r(3);
        for (int i = size_pick(4); i != 0; --i)
            r.push_back(any<T>());
        return r;
    }
    static bool eq(const R& a, const R& b)
    {
        if (a.size() != b.size())
            return false;
        bool r = true;
        for (size_t i = 0; i != a.size(); ++i)
            r = r && a[i] == b[i];
        return r;
    }
};
// sets: different elements in increasing order
template <class S> struct SetGen {
    using T = typename S::value_type;
    static S get()
    {
        S s;
        T last{};
        int n = size_pick(2);
        for (int i = 0; i != n; ++i) {
            T v = any<T>();
            REQUIRES(i == 0 || last < v);
            last = v;
            s.insert(v);
        }
        return s;
    }
    static bool eq(const S& a, const S& b)
    {
        if (a.size() != b.size())
            return false;
        auto i = a.begin();
        for (auto& x : b)
            if (!(*i++ == x))
                return false;
        return true;
    }
};
template <class T> struct Gen<std::set<T>> : SetGen<std::set<T>> { };
template <class T> struct Gen<awl::vector_set<T>> : SetGen<awl::vector_set<T>> { };
template <class T> struct Gen<awl::observable_set<T>> : SetGen<awl::observable_set<T>> { };
template <> struct Gen<std::unordered_set<uint8_t>> {                                      // few values: hashing splits
    using S = std::unordered_set<uint8_t>;
    static S get()
    {
        S s;
        for (int i = size_pick(2); i != 0; --i)
            s.insert(uint8_t(vc_pick(5, 7, "v")));
        return s;
    }
    static bool eq(const S& a, const S& b)
    {
        if (a.size() != b.size())
            return false;
        for (uint8_t x : a)
            if (b.count(x) == 0)
                return false;
        return true;
    }
};
template <class K, class V> struct Gen<std::map<K, V>> {
    using M = std::map<K, V>;
    static M get()
    {
        M m;
        K last{};
        int n = size_pick(2);
        for (int i = 0; i != n; ++i) {
            K k = any<K>();
            REQUIRES(i == 0 || last < k);
            last = k;
            m[k] = any<V>();
        }
        return m;
    }
    static bool eq(const M& a, const M& b)
    {
        if (a.size() != b.size())
            return false;
        auto i = a.begin();
        for (auto& [k, v] : b) {
            if (i->first != k || !Gen<V>::eq(i->second, v))
                return false;
            ++i;
        }
        return true;
    }
};
template <class V> struct Gen<std::unordered_map<int, V>> {
    using M = std::unordered_map<int, V>;
    static M get()
    {
        M m;
        for (int i = size_pick(2); i != 0; --i)
            m[int(vc_pick(5, 7, "k"))] = any<V>();
        return m;
    }
    static bool eq(const M& a, const M& b)
    {
        if (a.size() != b.size())
            return false;
        for (auto& [k, v] : a) {
            auto i = b.find(k);
            if (i == b.end() || !Gen<V>::eq(i->second, v))
                return false;
        }
        return true;
    }
};
template <class T> struct Gen<std::optional<T>> {
    using O = std::optional<T>;
    static O get() { return vc_pick(0, 1, "has value") ? O(any<T>()) : O(); }
    static bool eq(const O& a, const O& b) { return bool(a) == bool(b) && (!a || Gen<T>::eq(*a, *b)); }
};
template <class T> struct Gen<std::shared_ptr<T>> {
    using P = std::shared_ptr<T>;
    static P get() { return vc_pick(0, 1, "has value") ? std::make_shared<T>(any<T>()) : P(); }
    static bool eq(const P& a, const P& b) { return bool(a) == bool(b) && (!a || Gen<T>::eq(*a, *b)); }
};
template <class T> struct Gen<std::unique_ptr<T>> {
    using P = std::unique_ptr<T>;
    static P get() { return vc_pick(0, 1, "has value") ? std::make_unique<T>(any<T>()) : P(); }
    static bool eq(const P& a, const P& b) { return bool(a) == bool(b) && (!a || Gen<T>::eq(*a, *b)); }
};
template <class A, class B, class C> struct Gen<std::variant<A, B, C>> {
    using V = std::variant<A, B, C>;
    static V get()
    {
        uint64_t i = vc_pick(0, 2, "index");
        return i == 0 ? V(std::in_place_index<0>, any<A>()) : i == 1 ? V(std::in_place_index<1>, any<B>()) : V(std::in_place_index<2>, any<C>());
    }
    static bool eq(const V& a, const V& b)
    {
        if (a.index() != b.index())
            return false;
        if (a.index() == 0)
            return Gen<A>::eq(std::get<0>(a), std::get<0>(b));
        if (a.index() == 1)
            return Gen<B>::eq(std::get<1>(a), std::get<1>(b));
        return a.index() == 2 && Gen<C>::eq(std::get<2>(a), std::get<2>(b));
    }
};
template <> struct Gen<Colours> {
    static Colours get()
    {
        Colours c;
        for (int i = 0; i != 3; ++i)
            c[Fruit(i)] = any<bool>();
        return c;
    }
    static bool eq(const Colours& a, const Colours& b) { return a == b; }
};
template <size_t N> struct Gen<std::bitset<N>> {
    using B = std::bitset<N>;
    static B old() { return vc_pick(0, 1, "target") ? ~B() : B(); }
    static B get()
    {
        return B(vc_val<uint64_t>("bits"));
    }
    static bool eq(const B& a, const B& b) { return a == b; }
};
template <> struct Gen<Rich> {
    static Rich get()
    {
        Rich r;
        r.a = any<int>();
        r.s = any<std::string>();
        for (int i = size_pick(2); i != 0; --i)
            r.v.push_back(any<Point>());
        r.o = any<std::optional<uint8_t>>();
        r.n = any<Nested>();
        return r;
    }
    static bool eq(const Rich& a, const Rich& b)
    {
        return a.a == b.a && Gen<std::string>::eq(a.s, b.s) && Gen<std::vector<Point>>::eq(a.v, b.v) && Gen<std::optional<uint8_t>>::eq(a.o, b.o) && Gen<Nested>::eq(a.n, b.n);
    }
};

// the value a target holds before it is read into: arbitrary for scalars, one of two values otherwise
template <class T> T prior()
{
    if constexpr (requires { Gen<T>::old(); })
        return Gen<T>::old();
    else if constexpr (requires(T t) { t.clear(); t.size(); }) {
        T t;
        if (vc_pick(0, 1, "target is not empty")) {
            if constexpr (requires { typename T::mapped_type; })
                t[typename T::key_type()] = typename T::mapped_type();
            else if constexpr (requires { t.push_back(typename T::value_type()); }) {
                if constexpr (requires { t.capacity(); T(size_t(1)); } && std::is_same_v<T, awl::ring<typename T::value_type>>)
                    t = T(2);
                for (int i = 0; i != 2; ++i)
                    t.push_back(typename T::value_type());
            }
            else
                t.insert(typename T::value_type());
        }
        return t;
    }
    else
        return any<T>();
}

template <class T> Bytes written(const T& v)
{
    Bytes b;
    awl::io::VectorOutputStream out(b);
    awl::io::Write(out, v);
    return b;
}

} // namespace ser
