// C11: malformed or truncated input is rejected with an exception.
// SOURCES:
#include "ser.inc.h"
#include "Awl/Io/Vts.h"

namespace {
using namespace ser;

// reading a proper prefix of what was written reports the end of the data
template <class T> void truncated_value(T v)
{
    Bytes b = written(v);
    size_t cut = size_t(vc_pick(0, b.size() - 1, "length"));
    Bytes prefix(b.begin(), b.begin() + cut);
    awl::io::VectorInputStream in(prefix);
    T target = prior<T>();
    bool threw = vc_throws<awl::io::EndOfFileException>([&] { awl::io::Read(in, target); });
    ENSURES_(threw, "a truncated value is reported");
}
template <class T> void truncated() { truncated_value<T>(any<T>()); }

// what a valid value is
template <class T> struct Valid {
    static bool is(const T&) { return true; }
};
template <> struct Valid<bool> {
    static bool is(const bool& b)
    {
        uint8_t r;
        std::memcpy(&r, &b, 1);
        return r <= 1;
    }
};
template <> struct Valid<Fruit> {
    static bool is(const Fruit& f) { return uint8_t(f) < 3; }
};
template <> struct Valid<Nested> {
    static bool is(const Nested& n) { return Valid<bool>::is(n.b); }
};
template <class T> requires requires(T t) { t.begin(); t.size(); } struct Valid<T> {
    static bool is(const T& c)
    {
        bool ok = true;
        size_t n = 0;
        for (const auto& x : c) {
            ok = ok && Valid<typename T::value_type>::is(x);
            ++n;
        }
        return ok && n == c.size();
    }
};
template <> struct Valid<std::vector<bool>> {
    static bool is(const std::vector<bool>&) { return true; }
};
template <class A, class B> struct Valid<std::pair<A, B>> {
    static bool is(const std::pair<A, B>& p) { return Valid<std::remove_const_t<A>>::is(p.first) && Valid<B>::is(p.second); }
};
template <class T> struct Valid<std::optional<T>> {
    static bool is(const std::optional<T>& o) { return !o || Valid<T>::is(*o); }
};
template <class T> struct Valid<std::unique_ptr<T>> {
    static bool is(const std::unique_ptr<T>& o) { return !o || Valid<T>::is(*o); }
};
template <class... A> struct Valid<std::variant<A...>> {
    static bool is(const std::variant<A...>& v)
    {
        return v.index() < sizeof...(A) && std::visit([](const auto& x) { return Valid<std::remove_cvref_t<decltype(x)>>::is(x); }, v);
    }
};

// n arbitrary bytes after the given ones: a valid value or an exception of the library, within the data
template <class T> void read_bytes(const Bytes& data, bool must_fail = false)
{
    awl::io::VectorInputStream in(data);
    T target = prior<T>();
    bool threw = vc_throws<awl::io::IoException>([&] { awl::io::Read(in, target); });
    ENSURES_(Valid<T>::is(target), "the target holds a valid value");
    if (must_fail)
        ENSURES_(threw, "data that cannot be a value are reported");
}
Bytes bytes(size_t n)
{
    Bytes b(n);
    vc_bytes(b.data(), n, "data");
    return b;
}
template <class T> void corrupted(size_t n) { read_bytes<T>(bytes(size_t(vc_pick(0, n, "length")))); }

// a count followed by arbitrary bytes
template <class T> void corrupted_count(size_t n)
{
    static const uint64_t counts[] = {0, 1, 2, 3, 9, 65537, 1ull << 62, (1ull << 62) + 1, ~0ull};
    size_t i = size_t(vc_pick(0, 8, "count"));
    Bytes b(8);
    for (int k = 0; k != 8; ++k)
        b[k] = uint8_t(counts[i] >> (8 * k));
    Bytes d = bytes(n);
    b.insert(b.end(), d.begin(), d.end());
    read_bytes<T>(b, counts[i] > 8 * n);
}
} // namespace

VC_CONTRACT(truncation, 17, "proof", "awl::io::ReadRaw, Read of scalars, arrays, structures, optionals, pointers, variants",
            "every proper prefix of what was written throws EndOfFileException")
{
    using namespace std::chrono;
    switch (vc_case) {
    case 0: return truncated<uint8_t>();
    case 1: return truncated<int64_t>();
    case 2: return truncated<bool>();
    case 3: return truncated<double>();
    case 4: return truncated<Fruit>();
    case 5: return truncated<Plain>();
    case 6: return truncated<Decimal>();
    case 7: return truncated<Decimal128>();
    case 8: return truncated<time_point<system_clock, milliseconds>>();
    case 9: return truncated<std::array<int32_t, 3>>();
    case 10: return truncated<std::array<bool, 9>>();
    case 11: return truncated<Colours>();
    case 12: return truncated<std::bitset<9>>();
    case 13: return truncated<Nested>();
    case 14: return truncated<std::optional<int>>();
    case 15: return truncated<std::unique_ptr<Point>>();
    case 16: return truncated<std::variant<int, bool, Point>>();
    }
}
VC_CONTRACT(truncation_of_containers, 12, "bounded(up to 3 elements, 2 of class types; any contents)", "awl::io::Read of strings, vectors, sets and maps",
            "every proper prefix of what was written throws EndOfFileException")
{
    switch (vc_case) {
    case 0: return truncated<std::string>();
    case 1: return truncated<std::wstring>();
    case 2: return truncated<std::vector<uint16_t>>();
    case 3: return truncated_value<std::vector<bool>>(std::vector<bool>(9, true));
    case 4: return truncated<std::vector<Point>>();
    case 5: return truncated<std::vector<std::string>>();
    case 6: return truncated<std::deque<int>>();
    case 7: return truncated<std::set<int>>();
    case 8: return truncated<awl::vector_set<uint16_t>>();
    case 9: return truncated<std::map<int, uint8_t>>();
    case 10: return truncated<std::unordered_set<uint8_t>>();
    case 11: {
        Rich r;
        r.s = "ab";
        r.v.push_back(any<Point>());
        r.o = any<uint8_t>();
        return truncated_value<Rich>(r);
    }
    }
}
VC_CONTRACT(enums, 2, "proof", "awl::io::ValidateEnum, Read, Write of enumerations",
            "an index that is not of an enumerator is neither read nor written, any other is")
{
    Bytes b = bytes(1);
    if (vc_case == 0) {
        awl::io::VectorInputStream in(b);
        Fruit f = any<Fruit>();
        bool threw = vc_throws<awl::io::IoException>([&] { awl::io::Read(in, f); });
        ENSURES_(threw == (b[0] >= 3), "exactly the wrong indices are rejected");
        ENSURES_(Valid<Fruit>::is(f), "the target holds an enumerator");
        if (!threw)
            ENSURES_(uint8_t(f) == b[0], "the value read is the value stored");
    }
    else {
        Bytes o;
        awl::io::VectorOutputStream out(o);
        bool threw = vc_throws<awl::io::IoException>([&] { awl::io::Write(out, Fruit(b[0])); });
        ENSURES_(threw == (b[0] >= 3), "exactly the wrong indices are rejected");
        ENSURES_(threw ? o.empty() : o == b, "a wrong value is not written");
    }
}
VC_CONTRACT(arbitrary_bytes, 12, "proof", "awl::io::Read of scalars, structures, bit maps, optionals, variants", 
            "arbitrary bytes give a valid value or IoException; nothing outside of the data is read")
{
    switch (vc_case) {
    case 0: return corrupted<bool>(1);
    case 1: return corrupted<Fruit>(1);
    case 2: return corrupted<Nested>(8);
    case 3: return corrupted<Colours>(1);
    case 4: return corrupted<std::bitset<7>>(1);
    case 5: return corrupted<std::array<std::optional<Fruit>, 2>>(4);
    case 6: return corrupted<std::optional<Fruit>>(2);
    case 7: return corrupted<std::optional<std::optional<bool>>>(3);
    case 8: return corrupted<std::unique_ptr<Nested>>(9);
    case 9: return corrupted<std::variant<int, bool, Fruit>>(12);
    case 10: return corrupted<std::variant<Fruit, std::optional<Fruit>, Point>>(13);
    case 11: return corrupted<std::array<bool, 9>>(2);
    }
}
VC_CONTRACT(arbitrary_count, 13, "bounded(9 counts from 0 to 2^64-1, followed by the stated number of arbitrary bytes)", "awl::io::Read of strings, vectors, sets and maps, awl::io::ReadPortions",
            "arbitrary bytes give a valid value or IoException; more elements than there are data throws; nothing outside of the data is read")
{
    switch (vc_case) {
    case 0: return corrupted_count<std::string>(4);
    case 1: return corrupted_count<std::wstring>(9);
    case 2: return corrupted_count<std::vector<uint8_t>>(3);
    case 3: return corrupted_count<std::vector<int64_t>>(17);
    case 4: return corrupted_count<std::vector<bool>>(1);
    case 5: return corrupted_count<std::vector<Nested>>(9);
    case 6: return corrupted_count<std::vector<std::optional<Fruit>>>(4);
    case 7: return corrupted_count<std::vector<std::string>>(6);
    case 8: return corrupted_count<std::deque<Fruit>>(3);
    case 9: return corrupted_count<std::set<Fruit>>(3);
    case 10: return corrupted_count<awl::vector_set<uint16_t>>(6);
    case 11: return corrupted_count<std::map<uint8_t, Fruit>>(4);
    case 12: return corrupted_count<std::unordered_set<uint8_t>>(2);
    }
}

// versioned data of a structure, any of the bytes of the value replaced
namespace {
struct Inner {
    bool b = false;
    uint16_t k = 0;
    AWL_REFLECT(b, k)
};
AWL_MEMBERWISE_EQUATABLE(Inner)
struct Outer {
    uint8_t a = 0;
    Inner i;
    std::optional<uint8_t> o;
    AWL_REFLECT(a, i, o)
};
AWL_MEMBERWISE_EQUATABLE(Outer)
struct NewOuter {
    uint8_t added = 0;
    uint8_t a = 0;
    Inner i;
    AWL_REFLECT(added, a, i)
};
AWL_MEMBERWISE_EQUATABLE(NewOuter)
struct Big {
    std::string s;
    std::vector<Outer> v;
    std::variant<int, std::string, Inner> x;
    std::map<int, std::string> m;
    Outer o;
    AWL_REFLECT(s, v, x, m, o)
};
AWL_MEMBERWISE_EQUATABLE(Big)

template <class T> struct Vts {
    using V = awl::mp::variant_from_struct<T>;
    static Bytes meta()
    {
        awl::io::Writer<V, awl::io::VectorOutputStream> w;
        Bytes b;
        awl::io::VectorOutputStream out(b);
        w.WriteNewPrototypes(out);
        return b;
    }
    static Bytes value(const T& v)
    {
        awl::io::Writer<V, awl::io::VectorOutputStream> w;
        Bytes b;
        awl::io::VectorOutputStream out(b);
        w.WriteV(out, v);
        return b;
    }
};
template <class T> bool read_versioned(const Bytes& b, T& t)
{
    awl::io::VectorInputStream in(b);
    return !vc_throws<awl::io::IoException>([&] { awl::io::ReadV<T, awl::io::VectorInputStream>(in, t); });
}
template <class New> void versioned(size_t n)
{
    using V = awl::mp::variant_from_structs<New, Outer>;
    Bytes b = bytes(n);
    Bytes meta = Vts<Outer>::meta();
    awl::io::VectorInputStream min(meta);
    awl::io::Reader<V, awl::io::VectorInputStream> r;
    r.ReadOldPrototypes(min);
    awl::io::VectorInputStream in(b);
    New t;
    bool threw = vc_throws<awl::io::IoException>([&] { r.ReadV(in, t); });
    ENSURES_(Valid<bool>::is(t.i.b), "the target holds a valid value");
    ENSURES_(threw || n >= 5, "fewer bytes than any value needs are reported");
}
} // namespace
VC_CONTRACT(versioned_data, 20, "proof", "awl::io::Reader::ReadV, ReadStructIndex, SkipField, SkipStruct, FindProtoMap",
            "arbitrary bytes instead of the versioned value give a valid value or IoException; nothing outside of the data is read")
{
    if (vc_case < 10)
        versioned<Outer>(size_t(vc_case) + 1);
    else
        versioned<NewOuter>(size_t(vc_case) - 9);
}
VC_CONTRACT(corrupted_metadata, 1, "enum(one structure, one corrupted byte at any position, any value, executed)", "awl::io::Reader::ReadOldPrototypes, AttachMetadata, ReadV",
            "a corrupted byte of the prototypes gives a valid value or IoException; nothing outside of the data is read")
{
    Inner v;
    v.b = true;
    v.k = 300;
    Bytes b = Vts<Inner>::meta(), d = Vts<Inner>::value(v);
    b.insert(b.end(), d.begin(), d.end());
    b[size_t(vc_pick(0, b.size() - 1, "position"))] = uint8_t(vc_pick(0, 255, "byte"));
    Inner t;
    read_versioned(b, t);
    ENSURES_(Valid<bool>::is(t.b), "the target holds a valid value");
}
// executed: truncations and corruptions of a value with nested containers
VC_CONTRACT(fuzzed, 1, "enum(random truncations and corruptions of versioned data, executed)", "awl::io::ReadV, Read",
            "the reader gives a value or throws IoException, and never succeeds on a truncated value")
{
    Big v;
    v.s = "some text";
    v.v.resize(2);
    v.v[1].o = uint8_t(3);
    v.x = std::string("abc");
    v.m[1] = "one";
    v.m[7] = "";
    static const Bytes whole = [&] {
        Bytes b = Vts<Big>::meta(), d = Vts<Big>::value(v);
        b.insert(b.end(), d.begin(), d.end());
        return b;
    }();
    Bytes b = whole;
    Big t;
    uint64_t kind = vc_pick(0, 3, "kind");
    if (kind == 0) {
        b.resize(size_t(vc_pick(0, b.size() - 1, "length")));
        ENSURES_(!read_versioned(b, t), "a truncated value is reported");
        return;
    }
    for (uint64_t i = 0; i != kind; ++i) {
        size_t pos = size_t(vc_pick(0, b.size() - 1, "position"));
        static const uint8_t some[] = {0, 1, 2, 3, 127, 128, 254, 255};
        uint64_t w = vc_pick(0, 11, "byte");
        b[pos] = w < 8 ? some[w] : uint8_t(b[pos] + w - 9 + (w > 9 ? 1 : 0) - (w == 8 ? 1 : 0));
    }
    read_versioned(b, t);
    Bytes again = written(t.s);
    ENSURES_(t.x.index() < 3 || t.x.valueless_by_exception(), "the target can be used");
}
