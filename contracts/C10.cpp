// C10: deserialization inverts serialization.
// SOURCES:
#include "ser.inc.h"

namespace {
using namespace ser;

// what is written is read back, whatever the target held before, and exactly the written bytes are consumed
template <class T> void round_trip(const T& v, T& target)
{
    Bytes b = written(v);
    awl::io::MeasureStream m;
    awl::io::Write(m, v);
    ENSURES_(m.GetLength() == b.size(), "the measured size is the number of bytes written");
    uint8_t next = vc_val<uint8_t>("next");
    b.push_back(next);
    awl::io::VectorInputStream in(b);
    awl::io::Read(in, target);
    ENSURES_(Gen<T>::eq(target, v), "the value read is the value written");
    uint8_t x = 0;
    ENSURES_(in.Read(&x, 1) == 1 && x == next && in.End(), "exactly the written bytes are consumed");
}
template <class T> void round_trip()
{
    T v = any<T>();
    T target = prior<T>();
    round_trip(v, target);
}
// integers are written least significant byte first
template <class T, class U> void little_endian(T v, U u)
{
    Bytes b = written(v);
    bool ok = b.size() == sizeof(U);
    for (size_t i = 0; ok && i != sizeof(U); ++i)
        ok = b[i] == uint8_t(u >> (8 * i));
    ENSURES_(ok, "the bytes are those of the integer, least significant first");
}
template <class T> void layout()
{
    T v = any<T>();
    little_endian(v, std::make_unsigned_t<T>(v));
}
} // namespace

VC_CONTRACT(scalars, 19, "proof", "awl::io::Read, Write of arithmetic types, bool, enums, decimals, time points, atomics",
            "every value is read back as written; exactly the written bytes are consumed; their number is the measured size")
{
    using namespace std::chrono;
    switch (vc_case) {
    case 0: return round_trip<int8_t>();
    case 1: return round_trip<uint8_t>();
    case 2: return round_trip<int16_t>();
    case 3: return round_trip<uint32_t>();
    case 4: return round_trip<int32_t>();
    case 5: return round_trip<int64_t>();
    case 6: return round_trip<uint64_t>();
    case 7: return round_trip<wchar_t>();
    case 8: return round_trip<float>();
    case 9: return round_trip<double>();
    case 10: return round_trip<bool>();
    case 11: return round_trip<Fruit>();
    case 12: return round_trip<Plain>();
    case 13: return round_trip<Wide>();
    case 14: return round_trip<Decimal>();
    case 15: return round_trip<Decimal128>();
    case 16: return round_trip<time_point<system_clock, nanoseconds>>();
    case 17: return round_trip<time_point<steady_clock, microseconds>>();
    case 18: {
        int64_t v = any<int64_t>();
        std::atomic<int64_t> a(v), b(any<int64_t>());
        Bytes w = written(a);
        ENSURES(w == written(v));
        awl::io::VectorInputStream in(w);
        awl::io::Read(in, b);
        ENSURES_(b.load() == v && in.End(), "the value read is the value written");
        return;
    }
    }
}
VC_CONTRACT(seconds, 1, "proof", "awl::io::Read, Write of time points", "time points in seconds are read back as written")
{
    round_trip<std::chrono::time_point<std::chrono::system_clock, std::chrono::seconds>>();
}
VC_CONTRACT(byte_order, 12, "proof", "awl::io::Write of integers, enums, decimals, bool, strings", "integers are stored least significant byte first")
{
    switch (vc_case) {
    case 0: return layout<int8_t>();
    case 1: return layout<uint8_t>();
    case 2: return layout<int16_t>();
    case 3: return layout<uint16_t>();
    case 4: return layout<int32_t>();
    case 5: return layout<uint32_t>();
    case 6: return layout<int64_t>();
    case 7: return layout<uint64_t>();
    case 8: {
        auto v = any<Plain>();
        return little_endian(v, uint16_t(v));
    }
    case 9: {
        auto v = any<Decimal>();
        return little_endian(v, v.to_bits());
    }
    case 10: {
        bool v = any<bool>();
        return little_endian(v, uint8_t(v));
    }
    case 11: {
        auto v = any<float>();
        return little_endian(v, std::bit_cast<uint32_t>(v));
    }
    }
}
VC_CONTRACT(fixed_size, 10, "proof", "awl::io::Read, Write of arrays, bit sets, bit maps, tuplizable and reflected structures, tuples",
            "every value is read back as written")
{
    switch (vc_case) {
    case 0: return round_trip<std::array<uint8_t, 5>>();
    case 1: return round_trip<std::array<int32_t, 3>>();
    case 2: return round_trip<std::array<bool, 9>>();
    case 3: return round_trip<std::array<Point, 2>>();
    case 4: return round_trip<Colours>();
    case 5: return round_trip<std::bitset<7>>();
    case 6: return round_trip<std::bitset<9>>();
    case 7: return round_trip<Point>();
    case 8: return round_trip<Nested>();
    case 9: {
        int a = any<int>(), c = any<int>();
        uint8_t b = any<uint8_t>(), d = any<uint8_t>();
        Bytes w = written(std::tie(a, b));
        awl::io::VectorInputStream in(w);
        awl::io::Read(in, std::tie(c, d));
        ENSURES_(a == c && b == d && in.End(), "the value read is the value written");
        return;
    }
    }
}
VC_CONTRACT(choices, 6, "proof", "awl::io::Read, Write of optionals, pointers, variants", "every value is read back as written, whatever the target held before")
{
    switch (vc_case) {
    case 0: return round_trip<std::optional<int>>();
    case 1: return round_trip<std::optional<Nested>>();
    case 2: return round_trip<std::shared_ptr<int>>();
    case 3: return round_trip<std::unique_ptr<Point>>();
    case 4: return round_trip<std::variant<int, bool, Point>>();
    case 5: return round_trip<std::optional<std::variant<uint8_t, double, Fruit>>>();
    }
}
VC_CONTRACT(sequences, 12, "bounded(up to 3 elements, 2 of class types, 9 bits; any contents)", "awl::io::Read, Write of strings, vectors, deques, rings",
            "every value is read back as written, whatever the target held before")
{
    switch (vc_case) {
    case 0: return round_trip<std::string>();
    case 1: return round_trip<std::wstring>();
    case 2: return round_trip<std::u16string>();
    case 3: return round_trip<std::vector<uint8_t>>();
    case 4: return round_trip<std::vector<int64_t>>();
    case 5: return round_trip<std::vector<bool>>();
    case 6: return round_trip<std::vector<Point>>();
    case 7: return round_trip<std::vector<std::string>>();
    case 8: return round_trip<std::vector<std::optional<int>>>();
    case 9: return round_trip<std::deque<int>>();
    case 10: return round_trip<awl::ring<int>>();
    case 11: return round_trip<std::vector<std::vector<uint16_t>>>();
    }
}
VC_CONTRACT(sets, 8, "bounded(up to 2 elements, any contents; hashed ones 3 keys)", "awl::io::Read, Write of sets and maps",
            "every value is read back as written, whatever the target held before")
{
    switch (vc_case) {
    case 0: return round_trip<std::set<int>>();
    case 1: return round_trip<awl::vector_set<uint16_t>>();
    case 2: return round_trip<awl::observable_set<int>>();
    case 3: return round_trip<std::unordered_set<uint8_t>>();
    case 4: return round_trip<std::map<int, uint8_t>>();
    case 5: return round_trip<std::unordered_map<int, std::string>>();
    case 6: return round_trip<std::map<uint8_t, std::vector<int>>>();
    case 7: return round_trip<std::set<Point>>();
    }
}
VC_CONTRACT(structures, 1, "bounded(strings up to 3 characters, vectors up to 2 elements; any contents)", "awl::io::Read, Write of reflected structures",
            "every value is read back as written, whatever the target held before")
{
    Rich v = any<Rich>();
    Rich t;
    t.s = "old";
    t.v.push_back(Point());
    t.o = uint8_t(1);
    round_trip(v, t);
}
// a string longer than a portion of the reader, a limited string
VC_CONTRACT(long_values, 1, "enum(random sizes up to 300000, executed)", "awl::io::Read, Write of strings and vectors", "long values are read back as written")
{
    size_t n = size_t(vc_pick(0, 300000, "n"));
    unsigned seed = unsigned(vc_pick(1, 1000, "seed"));
    auto fill = [&](auto& c) {
        for (auto& x : c) {
            seed = seed * 1664525u + 1013904223u;
            x = typename std::remove_reference_t<decltype(c)>::value_type(seed >> 13);
        }
    };
    std::string s(n, 0), s2("old");
    fill(s);
    round_trip(s, s2);
    std::wstring ws(n / 2, 0), ws2;
    fill(ws);
    round_trip(ws, ws2);
    std::vector<double> d(n / 3), d2(7);
    fill(d);
    Bytes b = written(d);
    awl::io::VectorInputStream in(b);
    awl::io::Read(in, d2);
    ENSURES_(d == d2 && in.End(), "the value read is the value written");
    std::vector<bool> f(n), f2(3, true);
    for (size_t i = 0; i != n; ++i)
        f[i] = (seed = seed * 1664525u + 1013904223u) >> 31;
    Bytes fb = written(f);
    awl::io::VectorInputStream fin(fb);
    awl::io::Read(fin, f2);
    ENSURES_(f == f2 && fin.End(), "the value read is the value written");
    std::set<int> st, st2{1, 2};
    for (size_t i = 0; i != n % 3000; ++i)
        st.insert(int(seed = seed * 1664525u + 1013904223u));
    round_trip(st, st2);
}
VC_CONTRACT(limits, 8, "bounded(strings of up to 3 characters, any limit)", "awl::io::CheckStringLimit, Read, Write of strings",
            "with a limited context strings up to the limit round-trip and longer ones are rejected in both directions")
{
    std::string s;
    int n = vc_case % 4;
    for (int i = 0; i != n; ++i)
        s.push_back(char(vc_val<uint8_t>("c")));
    size_t limit = vc_any(64, "limit");
    awl::io::LimitedContext ctx(limit);
    bool fits = size_t(n) <= limit;
    if (vc_case < 4) {
        Bytes b;
        awl::io::VectorOutputStream out(b);
        bool threw = vc_throws<awl::io::IoException>([&] { awl::io::Write(out, s, ctx); });
        ENSURES_(threw == !fits, "a string longer than the limit is not written");
        if (fits)
            ENSURES_(b == written(s), "a string within the limit is written as usual");
    }
    else {
        Bytes b = written(s);
        awl::io::VectorInputStream in(b);
        std::string t("old");
        bool threw = vc_throws<awl::io::IoException>([&] { awl::io::Read(in, t, ctx); });
        ENSURES_(threw == !fits, "a string longer than the limit is not read");
        if (fits)
            ENSURES_(t == s && in.End(), "a string within the limit is read as usual");
    }
}
