// C13: a failed load leaves the object as it was.
// SOURCES:
#include "ser.inc.h"
#include "Awl/Io/EuphoricallySerializable.h"
#include "Awl/Io/HeaderedSerializable.h"
#include "Awl/Io/PlainSerializable.h"
#include "Awl/Io/VersionTolerantSerializable.h"

namespace {
using namespace ser;

// a stream of some bytes that ends, or throws what is not an exception of the library, after a part of them
struct Failure { };
class BadStream : public awl::io::SequentialInputStream {
public:
    BadStream(const Bytes& b, size_t n, bool throwing) : m_b(b), m_n(n), m_throwing(throwing) { }
    bool End() override { return m_pos == m_n; }
    size_t Read(uint8_t* buffer, size_t count) override
    {
        size_t n = count < m_n - m_pos ? count : m_n - m_pos;
        for (size_t i = 0; i != n; ++i)
            buffer[i] = m_b[m_pos + i];
        m_pos += n;
        if (n < count && m_throwing)
            throw Failure();
        return n;
    }

private:
    const Bytes& m_b;
    const size_t m_n;
    const bool m_throwing;
    size_t m_pos = 0;
};

struct Part {
    bool b = false;
    uint16_t k = 0;
    AWL_REFLECT(b, k)
};
AWL_MEMBERWISE_EQUATABLE(Part)
struct Doc {
    int32_t a = 0;
    std::string s;
    std::vector<Part> v;
    std::optional<uint8_t> o;
    AWL_REFLECT(a, s, v, o)
};
AWL_MEMBERWISE_EQUATABLE(Doc)
// can be neither copied nor moved
struct Fixed {
    std::atomic<int32_t> a = 0;
    std::string s;
    std::vector<Part> v;
    std::atomic<bool> c = false;
    AWL_REFLECT(a, s, v, c)
};
bool operator==(const Fixed& l, const Fixed& r) { return l.a == r.a && l.s == r.s && l.v == r.v && l.c == r.c; }

// can be moved but not copied
struct Unique {
    int32_t a = 0;
    std::string s;
    std::unique_ptr<uint8_t> p;
    std::vector<Part> v;
    AWL_REFLECT(a, s, p, v)
};
bool operator==(const Unique& l, const Unique& r) { return l.a == r.a && l.s == r.s && l.v == r.v && !l.p == !r.p && (!l.p || *l.p == *r.p); }

Part any_part()
{
    Part p;
    p.b = any<bool>();
    p.k = any<uint16_t>();
    return p;
}
void set_any(Doc& v, size_t n)
{
    v.a = any<int32_t>();
    for (size_t i = 0; i != n; ++i) {
        v.s.push_back(any<char>());
        v.v.push_back(any_part());
    }
    if (n == 2)
        v.o = any<uint8_t>();
}
void set_any(Unique& v, size_t n)
{
    v.a = any<int32_t>();
    for (size_t i = 0; i != n; ++i) {
        v.s.push_back(any<char>());
        v.v.push_back(any_part());
    }
    if (n == 1)
        v.p = std::make_unique<uint8_t>(any<uint8_t>());
}
void set_any(Part& v, size_t) { v = any_part(); }
void set_any(Fixed& v, size_t n)
{
    v.a = any<int32_t>();
    for (size_t i = 0; i != n; ++i) {
        v.s.push_back(any<char>());
        v.v.push_back(any_part());
    }
    v.c = any<bool>();
}
template <class T> void assign(T& d, const T& s)
{
    if constexpr (std::is_copy_assignable_v<T>)
        d = s;
    else if constexpr (std::is_same_v<T, Unique>) {
        d.a = s.a;
        d.s = s.s;
        d.p = s.p ? std::make_unique<uint8_t>(*s.p) : nullptr;
        d.v = s.v;
    }
    else {
        d.a = s.a.load();
        d.s = s.s;
        d.v = s.v;
        d.c = s.c.load();
    }
}

using In = awl::io::SequentialInputStream;
using Out = awl::io::SequentialOutputStream;
template <class T> struct Plain_ : awl::io::PlainSerializable<T> {
    using awl::io::PlainSerializable<T>::PlainSerializable;
};
template <class T> struct Direct_ : awl::io::PlainSerializable<T, awl::io::SequentialInputStream, awl::io::SequentialOutputStream, false> {
    using awl::io::PlainSerializable<T, awl::io::SequentialInputStream, awl::io::SequentialOutputStream, false>::PlainSerializable;
};
template <class T> struct Versioned_ : awl::io::VersionTolerantSerializable<T> {
    using awl::io::VersionTolerantSerializable<T>::VersionTolerantSerializable;
};
// the hash does not matter here (C08): a short one
struct Sum {
    using value_type = std::array<uint8_t, 1>;
    static constexpr size_t size() { return 1; }
    template <class I> value_type operator()(I b, I e) const
    {
        uint8_t s = 1;
        for (; b != e; ++b)
            s = uint8_t(s * 3 + *b);
        return {s};
    }
};
template <class T> struct Hashed_ : awl::io::EuphoricallySerializable<T, In, Out, Sum> {
    Hashed_(T& v) : awl::io::EuphoricallySerializable<T, In, Out, Sum>(v, 32) { }
};
template <class T> struct Headered_ : awl::io::HeaderedSerializable<T, In, Out, Sum> {
    Headered_(T& v) : awl::io::HeaderedSerializable<T, In, Out, Sum>(awl::io::Header{"fmt", 2}, v, 32) { }
};

template <class Ser, class T> Bytes stored(T& v)
{
    Bytes b;
    awl::io::VectorOutputStream out(b);
    Ser(v).Write(out);
    return b;
}
// every prefix of the stored bytes, with the stream ending or throwing there: the previous value stays
template <class S, class T> void fails(int part, int parts, bool any_stored)
{
    T v, t, before;
    if (any_stored)
        set_any(v, 1);
    else {
        v.a = 77;
        v.s = "x";
        v.v.resize(1);
    }
    set_any(t, 2);
    assign(before, t);
    Bytes b = stored<S>(v);
    size_t cut = size_t(vc_pick(b.size() * size_t(part) / size_t(parts), b.size() * size_t(part + 1) / size_t(parts) - 1, "length"));
    bool throwing = vc_pick(0, 1, "throws");
    BadStream in(b, cut, throwing);
    S s(t);
    bool threw = false;
    try {
        s.Read(in);
    }
    catch (const awl::io::IoException&) {
        threw = true;
    }
    catch (const Failure&) {
        threw = throwing;
    }
    ENSURES_(threw, "the failure is reported");
    ENSURES_(t == before, "the object has the value it had before");
}
template <class S, class T> void succeeds()
{
    T v, t;
    set_any(v, size_t(vc_pick(0, 2, "n")));
    set_any(t, size_t(vc_pick(0, 2, "n")));
    Bytes b = stored<S>(v);
    BadStream in(b, b.size(), false);
    S(t).Read(in);
    ENSURES_(t == v, "the whole value is replaced");
    ENSURES_(in.End(), "everything stored is read");
}
} // namespace

VC_CONTRACT(plain_failure, 2, "bounded(a string and a vector of 1 or 2 elements, any contents, every failing byte)", "awl::io::PlainSerializable::Read", "a failed load is reported and the object keeps its value")
{
    if (vc_case == 0)
        fails<Plain_<Doc>, Doc>(0, 1, true);
    else
        fails<Plain_<Unique>, Unique>(0, 1, true);
}
VC_CONTRACT(versioned_failure, 4, "bounded(a string and a vector of 1 or 2 elements, any contents, every failing byte)", "awl::io::VersionTolerantSerializable::Read", "a failed load is reported and the object keeps its value")
{
    fails<Versioned_<Doc>, Doc>(vc_case, 4, true);
}
VC_CONTRACT(fixed_failure, 4, "bounded(a string and a vector of 1 or 2 elements, any contents, every failing byte)", "awl::io::VersionTolerantSerializable::Read, WriteSnapshot, ReadSnapshot",
            "a failed load is reported and the object keeps its value although it cannot be moved")
{
    fails<Versioned_<Fixed>, Fixed>(vc_case, 4, true);
}
VC_CONTRACT(hashed_failure, 4, "bounded(a string and a vector of 1 or 2 elements, any previous value, every failing byte)", "awl::io::EuphoricallySerializable::Read, HashingSerializable::Read",
            "a failed load is reported and the object keeps its value")
{
    fails<Hashed_<Doc>, Doc>(vc_case, 4, false);
}
VC_CONTRACT(headered_failure, 4, "bounded(a string and a vector of 1 or 2 elements, any previous value, every failing byte)", "awl::io::HeaderedSerializable::Read, ReadHeader",
            "a failed load is reported and the object keeps its value")
{
    fails<Headered_<Fixed>, Fixed>(vc_case, 4, false);
}
VC_CONTRACT(success, 6, "bounded(strings and vectors of up to 2 elements, any contents)", "PlainSerializable, VersionTolerantSerializable: Read, Write", "a successful load replaces the whole value")
{
    switch (vc_case) {
    case 0: return succeeds<Plain_<Doc>, Doc>();
    case 1: return succeeds<Versioned_<Doc>, Doc>();
    case 2: return succeeds<Versioned_<Fixed>, Fixed>();
    case 3: return succeeds<Plain_<Part>, Part>();
    case 4: return succeeds<Plain_<Unique>, Unique>();
    case 5: return succeeds<Direct_<Doc>, Doc>();
    }
}

namespace {
template <class S, class T> void stored_and_loaded()
{
    T v, t;
    v.a = 77;
    v.s = "abc";
    v.v.resize(2);
    v.v[1].k = 500;
    set_any(t, 1);
    Bytes b = stored<S>(v);
    S s(t);
    // a snapshot that is taken now and written later gives the same bytes
    S source(v);
    awl::io::Snapshot shot = source.MakeShanshot();
    v.a = 78;
    Bytes late;
    awl::io::VectorOutputStream out(late);
    source.WriteSnapshot(out, shot);
    v.a = 77;
    ENSURES_(late == b, "a snapshot is written as the value it was taken from");
    BadStream in(b, b.size(), false);
    s.Read(in);
    ENSURES_(t == v, "the whole value is replaced");
    ENSURES_(in.End(), "everything stored is read");
}
struct Migrating : awl::io::HeaderedSerializable<Doc, In, Out, Sum> {
    using Headered = awl::io::HeaderedSerializable<Doc, In, Out, Sum>;
    Migrating(std::string format, size_t version, Doc& v) : Headered(awl::io::Header{std::move(format), version}, v, 32) { }
    size_t old = 0;
    bool migrate = false;
    void ReadOldVersion(size_t version) override
    {
        old = version;
        if (!migrate)
            Headered::ReadOldVersion(version);
    }
};
} // namespace
VC_CONTRACT(hashed_success, 2, "bounded(strings and vectors of up to 2 elements, any previous value)", "EuphoricallySerializable, HeaderedSerializable: Read, Write, MakeShanshot, WriteSnapshot",
            "a successful load replaces the whole value; a snapshot holds the value it was taken from")
{
    if (vc_case == 0)
        stored_and_loaded<Hashed_<Doc>, Doc>();
    else
        stored_and_loaded<Headered_<Doc>, Doc>();
}
VC_CONTRACT(headers, 6, "proof", "awl::io::HeaderedSerializable::ReadHeader, ReadOldVersion", "a wrong format or version is reported and nothing is loaded")
{
    Doc v, t, before;
    v.a = 5;
    v.s = "abc";
    set_any(t, 1);
    before = t;
    Migrating w("fmt", 2, v);
    Bytes b;
    awl::io::VectorOutputStream out(b);
    w.Write(out);
    const char* formats[] = {"fmt", "fmt", "fmt", "fmt", "fmu", "fmt2"};
    const size_t versions[] = {2, 1, 3, 3, 2, 2};
    Migrating r(formats[vc_case], versions[vc_case], t);
    r.migrate = vc_case == 3;
    BadStream in(b, b.size(), false);
    bool threw = vc_throws<awl::io::IoException>([&] { r.Read(in); });
    ENSURES_(threw == (vc_case != 0 && vc_case != 3), "exactly a wrong format or version is reported");
    ENSURES_(r.old == (vc_case == 2 || vc_case == 3 ? 2 : 0), "exactly an old version is given to its reader");
    ENSURES_(vc_case == 0 ? t == v : t == before, "the object is loaded, or keeps its value");
}
// executed: every corrupted byte of the stored data
namespace {
template <class T> struct Hashed64_ : awl::io::EuphoricallySerializable<T> {
    Hashed64_(T& v) : awl::io::EuphoricallySerializable<T>(v, 32) { }
};
template <class S, class T> void corrupted()
{
    T v, t, before;
    v.a = 77;
    v.s = "abc";
    v.v.resize(2);
    t.a = 11;
    t.s = "a text that does not fit into the object";
    t.v.resize(3);
    assign(before, t);
    Bytes b = stored<S>(v);
    b[size_t(vc_pick(0, b.size() - 1, "position"))] ^= uint8_t(vc_pick(1, 255, "mask"));
    BadStream in(b, b.size(), false);
    S s(t);
    bool threw = vc_throws<awl::io::IoException>([&] { s.Read(in); });
    ENSURES_(threw, "the corruption is reported");
    ENSURES_(t == before, "the object has the value it had before");
}
} // namespace
VC_CONTRACT(corruption, 2, "enum(one corrupted byte at any position, any value, executed)", "awl::io::EuphoricallySerializable::Read, HashingSerializable::Read with Crc64",
            "a corrupted byte is reported and the object keeps its value")
{
    if (vc_case == 0)
        corrupted<Hashed64_<Doc>, Doc>();
    else
        corrupted<Hashed64_<Fixed>, Fixed>();
}
