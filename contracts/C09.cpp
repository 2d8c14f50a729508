// C09: memory, buffered, measuring and adapted streams.
// SOURCES:
#include "vc.h"
#include <cstring>
#include <istream>
#include <sstream>
#include "Awl/Io/MeasureStream.h"
#include "Awl/Io/StdStream.h"
#include "Awl/Io/VectorStream.h"
#include "Awl/Io/BufferedStream.h"
#include "Awl/Io/Rw/ReadRaw.h"
#ifndef VC_SYMBOLIC
#include "Awl/Io/NativeStream.h"
#include <cstdio>
#endif
#include <vector>

namespace {

using Bytes = std::vector<uint8_t>;

// A vector of any length with arbitrary contents; it is not destroyed.
struct AnyVector {
    union {
        Bytes v;
    };
    size_t n, spare;
    AnyVector(const char* name, bool room = false)
    {
        n = vc_any(64, "#n");
        spare = room ? vc_any(64, "#spare") : 0;
        REQUIRES(n <= (size_t(1) << 40) && spare <= (size_t(1) << 40));
        new (&v) Bytes();
        uint8_t* p = static_cast<uint8_t*>(vc_symarray(n + spare, 1, name));
        v._M_impl._M_start = p;
        v._M_impl._M_finish = p + n;
        v._M_impl._M_end_of_storage = p + n + spare;
    }
    ~AnyVector() { }
};

}

VC_CONTRACT(memory_read, 1, "proof", "VectorInputStream::Read, End",
    "from any position of a vector of any length, any read gives exactly the bytes that are there and moves past them")
{
    AnyVector a("stored");
    size_t pos = vc_any(64, "#pos"), count = vc_any(64, "#count"), i = vc_any(64, "#i");
    REQUIRES(pos <= a.n && count <= (size_t(1) << 40) && i < count);
    awl::io::VectorInputStream in(a.v);
    in.m_i += ptrdiff_t(pos); // any position reached by reading
    uint8_t* buf = static_cast<uint8_t*>(vc_symarray(count, 1, "buffer"));
    uint8_t before = buf[i];
    ENSURES_(in.End() == (pos == a.n), "the end is reported exactly when nothing is left");
    size_t r = in.Read(buf, count);
    size_t left = a.n - pos;
    ENSURES_(r == (count < left ? count : left), "a read returns the number of bytes actually available");
    if (i < r) {
        vc_cover("read something");
        ENSURES_(buf[i] == a.v._M_impl._M_start[pos + i], "a read gives the stored bytes in order");
    }
    else
        ENSURES_(buf[i] == before, "nothing is stored after the bytes read");
    ENSURES_(size_t(in.m_i - a.v.cbegin()) == pos + r, "a read moves past the bytes read");
    ENSURES_(in.End() == (pos + r == a.n), "the end is reported exactly when nothing is left");
}

VC_CONTRACT(memory_write, 1, "proof", "VectorOutputStream::Write (vector with enough capacity)",
    "any write to a vector of any length appends exactly the bytes written")
{
    AnyVector a("stored", true);
    size_t count = vc_any(64, "#count"), i = vc_any(64, "#i");
    REQUIRES(count <= a.spare && i < a.n + count);
    const uint8_t* buf = static_cast<const uint8_t*>(vc_symarray(count, 1, "buffer"));
    uint8_t old = i < a.n ? a.v._M_impl._M_start[i] : buf[i - a.n];
    awl::io::VectorOutputStream out(a.v);
    out.Write(buf, count);
    ENSURES_(a.v.size() == a.n + count, "a write appends the number of bytes written");
    ENSURES_(a.v._M_impl._M_start[i] == old, "a write appends the bytes in order and keeps the others");
}

VC_CONTRACT(measure, 1, "proof", "MeasureStream::Write, GetLength", "the length is the sum of the sizes of the writes")
{
    awl::io::MeasureStream m;
    ENSURES_(m.GetLength() == 0, "nothing is measured at first");
    m.m_pos = vc_val<size_t>("written");
    size_t before = m.GetLength(), count = vc_val<size_t>("count");
    m.Write(static_cast<const uint8_t*>(vc_opaque("data")), count);
    ENSURES_(m.GetLength() == before + count, "a write is measured exactly, whatever the data");
}

namespace {

struct Source : awl::io::SequentialInputStream {
    size_t give;
    size_t asked = 0;
    explicit Source(size_t g) : give(g) { }
    bool End() override { return give == 0; }
    size_t Read(uint8_t*, size_t n) override
    {
        asked = n;
        return give < n ? give : n;
    }
};

}

VC_CONTRACT(read_raw, 1, "proof", "ReadRaw", "a raw read either gets all the bytes asked for or throws EndOfFileException")
{
    Source s(vc_val<size_t>("available"));
    size_t n = vc_val<size_t>("count");
    uint8_t b[1];
    bool thrown = vc_throws<awl::io::EndOfFileException>([&] { awl::io::ReadRaw(s, b, n); });
    ENSURES_(s.asked == n && thrown == (s.give < n), "a raw read fails exactly when there are not enough bytes");
}

// Histories through the public interface, including growth of the vector.
VC_CONTRACT(memory_history, 4, "bounded", "VectorOutputStream, VectorInputStream",
    "bounded: up to 3 writes of up to 3 arbitrary bytes (growing the vector), then reads of up to 4 bytes")
{
    Bytes v, all;
    awl::io::VectorOutputStream out(v);
    for (int w = 0; w < vc_case; ++w) {
        uint8_t b[3];
        size_t k = vc_pick(0, 3, "write");
        vc_bytes(b, k, "byte");
        out.Write(b, k);
        all.insert(all.end(), b, b + k);
    }
    ENSURES_(v == all, "the vector holds the bytes written");
    awl::io::VectorInputStream in(v);
    size_t pos = 0;
    while (pos != all.size()) {
        ENSURES_(!in.End(), "the end is not reported while something is left");
        uint8_t b[5];
        size_t k = vc_pick(1, 4, "read");
        size_t r = in.Read(b, k);
        ENSURES_(r == (k < all.size() - pos ? k : all.size() - pos), "a read returns the number of bytes actually available");
        for (size_t i = 0; i < r; ++i)
            ENSURES_(b[i] == all[pos + i], "the bytes read are the bytes written");
        pos += r;
    }
    uint8_t b[1];
    ENSURES_(in.End() && in.Read(b, 1) == 0, "nothing can be read at the end");
}

#ifndef VC_SYMBOLIC
namespace {

// what every input stream has to do
template <class In> void drain(In& in, const Bytes& all)
{
    size_t pos = 0;
    for (int turn = 0; turn < 64; ++turn) {
        if (vc_any(1, "peek"))
            ENSURES_(in.End() == (pos == all.size()), "the end is reported exactly when nothing is left");
        uint8_t b[64];
        std::memset(b, 0xcc, sizeof b);
        size_t k = vc_any(8, "read") % 40;
        size_t r = in.Read(b, k);
        size_t left = all.size() - pos;
        ENSURES_(r == (k < left ? k : left), "a read returns the number of bytes actually available");
        for (size_t i = 0; i < sizeof b; ++i)
            ENSURES_(b[i] == (i < r ? all[pos + i] : 0xcc), "the bytes read are the bytes written");
        pos += r;
        if (r < k) {
            ENSURES_(in.End() && in.Read(b, 3) == 0, "nothing can be read at the end");
            break;
        }
    }
}

template <class Out> void feed(Out& out, const Bytes& all)
{
    for (size_t p = 0; p < all.size();) {
        size_t k = vc_any(8, "write") % 40;
        if (k > all.size() - p)
            k = all.size() - p;
        out.Write(all.data() + p, k);
        p += k;
    }
}

Bytes any_data(size_t max)
{
    Bytes all(vc_any(16, "#size") % (max + 1));
    vc_bytes(all.data(), all.size(), "byte");
    return all;
}

}
#else
namespace {
Bytes any_data(size_t) { return {}; }
template <class In> void drain(In&, const Bytes&) {}
template <class Out> void feed(Out&, const Bytes&) {}
}
#endif

VC_CONTRACT(adapters, 4, "enum", "StdInputStream, StdOutputStream, BufferedInputStream, BufferedOutputStream over them, PosixStream",
    "executed: random data up to 300 bytes through std streams (with and without buffering) and files")
{
#ifndef VC_SYMBOLIC
    Bytes all = any_data(300);
    std::stringstream ss(std::ios::in | std::ios::out | std::ios::binary);
    size_t block = 1 + vc_any(8, "block") % 60;
    switch (vc_case) {
    case 0: {
        awl::io::StdOutputStream out(ss);
        feed(out, all);
        ENSURES_(ss.str() == std::string(all.begin(), all.end()), "a std stream gets the bytes written");
        awl::io::StdInputStream in(ss);
        drain(in, all);
        break;
    }
    case 1: {
        {
            awl::io::StdOutputStream out(ss);
            awl::io::BufferedOutputStream buf(out, block);
            feed(buf, all);
        }
        ENSURES_(ss.str() == std::string(all.begin(), all.end()), "a buffered std stream gets the bytes written");
        awl::io::StdInputStream in(ss);
        awl::io::BufferedInputStream buf(in, block);
        drain(buf, all);
        break;
    }
    case 2: { // a std stream that refuses data
        ss.setstate(std::ios::badbit);
        awl::io::StdOutputStream out(ss);
        uint8_t b[1] = {1};
        ENSURES_(vc_throws<awl::io::WriteFailException>([&] { out.Write(b, 1); }), "a refused write is reported");
        awl::io::MeasureStream m;
        feed(m, all);
        ENSURES_(m.GetLength() == all.size(), "the measured length is the number of bytes written");
        break;
    }
    case 3: {
        char name[64];
        snprintf(name, sizeof name, "c09_%d.tmp", int(getpid()));
        awl::io::UniqueStream s(awl::io::CreateUniqueFile(name));
        ::unlink(name);
        feed(s, all);
        ENSURES_(s.GetLength() == all.size() && s.GetPosition() == all.size() && s.End(), "a file reports its length and position");
        if (!all.empty()) {
            size_t p = vc_any(16, "p") % (all.size() + 1);
            s.Seek(p);
            ENSURES_(s.GetPosition() == p && s.End() == (p == all.size()), "seek moves to the position");
            Bytes tail(all.begin() + p, all.end());
            drain(s, tail);
            s.Seek(0, false);
            ENSURES_(s.GetPosition() == all.size(), "seek from the end");
            s.Move(-ptrdiff_t(all.size() - p));
            ENSURES_(s.GetPosition() == p, "move is relative");
            s.Truncate();
            s.Flush();
            ENSURES_(s.GetLength() == p && s.End(), "truncate cuts the file at the position");
        }
        break;
    }
    }
#endif
}
