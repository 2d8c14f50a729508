// C08: hash-protected streams.
// SOURCES:
#include "vc.h"
#include <cstring>
#include <istream>
#include "Awl/Io/BufferedStream.h"
#include "Awl/Io/HashStream.h"
#include "Awl/Io/VectorStream.h"
#include "Awl/Crypto/Crc64.h"
#include <vector>

namespace {

using awl::io::CorruptionException;
using awl::io::HashInputStream;
using awl::io::HashOutputStream;
using Bytes = std::vector<uint8_t>;

// A hash whose value depends on every byte and on the length: enough to be checked by the streams.  Detection itself is
// the precondition of the contracts about altered data (C07 discharges it for the CRC).
struct Small : awl::crypto::BasicHash<2> {
    uint8_t seed;
    explicit Small(uint8_t s = 7) : seed(s) { }
    template <class It> value_type operator()(It b, It e) const
    {
        uint8_t x = seed, n = 0;
        for (; b != e; ++b, ++n)
            x = uint8_t(uint8_t(x << 1 | x >> 7) ^ *b);
        return {x, n};
    }
};

template <class H> Bytes write(const Bytes& data, size_t block, H hash)
{
    Bytes stored;
    {
        awl::io::VectorOutputStream out(stored);
        HashOutputStream<H> h(out, block, hash);
        bool empty = vc_pick(0, 1, "empty writes") != 0;
        size_t pos = 0;
        while (pos != data.size()) {
            if (empty)
                h.Write(data.data() + pos, 0);
            size_t k = vc_pick(1, data.size() - pos, "write");
            h.Write(data.data() + pos, k);
            pos += k;
        }
        if (empty)
            h.Write(data.data(), 0);
    }
    return stored;
}

// what has to be stored: blocks of block - H::size() bytes, each followed by its hash
template <class H> Bytes layout(const Bytes& data, size_t block, H hash)
{
    Bytes s;
    for (size_t p = 0; p < data.size(); p += block - H::size()) {
        size_t e = p + block - H::size() < data.size() ? p + block - H::size() : data.size();
        s.insert(s.end(), data.begin() + p, data.begin() + e);
        auto v = hash(data.begin() + p, data.begin() + e);
        s.insert(s.end(), v.begin(), v.end());
    }
    return s;
}

template <class H> void check_write(size_t block, size_t n)
{
    H hash{};
    Bytes data(n);
    for (auto& b : data)
        b = vc_val<uint8_t>("byte");
    ENSURES_(write(data, block, hash) == layout(data, block, hash), "the data are stored in blocks, each followed by its hash");
}

template <class H> void check_read(size_t block, size_t n)
{
    H hash{};
    Bytes data(n);
    for (auto& b : data)
        b = vc_val<uint8_t>("byte");
    Bytes stored = layout(data, block, hash);
    awl::io::VectorInputStream in(stored);
    HashInputStream<H> h(in, block, hash);
    bool peek = vc_pick(0, 1, "peek") != 0, empty = vc_pick(0, 1, "empty reads") != 0;
    size_t pos = 0;
    uint8_t buf[8];
    while (pos != n) {
        if (peek)
            ENSURES_(!h.End(), "the end is not reported while something is left");
        if (empty)
            ENSURES_(h.Read(buf, 0) == 0, "reading nothing");
        size_t k = vc_pick(1, n - pos + 1, "read");
        std::memset(buf, 0xcc, sizeof buf);
        size_t r = h.Read(buf, k);
        ENSURES_(r == (k < n - pos ? k : n - pos), "a read returns the bytes asked for, or all the rest");
        for (size_t i = 0; i < r; ++i)
            ENSURES_(buf[i] == data[pos + i], "the bytes read are the bytes written");
        for (size_t i = r; i < 8; ++i)
            ENSURES_(buf[i] == 0xcc, "nothing is stored after the bytes read");
        pos += r;
    }
    ENSURES_(h.End(), "the end is reported when nothing is left");
    ENSURES_(h.Read(buf, 5) == 0 && in.End() && h.End(), "nothing can be read at the end");
}

}

VC_CONTRACT(stored, 36, "bounded", "HashOutputStream::Write, Flush, ~HashOutputStream (with a hash, and BufferedOutputStream)",
    "bounded: 0..5 arbitrary bytes, content of 1..3 bytes per block, written in pieces of any sizes")
{
    size_t n = size_t(vc_case % 6), block = size_t(vc_case / 6 % 3) + 1;
    if (vc_case < 18)
        check_write<Small>(block + 2, n);
    else
        check_write<awl::crypto::FakeHash>(block, n);
}

VC_CONTRACT(delivered, 36, "bounded", "HashInputStream::Read, End, PeekBuf, FlushBuf (with a hash, and BufferedInputStream)",
    "bounded: 0..5 arbitrary bytes, content of 1..3 bytes per block, read in pieces of any sizes, with and without asking for the end")
{
    size_t n = size_t(vc_case % 6), block = size_t(vc_case / 6 % 3) + 1;
    if (vc_case < 18)
        check_read<Small>(block + 2, n);
    else
        check_read<awl::crypto::FakeHash>(block, n);
}

namespace {

// reads everything; returns true if the stream threw CorruptionException
template <class H> bool read_all(HashInputStream<H>& h, Bytes& got, size_t chunk)
{
    uint8_t buf[16];
    try {
        for (int i = 0; i < 16; ++i) {
            if (h.End())
                return false;
            size_t r = h.Read(buf, chunk);
            ENSURES_(r != 0 && r <= chunk, "a read before the end returns at least one byte");
            got.insert(got.end(), buf, buf + r);
        }
    }
    catch (const CorruptionException&) {
        return true;
    }
    vc_fail("a stream is finite");
}

}

VC_CONTRACT(altered, 12, "bounded", "HashInputStream::Read, End, PeekBuf",
    "bounded: 1..4 bytes, 1..3 bytes per block: when the stored bytes of one block become any other bytes that the hash detects, the "
    "reader delivers the blocks before it unchanged, throws, and delivers nothing more")
{
    size_t n = size_t(vc_case % 4) + 1, content = size_t(vc_case / 4) + 1, block = content + 2;
    Small hash(vc_val<uint8_t>("seed"));
    Bytes data(n);
    for (auto& b : data)
        b = vc_val<uint8_t>("byte");
    Bytes stored = layout(data, block, hash);
    size_t blocks = (n + content - 1) / content;
    size_t bad = vc_pick(0, blocks - 1, "altered block");
    size_t from = bad * block, to = from + block < stored.size() ? from + block : stored.size();
    Bytes alt(to - from);
    for (auto& b : alt)
        b = vc_val<uint8_t>("altered");
    auto hv = hash(alt.begin(), alt.end() - 2);
    REQUIRES(alt[alt.size() - 2] != hv[0] || alt[alt.size() - 1] != hv[1]);
    for (size_t i = from; i < to; ++i)
        stored[i] = alt[i - from];
    awl::io::VectorInputStream in(stored);
    HashInputStream<Small> h(in, block, hash);
    Bytes got;
    bool thrown = read_all(h, got, vc_pick(1, 3, "read"));
    ENSURES_(thrown, "altered data are detected");
    ENSURES_(got.size() <= bad * content, "no byte of an altered block is delivered");
    for (size_t i = 0; i < got.size(); ++i)
        ENSURES_(got[i] == data[i], "the bytes before an altered block are delivered unchanged");
    // the stream stays failed
    bool again = vc_throws<CorruptionException>([&] {
        Bytes more;
        uint8_t buf[8];
        size_t r = h.Read(buf, 8);
        ENSURES_(r == 0, "nothing is delivered after a corrupted block");
    });
    ENSURES_(again, "a corrupted stream stays corrupted");
}

VC_CONTRACT(truncated, 12, "bounded", "HashInputStream::Read, End, PeekBuf",
    "bounded: 1..4 bytes, 1..3 bytes per block, truncated anywhere: the reader delivers a prefix of the data, and throws unless the cut "
    "is between blocks (when the hash detects the shortened block)")
{
    size_t n = size_t(vc_case % 4) + 1, content = size_t(vc_case / 4) + 1, block = content + 2;
    Small hash;
    Bytes data(n);
    for (auto& b : data)
        b = vc_val<uint8_t>("byte");
    Bytes stored = layout(data, block, hash);
    size_t len = vc_pick(0, stored.size() - 1, "length");
    stored.resize(len);
    size_t tail = len % block;
    if (tail >= 2) {
        auto hv = hash(stored.end() - tail, stored.end() - 2);
        REQUIRES(stored[len - 2] != hv[0] || stored[len - 1] != hv[1]);
    }
    awl::io::VectorInputStream in(stored);
    HashInputStream<Small> h(in, block, hash);
    Bytes got;
    bool thrown = read_all(h, got, vc_pick(1, 3, "read"));
    ENSURES_(thrown == (tail != 0), "a truncated block is detected");
    size_t whole = len / block * content;
    ENSURES_(thrown ? got.size() <= whole : got.size() == whole, "only whole blocks are delivered");
    for (size_t i = 0; i < got.size(); ++i)
        ENSURES_(got[i] == data[i], "the bytes delivered are the bytes written");
}

namespace {

struct DiskFull { };

struct Failing : awl::io::SequentialOutputStream {
    Bytes got;
    size_t good; // number of writes that succeed
    explicit Failing(size_t g) : good(g) { }
    void Write(const uint8_t* b, size_t n) override
    {
        if (good == 0)
            throw DiskFull();
        --good;
        got.insert(got.end(), b, b + n);
    }
};

struct BadInput : awl::io::SequentialInputStream {
    const Bytes& v;
    size_t pos = 0, fail; // the read that fails
    BadInput(const Bytes& b, size_t f) : v(b), fail(f) { }
    bool End() override { return pos == v.size(); }
    size_t Read(uint8_t* b, size_t n) override
    {
        if (fail-- == 0)
            throw DiskFull();
        size_t r = n < v.size() - pos ? n : v.size() - pos;
        for (size_t i = 0; i < r; ++i)
            b[i] = v[pos + i];
        pos += r;
        return r;
    }
};

}

VC_CONTRACT(write_failure, 8, "bounded", "HashOutputStream::Write, Flush, ~HashOutputStream",
    "bounded: up to 7 bytes, failure of any write of the underlying stream: it is reported, the blocks before it are stored, nothing is "
    "written twice, and the destructor does not throw")
{
    size_t n = size_t(vc_case), content = 2, block = 4;
    Small hash;
    Bytes data(n);
    for (auto& b : data)
        b = vc_val<uint8_t>("byte");
    size_t blocks = (n + 1) / 2;
    size_t good = vc_pick(0, blocks, "writes before the failure");
    Failing out(good);
    bool thrown = false;
    {
        HashOutputStream<Small, Failing> h(out, block, hash);
        try {
            size_t k = vc_pick(0, n, "first write");
            h.Write(data.data(), k);
            h.Write(data.data() + k, n - k);
            h.Flush();
        }
        catch (const DiskFull&) {
            thrown = true;
        }
    }
    ENSURES_(thrown == (good < blocks), "a failed write is reported");
    Bytes all = layout(data, block, hash);
    ENSURES_(out.got.size() <= all.size() && (thrown || out.got.size() == all.size()), "every block is stored once");
    ENSURES_(!thrown || out.got.size() == good * block, "the blocks before a failure are stored, and nothing after it");
    for (size_t i = 0; i < out.got.size(); ++i)
        ENSURES_(out.got[i] == all[i], "the stored blocks are the right ones");
}

VC_CONTRACT(read_failure, 5, "bounded", "HashInputStream::Read, End",
    "bounded: up to 5 bytes in blocks of 2, failure of any read of the underlying stream: it is reported and nothing wrong is delivered")
{
    size_t n = size_t(vc_case) + 1;
    Small hash;
    Bytes data(n);
    for (auto& b : data)
        b = vc_val<uint8_t>("byte");
    Bytes stored = layout(data, 4, hash);
    BadInput in(stored, vc_pick(0, 3, "failing read"));
    HashInputStream<Small, BadInput> h(in, 4, hash);
    size_t pos = 0, failures = 0;
    uint8_t buf[4];
    for (int i = 0; i < 10; ++i) {
        size_t r = 0;
        try {
            r = h.Read(buf, 1);
        }
        catch (const DiskFull&) {
            ++failures;
            continue;
        }
        if (r == 0)
            break;
        ENSURES_(pos < n && buf[0] == data[pos], "what is read around a failure is what was written");
        ++pos;
    }
    ENSURES_(pos == n && failures <= 1, "a read can be repeated after a failure of the underlying stream");
}

VC_CONTRACT(crc, 1, "enum", "HashOutputStream<Crc64>, HashInputStream<Crc64>",
    "executed: random data up to 200 bytes, block sizes 9..40, random writes and reads, one altered byte or a truncation")
{
    using awl::crypto::Crc64;
    size_t n = vc_pick(0, 200, "n"), block = vc_pick(9, 40, "block");
    Crc64 hash(vc_val<uint64_t>("seed"));
    Bytes data(n);
    vc_bytes(data.data(), n, "byte");
    Bytes stored;
    {
        awl::io::VectorOutputStream out(stored);
        HashOutputStream<Crc64> h(out, block, hash);
        for (size_t p = 0; p < n;) {
            size_t k = 1 + vc_any(16, "write") % (n - p);
            h.Write(data.data() + p, k);
            p += k;
        }
    }
    ENSURES_(stored == layout(data, block, hash), "the data are stored in blocks, each followed by its hash");
    int mode = int(vc_pick(0, 2, "mode"));
    if (stored.empty())
        mode = 0;
    size_t at = 0;
    if (mode == 1) {
        at = vc_any(16, "at") % stored.size();
        stored[at] ^= uint8_t(1 + vc_any(8, "bits") % 255);
    }
    if (mode == 2) {
        at = vc_any(16, "at") % stored.size();
        stored.resize(at);
    }
    awl::io::VectorInputStream in(stored);
    HashInputStream<Crc64> h(in, block, hash);
    Bytes got;
    bool thrown = false;
    try {
        while (!h.End()) {
            uint8_t buf[64];
            size_t k = 1 + vc_any(16, "read") % 64;
            size_t r = h.Read(buf, k);
            got.insert(got.end(), buf, buf + r);
            ENSURES_(r == k || h.End(), "a short read is the last one");
        }
    }
    catch (const CorruptionException&) {
        thrown = true;
    }
    ENSURES_(got.size() <= n, "no more bytes than written");
    for (size_t i = 0; i < got.size(); ++i)
        ENSURES_(got[i] == data[i], "the bytes delivered are the bytes written");
    if (mode == 0)
        ENSURES_(!thrown && got.size() == n, "unchanged data are delivered completely");
    if (mode == 1)
        ENSURES_(thrown && got.size() <= at / block * (block - 8), "an altered byte is detected before its block");
    if (mode == 2)
        ENSURES_(at % block == 0 ? !thrown : at % block >= 8 || thrown, "a block without a whole hash is detected");
}
