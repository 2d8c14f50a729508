// C07: CRC-64 and hash values.
// SOURCES:
#include "vc.h"
#include "Awl/Crypto/Crc64.h"
#include "Awl/Crypto/FixedHash.h"
#include "Awl/Crypto/IntHash.h"
#include "Awl/Mp/TypeHash.h"
#include <array>
#include <string>
#include <string_view>
#include <vector>

namespace {

using awl::crypto::Crc64;
using awl::crypto::Int64Hash;

// The definition: polynomial 0xad93d23594c935a9, least significant bit first (so its bits are reversed).
uint64_t bitwise(uint64_t c, uint8_t b)
{
    constexpr uint64_t poly = 0x95ac9329ac4bc9b5ull;
    c ^= b;
    for (int i = 0; i < 8; ++i)
        c = (c >> 1) ^ (poly & (0 - (c & 1)));
    return c;
}

uint64_t integer(const std::array<uint8_t, 8>& a)
{
    uint64_t v = 0;
    for (int i = 0; i < 8; ++i)
        v = v << 8 | a[i];
    return v;
}

uint64_t step(uint64_t c, uint8_t b) { return integer(Crc64(c)(&b, &b + 1)); }

}

VC_CONTRACT(one_byte, 1, "proof", "Crc64::operator(), Crc64::Calc, the CRC table",
    "from every state every byte leads to the state defined by the generator polynomial")
{
    uint64_t c = vc_val<uint64_t>("crc");
    uint8_t b = vc_val<uint8_t>("byte");
    ENSURES_(integer(Crc64(c)(&b, &b)) == c, "the hash of no bytes is the seed");
    ENSURES_(step(c, b) == bitwise(c, b), "one byte is hashed as the generator polynomial defines");
}

// The detection of changes confined to eight bytes follows from three facts: the step is linear, it is invertible in the
// state, and the images of the 64 unit blocks are independent.
VC_CONTRACT(linear, 1, "proof", "Crc64::operator()", "the step is linear in the state and the byte, and different states stay different")
{
    uint64_t c = vc_val<uint64_t>("crc"), d = vc_val<uint64_t>("crc2");
    uint8_t b = vc_val<uint8_t>("byte"), e = vc_val<uint8_t>("byte2");
    ENSURES_((step(c, b) ^ step(d, e)) == step(c ^ d, b ^ e), "the difference of two hashes depends only on the difference of the data");
    if (c != d)
        ENSURES_(step(c, b) != step(d, b), "equal following bytes never hide a difference");
}

VC_CONTRACT(unit_blocks, 1, "proof", "Crc64::operator()", "the hashes of the 64 blocks of eight bytes with one bit set are linearly independent (a finite fact, computed)")
{
    uint64_t basis[64] = {};
    int rank = 0;
    for (int i = 0; i < 64; ++i) {
        std::array<uint8_t, 8> m{};
        m[i / 8] = uint8_t(1u << (i % 8));
        uint64_t v = integer(Crc64(0)(m.begin(), m.end()));
        for (int k = 63; k >= 0 && v; --k) {
            if (!(v >> k & 1))
                continue;
            if (!basis[k]) {
                basis[k] = v;
                ++rank;
                break;
            }
            v ^= basis[k];
        }
    }
    const char check[] = "123456789";
    ENSURES_(Int64Hash(0)(check, check + 9) == 0xe9c6d914c4b8d9caull, "the published check value of CRC-64/Jones");
    ENSURES_(rank == 64, "any change confined to eight bytes changes the hash");
}

namespace {

// Callee contract of the step: it gives bitwise(crc, b), discharged by one_byte.  The definition stays folded here.
VC_SUMMARY(calc)(uint64_t* crc, uint8_t b) { *crc = vc_ghost_fn(1, *crc, b); }

bool folded = false;

uint64_t defined(uint64_t c, uint8_t b) { return folded ? vc_ghost_fn(1, c, b) : bitwise(c, b); }

template <class T, size_t N> uint64_t spec(uint64_t c, const std::array<T, N>& a, size_t from, size_t to)
{
    for (size_t i = from; i < to; ++i)
        for (size_t j = sizeof(T); j-- > 0;)
            c = defined(c, uint8_t(std::make_unsigned_t<T>(a[i]) >> (8 * j)));
    return c;
}

template <class T, size_t N> void pieces()
{
    folded = VC_USE(calc, "^awl::crypto::Crc64::Calc") != 0;
    uint64_t seed = vc_val<uint64_t>("seed");
    size_t n = vc_pick(0, N, "n"), k = vc_pick(0, n, "cut");
    std::array<T, N> a{};
    for (size_t i = 0; i < n; ++i)
        a[i] = vc_val<T>("element");
    auto h = Crc64(seed)(a.begin(), a.begin() + n);
    ENSURES_(integer(h) == spec(seed, a, 0, n), "the hash is the CRC of the bytes of the elements, most significant first");
    uint64_t whole = Int64Hash(seed)(a.begin(), a.begin() + n);
    ENSURES_(whole == integer(h), "the integer hash is the hash value read most significant byte first");
    uint64_t first = Int64Hash(seed)(a.data(), a.data() + k);
    ENSURES_(Int64Hash(first)(a.data() + k, a.data() + n) == whole, "hashing in two pieces gives the same");
    std::vector<T> v(a.begin(), a.begin() + n);
    ENSURES_(Crc64(seed)(v.begin(), v.end()) == h, "the hash does not depend on the container");
    ENSURES_(Crc64(seed)(v.cbegin(), v.cend()) == h, "the hash does not depend on the kind of iterator");
}

}

VC_CONTRACT(sequence, 7, "bounded", "Crc64::operator(), Int64Hash::operator()",
    "bounded: sequences of up to 12 bytes (5 wider elements), every cut, every seed, all values; 1..8 byte elements")
{
    switch (vc_case) {
    case 0: return pieces<uint8_t, 12>();
    case 1: return pieces<char, 8>();
    case 2: return pieces<uint16_t, 4>();
    case 3: return pieces<int32_t, 4>();
    case 4: return pieces<uint64_t, 3>();
    case 5: return pieces<wchar_t, 3>();
    case 6: return pieces<int8_t, 5>();
    }
}

VC_CONTRACT(integer_hash, 1, "proof", "Int64Hash, to_array, from_array, comparison of hash values",
    "hash values compare all of their bytes and convert to and from integers without loss")
{
    uint64_t s = vc_val<uint64_t>("seed"), t = vc_val<uint64_t>("seed2");
    const uint8_t* none = nullptr;
    Crc64::value_type a = Crc64(s)(none, none), b = Crc64(t)(none, none);
    ENSURES_((a == b) == (s == t) && (a != b) == (s != t), "hash values are equal exactly when all of their bytes are");
    ENSURES_((a < b) == (s < t), "hash values are ordered as the integers");
    ENSURES_(Int64Hash(s)(none, none) == s, "the integer form of a hash value loses nothing");
    ENSURES_(awl::from_array<uint64_t>(a) == s && awl::to_array(s) == a, "byte and integer forms convert to each other");
    for (int i = 0; i < 8; ++i)
        ENSURES_(a[i] == uint8_t(s >> (56 - 8 * i)), "the bytes of a hash value are the same on every platform");
    ENSURES_(Crc64::size() == 8 && sizeof(a) == 8, "a hash value has eight bytes");
}

VC_CONTRACT(text, 4, "bounded", "FixedHash::operator() (string, string_view, fixed_string, literal, iterators), calc_type_hash",
    "bounded: texts of 3 characters (with zeros and non-ASCII ones): every form of the text has the hash of its characters")
{
    folded = VC_USE(calc, "^awl::crypto::Crc64::Calc") != 0;
    auto run = [](auto zero) {
        using C = decltype(zero);
        C t[4] = {vc_val<C>("c"), vc_val<C>("c"), vc_val<C>("c"), 0};
        uint64_t seed = vc_val<uint64_t>("seed");
        uint64_t e = Int64Hash(seed)(t, t + 3);
        awl::crypto::FixedHash<Int64Hash> f{Int64Hash(seed)};
        ENSURES_(f(std::basic_string<C>(t, 3)) == e, "the hash of a string");
        ENSURES_(f(std::basic_string_view<C>(t, 3)) == e, "the hash of a string view");
        ENSURES_(f(t) == e, "the hash of a literal");
        awl::fixed_string<C, 3> fs(t);
        ENSURES_(f(fs) == e, "the hash of a fixed string");
        ENSURES_(f(t, t + 3) == e, "the hash of a range");
        awl::crypto::FixedHash<Crc64> g{Crc64(seed)};
        ENSURES_(integer(g(t)) == e && g(fs) == g(t), "the byte form of the hash of a text");
    };
    if (vc_case == 0) run(char());
    if (vc_case == 1) run(wchar_t());
    if (vc_case == 2) run(char16_t());
    if (vc_case == 3) {
        const char t[] = "vector<";
        awl::fixed_string<char, 7> fs(t);
        ENSURES_(awl::mp::calc_type_hash(fs) == Int64Hash()(t, t + 7), "a type hash is the hash of the type name");
        auto n = awl::mp::make_type_name<uint32_t>();
        ENSURES_(awl::mp::make_type_hash<uint32_t>() == Int64Hash()(n.begin(), n.end()), "a type hash is the hash of the type name");
    }
}
