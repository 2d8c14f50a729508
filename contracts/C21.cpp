// C21: a bit map is the set of its enumerators.
// SOURCES:
#include "vc.h"
#include "Awl/BitMap.h"

enum class Small : uint8_t {};
enum class Wide : uint8_t {};
enum class Mid : uint16_t {};
enum class Word : uint32_t {};

// an arbitrary bit map of N enumerators, each of which is set by an operation the contract of `set` covers
template <class E, unsigned N> struct Set {
    using B = awl::bitmap<E, N>;
    B b;
    std::bitset<N> s;                  // the mathematical set: bit i set iff enumerator i is a member
};

template <unsigned N> static std::bitset<N> any_bits(const char* name)
{
    std::bitset<N> s;
    static_assert(std::is_trivially_copyable_v<std::bitset<N>>);
    uint64_t w[(N + 63) / 64];
    for (auto& x : w)
        x = vc_any(64, name);
    if (N % 64)
        w[N / 64] &= (uint64_t(1) << (N % 64)) - 1;
    static_assert(sizeof(w) == sizeof(s));
    __builtin_memcpy(&s, w, sizeof w);
    return s;
}

template <class E, unsigned N> static Set<E, N> any_set(const char* name)
{
    Set<E, N> r;
    r.s = any_bits<N>(name);
    r.b.m_bits = r.s;
    return r;
}

template <class E, unsigned N> static bool has(const awl::bitmap<E, N>& b, unsigned i)
{
    return b.test(E(i));
}

template <class E, unsigned N> void bitmap_contract()
{
    using B = awl::bitmap<E, N>;
    auto A = any_set<E, N>("a");
    auto C = any_set<E, N>("c");
    const B a = A.b, c = C.b;
    // i: any enumerator operated on; j: any enumerator observed
    unsigned i = unsigned(vc_any(16, "i")), j = unsigned(vc_any(16, "j"));
    REQUIRES(i < N && j < N);
    const bool aj = has<E, N>(a, j), cj = has<E, N>(c, j), me = i == j;
    ENSURES_(aj == bool(A.s[j]), "test is membership");
    ENSURES_(a[E(j)] == aj, "operator[] const is test");

    B x = a;
    ENSURES_(bool(x[E(j)]) == aj, "operator[] is test");
    x[E(i)] = true;
    ENSURES_((has<E, N>(x, j) == (aj || me)), "writing through operator[] sets only that bit");
    x = a;
    bool v = vc_val<bool>("v");
    B& y = x.set(E(i), v);
    ENSURES_(&y == &x, "set returns the bitmap");
    ENSURES_((has<E, N>(x, j) == (me ? v : aj)), "set changes only the given bit");

    ENSURES_((has<E, N>(a | E(i), j) == (aj || me)), "| adds the enumerator");
    ENSURES_((has<E, N>(a & E(i), j) == (aj && me)), "& keeps only the enumerator");
    ENSURES_((has<E, N>(a ^ E(i), j) == (aj != me)), "^ toggles the enumerator");
    ENSURES_((has<E, N>(~a, j) == !aj), "~ is the complement");
    ENSURES_((has<E, N>(a | c, j) == (aj || cj)), "| is the union");
    ENSURES_((has<E, N>(a & c, j) == (aj && cj)), "& is the intersection");
    ENSURES_((has<E, N>(a ^ c, j) == (aj != cj)), "^ is the symmetric difference");
    ENSURES_((has<E, N>(a, j) == aj), "binary operators leave their operands unchanged");
    x = a; x |= E(i);
    ENSURES_(x == (a | E(i)), "|= enumerator");
    x = a; x &= E(i);
    ENSURES_(x == (a & E(i)), "&= enumerator");
    x = a; x ^= E(i);
    ENSURES_(x == (a ^ E(i)), "^= enumerator");
    x = a; x |= c;
    ENSURES_(x == (a | c), "|= bitmap");
    x = a; x &= c;
    ENSURES_(x == (a & c), "&= bitmap");
    x = a; x ^= c;
    ENSURES_(x == (a ^ c), "^= bitmap");
    ENSURES_(a.size() == N, "size is the number of enumerators");
}

template <class E, unsigned N> void compare_contract()
{
    using B = awl::bitmap<E, N>;
    auto A = any_set<E, N>("a");
    auto C = any_set<E, N>("c");
    const B a = A.b, c = C.b;
    ENSURES_((a == c) == (A.s == C.s), "== is equality of sets");
    ENSURES_((a != c) == (A.s != C.s), "!= is inequality of sets");
    bool any = false, all = true, same = true;
    unsigned n = 0;
    for (unsigned i = 0; i != N; ++i) {
        bool m = has<E, N>(a, i);
        any = any || m;
        all = all && m;
        same = same && m == has<E, N>(c, i);
        n += m;
    }
    ENSURES_((a == c) == same, "== compares every enumerator");
    ENSURES_(a.any() == any && bool(a) == any && a.none() == !any, "any, none and conversion to bool");
    ENSURES_(a.all() == all, "all");
    ENSURES_(unsigned(a.count()) == n, "count is the number of members");
    B e;
    ENSURES_(e.none(), "a default constructed bitmap is empty");
}

template <class E, unsigned N> void init_contract()
{
    unsigned i = unsigned(vc_any(16, "i")), j = unsigned(vc_any(16, "j")), k = unsigned(vc_any(16, "k")), o = unsigned(vc_any(16, "o"));
    REQUIRES(i < N && j < N && k < N && o < N);
    awl::bitmap<E, N> b0{};
    awl::bitmap<E, N> b1{E(i)};
    awl::bitmap<E, N> b3{E(i), E(j), E(k)};
    ENSURES_(b0.none(), "an empty list gives an empty set");
    ENSURES_((has<E, N>(b1, o) == (o == i)), "an initializer list of one enumerator");
    ENSURES_((has<E, N>(b3, o) == (o == i || o == j || o == k)), "an initializer list gives exactly its members");
    ENSURES_(b3 == ((b1 | E(j)) | E(k)), "an initializer list is the union of its members");
}

VC_CONTRACT(algebra, 5, "proof", "awl::bitmap: operators | & ^ ~ and their compound forms (enumerator and bitmap), set, test, operator[], size",
    "for every bitmap, operand and observed enumerator; 5, 64, 70, 130 and 200 enumerators")
{
    switch (vc_case) {
    case 0: return bitmap_contract<Small, 5>();
    case 1: return bitmap_contract<Wide, 64>();
    case 2: return bitmap_contract<Mid, 70>();
    case 3: return bitmap_contract<Wide, 130>();
    case 4: return bitmap_contract<Word, 200>();
    }
}

VC_CONTRACT(comparison, 3, "proof", "awl::bitmap: ==, !=, any, all, none, count, operator bool", "comparison is equality of sets; 5, 64 and 70 enumerators")
{
    switch (vc_case) {
    case 0: return compare_contract<Small, 5>();
    case 1: return compare_contract<Wide, 64>();
    case 2: return compare_contract<Mid, 70>();
    }
}

VC_CONTRACT(initializer, 5, "proof", "awl::bitmap(std::initializer_list), MakeBits, MakeLong, Enum2Bits, Enum2Index",
    "an initializer list gives exactly its members, whatever they are")
{
    switch (vc_case) {
    case 0: return init_contract<Small, 5>();
    case 1: return init_contract<Wide, 64>();
    case 2: return init_contract<Mid, 70>();
    case 3: return init_contract<Wide, 130>();
    case 4: return init_contract<Word, 200>();
    }
}
