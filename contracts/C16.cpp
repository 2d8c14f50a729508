// C16: vector_set is a sorted unique set with positional access.
// SOURCES:
// The trees are those the operations leave behind: binary search trees with a black root in which no red node has a red
// child (balance is the subject of C17).
#include "vset.inc.h"
#include <algorithm>
#include <iterator>
#include <set>
#include <stdexcept>
#include <string>

namespace {

// the set holds exactly `keys`, in the tree and in the list, and its nodes are consistent
void holds(const Set& s, const Keys& keys)
{
    Walk w;
    walk(w, s.m_root, nullptr, 1);
    ENSURES_(w.keys == keys, "the tree holds exactly the elements, in order");
    ENSURES_(w.links, "the parents of the nodes");
    ENSURES_(w.counts, "the counts of the nodes");
    INVARIANT(!s.m_root || s.m_root->color == Color::Black);
    INVARIANT(!w.redred);
    size_t i = 0;
    bool ok = true;
    for (auto it = s.begin(); it != s.end(); ++it) {
        ok = ok && i < keys.size() && *it == keys[i];
        ++i;
    }
    ENSURES_(ok && i == keys.size(), "iteration visits exactly the elements, in order");
    for (auto it = s.rbegin(); it != s.rend(); ++it) {
        --i;
        ok = ok && i < keys.size() && *it == keys[i];
    }
    ENSURES_(ok && i == 0, "backward iteration visits exactly the elements, in reverse order");
    ENSURES(s.size() == keys.size() && s.empty() == keys.empty());
    ENSURES(keys.empty() || (s.front() == keys.front() && s.back() == keys.back()));
}
Keys with(Keys k, int v)
{
    k.insert(std::lower_bound(k.begin(), k.end(), v), v);
    return k;
}
Keys without(Keys k, int v)
{
    k.erase(std::find(k.begin(), k.end(), v));
    return k;
}
std::vector<const Node*> nodes(const Set& s)
{
    std::vector<const Node*> v;
    for (auto it = s.begin(); it != s.end(); ++it)
        v.push_back(*it.m_i);
    return v;
}
template <class I> I of(const Set& s, std::vector<const Node*> const& v, int i)
{
    return I(typename Set::List::iterator(const_cast<Node*>(v[size_t(i)])));
}
// cases (tree size, place): sizes up to 3 share a case each
struct Where {
    int n, place;
};
Where where(int c, int places)                               // places: extra places after the n of the elements
{
    for (int n = 4; n <= 6; ++n) {
        if (c < n + places)
            return {n, c};
        c -= n + places;
    }
    vc_assume(false);
    return {};
}
Where element(int c) { return c >= 3 ? where(c - 3, 0) : Where{c + 1, int(vc_pick(0, uint64_t(c), "element"))}; }
Where gap(int c) { return c >= 4 ? where(c - 4, 1) : Where{c, int(vc_pick(0, uint64_t(c), "gap"))}; }
std::pair<Set::iterator, bool> put(Set& s, int how, int v)
{
    if (how == 0)
        return s.insert(v);
    if (how == 1)
        return s.insert(std::move(v));
    return s.emplace(v);
}

} // namespace


static void insert_new(int c)
{
    {
        Set s;
        auto [n, place] = gap(c);
        Keys k = any_weak_set(s, n);
        int v = 2 * place + 1;
        auto before = nodes(s);
        size_t live = vc_live();
        auto r = put(s, n < 4 ? int(vc_pick(0, 2, "how")) : (n + place) % 3, v);
        ENSURES(r.second);
        ENSURES(*r.first == v);
        ENSURES_(vc_live() == live + 1, "one node is added");
        holds(s, with(k, v));
        auto after = nodes(s);
        bool same = true;
        for (size_t i = 0; i != before.size(); ++i)
            same = same && after[i + (i >= size_t(place) ? 1 : 0)] == before[i];
        ENSURES_(same, "the other elements stay where they are in memory");
        vc_cover("inserted");
    }
    ENSURES_(vc_live() == 0, "the destructor frees all nodes");
}
static void erase(int c)
{
    {
        Set s;
        auto [n, i] = element(c);
        Keys k = any_weak_set(s, n);
        auto before = nodes(s);
        size_t live = vc_live();
        if (n < 4 ? vc_pick(0, 1, "by key") != 0 : (n + i) % 2 != 0)
            ENSURES(s.erase(k[size_t(i)]) == 1);
        else
            s.erase(of<Set::iterator>(s, before, i));
        ENSURES_(vc_live() + 1 == live, "one node is freed");
        holds(s, without(k, k[size_t(i)]));
        before.erase(before.begin() + i);
        ENSURES_(nodes(s) == before, "the other elements stay the same objects");
        vc_cover("erased");
    }
    ENSURES_(vc_live() == 0, "the destructor frees all nodes");
}

VC_CONTRACT(insert_new, 15, "bounded(every tree of up to 5 nodes, every place)", "vector_set::insert, emplace, InsertNode, BalanceAfterInsert, GetPredecessor",
            "inserting a new element adds exactly it, in its place; the other elements stay the same objects")
{
    insert_new(vc_case);
}
VC_CONTRACT(insert_new6, 7, "bounded(every tree of 6 nodes, every place)@thorough", "vector_set::insert, emplace, InsertNode, BalanceAfterInsert, GetPredecessor",
            "inserting a new element adds exactly it, in its place; the other elements stay the same objects")
{
    insert_new(vc_case + 15);
}

VC_CONTRACT(insert_existing, 5, "bounded(every tree of up to 5 nodes, every element)", "vector_set::insert, emplace",
            "inserting an equivalent element changes nothing and gives the element that is there")
{
    {
        Set s;
        int n = vc_case + 1;
        Keys k = any_weak_set(s, n, false);
        int i = int(vc_pick(0, uint64_t(n - 1), "element"));
        auto before = nodes(s);
        size_t live = vc_live();
        auto r = put(s, int(vc_pick(0, 2, "how")), k[size_t(i)]);
        ENSURES(!r.second);
        ENSURES_(*r.first.m_i == before[size_t(i)], "the iterator points to the element that was there");
        ENSURES_(vc_live() == live, "nothing is allocated or freed");
        holds(s, k);
        ENSURES_(nodes(s) == before, "the elements stay the same objects");
    }
    ENSURES_(vc_live() == 0, "the destructor frees all nodes");
}
VC_CONTRACT(erase_one, 12, "bounded(every tree of up to 5 nodes, every element)", "vector_set::erase, RemoveNode, BalanceAfterRemove, CopyFrom",
            "erasing an element by iterator or key removes exactly it; the others stay the same objects in order")
{
    erase(vc_case);
}
VC_CONTRACT(erase_one6, 6, "bounded(every tree of 6 nodes, every element)@thorough", "vector_set::erase, RemoveNode, BalanceAfterRemove, CopyFrom",
            "erasing an element by iterator or key removes exactly it; the others stay the same objects in order")
{
    erase(vc_case + 12);
}

VC_CONTRACT(erase_missing, 6, "bounded(every tree of up to 5 nodes), any key", "vector_set::erase", "erasing a key that is not in the set changes nothing")
{
    Set s;
    Keys k = any_weak_set(s, vc_case, false);
    int key = vc_val<int>("key");
    REQUIRES(key < 2 || key > 2 * vc_case || key % 2 != 0);
    auto before = nodes(s);
    ENSURES(s.erase(key) == 0);
    holds(s, k);
    ENSURES_(nodes(s) == before, "the elements stay the same objects");
}

// ---- lookups -------------------------------------------------------------------------------------------------------------

namespace {
template <class S> void check_lookups(S& s, const Keys& k, int key)
{
    size_t lo = 0, up = 0;                                   // the number of smaller, and of not greater elements
    for (int x : k) {
        lo += x < key ? 1 : 0;
        up += x <= key ? 1 : 0;
    }
    bool in = lo != up;
    auto at = [&](auto it, size_t i) { return i == k.size() ? it == s.end() : it != s.end() && *it == k[i]; };
    ENSURES_(at(s.find(key), in ? lo : k.size()), "find");
    ENSURES_(at(s.lower_bound(key), lo), "lower_bound is the first element that is not less");
    ENSURES_(at(s.upper_bound(key), up), "upper_bound is the first element that is greater");
    ENSURES(s.contains(key) == in);
    auto [it, idx] = s.find2(key);
    ENSURES_(at(it, in ? lo : k.size()) && (in ? idx == lo : idx == size_t(-1)), "find2");
    bool threw = false;
    size_t ix = 0;
    try {
        ix = s.index_of(key);
    }
    catch (const std::out_of_range&) {
        threw = true;
    }
    ENSURES_(threw == !in, "index_of throws exactly if the key is missing");
    ENSURES_(threw || ix == lo, "index_of is the number of smaller elements");
    if (in)
        ENSURES_(s.index_of(s.find(key)) == lo, "index_of an iterator is the number of smaller elements");
}
template <class S> void check_positions(S& s, const Keys& k)
{
    size_t i = 0;
    for (auto it = s.begin(); it != s.end(); ++it, ++i) {
        ENSURES_(s[i] == k[i] && s.at(i) == k[i] && *s.find_by_index(i) == k[i], "the element at an index is the i-th smallest");
        ENSURES_(&s[i] == &*it && &s.at(i) == &*it, "positions refer to the elements of the set");
        ENSURES_(s.index_of(it) == i, "the index of an element is the number of smaller ones");
    }
}
// there and back by each form of the iterators' operators
template <class I> void check_steps(I first, const I last, const Keys& k)
{
    const I start = first;
    for (size_t i = 0; i != k.size(); ++i) {
        const I old = first;
        if (i % 2)
            ENSURES_(first++ == old && first != old, "it++ gives the old place");
        else {
            I& r = ++first;
            ENSURES_(&r == &first && first != old, "++it gives the new place");
        }
        ENSURES_(*old == k[i] && *old.operator->() == k[i], "each step passes one element");
    }
    ENSURES_(first == last, "the end is reached");
    for (size_t i = k.size(); i != 0; --i) {
        const I old = first;
        if (i % 2)
            ENSURES_(first-- == old && first != old, "it-- gives the old place");
        else {
            I& r = --first;
            ENSURES_(&r == &first && first != old, "--it gives the new place");
        }
        ENSURES_(*first == k[i - 1], "and each step back, too");
    }
    ENSURES_(first == start, "the start is reached");
}
template <class S> void check_iterators(S& s, const Keys& k)
{
    check_steps(s.begin(), s.end(), k);
    const Keys r(k.rbegin(), k.rend());
    check_steps(s.rbegin(), s.rend(), r);
}
template <class S> void check_beyond(S& s, size_t i)
{
    ENSURES_(s.find_by_index(i) == s.end(), "find_by_index beyond the end gives end()");
    ENSURES_(vc_throws<std::out_of_range>([&] { (void)s.at(i); }), "at() beyond the end throws");
}
} // namespace

VC_CONTRACT(lookups, 12, "bounded(every tree of up to 5 nodes), any key", "vector_set::find, lower_bound, upper_bound, contains, find2, index_of",
            "lookups agree with the order of the elements")
{
    Set s;
    Keys k = any_weak_set(s, vc_case / 2, false);
    int key = vc_val<int>("key");
    if (vc_case % 2 == 0)
        check_lookups(s, k, key);
    else
        check_lookups(static_cast<const Set&>(s), k, key);
}
VC_CONTRACT(positions, 12, "bounded(every tree of up to 5 nodes), any index", "vector_set::operator[], at, find_by_index, index_of",
            "the element at index i is the i-th smallest; an index beyond the end is rejected")
{
    Set s;
    Keys k = any_weak_set(s, vc_case / 2, false);
    size_t beyond = vc_any(64, "#index");
    REQUIRES(beyond >= k.size());
    if (vc_case % 2 == 0) {
        check_positions(s, k);
        check_beyond(s, beyond);
    }
    else {
        check_positions(static_cast<const Set&>(s), k);
        check_beyond(static_cast<const Set&>(s), beyond);
    }
}

VC_CONTRACT(iterating, 12, "bounded(every tree of up to 5 nodes)", "iterators of vector_set in both directions",
            "every step forth and back, prefix and postfix, passes exactly one element in order")
{
    Set s;
    const Keys k = any_weak_set(s, vc_case / 2, false);
    if (vc_case % 2 == 0)
        check_iterators(s, k);
    else
        check_iterators(static_cast<const Set&>(s), k);
    const Set::const_iterator b = s.begin(), e = s.end();
    ENSURES_(b == static_cast<const Set&>(s).begin() && e == static_cast<const Set&>(s).end(), "an iterator converts to a constant one of the same place");
}

// ---- copies, moves, assignments ------------------------------------------------------------------------------------------

VC_CONTRACT(copying, 5, "bounded(every tree of up to 4 nodes)", "vector_set copy constructor and assignment",
            "a copy has the same elements and is independent; the source is not changed")
{
    {
        Set a;
        Keys k = any_weak_set(a, vc_case);
        auto before = nodes(a);
        {
            Set b(a);
            holds(b, k);
            ENSURES(b == a && !(b != a));
            b.insert(1);
            ENSURES(b != a && !(b == a));
            holds(b, with(k, 1));
        }
        holds(a, k);
        Set c;
        c.insert(100), c.insert(2), c.insert(50);
        Set& r = c = a;
        ENSURES(&r == &c);
        holds(c, k);
        holds(a, k);
        ENSURES_(nodes(a) == before, "the elements of the source stay the same objects");
        Set& self = c;
        c = self;
        holds(c, k);
    }
    ENSURES_(vc_live() == 0, "all nodes are freed");
}
VC_CONTRACT(moving, 5, "bounded(every tree of up to 4 nodes)", "vector_set move constructor and assignment, clear",
            "a move transfers the elements and leaves the source empty and usable")
{
    {
        Set a;
        Keys k = any_weak_set(a, vc_case);
        auto before = nodes(a);
        Set b(std::move(a));
        holds(b, k);
        ENSURES_(nodes(b) == before, "the elements stay the same objects");
        holds(a, {});
        a.insert(7), a.insert(3);
        holds(a, {3, 7});
        Set& r = a = std::move(b);
        ENSURES(&r == &a);
        holds(a, k);
        ENSURES_(nodes(a) == before, "the elements stay the same objects");
        holds(b, {});
        b.insert(5);
        holds(b, {5});
        Set& self = a;
        a = std::move(self);
        holds(a, k);
        a.clear();
        holds(a, {});
        a.insert(9);
        holds(a, {9});
    }
    ENSURES_(vc_live() == 0, "all nodes are freed");
}
VC_CONTRACT(equality, 16, "bounded(every pair of sets of up to 3 elements), any values", "vector_set::operator==",
            "two sets are equal exactly if they have the same elements")
{
    Set a, b;
    Keys x, y;
    auto fill = [](Set& s, Keys& k, int n, const char* name) {
        for (int i = 0; i != n; ++i) {
            int v = vc_val<int>(name);
            REQUIRES(k.empty() || k.back() < v);
            k.push_back(v);
            s.insert(v);
        }
    };
    fill(a, x, vc_case / 4, "x");
    fill(b, y, vc_case % 4, "y");
    ENSURES((a == b) == (x == y));
    ENSURES((a != b) == (x != y));
}
VC_CONTRACT(from_range, 4, "bounded(3 values in any order, with repetitions)", "vector_set(initializer_list), vector_set(first, last)",
            "a set made of a range has each of its different values once")
{
    {
        int v[3];
        Keys k;
        for (int& x : v) {
            x = int(vc_pick(1, 3, "v"));
            if (std::find(k.begin(), k.end(), x) == k.end())
                k = with(k, x);
        }
        if (vc_case == 0) {
            Set s{v[0], v[1], v[2]};
            holds(s, k);
        }
        else if (vc_case == 1) {
            Set s({v[0], v[1], v[2]}, std::allocator<int>());
            holds(s, k);
        }
        else if (vc_case == 2) {
            Set s(v, v + 3, std::less<>{});
            holds(s, k);
        }
        else {
            Set s(v, v + 3, std::allocator<int>());
            holds(s, k);
        }
    }
    ENSURES_(vc_live() == 0, "all nodes are freed");
}

// ---- other comparators and elements --------------------------------------------------------------------------------------

namespace {
struct Item {
    int key;
    std::string payload;
    bool operator==(const Item&) const = default;
};
// a comparator with a state, comparing parts of the elements
struct ByKey {
    bool reverse = false;
    using is_transparent = void;
    bool less(int a, int b) const { return reverse ? b < a : a < b; }
    bool operator()(const Item& a, const Item& b) const { return less(a.key, b.key); }
    bool operator()(const Item& a, int b) const { return less(a.key, b); }
    bool operator()(int a, const Item& b) const { return less(a, b.key); }
};
using Items = awl::vector_set<Item, ByKey>;
template <class S> bool sorted_as(const S& s, const std::vector<int>& keys)
{
    size_t i = 0;
    for (const Item& x : s) {
        if (i >= keys.size() || x.key != keys[i] || x.payload != std::to_string(x.key) || s[i].key != x.key || s.index_of(x.key) != i)
            return false;
        ++i;
    }
    return i == keys.size() && s.size() == i;
}
} // namespace

VC_CONTRACT(comparator_history, 2, "enum(random histories, executed)", "vector_set with a stateful comparator",
            "a set ordered by a stateful comparator keeps the comparator in copies, moves and assignments")
{
    bool rev = vc_case != 0;
    Items s(ByKey{rev}), t;
    std::set<int> m;
    unsigned steps = unsigned(vc_pick(1, 60, "steps"));
    for (unsigned i = 0; i != steps; ++i) {
        int key = int(vc_pick(0, 20, "key"));
        switch (vc_pick(0, 6, "op")) {
        case 0: case 1: case 2: {
            bool added = m.insert(key).second;
            auto r = s.insert(Item{key, std::to_string(key)});
            ENSURES_(r.second == added && r.first->key == key, "insert");
            break;
        }
        case 3:
            ENSURES_(s.erase(key) == m.erase(key), "erase");
            break;
        case 4: {
            Items c(s);
            ENSURES_(c == s, "copies are equal");
            s = c;
            break;
        }
        case 5:
            t = std::move(s);
            s = Items(std::move(t));
            break;
        default:
            ENSURES_(s.contains(key) == (m.count(key) != 0), "contains");
        }
        std::vector<int> keys(m.begin(), m.end());
        if (rev)
            std::reverse(keys.begin(), keys.end());
        ENSURES_(sorted_as(s, keys), "the set has the elements of the history in comparator order");
    }
}
VC_CONTRACT(history, 1, "enum(random histories of up to 80 operations, executed)", "vector_set", "after every history the set holds the elements inserted and not erased")
{
    Set s;
    std::set<int> m;
    unsigned steps = unsigned(vc_pick(1, 80, "steps"));
    int range = int(vc_pick(4, 60, "range"));
    for (unsigned i = 0; i != steps; ++i) {
        int key = int(vc_pick(0, 60, "key")) % range;
        switch (vc_pick(0, 5, "op")) {
        case 0: case 1: case 2:
            ENSURES_(put(s, int(vc_pick(0, 2, "how")), key).second == m.insert(key).second, "insert");
            break;
        case 3:
            ENSURES_(s.erase(key) == m.erase(key), "erase");
            break;
        case 4:
            if (!m.empty()) {
                size_t pos = size_t(vc_pick(0, 1000, "pos")) % m.size();
                m.erase(*std::next(m.begin(), long(pos)));
                s.erase(s.find_by_index(pos));
            }
            break;
        default:
            if (vc_pick(0, 20, "rare") == 0) {
                s.clear();
                m.clear();
            }
            else {
                Set c(std::move(s));
                s = c;
            }
        }
        Keys keys(m.begin(), m.end());
        holds(s, keys);
        check_positions(s, keys);
        check_lookups(s, keys, int(vc_pick(0, 61, "lookup")));
    }
}

// ---- failing constructions and allocators --------------------------------------------------------------------------------
namespace {
struct Failure { };
struct Elem {
    static inline int live, fail;       // fail: constructions until one throws, < 0: none
    int v;
    static void count()
    {
        if (fail >= 0 && fail-- == 0)
            throw Failure();
        ++live;
    }
    Elem(int x) : v(x) { count(); }
    Elem(int x, int y) : v(x + y) { count(); }
    Elem(const Elem& o) : v(o.v) { count(); }
    ~Elem() { --live; }
    bool operator<(const Elem& o) const { return v < o.v; }
};
// an allocator that knows its blocks
struct Heap {
    int live = 0;
};
template <class T> struct HeapAllocator {
    using value_type = T;
    Heap* h = nullptr;
    HeapAllocator(Heap* p = nullptr) : h(p) { }
    template <class U> HeapAllocator(const HeapAllocator<U>& o) : h(o.h) { }
    T* allocate(size_t n)
    {
        ++h->live;
        return static_cast<T*>(::operator new(n * sizeof(T)));
    }
    void deallocate(T* p, size_t)
    {
        --h->live;
        ::operator delete(p);
    }
    bool operator==(const HeapAllocator& o) const { return h == o.h; }
};
using Elems = awl::vector_set<Elem, std::less<>, HeapAllocator<Elem>>;
std::vector<int> values(const Elems& s)
{
    std::vector<int> v;
    for (const Elem& e : s)
        v.push_back(e.v);
    return v;
}
} // namespace
VC_CONTRACT(failing, 8, "bounded(sets of up to 3 elements, every failing construction)", "vector_set::insert, emplace, CreateNode, DestroyNode; constructors, assignment",
            "a construction that fails leaves the set as it was, nothing leaks, all nodes are allocated and freed by the allocator of the set")
{
    Heap h;
    Elem::live = 0, Elem::fail = -1;
    {
        Elems s(std::less<>{}, HeapAllocator<Elem>(&h));
        int n = int(vc_pick(0, 3, "n"));
        std::vector<int> k;
        for (int i = 0; i != n; ++i) {
            s.emplace(10 * i + 10);
            k.push_back(10 * i + 10);
        }
        int x = vc_pick(0, 1, "present") != 0 ? 10 : 15;
        bool present = n > 0 && x == 10;
        std::vector<int> with = k;
        if (!present)
            with.insert(std::lower_bound(with.begin(), with.end(), x), x);
        ENSURES_(h.live == n, "one node for every element");
        auto failing = [&](auto f, int count) {
            Elem::fail = int(vc_pick(0, uint64_t(count), "failing construction"));
            bool threw = vc_throws<Failure>(f);
            Elem::fail = -1;
            return threw;
        };
        switch (vc_case) {
        case 0: {
            Elem e(x);
            bool threw = failing([&] { s.insert(e); }, 1);
            ENSURES_(values(s) == (threw ? k : with), "the set is as it was, or has the element");
            break;
        }
        case 1: {
            Elem e(x);
            bool threw = failing([&] { s.insert(std::move(e)); }, 1);
            ENSURES_(values(s) == (threw ? k : with), "the set is as it was, or has the element");
            break;
        }
        case 2: {
            bool threw = failing([&] { ENSURES(s.emplace(x).second == !present); }, 1);
            ENSURES_(values(s) == (threw ? k : with), "the set is as it was, or has the element");
            break;
        }
        case 3: {
            bool threw = failing([&] { ENSURES(s.emplace(x - 1, 1).second == !present); }, 1);
            ENSURES_(values(s) == (threw ? k : with), "the set is as it was, or has the element");
            break;
        }
        case 4: failing([&] { Elems c(s); ENSURES(values(c) == k); }, n); break;
        case 5: failing([&] { Elems c({Elem(3), Elem(1), Elem(2), Elem(1)}, std::less<>{}, HeapAllocator<Elem>(&h)); ENSURES(values(c) == (std::vector<int>{1, 2, 3})); }, 7); break;
        case 6: {
            int a[] = {3, 1, 2, 1};
            failing([&] { Elems c(a, a + 4, HeapAllocator<Elem>(&h)); ENSURES(values(c) == (std::vector<int>{1, 2, 3})); }, 7);
            break;
        }
        case 7: {
            Elems c(std::less<>{}, HeapAllocator<Elem>(&h));
            c.emplace(77);
            bool threw = failing([&] { c = s; }, n);
            ENSURES(threw || values(c) == k);
            c.emplace(1);
            ENSURES_(c.contains(Elem(1)) && c.front().v == 1, "the target can be used");
            Elems d(std::move(c));
            ENSURES(d.contains(Elem(1)));
            break;
        }
        }
        if (vc_case > 3)
            ENSURES_(values(s) == k, "the source is as it was");
        ENSURES_(h.live == int(s.size()) && Elem::live >= int(s.size()), "one node for every element");
        if (s.size() > 1)
            s.erase(s.begin());
    }
    ENSURES_(h.live == 0, "every node is freed with the allocator");
    ENSURES_(Elem::live == 0, "every element is destroyed");
    ENSURES_(vc_live() == 0, "no memory leaks");
}
