// C20: mirrored and observable sets stay consistent with their source.
// SOURCES:
#include "vc.h"
#include "Awl/ForeignSet.h"
#include "Awl/MirrorSet.h"
#include "Awl/ObservableSet.h"
#include <algorithm>
#include <memory>
#include <new>
#include <optional>
#include <stdexcept>
#include <vector>

namespace {

// ---- observable sets -----------------------------------------------------------------------------------------------------

template <class S> std::vector<typename S::value_type> contents(const S& s)
{
    std::vector<typename S::value_type> v;
    for (auto& x : s)
        v.push_back(x);
    return v;
}
// replays the announcements
template <class T, class S> struct Replay : awl::Observer<awl::INotifySetChanged<T>> {
    const S** source;                   // the set that announces, nullptr: not looked at
    std::vector<T> v;
    int clears = 0;
    Replay(const S** s) : source(s) { }
    size_t at(const T& x) const
    {
        size_t i = 0;
        while (i != v.size() && !(v[i] == x))
            ++i;
        return i;
    }
    void present(const T& x)
    {
        if (*source) {
            auto i = (*source)->find(x);
            ENSURES_(i != (*source)->end() && &*i == &x, "the announced element is the one in the set");
        }
    }
    void OnAdded(const T& x) override
    {
        ENSURES_(at(x) == v.size(), "an element is announced once when it is added");
        present(x);
        v.push_back(x);
    }
    void OnRemoving(const T& x) override
    {
        ENSURES_(at(x) != v.size(), "an element is announced once when it is removed");
        present(x);
        v.erase(v.begin() + ptrdiff_t(at(x)));
    }
    void OnClearing() override
    {
        ++clears;
        v.clear();
    }
    bool same(std::vector<T> c) const
    {
        if (c.size() != v.size())
            return false;
        for (const T& x : c)
            if (at(x) == v.size())
                return false;
        return true;
    }
};
using Set = awl::observable_set<int>;
using R = Replay<int, Set>;
using Ints = std::vector<int>;

// n arbitrary different values
Ints fill(Set& s, int n, const char* name)
{
    Ints k;
    for (int i = 0; i != n; ++i) {
        int v = vc_val<int>(name);
        REQUIRES(k.empty() || k.back() < v);
        k.push_back(v);
        s.insert(v);
    }
    return k;
}
Ints with(Ints k, int v)
{
    auto i = std::lower_bound(k.begin(), k.end(), v);
    if (i == k.end() || *i != v)
        k.insert(i, v);
    return k;
}
Ints without(Ints k, int v)
{
    auto i = std::find(k.begin(), k.end(), v);
    if (i != k.end())
        k.erase(i);
    return k;
}
void holds(Set& s, const Ints& k, const R& r)
{
    ENSURES_(contents(s) == k, "the set holds exactly its elements");
    ENSURES(s.size() == k.size() && s.empty() == k.empty());
    ENSURES_(r.same(k), "replaying the announcements reproduces the contents");
}
void replay_of(R& r, Set& s) { r.v = contents(s), s.Subscribe(&r); }
} // namespace

VC_CONTRACT(changes, 8, "bounded(sets of up to 3 elements, any values)", "awl::observable_set::insert, emplace, erase, clear, Subscribe, Unsubscribe", "every change is announced exactly once")
{
    const Set* source = nullptr;
    std::optional<Set> so(std::in_place);
    Set& s = *so;
    Ints k = fill(s, int(vc_pick(0, 3, "n")), "k");
    R r(&source), q(&source);
    replay_of(r, s);
    replay_of(q, s);
    source = &s;
    const int x = vc_val<int>("x");
    bool was = false;
    for (int v : k)
        was = was || v == x;
    switch (vc_case) {
    case 0:
    case 1:
    case 2: {
        auto p = vc_case == 0 ? s.insert(x) : vc_case == 1 ? s.insert(std::move(const_cast<int&>(x))) : s.emplace(x);
        ENSURES(p.second == !was && *p.first == x);
        k = with(k, x);
        break;
    }
    case 3:
        if (k.empty())
            return;
        {
            size_t i = size_t(vc_pick(0, k.size() - 1, "which"));
            s.erase(s.find(k[i]));
            k.erase(k.begin() + ptrdiff_t(i));
        }
        break;
    case 4:
        ENSURES(s.erase(x) == size_t(was));
        k = without(k, x);
        break;
    case 5:
        s.clear();
        ENSURES_(r.clears <= 1 && (k.empty() || r.clears == 1), "the whole contents are announced to be removed once");
        k.clear();
        break;
    case 6:
        so.reset();
        ENSURES_(r.v.empty() && q.v.empty(), "the elements of a destroyed set have been announced to be removed");
        ENSURES_(!r.IsSubscribed() && !q.IsSubscribed(), "the observers of a destroyed set are not subscribed");
        return;
    case 7:
        s.Unsubscribe(&q);
        s.insert(x);
        s.erase(x);
        s.clear();
        ENSURES_(q.same(k), "an observer that is not subscribed is not notified");
        s.Subscribe(&q);
        q.v.clear();
        k.clear();
        break;
    }
    holds(s, k, r);
    ENSURES_(q.same(k), "every observer gets the announcements");
    vc_cover("changed");
    // and so are the next ones
    s.insert(0), s.erase(0), s.insert(1);
    k = with(without(k, 0), 1);
    holds(s, k, r);
}
VC_CONTRACT(moves, 5, "bounded(sets of up to 2 elements, any values)", "awl::observable_set: move construction and assignment, migrate", "moved contents are announced to exactly the observers that have to know")
{
    const Set* source = nullptr;
    std::optional<Set> ao(std::in_place), bo(std::in_place);
    Set &a = *ao, &b = *bo;
    Ints ka = fill(a, int(vc_pick(0, 2, "na")), "a"), kb = fill(b, int(vc_pick(0, 2, "nb")), "b");
    R ra(&source), rb(&source);
    replay_of(ra, a), replay_of(rb, b);
    switch (vc_case) {
    case 0: {
        Set c(std::move(a));
        ENSURES_(ra.clears == 0, "nothing is announced, the observers follow the contents");
        holds(c, ka, ra);
        ENSURES_(a.empty(), "the source is empty");
        a.insert(5);
        holds(c, ka, ra);
        c.insert(7);
        ka = with(ka, 7);
        holds(c, ka, ra);
        ao.reset();
        holds(c, ka, ra);
        break;
    }
    case 1: {
        Set& d = b = std::move(a);
        ENSURES(&d == &b);
        ENSURES_(ra.clears == 0, "nothing is announced, the observers follow the contents");
        holds(b, ka, ra);
        ENSURES_(rb.v.empty() && rb.clears == int(!kb.empty()) && !rb.IsSubscribed(), "the observers of the target have been told that it is cleared");
        ENSURES_(a.empty(), "the source is empty");
        a.insert(5);
        b.insert(7);
        ka = with(ka, 7);
        holds(b, ka, ra);
        ao.reset();
        holds(b, ka, ra);
        return;
    }
    case 2: {
        Set& self = a;
        a = std::move(self);
        holds(a, ka, ra);
        ENSURES_(ra.IsSubscribed(), "a set assigned to itself keeps its observers");
        break;
    }
    case 3:
        b.migrate(std::move(a));
        holds(b, ka, rb);
        holds(a, {}, ra);
        ENSURES_(ra.IsSubscribed() && rb.IsSubscribed(), "the observers stay");
        a.insert(3);
        b.insert(7);
        holds(a, {3}, ra);
        ka = with(ka, 7);
        holds(b, ka, rb);
        return;
    case 4: {
        Set t(std::move(a));
        a = std::move(b);
        b = std::move(t);
        holds(a, kb, rb);
        holds(b, ka, ra);
        a.insert(1), b.insert(2);
        kb = with(kb, 1), ka = with(ka, 2);
        holds(a, kb, rb);
        holds(b, ka, ra);
        return;
    }
    }
    ENSURES(vc_case == 2 || ra.v.empty());
    holds(b, kb, rb);
}
namespace {
struct Pair {
    int a, b;
    Pair(int x, int y) : a(x), b(y) { }
    bool operator<(const Pair& o) const { return a < o.a; }
    bool operator==(const Pair& o) const = default;
};
} // namespace
VC_CONTRACT(constructors, 3, "bounded(3 values, any of them equal)", "awl::observable_set constructors, emplace, access functions", "the set holds the given values; emplace makes an element of its arguments")
{
    int v[3];
    Ints k;
    for (int& x : v) {
        x = vc_val<int>("x");
        k = with(k, x);
    }
    auto check = [&](auto& s, auto k) {
        ENSURES(contents(s) == k && s.size() == k.size());
        size_t i = 0;
        for (auto it = s.rbegin(); it != s.rend(); ++it)
            ENSURES(*it == k[k.size() - ++i]);
        ENSURES(s.front() == k.front() && s.back() == k.back());
        for (i = 0; i != k.size(); ++i)
            ENSURES(s[i] == k[i] && s.at(i) == k[i] && s.index_of(k[i]) == i && s.contains(k[i]) && s.find(k[i]) != s.end());
    };
    switch (vc_case) {
    case 0: {
        Set s({v[0], v[1], v[2]});
        check(s, k);
        check(static_cast<const Set&>(s), k);
        break;
    }
    case 1: {
        Set s({v[0], v[1], v[2]}, std::allocator<int>());
        Set t;
        t.insert(v[2]), t.insert(v[0]), t.insert(v[1]);
        check(s, k);
        ENSURES(s == t && !(s != t));
        t.erase(v[1]);
        ENSURES(s != t && !(s == t));
        ENSURES(*s.lower_bound(v[1]) == v[1] && (s.upper_bound(v[1]) == s.end() || *s.upper_bound(v[1]) > v[1]));
        break;
    }
    case 2: {
        awl::observable_set<Pair> s;
        auto r = s.emplace(v[0], v[1]);
        ENSURES(r.second && *r.first == Pair(v[0], v[1]));
        ENSURES(!s.emplace(v[0], v[2]).second && s.size() == 1 && *s.begin() == Pair(v[0], v[1]));
        break;
    }
    }
}

// ---- mirrors -------------------------------------------------------------------------------------------------------------
namespace {
using Mirror = awl::mirror_set<int>;
using Reverse = awl::mirror_set<int, std::greater<>>;
template <class M> bool mirrors(const M& m, const Ints& k)
{
    Ints v = contents(m);
    std::sort(v.begin(), v.end());
    return v == k && m.size() == k.size() && m.empty() == k.empty();
}
} // namespace
VC_CONTRACT(mirrors_changes, 7, "bounded(sets of up to 2 elements, any values)", "awl::mirror_set::reflect, OnAdded, OnRemoving, OnClearing", "a mirror and its mirrors hold exactly the elements of the set after every change")
{
    std::optional<Set> so(std::in_place);
    Set& s = *so;
    Ints k = fill(s, int(vc_pick(0, 2, "n")), "k");
    const Mirror* msource = nullptr;
    Mirror m;
    Reverse w, late;
    m.reflect(s);
    w.reflect(m);
    Replay<int, Mirror> r(&msource);
    r.v = contents(m);
    m.Subscribe(&r);
    msource = &m;
    const int x = vc_val<int>("x");
    switch (vc_case) {
    case 0: s.insert(x), k = with(k, x); break;
    case 1: s.erase(x), k = without(k, x); break;
    case 2: s.clear(), k.clear(); break;
    case 3: so.reset(), k.clear(); break;
    case 4: {
        Set t(std::move(s));
        s = std::move(t);
        s.insert(x), k = with(k, x);
        break;
    }
    case 5: {
        Set t;
        t.insert(x), t.insert(5);
        s.migrate(std::move(t));
        k = with({5}, x);
        break;
    }
    case 6: {
        Set t;
        t.insert(x);
        s = std::move(t);
        k.clear();
        break;
    }
    }
    auto check = [&] {
        ENSURES_(mirrors(m, k), "the mirror holds exactly the elements");
        ENSURES_(mirrors(w, k), "the mirror of the mirror holds exactly the elements");
        ENSURES_(std::is_sorted(w.rbegin(), w.rend()) && std::is_sorted(m.begin(), m.end()), "in their orders");
        ENSURES_(r.same(k), "the changes of a mirror are announced");
    };
    check();
    if (vc_case == 6)
        ENSURES_(!m.IsSubscribed(), "a mirror does not follow a set that has been replaced");
    if (vc_case != 3) {
        late.reflect(s);
        if (vc_case != 6)
            ENSURES_(mirrors(late, k), "a mirror begins with the contents");
        s.insert(17);
        if (vc_case != 6)
            k = with(k, 17);
        check();
        s.clear();
        k.clear();
        check();
        ENSURES(late.empty());
    }
}
// every access function of a set or a mirror against the sorted values k; q is any value
namespace {
template <class S> void accesses(S& s, const Ints& k, const int q)
{
    using I = typename S::const_iterator;
    const I end = std::as_const(s).end();
    ENSURES_(contents(s) == k && s.size() == k.size() && s.empty() == k.empty(), "the elements in their order");
    size_t i = k.size();
    for (auto it = s.rbegin(); it != s.rend(); ++it) {
        ENSURES(i != 0);
        ENSURES_(*it == k[--i], "and backwards");
    }
    ENSURES(i == 0);
    for (i = 0; i != k.size(); ++i)
        ENSURES_(s[i] == k[i] && s.at(i) == k[i] && s.index_of(k[i]) == i && s.contains(k[i]) && *s.find(k[i]) == k[i], "each element by its index and by its value");
    if (!k.empty())
        ENSURES_(s.front() == k.front() && s.back() == k.back(), "the first and the last one");
    const auto lo = std::lower_bound(k.begin(), k.end(), q), hi = std::upper_bound(k.begin(), k.end(), q);
    ENSURES_(s.contains(q) == (lo != hi) && (I(s.find(q)) == end) == (lo == hi), "a value is found iff it is an element");
    const I l = s.lower_bound(q), h = s.upper_bound(q);
    ENSURES_((l == end) == (lo == k.end()) && (lo == k.end() || *l == *lo), "the first element not less than a value");
    ENSURES_((h == end) == (hi == k.end()) && (hi == k.end() || *h == *hi), "the first element greater than a value");
    ENSURES_(vc_throws<std::out_of_range>([&] { (void)s.at(k.size()); }), "an index beyond the last one is refused");
    ENSURES(s.value_comp()(1, 2) && !s.value_comp()(2, 1) && !s.value_comp()(2, 2));
}
} // namespace
VC_CONTRACT(access, 4, "bounded(sets of up to 3 elements, any values)", "access functions of awl::observable_set, awl::mirror_set; mirror_set::Unsubscribe", "every access function agrees with the elements")
{
    Set s;
    const Ints k = fill(s, int(vc_pick(0, 3, "n")), "k");
    const int q = vc_val<int>("q");
    Mirror m;
    m.reflect(s);
    switch (vc_case) {
    case 0: accesses(s, k, q); break;
    case 1: accesses(static_cast<const Set&>(s), k, q); break;
    case 2: accesses(m, k, q); break;
    case 3: accesses(static_cast<const Mirror&>(m), k, q); break;
    }
    Set t;
    for (size_t i = k.size(); i != 0; --i)
        t.insert(k[i - 1]);
    Mirror w;
    w.reflect(t);
    ENSURES_(s == t && !(s != t) && m == w && !(m != w), "sets of the same elements are equal");
    // an observer of the mirror that has been unsubscribed gets no announcements, the other ones get them
    const Mirror* source = nullptr;
    Replay<int, Mirror> a(&source), b(&source);
    a.v = contents(m), b.v = contents(m);
    m.Subscribe(&a), m.Subscribe(&b);
    m.Unsubscribe(&a);
    ENSURES(!a.IsSubscribed() && b.IsSubscribed());
    s.insert(q);
    ENSURES_(a.same(k) && b.same(with(k, q)), "exactly the observers that are subscribed are notified");
    const bool was = contents(t) == contents(s);
    ENSURES_((s == t) == was && (s != t) == !was && (m == w) == was && (m != w) == !was, "and sets of other elements are not");
}
VC_CONTRACT(mirrors_moves, 5, "bounded(sets of up to 2 elements, any values)", "awl::mirror_set: move construction and assignment, destruction", "the new mirror follows the set, the old one does not")
{
    Set s, other;
    Ints k = fill(s, int(vc_pick(0, 2, "n")), "k");
    fill(other, int(vc_pick(0, 1, "m")), "o");
    std::optional<Mirror> mo(std::in_place);
    Mirror& m = *mo;
    m.reflect(s);
    Reverse w;
    w.reflect(m);
    const int x = vc_val<int>("x");
    std::optional<Mirror> to;
    switch (vc_case) {
    case 0: to.emplace(std::move(m)); break;
    case 1:
        to.emplace();
        *to = std::move(m);
        break;
    case 2:
        to.emplace();
        to->reflect(other);
        *to = std::move(m);
        break;
    case 3: {
        Mirror& self = m;
        m = std::move(self);
        s.insert(x);
        ENSURES_(mirrors(m, with(k, x)) && mirrors(w, with(k, x)), "a mirror assigned to itself keeps following");
        return;
    }
    case 4:
        mo.reset();
        ENSURES_(w.empty() && !w.IsSubscribed(), "the mirror of a destroyed mirror is empty");
        s.insert(x);
        s.clear();
        return;
    }
    Mirror& t = *to;
    ENSURES_(mirrors(t, k) && m.empty(), "the contents move");
    s.insert(x);
    k = with(k, x);
    ENSURES_(mirrors(t, k) && m.empty(), "the new mirror follows the set, the old one does not");
    ENSURES_(mirrors(w, k), "the mirror of the mirror follows the new one");
    other.insert(x);
    other.clear();
    ENSURES_(mirrors(t, k), "it does not follow another set");
    mo.reset();
    s.erase(x);
    k = without(k, x);
    ENSURES_(mirrors(t, k) && mirrors(w, k), "the end of the old mirror changes nothing");
    t.~Mirror();
    s.insert(3);
    new (&t) Mirror();
}

// ---- foreign sets --------------------------------------------------------------------------------------------------------
namespace {
struct Rec {
    int pk, fk;
    AWL_TUPLIZABLE(pk, fk)
};
AWL_MEMBERWISE_EQUATABLE(Rec)
using Getter = awl::field_getter<Rec, int>;

template <class T> struct Make;
template <> struct Make<Rec> {
    static Rec make(int p, int f) { return {p, f}; }
};
template <> struct Make<std::shared_ptr<Rec>> {
    static std::shared_ptr<Rec> make(int p, int f) { return std::make_shared<Rec>(Rec{p, f}); }
};
template <> struct Make<std::unique_ptr<Rec>> {
    static std::unique_ptr<Rec> make(int p, int f) { return std::make_unique<Rec>(Rec{p, f}); }
};
template <class T> using Primary = awl::observable_set<T, awl::KeyCompare<T, Getter>>;
template <class T> using Foreign = awl::foreign_set<T, Getter, Getter>;

const Rec* address(const Rec& r) { return &r; }
template <class P> const Rec* address(const P& p) { return &*p; }

// counts what the foreign set announces; its groups are not compared
template <class T> struct Groups : awl::Observer<awl::INotifySetChanged<typename Foreign<T>::value_type>> {
    using V = typename Foreign<T>::value_type;
    std::vector<int> keys;
    void OnAdded(const V& v) override
    {
        int f = address(v.front())->fk;
        ENSURES_(std::find(keys.begin(), keys.end(), f) == keys.end(), "a group is announced once when it is added");
        keys.push_back(f);
    }
    void OnRemoving(const V& v) override
    {
        auto i = std::find(keys.begin(), keys.end(), address(v.front())->fk);
        ENSURES_(i != keys.end(), "a group is announced once when it is removed");
        keys.erase(i);
    }
    void OnClearing() override { keys.clear(); }
};
// exactly the elements of the set, grouped by the foreign key, in the order of the primary key
template <class T> void grouped(const Primary<T>& s, const Foreign<T>& f, const Groups<T>& g)
{
    std::vector<const Rec*> all, found;
    for (auto& x : s)
        all.push_back(address(x));
    int last = 0;
    std::vector<int> keys;
    for (auto& group : f) {
        ENSURES_(!group.empty(), "there is no empty group");
        int k = address(group.front())->fk;
        ENSURES_(keys.empty() || last < k, "the groups are in the order of their keys");
        last = k;
        keys.push_back(k);
        ENSURES_(f.find(k) != f.end() && &*f.find(k) == &group, "a group is found by its key");
        const Rec* before = nullptr;
        for (auto& x : group) {
            const Rec* r = address(x);
            ENSURES_(r->fk == k, "a group has the elements of its key");
            ENSURES_(!before || before->pk < r->pk, "the elements of a group are in the order of their keys");
            before = r;
            found.push_back(r);
        }
    }
    ENSURES_(f.size() == keys.size() && f.empty() == keys.empty(), "the number of groups");
    size_t n = 0;
    for (auto i = f.rbegin(); i != f.rend(); ++i, ++n)
        ENSURES_(n < keys.size() && address(i->front())->fk == keys[keys.size() - 1 - n], "the groups backwards");
    ENSURES(n == keys.size());
    for (n = 0; n != keys.size(); ++n)
        ENSURES_(address(f[n].front())->fk == keys[n] && &f.at(n) == &f[n] && f.index_of(keys[n]) == n, "the groups by their numbers");
    if (n)
        ENSURES_(&f.front() == &f[0] && &f.back() == &f[n - 1], "the first and the last group");
    ENSURES_(vc_throws<std::out_of_range>([&] { (void)f.at(n); }), "there is no group behind the last one");
    std::sort(found.begin(), found.end(), [](const Rec* a, const Rec* b) { return a->pk < b->pk; });
    ENSURES_(found == all, "exactly the elements of the set are in the groups, each once");
    std::vector<int> told = g.keys;
    std::sort(told.begin(), told.end());
    ENSURES_(told == keys, "replaying the announcements reproduces the groups");
}
template <class T> void foreign(int op)
{
    std::optional<Primary<T>> so(std::in_place, Getter{&Rec::pk});
    Primary<T>& s = *so;
    int n = int(vc_pick(0, 3, "n"));
    auto key = [] { return int(vc_pick(1, 2, "foreign key")); };
    for (int i = 0; i != n; ++i)
        s.insert(Make<T>::make(2 * i + 2, key()));
    Foreign<T> f(s, Getter{&Rec::pk}, Getter{&Rec::fk});
    Groups<T> g;
    for (auto& group : f)
        g.keys.push_back(address(group.front())->fk);
    f.Subscribe(&g);
    grouped<T>(s, f, g);
    auto some = [&] { return size_t(vc_pick(0, uint64_t(n - 1), "which")); };
    switch (op) {
    case 0: {
        // a new element at any place, in a group of its own too, or one that is there
        int p = int(vc_pick(1, uint64_t(2 * n + 1), "place"));
        bool r = s.insert(Make<T>::make(p, int(vc_pick(1, 3, "foreign key")))).second;
        ENSURES(r == (p % 2 != 0));
        break;
    }
    case 1:
        if (n == 0)
            return;
        s.erase(s.find(int(2 * some() + 2)));
        if (n == 3) {
            grouped<T>(s, f, g);
            s.erase(s.begin());
        }
        break;
    case 2: s.clear(); break;
    case 3:
        so.reset();
        ENSURES_(f.empty() && g.keys.empty() && !f.IsSubscribed(), "nothing is left of a destroyed set");
        return;
    case 4: {
        Primary<T> t(std::move(s));
        grouped<T>(t, f, g);
        t.insert(Make<T>::make(1, 2));
        grouped<T>(t, f, g);
        s = std::move(t);
        break;
    }
    case 5: {
        Primary<T> t(Getter{&Rec::pk});
        t.insert(Make<T>::make(7, 3));
        t.insert(Make<T>::make(2, 2));
        s.migrate(std::move(t));
        break;
    }
    case 7: {
        f.Unsubscribe(&g);
        const auto keys = g.keys;
        ENSURES(!g.IsSubscribed());
        s.insert(Make<T>::make(9, 3));
        s.clear();
        ENSURES_(f.empty() && g.keys == keys, "an observer that is not subscribed is not notified");
        return;
    }
    case 6: {
        Foreign<T> h(std::move(f));
        grouped<T>(s, h, g);
        ENSURES_(f.empty() && !f.IsSubscribed(), "the old foreign set is empty");
        s.insert(Make<T>::make(1, 2));
        grouped<T>(s, h, g);
        if (n)
            s.erase(s.begin());
        grouped<T>(s, h, g);
        return;
    }
    }
    grouped<T>(s, f, g);
    s.insert(Make<T>::make(9, 1));
    s.insert(Make<T>::make(11, 3));
    grouped<T>(s, f, g);
    vc_cover("followed");
}
} // namespace
VC_CONTRACT(foreign_values, 8, "bounded(sets of up to 3 elements in up to 3 groups)", "awl::foreign_set: construction, OnAdded, OnRemoving, OnClearing", "a foreign set holds exactly the elements of its source, by their foreign keys")
{
    foreign<Rec>(vc_case);
}
VC_CONTRACT(foreign_shared, 8, "bounded(sets of up to 3 elements in up to 3 groups)", "awl::foreign_set of std::shared_ptr", "a foreign set holds exactly the elements of its source, by their foreign keys")
{
    foreign<std::shared_ptr<Rec>>(vc_case);
}
VC_CONTRACT(foreign_unique, 8, "bounded(sets of up to 3 elements in up to 3 groups)", "awl::foreign_set of std::unique_ptr", "a foreign set holds exactly the elements of its source, by their foreign keys")
{
    foreign<std::unique_ptr<Rec>>(vc_case);
}

// ---- executed: random histories ------------------------------------------------------------------------------------------
VC_CONTRACT(set_histories, 4, "enum(random histories of 40 operations, executed)", "awl::observable_set, mirror_set", "after every history the announcements and the mirrors reproduce the contents")
{
    const Set* source[2] = {};
    std::unique_ptr<Set> s[2] = {std::make_unique<Set>(), std::make_unique<Set>()};
    Ints k[2];
    std::unique_ptr<R> r[2] = {std::make_unique<R>(&source[0]), std::make_unique<R>(&source[1])};
    std::unique_ptr<Reverse> m[2];
    std::unique_ptr<Mirror> mm[2];
    auto follow = [&](int i) {
        r[i] = std::make_unique<R>(&source[i]);
        replay_of(*r[i], *s[i]);
        m[i] = std::make_unique<Reverse>();
        m[i]->reflect(*s[i]);
        mm[i] = std::make_unique<Mirror>();
        mm[i]->reflect(*m[i]);
    };
    follow(0), follow(1);
    for (int step = 0; step != 40; ++step) {
        int i = int(vc_pick(0, 1, "set")), x = int(vc_pick(0, 15, "x"));
        source[0] = s[0].get(), source[1] = s[1].get();
        switch (vc_pick(0, 12, "op")) {
        case 0: case 1: case 2: s[i]->insert(x), k[i] = with(k[i], x); break;
        case 3: s[i]->emplace(x), k[i] = with(k[i], x); break;
        case 4: case 5: s[i]->erase(x), k[i] = without(k[i], x); break;
        case 6:
            if (!k[i].empty()) {
                s[i]->erase(s[i]->find(k[i][size_t(x) % k[i].size()]));
                k[i].erase(k[i].begin() + ptrdiff_t(size_t(x) % k[i].size()));
            }
            break;
        case 7:
            if (x < 4)
                s[i]->clear(), k[i].clear();
            break;
        case 8: {
            source[i] = nullptr;
            auto t = std::make_unique<Set>(std::move(*s[i]));
            s[i] = std::move(t);
            break;
        }
        case 9:
            source[0] = source[1] = nullptr;
            s[i]->migrate(std::move(*s[1 - i]));
            k[i] = k[1 - i];
            k[1 - i].clear();
            break;
        case 10:
            source[0] = source[1] = nullptr;
            *s[i] = std::move(*s[1 - i]);
            ENSURES_(r[i]->v.empty() && m[i]->empty() && mm[i]->empty(), "the observers of the target have been told that it is cleared");
            k[i] = k[1 - i], k[1 - i].clear();
            std::swap(source[0], source[1]);
            r[i] = std::move(r[1 - i]), m[i] = std::move(m[1 - i]), mm[i] = std::move(mm[1 - i]);
            follow(1 - i);
            r[i]->source = &source[i], r[1 - i]->source = &source[1 - i];
            break;
        case 11: m[i] = std::make_unique<Reverse>(std::move(*m[i])); break;
        case 12: {
            auto t = std::make_unique<Mirror>();
            *t = std::move(*mm[i]);
            mm[i] = std::move(t);
            break;
        }
        }
        for (int j = 0; j != 2; ++j) {
            holds(*s[j], k[j], *r[j]);
            ENSURES_(mirrors(*m[j], k[j]) && mirrors(*mm[j], k[j]), "the mirrors hold exactly the elements");
        }
    }
}
VC_CONTRACT(foreign_histories, 3, "enum(random histories of 40 operations, executed)", "awl::foreign_set", "after every history the groups hold exactly the elements")
{
    auto run = [](auto tag) {
        using T = typename decltype(tag)::type;
        auto s = std::make_unique<Primary<T>>(Getter{&Rec::pk});
        Foreign<T> f(Getter{&Rec::pk}, Getter{&Rec::fk});
        Groups<T> g;
        s->Subscribe(&f);
        f.Subscribe(&g);
        for (int step = 0; step != 40; ++step) {
            int x = int(vc_pick(0, 11, "x"));
            switch (vc_pick(0, 6, "op")) {
            case 0: case 1: case 2: s->insert(Make<T>::make(x, int(vc_pick(0, 3, "group")))); break;
            case 3: case 4:
                if (auto i = s->find(x); i != s->end())
                    s->erase(i);
                break;
            case 5:
                if (x == 0)
                    s->clear();
                break;
            case 6: {
                auto t = std::make_unique<Primary<T>>(std::move(*s));
                s = std::move(t);
                break;
            }
            }
            grouped<T>(*s, f, g);
        }
    };
    if (vc_case == 0)
        run(std::type_identity<Rec>());
    else if (vc_case == 1)
        run(std::type_identity<std::shared_ptr<Rec>>());
    else
        run(std::type_identity<std::unique_ptr<Rec>>());
}
