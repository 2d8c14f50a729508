// C01: ring as a bounded deque.
// SOURCES:
#include "vc.h"
#include "Awl/Ring.h"
#include <deque>
#include <new>
#include <vector>

namespace {

// An arbitrary reachable state of a ring: any capacity, any wrap-around position, any size, any contents.  The
// representation invariant below is assumed for the state before an operation and asserted for the state after it, so
// that it holds after any history by induction.
template <class T> struct AnyRing {
    union {
        awl::ring<T> r; // the ring does not own an ordinary history: it is not destroyed
    };
    size_t cap, head, size;

    AnyRing()
    {
        new (&r) awl::ring<T>();
        cap = vc_any(64, "#cap");
        head = vc_any(64, "#head");
        size = vc_any(64, "#size");
        REQUIRES(cap != 0 && cap <= (size_t(1) << 40));
        REQUIRES(head < cap && size <= cap);
        T* buf = static_cast<T*>(vc_symarray(cap, sizeof(T), "element"));
        r.m_buf = buf;
        r.m_capacity = cap;
        r.m_data = buf + head;
        r.m_size = size;
    }
    ~AnyRing() {}

    // the k-th element by the definition of the representation, not by the code under contract
    T spec(size_t k) const
    {
        size_t p = head + k;
        return r.m_buf[p >= cap ? p - cap : p];
    }

    void check_invariant(T* buf)
    {
        INVARIANT(r.m_buf == buf && r.m_capacity == cap);
        INVARIANT(r.m_data >= r.m_buf && r.m_data < r.m_buf + cap);
        INVARIANT(r.m_size <= cap);
    }
};

}

VC_CONTRACT(observe, 1, "proof", "ring: operator[], at, front, back, size, capacity, empty, full (const and not)",
    "every observer of a ring in any state gives the element of the abstract deque")
{
    using T = uint64_t;
    AnyRing<T> a;
    const awl::ring<T>& c = a.r;
    ENSURES_(a.r.size() == a.size && a.r.capacity() == a.cap && a.r.empty() == (a.size == 0) && a.r.full() == (a.size == a.cap),
        "size, capacity, empty and full are those of the bounded deque");
    if (a.size != 0) {
        vc_cover("not empty");
        size_t k = vc_any(64, "#k");
        REQUIRES(k < a.size);
        T e = a.spec(k);
        ENSURES_(a.r[k] == e && c[k] == e, "operator[] gives the element at the index");
        ENSURES_(&a.r[k] == &c[k], "operator[] refers to the element itself");
        ENSURES_(a.r.front() == a.spec(0) && c.front() == a.spec(0), "front is the first element");
        ENSURES_(a.r.back() == a.spec(a.size - 1) && c.back() == a.spec(a.size - 1), "back is the last element");
    }
}

VC_CONTRACT(checked, 2, "proof", "ring::at (const and not)", "checked access throws std::out_of_range exactly for an index not below the size")
{
    using T = uint64_t;
    AnyRing<T> a;
    size_t k = vc_val<size_t>("#k");
    T v = 0;
    bool thrown = vc_throws<std::out_of_range>([&] {
        if (vc_case == 0)
            v = a.r.at(k);
        else
            v = static_cast<const awl::ring<T>&>(a.r).at(k);
    });
    ENSURES_(thrown == (k >= a.size), "at() fails exactly for an index not below the size");
    if (!thrown) {
        vc_cover("inside");
        ENSURES_(v == a.spec(k), "at() gives the element at the index");
    }
}

VC_CONTRACT(iterators, 2, "proof", "ring iterators: begin, end, rbegin, rend, ++, --, +=, -=, +, -, ==, <, *, conversion",
    "an iterator that has reached position k gives element k, and one step moves to the neighbour")
{
    using T = uint64_t;
    AnyRing<T> a;
    REQUIRES(a.size != 0);
    size_t k = vc_any(64, "#k");
    REQUIRES(k < a.size);
    auto run = [&](auto& r) {
        auto b = r.begin();
        ENSURES_(*b == a.spec(0), "begin() is the first element");
        ENSURES_(r.end() - b == ptrdiff_t(a.size), "end() is size() steps from begin()");
        auto i = b + ptrdiff_t(k);
        ENSURES_(*i == a.spec(k) && *i.operator->() == a.spec(k), "begin() + k is element k");
        ENSURES_(!(i == r.end()) && i != r.end(), "an element is before the end");
        auto j = i;
        auto old = j++;
        ENSURES_(old == i && *old == a.spec(k), "postfix increment gives the old position");
        ENSURES_((j == r.end()) == (k + 1 == a.size), "the iteration ends after the last element");
        ENSURES_(j - i == 1 && i < j && !(j < i), "increment is one step forward");
        if (k + 1 != a.size) {
            ENSURES_(*j == a.spec(k + 1), "increment moves to the next element");
            auto p = i;
            ENSURES_(*++p == a.spec(k + 1), "prefix increment moves to the next element");
        }
        ENSURES_(*--j == a.spec(k) && j == i, "decrement inverts increment");
        auto q = r.end();
        ENSURES_(*--q == a.spec(a.size - 1), "the element before the end is the last one");
        auto s = q--;
        ENSURES_(*s == a.spec(a.size - 1), "postfix decrement gives the old position");
        auto t = r.end();
        t -= ptrdiff_t(a.size - k);
        ENSURES_(t == i && *t == a.spec(k), "end() - (size - k) is element k");
        t = r.end() - ptrdiff_t(a.size);
        ENSURES_(t == b, "end() - size() is begin()");
        t += ptrdiff_t(k);
        ENSURES_(*t == a.spec(k), "+= k moves k elements forward");
        auto rb = r.rbegin();
        ENSURES_(*rb == a.spec(a.size - 1), "the reverse iteration starts at the last element");
        ENSURES_(*(--r.rend()) == a.spec(0), "the reverse iteration ends at the first element");
    };
    if (vc_case == 0)
        run(a.r);
    else {
        const awl::ring<T>& c = a.r;
        run(c);
        typename awl::ring<T>::const_iterator ci = a.r.begin();
        ENSURES_(*ci == a.spec(0) && ci == c.cbegin(), "an iterator converts to a constant one");
        ENSURES_(*--c.cend() == a.spec(a.size - 1), "cend() is after the last element");
    }
}

// One push or pop in an arbitrary state.  case: which operation; the pushed value is new or one of the elements.
VC_CONTRACT(step, 8, "proof", "ring::push_back, push_front (const& and &&, own elements), pop_back, pop_front",
    "one operation changes the abstract deque as specified, keeps capacity and re-establishes the invariant")
{
    using T = uint64_t;
    AnyRing<T> a;
    T* buf = a.r.m_buf;
    size_t n = a.size, cap = a.cap;
    size_t k = vc_any(64, "#k"); // any index after the operation
    T v = vc_val<T>("v");
    size_t nn;                   // expected size
    T e = 0;                     // expected element k
    bool full = n == cap;
    if (vc_case < 6) {
        nn = full ? n : n + 1;
        bool front = vc_case == 2 || vc_case == 3 || vc_case == 5;
        size_t own = 0;
        if (vc_case >= 4) { // push of an element of the ring itself
            REQUIRES(n != 0);
            own = vc_any(64, "#own");
            REQUIRES(own < n);
            v = a.spec(own);
        }
        REQUIRES(k < nn);
        if (front)
            e = k == 0 ? v : a.spec(k - 1);
        else
            e = k + 1 == nn ? v : a.spec(full ? k + 1 : k);
        T w = v;
        switch (vc_case) {
        case 0: a.r.push_back(static_cast<const T&>(w)); break;
        case 1: a.r.push_back(std::move(w)); break;
        case 2: a.r.push_front(static_cast<const T&>(w)); break;
        case 3: a.r.push_front(std::move(w)); break;
        case 4: a.r.push_back(static_cast<const awl::ring<T>&>(a.r)[own]); break;
        case 5: a.r.push_front(static_cast<const awl::ring<T>&>(a.r)[own]); break;
        }
        ENSURES_(a.r.size() == nn, "a push adds one element, or replaces the one at the opposite end of a full ring");
        ENSURES_(a.r[k] == e, "a push keeps the order of all the other elements");
        ENSURES_((front ? a.r.front() : a.r.back()) == v, "a pushed element is at its end");
    }
    else {
        REQUIRES(n != 0);
        nn = n - 1;
        if (vc_case == 6)
            a.r.pop_back();
        else
            a.r.pop_front();
        ENSURES_(a.r.size() == nn, "a pop removes one element");
        REQUIRES(k < nn);
        e = a.spec(vc_case == 6 ? k : k + 1);
        ENSURES_(a.r[k] == e, "a pop keeps the order of the other elements");
    }
    ENSURES_(a.r.capacity() == cap, "a push or pop does not change the capacity");
    a.check_invariant(buf);
}

// Lifetimes: the slots of the buffer that hold elements are exactly those of the abstract deque.
namespace {

constexpr uint64_t LIVE = 0x11feull << 48, MASK = 0xffffull << 48;

struct Elem {
    uint64_t w;
    static bool live(uint64_t w) { return (w & MASK) == LIVE; }
    explicit Elem(uint64_t v) { w = LIVE | v; }
    Elem(const Elem& o) { ENSURES_(live(o.w), "an element is copied from a living element"); w = o.w; }
    Elem(Elem&& o) noexcept { ENSURES_(live(o.w), "an element is moved from a living element"); w = o.w; }
    Elem& operator=(const Elem& o) = default;
    ~Elem()
    {
        ENSURES_(live(w), "an element is destroyed once");
        *const_cast<volatile uint64_t*>(&w) = 0;
    }
};

}

VC_CONTRACT(lifetime, 6, "proof", "ring::push_back, push_front, pop_back, pop_front with an element type that records its lifetime",
    "the living elements of the buffer are exactly the elements of the deque before and after every operation")
{
    AnyRing<Elem> a;
    size_t n = a.size, cap = a.cap, head = a.head;
    Elem* buf = a.r.m_buf;
    auto inside = [&](size_t p, size_t h, size_t s) { return (p >= h ? p - h : p + cap - h) < s; };
    auto word = [&](size_t p) { return reinterpret_cast<const uint64_t*>(buf)[p]; };
    // instances of the invariant "slot p is alive iff it is inside" for an arbitrary slot and the slots around the ends
    size_t p = vc_any(64, "#slot");
    REQUIRES(p < cap);
    auto inv = [&](size_t q) { REQUIRES(Elem::live(word(q)) == inside(q, head, n)); };
    auto wrap = [&](size_t q) { return q >= cap ? q - cap : q; };
    inv(p);
    inv(head);
    inv(wrap(head + 1 == cap ? 0 : head + 1));
    inv(head == 0 ? cap - 1 : head - 1);
    inv(wrap(head + n));
    inv(wrap(head + n + cap - 1 >= 2 * cap ? head + n - cap - 1 : head + n + cap - 1));
    switch (vc_case) {
    case 0: a.r.push_back(Elem(5)); break;
    case 1: { Elem e(6); a.r.push_back(e); break; }
    case 2: a.r.push_front(Elem(7)); break;
    case 3: { Elem e(8); a.r.push_front(e); break; }
    case 4: REQUIRES(n != 0); a.r.pop_back(); break;
    case 5: REQUIRES(n != 0); a.r.pop_front(); break;
    }
    size_t nhead = size_t(a.r.m_data - buf), nn = a.r.size();
    INVARIANT(nhead < cap && nn <= cap);
    ENSURES_(Elem::live(word(p)) == inside(p, nhead, nn), "exactly the slots of the elements are alive after the operation");
}

// The same against std::deque, through the public interface only: every history of the stated length.
namespace {

template <class R> void compare(R& r, const std::deque<int>& d, size_t cap)
{
    ENSURES_(r.size() == d.size() && r.capacity() == cap && r.empty() == d.empty() && r.full() == (d.size() == cap), "size and capacity as the deque");
    for (size_t i = 0; i < d.size(); ++i)
        ENSURES_(r[i] == d[i] && r.at(i) == d[i], "element i as the deque");
    ENSURES_(vc_throws<std::out_of_range>([&] { r.at(d.size()); }), "at(size()) fails");
    size_t i = 0;
    for (auto& v : r)
        ENSURES_(i < d.size() && v == d[i++], "forward iteration as the deque");
    ENSURES_(i == d.size(), "forward iteration visits every element");
    for (auto it = r.rbegin(); it != r.rend(); ++it)
        ENSURES_(i > 0 && *it == d[--i], "backward iteration as the deque");
    ENSURES_(i == 0, "backward iteration visits every element");
}

}

VC_CONTRACT(history, 4, "bounded", "ring: histories of pushes and pops through the public interface",
    "bounded: capacity 1..4, every history of 6 operations with arbitrary values, compared with std::deque after the last")
{
    size_t cap = size_t(vc_case) + 1;
    awl::ring<int> r(cap);
    std::deque<int> d;
    for (int s = 0; s < 6; ++s) {
        int v = vc_val<int>("v");
        uint64_t op = vc_pick(0, d.empty() ? 1 : 3, "op");
        if (op == 0) {
            r.push_back(v);
            d.push_back(v);
            if (d.size() > cap) d.pop_front();
        }
        else if (op == 1) {
            r.push_front(v);
            d.push_front(v);
            if (d.size() > cap) d.pop_back();
        }
        else if (op == 2) {
            r.pop_back();
            d.pop_back();
        }
        else {
            r.pop_front();
            d.pop_front();
        }
    }
    compare(r, d, cap);
}
