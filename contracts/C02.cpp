// C02: reserve, copy, move, swap and clear of a ring; lifetimes when constructors throw.
// SOURCES:
#include "vc.h"
#include "Awl/Ring.h"
#include <utility>
#include <vector>

namespace {

using awl::ring;

// Elements own a heap block, so that a lost or repeated destruction is a leak or a double delete, and any construction
// after `fuse` of them throws.
struct Boom { };

int fuse = -1;

struct E {
    int* p;
    static void burn()
    {
        if (fuse == 0)
            throw Boom();
        if (fuse > 0)
            --fuse;
    }
    explicit E(int v) : p(new int(v)) { }
    E(const E& o) : p(nullptr) { burn(); p = new int(*o.p); }
    E(E&& o) : p(nullptr) { burn(); p = o.p ? new int(*o.p) : nullptr; }
    E& operator=(const E&) = delete;
    ~E() { delete p; }
    bool operator==(const E& o) const { return *p == *o.p; }
};

struct Model {
    int v[8];
    size_t n = 0;
};

// a ring of the given shape: every capacity, wrap-around position and size, with arbitrary values
template <class T> void fill(ring<T>& r, Model& m, size_t cap, const char* name)
{
    size_t head = vc_pick(0, cap - 1, name), size = vc_pick(0, cap, name);
    for (size_t i = 0; i < head; ++i) {
        r.push_back(T(0));
        r.pop_front();
    }
    for (size_t i = 0; i < size; ++i) {
        int v = vc_val<int>("v");
        r.push_back(T(v));
        m.v[m.n++] = v;
    }
}

int value(const E& e) { return *e.p; }
int value(int e) { return e; }

template <class T> void check(const ring<T>& r, const Model& m, size_t cap, size_t from = 0)
{
    ENSURES_(r.capacity() == cap, "the capacity is the expected one");
    ENSURES_(r.size() == m.n - from && r.empty() == (m.n == from), "the size is the expected one");
    for (size_t i = from; i < m.n; ++i)
        ENSURES_(value(r[i - from]) == m.v[i], "the elements are kept in order");
}

// an empty ring can be used again
template <class T> void reuse(ring<T>& r)
{
    r.reserve(2);
    ENSURES_(r.capacity() == 2 && r.empty(), "an empty ring can be given a capacity");
    r.push_back(T(1));
    r.push_back(T(2));
    r.push_back(T(3));
    ENSURES_(r.size() == 2 && value(r.front()) == 2 && value(r.back()) == 3, "an empty ring can be used again");
}

template <class T> void shapes(int c)
{
    size_t live = vc_live();
    {
        size_t cap = size_t(c / 10) + 1;
        ring<T> r(cap);
        Model m;
        fill(r, m, cap, "shape");
        const ring<T>& cr = r;
        switch (c % 10) {
        case 0: { // reserve
            size_t nc = vc_pick(1, 5, "new capacity");
            r.reserve(nc);
            check(r, m, nc, m.n > nc ? m.n - nc : 0);
            // and it behaves as a ring of that capacity
            size_t n = r.size();
            int first = n ? value(r.front()) : 0;
            r.push_back(T(77));
            ENSURES_(r.size() == (n == nc ? n : n + 1) && value(r.back()) == 77, "a push after reserve uses the new capacity");
            ENSURES_(n == nc || n == 0 || value(r.front()) == first, "a push after reserve keeps the first element when there is room");
            break;
        }
        case 1: { // copy construction: equal and independent
            ring<T> q(cr);
            check(q, m, cap);
            check(r, m, cap);
            ENSURES_(q == cr, "a copy is equal to its source");
            q.push_back(T(5));
            check(r, m, cap);
            r.clear();
            ENSURES_(q.size() != 0 && value(q.back()) == 5, "a copy does not depend on its source");
            break;
        }
        case 2: { // move construction
            ring<T> q(std::move(r));
            check(q, m, cap);
            ENSURES_(r.empty() && r.size() == 0, "a moved-from ring is empty");
            r.clear();
            ring<T> s(cr);
            ENSURES_(s.empty(), "a moved-from ring can be copied");
            reuse(r);
            check(q, m, cap);
            break;
        }
        case 3: { // copy assignment
            size_t cap2 = vc_pick(1, 2, "capacity");
            ring<T> q(cap2);
            Model m2;
            fill(q, m2, cap2, "shape2");
            q = cr;
            check(q, m, cap);
            check(r, m, cap);
            q.push_front(T(9));
            check(r, m, cap);
            break;
        }
        case 4: { // move assignment
            size_t cap2 = vc_pick(1, 2, "capacity");
            ring<T> q(cap2);
            Model m2;
            fill(q, m2, cap2, "shape2");
            q = std::move(r);
            check(q, m, cap);
            ENSURES_(r.empty(), "a moved-from ring is empty");
            reuse(r);
            check(q, m, cap);
            break;
        }
        case 5: { // self assignment
            r = cr;
            check(r, m, cap);
            r = std::move(r);
            check(r, m, cap);
            break;
        }
        case 6: { // swap
            size_t cap2 = vc_pick(1, 2, "capacity");
            ring<T> q(cap2);
            Model m2;
            fill(q, m2, cap2, "shape2");
            std::swap(q, r);
            check(q, m, cap);
            check(r, m2, cap2);
            break;
        }
        case 7: { // clear
            r.clear();
            ENSURES_(r.empty() && r.size() == 0 && r.capacity() == cap && !r.full(), "clear empties a ring and keeps its capacity");
            ENSURES_(r.begin() == r.end(), "a cleared ring has no elements");
            Model k;
            for (size_t i = 0; i < cap; ++i) {
                r.push_front(T(int(i)));
                for (size_t j = k.n++; j > 0; --j)
                    k.v[j] = k.v[j - 1];
                k.v[0] = int(i);
            }
            check(r, k, cap);
            break;
        }
        case 8: { // default construction and assignment from and to it
            ring<T> d;
            ENSURES_(d.empty() && d.size() == 0 && d.begin() == d.end(), "a default constructed ring is empty");
            d.clear();
            ring<T> d2(d), d3(std::move(d2));
            ENSURES_(d2.empty() && d3.empty(), "a default constructed ring can be copied and moved");
            d3 = cr;
            check(d3, m, cap);
            d3 = d;
            ENSURES_(d3.empty(), "a default constructed ring can be assigned");
            ENSURES_(vc_throws<std::out_of_range>([&] { d.at(0); }), "a default constructed ring has no element 0");
            reuse(d);
            break;
        }
        case 9: { // equality
            size_t cap2 = vc_pick(1, 2, "capacity");
            ring<T> q(cap2);
            Model m2;
            fill(q, m2, cap2, "shape2");
            bool eq = m.n == m2.n;
            for (size_t i = 0; i < m.n && i < m2.n; ++i)
                eq = eq & (m.v[i] == m2.v[i]);
            ENSURES_((cr == q) == eq, "rings are equal exactly when their elements are");
            break;
        }
        }
    }
    ENSURES_(vc_live() == live, "every element is destroyed and every buffer freed");
}

}

VC_CONTRACT(contents, 40, "bounded", "ring: reserve, copy, move, assignment, self-assignment, swap, clear, default construction, ==",
    "bounded: capacities 1..4 (new capacities 1..4), every position and size, arbitrary values; leaks and double deletes included")
{
    shapes<E>(vc_case);
}

VC_CONTRACT(throwing, 28, "bounded", "ring: push, reserve, copy construction and assignment with throwing element constructors",
    "bounded: capacities 1..4, every position and size, an exception at the k-th element construction for every k up to 3")
{
    size_t live = vc_live();
    fuse = -1;
    {
        size_t cap = size_t(vc_case / 7) + 1;
        ring<E> r(cap);
        Model m;
        fill(r, m, cap, "shape");
        const ring<E>& cr = r;
        E fresh(33);
        bool thrown = false;
        auto guard = [&](auto&& f) {
            fuse = int(vc_pick(0, 3, "constructions before the exception"));
            try {
                f();
            }
            catch (const Boom&) {
                thrown = true;
            }
            fuse = -1;
        };
        switch (vc_case % 7) {
        case 0:
            guard([&] { r.push_back(fresh); });
            break;
        case 1:
            guard([&] { r.push_front(fresh); });
            break;
        case 2:
            guard([&] { r.push_back(std::move(fresh)); });
            break;
        case 3:
            guard([&] { r.push_front(std::move(fresh)); });
            break;
        case 4: {
            size_t nc = vc_pick(1, 5, "new capacity");
            guard([&] { r.reserve(nc); });
            ENSURES_(r.capacity() == (thrown ? cap : nc) && (!thrown || r.size() == m.n), "a failed reserve keeps the capacity and the number of elements");
            if (thrown)
                check(r, m, cap);
            break;
        }
        case 5:
            guard([&] {
                ring<E> q(cr);
                check(q, m, cap);
            });
            check(r, m, cap);
            break;
        case 6: {
            ring<E> q(2);
            Model m2;
            fill(q, m2, 2, "shape2");
            guard([&] { q = cr; });
            check(r, m, cap);
            if (!thrown)
                check(q, m, cap);
            else if (q.capacity() != 0) {
                q.push_back(E(1));
                ENSURES_(value(q.back()) == 1, "a ring whose assignment failed can be used");
            }
            else
                ENSURES_(q.empty(), "a ring without a buffer is empty");
            break;
        }
        }
        ENSURES_(r.size() <= r.capacity(), "the ring is valid after an exception");
        if (vc_case % 7 < 4) {
            ENSURES_(r.capacity() == cap, "a push does not change the capacity");
            ENSURES_(r.size() == (thrown ? m.n : m.n + 1 > cap ? cap : m.n + 1) || (thrown && m.n == cap && r.size() + 1 == cap),
                "a failed push loses no element but the one to be discarded");
        }
        r.push_back(E(44));
        ENSURES_(value(r.back()) == 44, "the ring can be used after an exception");
    }
    ENSURES_(vc_live() == live, "every element is destroyed and every buffer freed, also after an exception");
}
