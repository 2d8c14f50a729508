// C15: intrusive lists.
// SOURCES:
// The operations change only the links next to the place they work on.  The contracts state them on a fragment of the ring
// of links: the links beyond the fragment are pointers that nothing may dereference (vc_opaque), so what is proved holds
// for a list of every length.
#include "vc.h"
#include "Awl/QuickList.h"
#include "Awl/SingleList.h"
#include <new>
#include <vector>

namespace {

AWL_DECLARE_QUICK_LINK(LinkA)
AWL_DECLARE_MOVABLE_LINK(LinkM)

// an element of three lists; LinkM and quick_link are not at its beginning
struct Element : LinkA, LinkM, awl::quick_link {
    int value = 0;
    Element() : LinkM(nullptr, nullptr) { }
};

template <class D> using F = typename D::ForwardLink;
template <class D> using B = typename D::BackwardLink;

// a fragment of a ring of links, in order: closed (nothing else in the ring) or open (followed by right, preceded by left)
template <class D> struct Fragment {
    bool closed;
    F<D>* right = nullptr;
    B<D>* left = nullptr;

    explicit Fragment(bool c) : closed(c)
    {
        if (!closed) {
            right = static_cast<F<D>*>(vc_opaque("right"));
            left = static_cast<B<D>*>(vc_opaque("left"));
        }
    }
    template <class... T> void make(T*... t)
    {
        D* v[] = {static_cast<D*>(t)...};
        constexpr int n = sizeof...(T);
        for (int i = 0; i != n; ++i) {
            v[i]->F<D>::set_next(i + 1 != n ? v[i + 1] : closed ? v[0] : right);
            v[i]->B<D>::set_next(i != 0 ? v[i - 1] : closed ? v[n - 1] : left);
        }
    }
    template <class... T> bool is(T*... t) const
    {
        D* v[] = {static_cast<D*>(t)...};
        constexpr int n = sizeof...(T);
        bool ok = true;
        for (int i = 0; i != n; ++i) {
            ok = ok && v[i]->F<D>::next() == (i + 1 != n ? static_cast<F<D>*>(v[i + 1]) : closed ? static_cast<F<D>*>(v[0]) : right);
            ok = ok && v[i]->B<D>::next() == (i != 0 ? static_cast<B<D>*>(v[i - 1]) : closed ? static_cast<B<D>*>(v[n - 1]) : left);
        }
        return ok;
    }
};

// links in no list
template <class D> bool detached(D* d) { return d->F<D>::next() == nullptr && d->B<D>::next() == nullptr; }

// the links of the other lists of an element: an operation on one list must not touch them
template <class D> struct Others {
    Fragment<D> f{false};
    std::vector<D*> v;
    void add(D* d)
    {
        d->F<D>::set_next(f.right);
        d->B<D>::set_next(f.left);
        v.push_back(d);
    }
    void check() const
    {
        for (D* d : v)
            ENSURES_(d->F<D>::next() == f.right && d->B<D>::next() == f.left, "the other lists of the elements are not affected");
    }
};

template <class D> struct Frame {
    Others<LinkA> a;
    Others<LinkM> m;
    Others<awl::quick_link> q;
    void add(Element* e)
    {
        if constexpr (!std::is_same_v<D, LinkA>)
            a.add(e);
        if constexpr (!std::is_same_v<D, LinkM>)
            m.add(e);
        if constexpr (!std::is_same_v<D, awl::quick_link>)
            q.add(e);
    }
    void check() const
    {
        a.check();
        m.check();
        q.check();
    }
};

template <class D> D* link(Element& e) { return static_cast<D*>(&e); }

template <class D> void check_insert(int shape, bool after)
{
    Element p, n, x;
    Frame<D> fr;
    fr.add(&p), fr.add(&n), fr.add(&x);
    Fragment<D> f(shape != 2);
    if (shape == 0)
        f.make(&p);
    else
        f.make(&p, &n);
    if (after)
        p.D::insert_after(&x);
    else
        (shape == 0 ? p : n).D::insert_before(&x);
    ENSURES_(shape == 0 ? f.is(&p, &x) : f.is(&p, &x, &n), "the element is between its neighbours and nothing else changed");
    ENSURES_(x.D::included(), "the element is in the list");
    ENSURES_(x.D::predecessor() == link<D>(p) && x.D::successor() == link<D>(shape == 0 ? p : n), "predecessor and successor");
    fr.check();
}

template <class D> void check_exclude(int shape, bool safe)
{
    Element p, e, n;
    Frame<D> fr;
    fr.add(&p), fr.add(&n), fr.add(&e);
    Fragment<D> f(shape != 2);
    if (shape == 0)
        f.make(&p, &e);
    else
        f.make(&p, &e, &n);
    ENSURES(e.D::included());
    if (safe)
        e.D::safe_exclude();
    else
        e.D::exclude();
    ENSURES_(shape == 0 ? f.is(&p) : f.is(&p, &n), "the neighbours are linked to each other and nothing else changed");
    ENSURES_(detached<D>(&e) && !e.D::included(), "the element is in no list");
    e.D::safe_exclude();
    ENSURES_(detached<D>(&e) && (shape == 0 ? f.is(&p) : f.is(&p, &n)), "excluding an element that is in no list does nothing");
    fr.check();
}

// The header of a list is the link called Null.  A list in a shape: empty, one element, two elements, or more (the elements
// behind the first and before the last one are opaque).
template <class D> struct List {
    using L = awl::quick_list<Element, D>;
    union {
        L l;                            // no ordinary history
    };
    int shape;
    Element first, last;
    Fragment<D> f;
    Frame<D> fr;
    List(int s) : shape(s), f(s != 3)
    {
        new (&l) L();
        fr.add(&first), fr.add(&last);
        if (shape == 0)
            f.make(null());
        else if (shape == 1)
            f.make(null(), &first);
        else if (shape == 2)
            f.make(null(), &first, &last);
        else
            f.make(&last, null(), &first);
    }
    ~List() { }
    D* null() { return &l.Null; }
    bool unchanged()
    {
        return shape == 0 ? f.is(null()) : shape == 1 ? f.is(null(), &first) : shape == 2 ? f.is(null(), &first, &last) : f.is(&last, null(), &first);
    }
    Element* front() { return &first; }
    Element* back() { return shape == 1 ? &first : &last; }
};

template <class D> void check_observe(int shape)
{
    List<D> a(shape);
    const auto& c = a.l;
    ENSURES(a.l.empty() == (shape == 0) && a.l.contains_one() == (shape == 1) && a.l.empty_or_contains_one() == (shape < 2));
    ENSURES((a.l.begin() == a.l.end()) == (shape == 0) && (a.l.rbegin() == a.l.rend()) == (shape == 0));
    ENSURES((c.begin() == c.end()) == (shape == 0) && (c.rbegin() == c.rend()) == (shape == 0));
    if (shape != 0) {
        ENSURES(a.l.front() == a.front() && c.front() == a.front() && a.l.back() == a.back() && c.back() == a.back());
        ENSURES(*a.l.begin() == a.front() && *c.begin() == a.front() && *a.l.rbegin() == a.back() && *c.rbegin() == a.back());
        ENSURES(&a.l.begin()->value == &a.front()->value);
    }
    if (shape == 1 || shape == 2) {
        auto i = a.l.begin();
        auto old = i++;
        ENSURES_(*old == a.front(), "postfix increment gives the old position");
        if (shape == 2) {
            ENSURES_(*i == a.back(), "the second element follows the first one");
            ENSURES_(*--i == a.front() && i == old, "decrement goes back");
            ++i;
            ++i;
        }
        ENSURES_(i == a.l.end(), "the end follows the last element");
        auto r = a.l.rbegin();
        if (shape == 2) {
            ENSURES_(*r++ == a.back() && *r == a.front(), "the reverse iteration visits the elements backward");
            ENSURES_(*r-- == a.front() && *r == a.back(), "decrement of a reverse iterator");
            ++r;
        }
        ENSURES_(++r == a.l.rend(), "the reverse end follows the first element");
        auto e = a.l.end();
        auto was = e--;
        ENSURES_(was == a.l.end() && *e == a.back(), "the last element is before the end");
        typename awl::quick_list<Element, D>::const_iterator ci = a.l.begin();
        ENSURES_(ci == c.begin() && !(ci != c.begin()) && *ci == a.front(), "conversion to a constant iterator");
    }
    ENSURES_(a.unchanged(), "observing changes nothing");
    a.fr.check();
}

template <class D> void check_push(int shape, int op)
{
    List<D> a(shape);
    Element x;
    a.fr.add(&x);
    if (op == 0)
        a.l.push_front(&x);
    else
        a.l.push_back(&x);
    bool front = op == 0;
    ENSURES_(shape == 0   ? a.f.is(a.null(), &x)
             : shape == 1 ? (front ? a.f.is(a.null(), &x, &a.first) : a.f.is(a.null(), &a.first, &x))
             : shape == 2 ? (front ? a.f.is(a.null(), &x, &a.first, &a.last) : a.f.is(a.null(), &a.first, &a.last, &x))
                          : (front ? a.f.is(&a.last, a.null(), &x, &a.first) : a.f.is(&a.last, &x, a.null(), &a.first)),
        "the element is at its end of the list and the others are where they were");
    a.fr.check();
}

template <class D> void check_insert_at(int shape, int op)      // shape 1..3
{
    using L = awl::quick_list<Element, D>;
    List<D> a(shape);
    Element x;
    a.fr.add(&x);
    if (op == 0) {                                              // behind the first element
        if (shape == 3)
            return;
        L::insert(a.l.begin(), &x);
        ENSURES_(shape == 1 ? a.f.is(a.null(), &a.first, &x) : a.f.is(a.null(), &a.first, &x, &a.last), "the element is behind the given one");
    }
    else if (op == 1) {                                         // behind the last element
        L::insert(--a.l.end(), &x);
        ENSURES_(shape == 1   ? a.f.is(a.null(), &a.first, &x)
                 : shape == 2 ? a.f.is(a.null(), &a.first, &a.last, &x)
                              : a.f.is(&a.last, &x, a.null(), &a.first),
            "the element is behind the given one");
    }
    else {                                                      // a reverse iterator: before the last element
        if (shape == 3)
            return;
        L::insert(a.l.rbegin(), &x);
        ENSURES_(shape == 1 ? a.f.is(a.null(), &x, &a.first) : a.f.is(a.null(), &a.first, &x, &a.last), "the element is before the given one");
    }
    a.fr.check();
}

template <class D> void check_pop(int shape, int op)            // shape 1, 2, 4: a list of more with the neighbours of both ends visible
{
    using L = awl::quick_list<Element, D>;
    List<D> a(shape == 4 ? 3 : shape);
    Element second, before;
    if (shape == 4)
        a.f.make(&before, &a.last, a.null(), &a.first, &second);
    Element* r = nullptr;
    bool front = op == 0 || op == 2 || op == 4;
    switch (op) {
    case 0: r = a.l.pop_front(); break;
    case 1: r = a.l.pop_back(); break;
    case 2: L::erase(a.l.begin()); break;
    case 3: L::erase(a.l.rbegin()); break;
    case 4: L::erase(a.l.front()); break;
    default: L::erase(a.l.back());
    }
    Element* gone = front ? a.front() : a.back();
    if (op < 2)
        ENSURES_(r == gone, "the removed element is given back");
    ENSURES_(detached<D>(gone), "the removed element is in no list");
    ENSURES_(shape == 1   ? a.f.is(a.null())
             : shape == 2 ? a.f.is(a.null(), front ? &a.last : &a.first)
                          : (front ? a.f.is(&before, &a.last, a.null(), &second) : a.f.is(&before, a.null(), &a.first, &second)),
        "the other elements are where they were");
    a.fr.check();
}

template <class D> void check_splice(int sa, int sb, bool front)
{
    List<D> a(sa), b(sb);
    if (front)
        a.l.push_front(b.l);
    else
        a.l.push_back(b.l);
    ENSURES_(b.l.empty() && b.l.begin() == b.l.end() && b.l.rbegin() == b.l.rend(), "the source list is empty");
    if (sb == 0) {
        ENSURES_(a.unchanged(), "an empty list adds nothing");
        return;
    }
    // next links of a: header, elements; the spliced ones are where they have to be
    D *na = a.null(), *fa = sa ? link<D>(*a.front()) : na, *la = sa ? link<D>(*a.back()) : na;
    D *fb = link<D>(*b.front()), *lb = link<D>(*b.back());
    D *first = front ? fb : sa ? fa : fb, *last = front ? (sa ? la : lb) : lb;
    ENSURES_(na->successor() == first && first->predecessor() == na, "the first element follows the header");
    ENSURES_(na->predecessor() == last && last->successor() == na, "the last element precedes the header");
    if (sa != 0) {
        D *x = front ? lb : la, *y = front ? fa : fb;
        ENSURES_(x->successor() == y && y->predecessor() == x, "the two parts are joined");
    }
    auto inside = [](List<D>& l) {
        if (l.shape == 2)
            return l.first.D::successor() == link<D>(l.last) && l.last.D::predecessor() == link<D>(l.first);
        if (l.shape == 3)
            return static_cast<F<D>&>(*link<D>(l.first)).next() == l.f.right && static_cast<B<D>&>(*link<D>(l.last)).next() == l.f.left;
        return true;
    };
    ENSURES_(inside(a) && inside(b), "the links inside the parts are not changed");
    a.fr.check();
    b.fr.check();
}

template <class D> void check_move(int sb, int op)
{
    using L = awl::quick_list<Element, D>;
    List<D> b(sb);
    union U {
        L l;
        U() { }
        ~U() { }
    } u;
    if (op == 0)
        new (&u.l) L(std::move(b.l));
    else {
        new (&u.l) L();
        if (op == 2) {                                          // self-assignment
            L& same = b.l;
            b.l = std::move(same);
            ENSURES_(b.unchanged(), "assigning a list to itself changes nothing");
            return;
        }
        u.l = std::move(b.l);
    }
    D* null = &u.l.Null;
    ENSURES_(sb == 0   ? b.f.is(null)
             : sb == 1 ? b.f.is(null, &b.first)
             : sb == 2 ? b.f.is(null, &b.first, &b.last)
                       : b.f.is(&b.last, null, &b.first),
        "the elements are in the new list, in the same order");
    ENSURES_(b.l.empty() && b.null()->successor() == b.null() && b.null()->predecessor() == b.null(), "the source list is empty");
    b.fr.check();
}

template <class D> void check_clear(int shape)
{
    List<D> a(shape);
    a.l.clear();
    ENSURES_(a.l.empty() && a.null()->successor() == a.null() && a.null()->predecessor() == a.null(), "the list is empty");
    Element x;
    a.l.push_back(&x);
    ENSURES_(a.l.contains_one() && a.l.front() == &x && a.l.back() == &x, "a cleared list can be used");
}

} // namespace

VC_CONTRACT(insert_link, 12, "proof", "basic_quick_link::insert_after, insert_before, predecessor, successor, included",
    "an inserted element is linked between its two neighbours, wherever it is; no other link, and no link of another list of "
    "the elements, is changed")
{
    int shape = vc_case / 2 % 3;
    if (vc_case < 6)
        check_insert<LinkM>(shape, vc_case % 2);
    else
        check_insert<awl::quick_link>(shape, vc_case % 2);
}

VC_CONTRACT(exclude_link, 12, "proof", "basic_quick_link::exclude, safe_exclude, included",
    "excluding an element links its neighbours to each other and clears its own links; nothing else is changed")
{
    int shape = vc_case / 2 % 3;
    if (vc_case < 6)
        check_exclude<LinkA>(shape, vc_case % 2);
    else
        check_exclude<awl::quick_link>(shape, vc_case % 2);
}

VC_CONTRACT(movable_link, 16, "proof", "basic_movable_link(basic_movable_link&&), operator=(basic_movable_link&&)",
    "a moved link takes the place of the other one in its list, whatever list it was in itself; the other one is in no list")
{
    int shape = vc_case % 4, op = vc_case / 4;                  // shape 3: the source is in no list
    Element p, e, n;
    Fragment<LinkM> f(shape != 2);
    if (shape == 0)
        f.make(&p, &e);
    else if (shape == 1 || shape == 2)
        f.make(&p, &e, &n);
    LinkM& src = e;
    auto check = [&](LinkM* x) {
        ENSURES_(shape == 3   ? detached(x)
                 : shape == 0 ? f.is(&p, x)
                              : f.is(&p, x, &n),
            "the new link is in the place of the other one");
        ENSURES_(detached(&src), "the other link is in no list");
    };
    if (op == 0) {
        LinkM x(std::move(src));
        check(&x);
    }
    else if (op == 1) {                                         // from another list
        Element a, x, b;
        Fragment<LinkM> g(false);
        g.make(&a, &x, &b);
        static_cast<LinkM&>(x) = std::move(src);
        check(&x);
        ENSURES_(g.is(&a, &b), "the link has left its list");
    }
    else if (op == 2) {                                         // from the same list, where it is the predecessor or the successor
        if (shape == 3 || shape == 0)                           // a ring always has the header of a list
            return;
        Element& t = vc_pick(0, 1, "successor") != 0 ? n : p;
        bool before = &t == &p;
        LinkM& x = t;
        Element o1, o2;
        if (shape == 2)
            f.make(&o1, &p, &e, &n, &o2);
        x = std::move(src);
        ENSURES_(detached(&src), "the other link is in no list");
        if (shape == 2)
            ENSURES_(before ? f.is(&o1, &x, &n, &o2) : f.is(&o1, &p, &x, &o2), "the link is in the place of the other one");
        else if (before)
            ENSURES_(f.is(&x, &n), "the link is in the place of the other one");
        else
            ENSURES_(f.is(&p, &x), "the link is in the place of the other one");
    }
    else {
        LinkM& same = e;
        src = std::move(same);
        ENSURES_(shape == 3   ? detached(&src)
                 : shape == 0 ? f.is(&p, &e)
                              : f.is(&p, &e, &n),
            "assigning a link to itself changes nothing");
    }
}

VC_CONTRACT(list_observe, 8, "proof", "quick_list: empty, contains_one, front, back, begin, end, rbegin, rend; double_iterator",
    "the observers and iterators of a list follow its links forward and backward and change nothing")
{
    if (vc_case < 4)
        check_observe<LinkA>(vc_case);
    else
        check_observe<awl::quick_link>(vc_case - 4);
}

VC_CONTRACT(list_push, 16, "proof", "quick_list::push_front, push_back",
    "a pushed element is the first respectively the last one; the others are where they were")
{
    if (vc_case < 8)
        check_push<LinkM>(vc_case / 2, vc_case % 2);
    else
        check_push<awl::quick_link>(vc_case / 2 - 4, vc_case % 2);
}

VC_CONTRACT(list_insert, 18, "proof", "quick_list::insert(iterator), insert(reverse_iterator)",
    "an element inserted at an iterator follows its element in the direction of the iterator")
{
    if (vc_case < 9)
        check_insert_at<LinkA>(vc_case / 3 + 1, vc_case % 3);
    else
        check_insert_at<awl::quick_link>(vc_case / 3 - 2, vc_case % 3);
}

VC_CONTRACT(list_pop, 18, "proof", "quick_list::pop_front, pop_back, erase(iterator), erase(reverse_iterator), erase(T*)",
    "the removed element is in no list, the others are where they were")
{
    static const int shapes[] = {1, 2, 4};
    check_pop<awl::quick_link>(shapes[vc_case / 6], vc_case % 6);
}

VC_CONTRACT(list_splice, 32, "proof", "quick_list::push_front(quick_list&), push_back(quick_list&)",
    "the elements of the other list are added in their order at the given end; the other list becomes empty")
{
    check_splice<awl::quick_link>(vc_case / 8, vc_case / 2 % 4, vc_case % 2);
}

VC_CONTRACT(list_move, 12, "proof", "quick_list(quick_list&&), operator=(quick_list&&)",
    "a moved list has the elements in the same order; the source is empty")
{
    check_move<LinkA>(vc_case / 3, vc_case % 3);
}

VC_CONTRACT(list_clear, 4, "proof", "quick_list::clear", "a cleared list is empty and can be used")
{
    check_clear<awl::quick_link>(vc_case);
}

namespace {

struct SElement : awl::single_link {
    int value = 0;
};
using SList = awl::single_list<SElement>;

struct AnySList {
    union {
        SList l;
    };
    int shape;
    SElement first, second;
    awl::single_link* tail;
    AnySList(int s) : shape(s)
    {
        new (&l) SList();
        // 0: empty, 1: one, 2: two, 3: more, the third one is opaque
        tail = s == 3 ? static_cast<awl::single_link*>(vc_opaque("tail")) : null();
        null()->set_next(s == 0 ? null() : &first);
        if (s > 0)
            first.set_next(s == 1 ? null() : &second);
        if (s > 1)
            second.set_next(tail);
    }
    ~AnySList() { }
    awl::single_link* null() { return &l.Null; }
};

}

VC_CONTRACT(single, 20, "proof", "single_list: push_front, pop_front, clear, empty, contains_one, front, begin, end; single_iterator",
    "a singly linked list of any length: pushing and popping change only its beginning")
{
    int shape = vc_case % 4;
    AnySList a(shape);
    const SList& c = a.l;
    switch (vc_case / 4) {
    case 0: {
        SElement x;
        ENSURES(!x.included());
        a.l.push_front(&x);
        ENSURES_(a.null()->next() == &x && x.next() == (shape == 0 ? a.null() : &a.first) && x.included(), "the element is the first one");
        break;
    }
    case 1:
        if (shape == 0)
            return;
        ENSURES_(a.l.pop_front() == &a.first, "the first element is given back");
        ENSURES_(!a.first.included() && a.null()->next() == (shape == 1 ? a.null() : &a.second), "only the first element has gone");
        break;
    case 2:
        a.l.clear();
        ENSURES_(a.l.empty() && a.null()->next() == a.null(), "the list is empty");
        return;
    case 3:
        ENSURES(a.l.empty() == (shape == 0) && a.l.contains_one() == (shape == 1) && a.l.empty_or_contains_one() == (shape < 2));
        ENSURES((a.l.begin() == a.l.end()) == (shape == 0) && (c.begin() == c.end()) == (shape == 0));
        if (shape) {
            ENSURES(a.l.front() == &a.first && c.front() == &a.first && *a.l.begin() == &a.first && *c.begin() == &a.first);
            auto i = a.l.begin();
            auto old = i++;
            ENSURES(*old == &a.first && &old->value == &a.first.value && (shape == 1 ? i == a.l.end() : *i == &a.second));
            if (shape == 2)
                ENSURES(++i == a.l.end());
            SList::const_iterator ci = a.l.begin();
            ENSURES(ci == c.begin() && !(ci != c.begin()));
        }
        break;
    default:
        if (shape < 3)
            ENSURES_(a.l.size() == size_t(shape), "size counts the elements");
    }
    if (shape > 0 && vc_case / 4 != 1)
        ENSURES_(a.first.next() == (shape == 1 ? a.null() : static_cast<awl::single_link*>(&a.second)), "the following elements are where they were");
    if (shape > 1)
        ENSURES_(a.second.next() == a.tail, "the following elements are where they were");
}

namespace {

// histories against a reference
struct History {
    static constexpr int n = 4;
    Element e[n];
    awl::quick_list<Element, LinkM> l[2];
    std::vector<int> ref[2];

    int where(int i) const
    {
        for (int k = 0; k != 2; ++k)
            for (int x : ref[k])
                if (x == i)
                    return k;
        return -1;
    }
    size_t pos(int k, int i) const
    {
        size_t p = 0;
        while (ref[k][p] != i)
            ++p;
        return p;
    }
    void step(int op)
    {
        int i = int(vc_pick(0, n - 1, "element"));
        LinkM& li = e[i];
        int w = where(i), k = op & 1;
        auto& r = ref[k];
        switch (op / 2) {
        case 0:
            if (w >= 0)
                return;
            l[k].push_front(&e[i]);
            r.insert(r.begin(), i);
            break;
        case 1:
            if (w >= 0)
                return;
            l[k].push_back(&e[i]);
            r.push_back(i);
            break;
        case 2:
            if (w < 0)
                return;
            if (k)
                li.safe_exclude();
            else
                awl::quick_list<Element, LinkM>::erase(&e[i]);
            ref[w].erase(ref[w].begin() + ptrdiff_t(pos(w, i)));
            break;
        case 3: {
            int j = int(vc_pick(0, n - 1, "neighbour")), wj = where(j);
            if (w >= 0 || wj < 0)
                return;
            LinkM& lj = e[j];
            if (k)
                lj.insert_after(&li);
            else
                lj.insert_before(&li);
            ref[wj].insert(ref[wj].begin() + ptrdiff_t(pos(wj, j)) + k, i);
            break;
        }
        case 4: {
            int j = int(vc_pick(0, n - 1, "source")), wj = where(j);
            if (i == j)
                return;
            li = std::move(static_cast<LinkM&>(e[j]));
            if (w >= 0)
                ref[w].erase(ref[w].begin() + ptrdiff_t(pos(w, i)));
            if (wj >= 0)
                ref[wj][pos(wj, j)] = i;
            break;
        }
        case 5:
            if (i == 0)
                l[k].push_front(l[1 - k]);
            else if (i == 1)
                l[k].push_back(l[1 - k]);
            else
                return;
            r.insert(i == 0 ? r.begin() : r.end(), ref[1 - k].begin(), ref[1 - k].end());
            ref[1 - k].clear();
            break;
        case 6:
            if (r.empty() || i > 1)
                return;
            if (i == 0) {
                ENSURES_(l[k].pop_front() == &e[r.front()], "pop_front gives the first element");
                r.erase(r.begin());
            }
            else {
                ENSURES_(l[k].pop_back() == &e[r.back()], "pop_back gives the last element");
                r.pop_back();
            }
            break;
        default:
            if (!r.empty() || i > 0)
                return;
            l[k] = std::move(l[1 - k]);
            r.swap(ref[1 - k]);
        }
    }
    void check()
    {
        for (int k = 0; k != 2; ++k) {
            size_t p = 0;
            for (Element* x : l[k]) {
                ENSURES_(p < ref[k].size() && x == &e[ref[k][p]], "the forward iteration visits the elements of the list in order");
                ++p;
            }
            ENSURES_(p == ref[k].size() && l[k].size() == p && l[k].empty() == (p == 0), "the iteration visits every element once");
            for (auto i = l[k].rbegin(); i != l[k].rend(); ++i)
                ENSURES_(p != 0 && *i == &e[ref[k][--p]], "the backward iteration visits the elements of the list in order");
            ENSURES_(p == 0, "the backward iteration visits every element once");
        }
        for (int i = 0; i != n; ++i)
            ENSURES_(static_cast<LinkM&>(e[i]).included() == (where(i) >= 0), "included tells whether the element is in a list");
    }
};

constexpr int nops = 16;

}

VC_CONTRACT(history3, 16, "bounded", "quick_list, basic_movable_link", "histories of three operations on two lists of up to four elements")
{
    History h;
    // from a few lists
    int start = int(vc_pick(0, 2, "start"));
    for (int i = 0; i != start; ++i) {
        h.l[0].push_back(&h.e[i]);
        h.ref[0].push_back(i);
    }
    h.step(vc_case);
    h.check();
    h.step(int(vc_pick(0, nops - 1, "op")));
    h.check();
    vc_cover("history");
}

VC_CONTRACT(history, 1, "enum", "quick_list, basic_movable_link", "random histories of up to 30 operations on two lists of up to four elements")
{
    History h;
    int k = int(vc_pick(1, 30, "operations"));
    for (int i = 0; i != k; ++i) {
        h.step(int(vc_pick(0, nops - 1, "op")));
        h.check();
    }
    vc_cover("history");
}
