// C19: every subscribed observer is notified exactly once, and only while it lives.
// SOURCES:
#include "vc.h"
#include "Awl/Observable.h"
#include <memory>
#include <new>
#include <stdexcept>
#include <string>
#include <vector>

namespace {

struct Value {                          // its copies are counted
    uint64_t x;
};
struct IEvents {
    virtual void Changed(int a, const Value& v) = 0;
    virtual bool Asked(uint64_t a) = 0;
    virtual void Plain() = 0;
    virtual ~IEvents() = default;
};
struct Source : awl::Observable<IEvents, Source> {
    using Base = awl::Observable<IEvents, Source>;
    void change(int a, const Value& v) { Base::Notify(&IEvents::Changed, a, v); }
    bool ask(uint64_t a) { return Base::NotifyWhileTrue(&IEvents::Asked, a); }
    void plain() { Base::Notify(&IEvents::Plain); }
};
using Link = awl::observer_link;
using Fwd = Link::ForwardLink;
using Bwd = Link::BackwardLink;
using Observer = awl::Observer<IEvents>;

// ---- operations on a fragment of the ring of links: what is beyond it is opaque, so the list is of any length
struct Quiet : Observer {
    int calls = 0;
    Quiet() = default;
    Quiet(Quiet&& o) = default;
    Quiet& operator=(Quiet&& o) = default;
    void Changed(int, const Value&) override { ++calls; }
    bool Asked(uint64_t) override { return ++calls; }
    void Plain() override { ++calls; }
};
struct Fragment {
    bool closed;
    Fwd* right = nullptr;
    Bwd* left = nullptr;
    explicit Fragment(bool c) : closed(c)
    {
        if (!closed) {
            right = static_cast<Fwd*>(vc_opaque("right"));
            left = static_cast<Bwd*>(vc_opaque("left"));
        }
    }
    void make(std::vector<Link*> v)
    {
        size_t n = v.size();
        for (size_t i = 0; i != n; ++i) {
            v[i]->Fwd::set_next(i + 1 != n ? v[i + 1] : closed ? v[0] : right);
            v[i]->Bwd::set_next(i != 0 ? v[i - 1] : closed ? v[n - 1] : left);
        }
    }
    bool is(std::vector<Link*> v) const
    {
        size_t n = v.size();
        bool ok = true;
        for (size_t i = 0; i != n; ++i) {
            ok = ok && v[i]->Fwd::next() == (i + 1 != n ? static_cast<Fwd*>(v[i + 1]) : closed ? static_cast<Fwd*>(v[0]) : right);
            ok = ok && v[i]->Bwd::next() == (i != 0 ? static_cast<Bwd*>(v[i - 1]) : closed ? static_cast<Bwd*>(v[n - 1]) : left);
        }
        return ok;
    }
};
template <class T> union Raw {          // is neither constructed nor destroyed by itself
    T t;
    Raw() { new (&t) T(); }
    ~Raw() { }
};
Link* null(Source& s) { return &s.Observers.Null; }
bool detached(Link* l) { return l->Fwd::next() == nullptr && l->Bwd::next() == nullptr; }

// an observable whose list is empty, has one or two observers, or more than two
struct Shape {
    int shape;
    Raw<Source> s;
    Raw<Quiet> first, last;
    Fragment f;
    Shape(int n) : shape(n), f(n != 3) { f.make(ring()); }
    std::vector<Link*> ring()
    {
        Link *n = null(s.t), *a = &first.t, *b = &last.t;
        return shape == 0 ? std::vector<Link*>{n} : shape == 1 ? std::vector<Link*>{n, a} : shape == 2 ? std::vector<Link*>{n, a, b} : std::vector<Link*>{b, n, a};
    }
    bool unchanged() { return f.is(ring()); }
    Link* back() { return shape == 0 ? null(s.t) : shape == 1 ? static_cast<Link*>(&first.t) : &last.t; }
};
} // namespace

VC_CONTRACT(subscribe, 4, "proof", "awl::Observable::Subscribe, empty; awl::Observer::IsSubscribed", "the observer becomes the last one of a list of any length")
{
    Shape a(vc_case);
    Raw<Quiet> x;
    ENSURES(a.s.t.empty() == (vc_case == 0) && !x.t.IsSubscribed());
    a.s.t.Subscribe(&x.t);
    Link *n = null(a.s.t), *l = &x.t, *p = &a.first.t, *q = &a.last.t;
    ENSURES_(vc_case == 0   ? a.f.is({n, l})
             : vc_case == 1 ? a.f.is({n, p, l})
             : vc_case == 2 ? a.f.is({n, p, q, l})
                            : a.f.is({q, l, n, p}),
        "the observer is the last one and the others are where they were");
    ENSURES(x.t.IsSubscribed() && !a.s.t.empty());
    if (vc_case < 3)
        ENSURES(a.s.t.size() == size_t(vc_case) + 1);
}

namespace {
// p and n: the neighbours of x, which may be the header of the observable
void unsubscribe(int op)
{
    int shape = int(vc_pick(0, 2, "shape"));            // only one, between two others, in a longer list
    Raw<Quiet> p, x, n;
    Raw<Source> s;
    Fragment f(shape != 2);
    Link* h = shape == 2 ? static_cast<Link*>(&p.t) : null(s.t);
    if (shape == 0)
        f.make({h, &x.t});
    else
        f.make({h, &x.t, &n.t});
    ENSURES(x.t.IsSubscribed());
    switch (op) {
    case 0: s.t.Unsubscribe(&x.t); break;
    case 1: x.t.UnsubscribeSelf(); break;
    case 2: x.t.UnsubscribeSafe(); break;
    case 3: x.t.~Quiet(); break;
    }
    ENSURES_(shape == 0 ? f.is({h}) : f.is({h, &n.t}), "the other observers are where they were");
    if (op != 3) {
        ENSURES_(detached(&x.t) && !x.t.IsSubscribed(), "the observer is in no list");
        x.t.UnsubscribeSafe();
        x.t.~Quiet();
        ENSURES_(shape == 0 ? f.is({h}) : f.is({h, &n.t}), "an observer that is not subscribed changes nothing");
    }
}
void move_observer(int op)              // 0: construction, 1: assignment; 2: assignment to a subscribed observer, 3: assignment to itself
{
    int shape = int(vc_pick(0, 3, "shape"));            // the source: not subscribed, only one, between two others, in a longer list
    Raw<Quiet> p, x, n;
    Raw<Source> s;
    Fragment f(shape != 3);
    Link* h = shape == 3 ? static_cast<Link*>(&p.t) : null(s.t);
    if (shape == 1)
        f.make({h, &x.t});
    else if (shape != 0)
        f.make({h, &x.t, &n.t});
    x.t.calls = 5;
    if (op == 3) {
        x.t = std::move(x.t);
        ENSURES_(shape == 0 ? detached(&x.t) : shape == 1 ? f.is({h, &x.t}) : f.is({h, &x.t, &n.t}), "an observer assigned to itself keeps its place");
        return;
    }
    Raw<Quiet> y, op_, on;
    Fragment g(false);
    if (op == 2)
        g.make({&op_.t, &y.t, &on.t});
    if (op == 0)
        new (&y.t) Quiet(std::move(x.t));
    else
        y.t = std::move(x.t);
    ENSURES_(shape == 0 ? detached(&y.t) : shape == 1 ? f.is({h, &y.t}) : f.is({h, &y.t, &n.t}), "the new observer has the place of the old one");
    ENSURES_(detached(&x.t), "the old observer is not subscribed");
    ENSURES_(y.t.IsSubscribed() == (shape != 0) && y.t.calls == 5, "the new observer has the subscription and the members");
    if (op == 2)
        ENSURES_(g.is({&op_.t, &on.t}), "the earlier subscription of the new observer has ended");
}
} // namespace
VC_CONTRACT(unsubscription, 4, "proof", "awl::Observable::Unsubscribe; awl::Observer::UnsubscribeSelf, UnsubscribeSafe, ~Observer", "the observer leaves a list of any length, the others stay")
{
    unsubscribe(vc_case);
}
VC_CONTRACT(moved_observer, 4, "proof", "awl::Observer: move construction and assignment", "the subscription belongs to the new object")
{
    move_observer(vc_case);
}
VC_CONTRACT(moved_observable, 12, "proof", "awl::Observable: move construction and assignment", "all the observers of the source belong to the target, those of the target are unsubscribed")
{
    Shape b(vc_case % 4);
    int op = vc_case / 4;                // 0: construction, 1: assignment to an empty one, 2: to one with two observers
    Raw<Source> d;
    Raw<Quiet> o1, o2;
    if (op == 2)
        Fragment(true).make({null(d.t), &o1.t, &o2.t});
    if (op == 0)
        new (&d.t) Source(std::move(b.s.t));
    else
        d.t = std::move(b.s.t);
    if (op == 2)
        ENSURES_(detached(&o1.t) && detached(&o2.t), "the observers of the target are unsubscribed");
    Link *n = null(d.t), *p = &b.first.t, *q = &b.last.t;
    ENSURES_(b.shape == 0   ? b.f.is({n})
             : b.shape == 1 ? b.f.is({n, p})
             : b.shape == 2 ? b.f.is({n, p, q})
                            : b.f.is({q, n, p}),
        "the observers follow their observable in the same order");
    ENSURES_(b.s.t.empty(), "the source has no observers");
    b.s.t.plain();
    b.s.t.Subscribe(&o1.t);
    ENSURES_(Fragment(true).is({null(b.s.t), &o1.t}), "the source can be used again");
}
VC_CONTRACT(destroyed_observable, 4, "bounded(up to 3 observers)", "awl::Observable::~Observable", "observers that outlive their observable are not subscribed any more")
{
    Raw<Source> s;
    Raw<Quiet> o[3];
    for (int i = 0; i != vc_case; ++i)
        s.t.Subscribe(&o[i].t);
    s.t.~Source();
    for (auto& x : o) {
        ENSURES_(detached(&x.t), "the observer is not subscribed");
        x.t.~Quiet();
    }
}

// ---- one step of a notification in a list of any length: from the observer x to the next one, y
namespace {
struct Stop { };
struct Step;
struct Stepper : Observer {
    Step* w = nullptr;
    int id = 0;
    Stepper() = default;
    Stepper(Stepper&&) = default;
    Stepper& operator=(Stepper&&) = default;
    void call();
    void Changed(int a, const Value& v) override;
    bool Asked(uint64_t a) override;
    void Plain() override { call(); }
};
struct Step {
    Raw<Source> s;
    Raw<Stepper> x, y, z, moved;
    Fragment f{false};
    int action = 0;
    int calls[4] = {0, 0, 0, 0};
    int a = 0;
    uint64_t v = 0;
    bool xthere = true;
    bool xmoved = false;
    Step()
    {
        x.t.w = y.t.w = z.t.w = moved.t.w = this;
        x.t.id = 0, y.t.id = 1, z.t.id = 2, moved.t.id = 3;
        f.make({null(s.t), &x.t, &y.t});
    }
};
void Stepper::call()
{
    Step& st = *w;
    ++st.calls[id];
    if (id != 0) {
        ENSURES_(st.calls[0] == 1, "the first observer has been notified once");
        throw Stop();
    }
    ENSURES_(st.calls[1] == 0, "the second observer is notified after the first one");
    switch (st.action) {
    case 1: UnsubscribeSelf(); st.xthere = false; break;
    case 2: st.xthere = false; st.x.t.~Stepper(); break;
    case 3:
        st.moved.t = std::move(*this);
        st.xmoved = true;
        this->~Stepper();
        break;
    case 4: UnsubscribeSafe(); UnsubscribeSafe(); st.xthere = false; break;
    }
}
void Stepper::Changed(int a, const Value& v)
{
    ENSURES_(a == w->a && v.x == w->v, "the arguments are those of the notification");
    call();
}
bool Stepper::Asked(uint64_t a)
{
    ENSURES_(a == w->v, "the arguments are those of the notification");
    call();
    return true;
}
} // namespace
VC_CONTRACT(notify_step, 15, "proof", "awl::Observable::Notify, NotifyWhileTrue", "in a list of any length the notification goes from an observer to the next one, whatever the first one does with itself")
{
    Step st;
    st.action = vc_case % 5;
    st.a = vc_val<int>("a");
    st.v = vc_val<uint64_t>("v");
    bool stopped = vc_throws<Stop>([&] {
        switch (vc_case / 5) {
        case 0: st.s.t.change(st.a, Value{st.v}); break;
        case 1: st.s.t.ask(st.v); break;
        case 2: st.s.t.plain(); break;
        }
    });
    ENSURES_(stopped && st.calls[0] == 1 && st.calls[1] == 1, "both observers have been notified once, an exception reaches the caller");
    Link *h = null(st.s.t), *x = st.xmoved ? &st.moved.t : &st.x.t, *y = &st.y.t;
    ENSURES_(st.xthere ? st.f.is({h, x, y}) : st.f.is({h, y}), "the notification itself changes no subscription");
}
VC_CONTRACT(notify_last, 10, "proof", "awl::Observable::Notify, NotifyWhileTrue", "the notification ends behind the last observer, whatever it does with itself")
{
    Step st;
    st.action = vc_case % 5;
    st.v = vc_val<uint64_t>("v");
    // more observers: none in front of the last one here, their steps are those of notify_step
    Fragment(true).make({null(st.s.t), &st.x.t});
    if (vc_case / 5)
        ENSURES(st.s.t.ask(st.v));
    else
        st.s.t.plain();
    ENSURES_(st.calls[0] == 1, "the observer has been notified once");
    Link *h = null(st.s.t), *x = st.xmoved ? &st.moved.t : &st.x.t;
    ENSURES_(st.xthere ? Fragment(true).is({h, x}) : Fragment(true).is({h}), "the notification itself changes no subscription");
}

// ---- whole notifications, with observers that act on themselves, on those already notified and on new ones
namespace {
struct World;
struct Actor : Observer {
    World* w;
    int id;
    Actor(World* a, int i) : w(a), id(i) { }
    Actor(Actor&&) = default;
    Actor& operator=(Actor&&) = default;
    void call();
    void Changed(int a, const Value& v) override;
    bool Asked(uint64_t a) override;
    void Plain() override { call(); }
};
struct World {
    std::unique_ptr<Source> s = std::make_unique<Source>();
    std::vector<std::unique_ptr<Actor>> who;            // by id
    std::vector<int> list;                              // the expected order of the subscriptions
    std::vector<int> actions;                           // of the observers, in the first notification
    std::vector<int> calls;                             // of the observers subscribed when it starts
    std::vector<int> fresh;                             // ids subscribed meanwhile
    bool nested = false;
    bool veto = false;
    int a = 0;
    uint64_t v = 0;

    int add()
    {
        int id = int(who.size());
        who.push_back(std::make_unique<Actor>(this, id));
        s->Subscribe(who.back().get());
        list.push_back(id);
        return id;
    }
    void drop(int id)
    {
        for (size_t i = 0; i != list.size(); ++i)
            if (list[i] == id) {
                list.erase(list.begin() + ptrdiff_t(i));
                return;
            }
    }
    bool is_in(const std::vector<int>& l, int id) const
    {
        for (int x : l)
            if (x == id)
                return true;
        return false;
    }
    void check_list()
    {
        std::vector<int> found;
        for (auto i = s->Observers.begin(); i != s->Observers.end(); ++i)
            found.push_back(static_cast<Actor*>(*i)->id);
        ENSURES_(found == list, "exactly the subscribed observers are in the list");
        ENSURES_(s->size() == list.size() && s->empty() == list.empty(), "their number is right");
        for (auto& o : who)
            if (o)
                ENSURES_(o->IsSubscribed() == is_in(list, o->id), "an observer knows whether it is subscribed");
    }
    enum { None, Leave, Destroy, Move, Rejoin, Join, DropFormer, DestroyFormer, MoveToFormer, Nested, Throw, count };
    void act(int id)
    {
        std::unique_ptr<Actor>& me = who[size_t(id)];
        // the observer notified before; not one that has subscribed again, which may be the next one (see known_next)
        int former = calls.size() > 1 && is_in(list, calls[calls.size() - 2]) && !is_in(fresh, calls[calls.size() - 2]) ? calls[calls.size() - 2] : -1;
        int action = actions[size_t(id)];
        actions[size_t(id)] = None;                     // an observer that subscribes again does nothing the second time
        switch (action) {
        case Leave: s->Unsubscribe(me.get()); drop(id); break;
        case Destroy: me.reset(); drop(id); break;
        case Move: me = std::make_unique<Actor>(std::move(*me)); break;
        case Rejoin:
            me->UnsubscribeSelf();
            s->Subscribe(me.get());
            drop(id);
            list.push_back(id);
            fresh.push_back(id);
            break;
        case Join: fresh.push_back(add()); break;
        case DropFormer:
            if (former >= 0) {
                who[size_t(former)]->UnsubscribeSafe();
                drop(former);
            }
            break;
        case DestroyFormer:
            if (former >= 0) {
                who[size_t(former)].reset();
                drop(former);
            }
            break;
        case MoveToFormer:
            if (former >= 0) {
                // the former object takes over the identity and the place of this one
                std::unique_ptr<Actor> f = std::move(who[size_t(former)]);
                *f = std::move(*me);
                me = std::move(f);
                drop(former);
            }
            break;
        case Nested: {
            nested = true;
            std::vector<int> outer = calls, expected = list;
            calls.clear();
            s->plain();
            ENSURES_(calls == expected, "a notification within a notification reaches every subscribed observer");
            calls = outer;
            nested = false;
            break;
        }
        case Throw: throw Stop();
        }
    }
};
void Actor::call()
{
    World& k = *w;
    int me = id;
    k.calls.push_back(me);
    if (!k.nested && size_t(me) < k.actions.size())
        k.act(me);
}
void Actor::Changed(int a, const Value& v)
{
    ENSURES_(a == w->a && v.x == w->v, "the arguments are those of the notification");
    call();
}
bool Actor::Asked(uint64_t a)
{
    World& k = *w;
    ENSURES_(a == k.v, "the arguments are those of the notification");
    call();
    return !k.veto;
}
void whole(int n, const std::vector<int>& actions, int kind)
{
    World k;
    for (int i = 0; i != n; ++i)
        k.add();
    k.actions = actions;
    k.a = vc_val<int>("a");
    k.v = vc_val<uint64_t>("v");
    std::vector<int> start = k.list, expected;
    // a former observer leaves after its turn, the others act on themselves: those of the start are called in order
    bool throws = false;
    for (int id : start) {
        expected.push_back(id);
        if (actions[size_t(id)] == World::Throw) {
            throws = true;
            break;
        }
    }
    bool threw = vc_throws<Stop>([&] {
        switch (kind) {
        case 0: k.s->change(k.a, Value{k.v}); break;
        case 1: ENSURES(k.s->ask(k.v)); break;
        default: k.s->plain();
        }
    });
    ENSURES_(threw == throws, "exactly the exceptions of the observers reach the caller");
    // observers subscribed meanwhile may be notified too, once, behind the others
    size_t m = expected.size();
    ENSURES_(k.calls.size() >= m && std::vector<int>(k.calls.begin(), k.calls.begin() + ptrdiff_t(m)) == expected,
             "every observer subscribed at the start is notified once, in the order of subscription");
    for (size_t i = m; i < k.calls.size(); ++i) {
        ENSURES_(k.is_in(k.fresh, k.calls[i]), "no other observer is notified");
        for (size_t j = m; j != i; ++j)
            ENSURES_(k.calls[j] != k.calls[i], "an observer subscribed meanwhile is notified at most once");
    }
    k.check_list();
    // and the next one reaches exactly those that are subscribed
    k.actions.clear();
    k.calls.clear();
    k.s->plain();
    ENSURES_(k.calls == k.list, "the next notification reaches exactly the subscribed observers");
    if (n < 3 ? vc_pick(0, 1, "moved") != 0 : actions[1] % 2 != 0) {
        auto t = std::make_unique<Source>(std::move(*k.s));
        k.s = std::move(t);
        k.check_list();
    }
    k.s.reset();
    for (auto& o : k.who)
        if (o)
            ENSURES_(!o->IsSubscribed(), "no observer is subscribed to a destroyed observable");
}
int pick_action() { return int(vc_pick(0, World::count - 1, "action")); }
} // namespace
VC_CONTRACT(notification, 11, "bounded(up to 3 observers, each doing any of 11 actions)", "awl::Observable::Notify, NotifyWhileTrue, Subscribe, Unsubscribe; awl::Observer",
            "every observer that is subscribed when a notification starts is notified once, in order")
{
    int n = int(vc_pick(0, 3, "observers"));
    std::vector<int> actions;
    for (int i = 0; i != n; ++i)
        actions.push_back(i == 0 ? vc_case : pick_action());
    if (n == 0 && vc_case != 0)
        return;
    whole(n, actions, n == 3 ? 0 : int(vc_pick(0, 2, "kind")));
}
VC_CONTRACT(veto, 4, "bounded(up to 3 observers)", "awl::Observable::NotifyWhileTrue", "the first observer that returns false ends the notification")
{
    struct Voter : Observer {
        std::vector<int>* log;
        int id;
        bool answer;
        void Changed(int, const Value&) override { }
        bool Asked(uint64_t) override
        {
            log->push_back(id);
            return answer;
        }
        void Plain() override { }
    };
    Source s;
    Voter v[3];
    std::vector<int> log, expected;
    bool all = true;
    for (int i = 0; i != vc_case; ++i) {
        v[i].log = &log;
        v[i].id = i;
        v[i].answer = vc_val<bool>("answer");
        s.Subscribe(&v[i]);
        if (all)
            expected.push_back(i);
        all = all && v[i].answer;
    }
    const bool r = s.ask(vc_val<uint64_t>("v"));
    ENSURES_(r == all, "true exactly if every observer returned true");
    ENSURES_(log == expected, "no observer behind the first one that returned false is asked");
}
VC_CONTRACT(known_next, 1, "enum(the observer whose turn is next leaves, executed)", "awl::Observable::Notify", "an observer may end the subscription of the next one while being notified")
{
    struct Killer : Observer {
        std::unique_ptr<Quiet>* victim = nullptr;
        void Changed(int, const Value&) override { }
        bool Asked(uint64_t) override { return true; }
        void Plain() override { victim->reset(); }
    };
    Source s;
    Killer k;
    auto next = std::make_unique<Quiet>();
    Quiet third;
    k.victim = &next;
    s.Subscribe(&k);
    s.Subscribe(next.get());
    s.Subscribe(&third);
    s.plain();
    ENSURES_(third.calls == 1, "the observer behind it is notified once");
}

// ---- random histories with several observables, executed
VC_CONTRACT(histories, 8, "enum(random histories of 2 observables and 5 observers, executed)", "awl::Observable, awl::Observer", "every notification reaches exactly the observers subscribed to that observable, in order")
{
    struct Counter : Observer {
        std::vector<int>* log = nullptr;
        int id = 0;
        Counter() = default;
        Counter(Counter&&) = default;
        Counter& operator=(Counter&&) = default;
        void Changed(int, const Value&) override { log->push_back(id); }
        bool Asked(uint64_t) override { return true; }
        void Plain() override { log->push_back(id); }
    };
    std::vector<int> log;
    std::unique_ptr<Source> src[2];
    std::vector<int> lists[2];
    std::unique_ptr<Counter> obs[5];
    auto drop = [&](int id) {
        for (auto& l : lists)
            for (size_t i = 0; i != l.size();)
                if (l[i] == id)
                    l.erase(l.begin() + ptrdiff_t(i));
                else
                    ++i;
    };
    auto fresh = [&](int i) {
        obs[i] = std::make_unique<Counter>();
        obs[i]->log = &log;
        obs[i]->id = i;
    };
    for (auto& s : src)
        s = std::make_unique<Source>();
    for (int i = 0; i != 5; ++i)
        fresh(i);
    for (int step = 0; step != 24; ++step) {
        int i = int(vc_pick(0, 4, "observer")), k = int(vc_pick(0, 1, "source"));
        switch (vc_pick(0, 8, "op")) {
        case 0: case 1: case 2:
            obs[i]->UnsubscribeSafe();
            drop(i);
            src[k]->Subscribe(obs[i].get());
            lists[k].push_back(i);
            break;
        case 3: obs[i]->UnsubscribeSafe(); drop(i); break;
        case 4: obs[i].reset(); drop(i); fresh(i); break;
        case 5: obs[i] = std::make_unique<Counter>(std::move(*obs[i])); break;
        case 6: {
            int j = (i + 1) % 5;        // the object of j takes over the place and the identity of i
            *obs[j] = std::move(*obs[i]);
            drop(j);
            std::swap(obs[i], obs[j]);
            obs[i]->id = i, obs[j]->id = j;
            break;
        }
        case 7: src[k] = std::make_unique<Source>(std::move(*src[k])); break;
        case 8:
            if (vc_pick(0, 1, "assign")) {
                *src[k] = std::move(*src[1 - k]);
                lists[k] = lists[1 - k];
                lists[1 - k].clear();
            }
            else {
                src[k].reset();
                lists[k].clear();
                src[k] = std::make_unique<Source>();
            }
            break;
        }
        for (int t = 0; t != 2; ++t) {
            log.clear();
            src[t]->plain();
            ENSURES_(log == lists[t], "exactly the subscribed observers are notified, in the order of subscription");
            ENSURES_(src[t]->size() == lists[t].size() && src[t]->empty() == lists[t].empty(), "the number of observers");
        }
    }
}
