// C22: owning helpers release every resource exactly once.
// SOURCES:
#include "vc.h"
#include "Awl/ObjectPool.h"
#include "Awl/ScopeGuard.h"
#include "Awl/UniquePtr.h"
#include <functional>
#include <memory>
#include <new>
#include <optional>
#include <stdexcept>
#include <vector>

namespace {

struct Failure { };
#ifdef VC_SYMBOLIC
size_t blocks() { return vc_live(); }
#else
size_t blocks() { return 0; }           // leaks are reported by the sanitizer
#endif

// ---- scope guards --------------------------------------------------------------------------------------------------------

struct Action {                         // can be moved and assigned; knows how often it ran
    int* runs;
    void operator()() { ++*runs; }
};
using Guard = awl::scope_guard<Action>;

template <class G, class Make> void guards(Make make, int op)
{
    int a = 0, b = 0;
    const bool ea = vc_val<bool>("a engaged"), eb = vc_val<bool>("b engaged");
    {
        G g = make(&a, ea);
        ENSURES_(a == 0, "the action does not run before the end of the guard");
        switch (op) {
        case 0: break;
        case 1:
            if (vc_pick(0, 1, "twice") != 0)
                g.release();
            g.release();
            break;
        case 2: {
            {
                G m(std::move(g));
                ENSURES_(a == 0, "moving does not run the action");
            }
            ENSURES_(a == int(ea), "the action has run at the end of the new guard");
            break;
        }
        case 3: {
            G m(std::move(g));
            m.release();
            break;
        }
        case 4: {
            G m(std::move(g));
            G n(std::move(m));
            g.release();
            m.release();
            ENSURES_(a == 0, "the action has not run");
            break;
        }
        }
        if constexpr (std::is_move_assignable_v<G> && !std::is_same_v<G, void>) {
            if (op == 5) {
                {
                    G h = make(&b, eb);
                    h = std::move(g);
                    ENSURES_(b == int(eb), "the action of the target runs when it is replaced");
                    ENSURES_(a == 0, "that of the source does not");
                }
                ENSURES_(a == int(ea), "the action of the source runs at the end of the target");
            }
            else if (op == 6) {
                G& self = g;
                g = std::move(self);
                ENSURES_(a == 0, "a guard assigned to itself keeps its action");
            }
            else if (op == 7) {
                {
                    G h = make(&b, eb);
                    h.release();
                    h = std::move(g);
                    h.release();
                }
                ENSURES_(a == 0 && b == 0, "released actions do not run");
            }
            else if (op == 8) {
                G h = make(&b, eb);
                G t(std::move(h));
                h = std::move(g);
                g = std::move(t);
                ENSURES_(a == 0 && b == 0, "swapped guards keep their actions");
            }
        }
    }
    const bool released = op == 1 || op == 3 || op == 7;
    ENSURES_(a == (released ? 0 : int(ea)), "an engaged action runs exactly once unless released");
    ENSURES_(b == (op == 7 ? 0 : op == 5 || op == 8 ? int(eb) : 0), "an engaged action runs exactly once unless released");
}
} // namespace
VC_CONTRACT(scope_guards, 9, "proof", "awl::scope_guard: construction, move construction and assignment, release, destruction", "an engaged action runs exactly once unless released, a moved-from guard owns nothing")
{
    guards<Guard>([](int* p, bool e) { return Guard(Action{p}, e); }, vc_case);
}
VC_CONTRACT(virtual_guards, 9, "proof", "awl::virtual_guard, make_virtual_guard", "as above, with an action of any type")
{
    guards<awl::virtual_guard>(
        [](int* p, bool e) {
            if (e)
                return awl::make_virtual_guard([p] { ++*p; });
            return awl::virtual_guard([p] { ++*p; }, false);
        },
        vc_case);
    awl::make_fake_guard();
}
VC_CONTRACT(lambda_guards, 5, "proof", "awl::make_scope_guard", "as above, with an action that cannot be assigned")
{
    int op = vc_case;
    int a = 0;
    const bool ea = vc_val<bool>("a engaged");
    {
        auto g = awl::make_scope_guard([&a] { ++a; }, ea);
        if (op == 1)
            g.release();
        else if (op >= 2) {
            auto m = std::move(g);
            if (op == 3)
                m.release();
            else if (op == 4) {
                g.release();
                auto n = std::move(m);
            }
        }
    }
    ENSURES_(a == (op == 1 || op == 3 ? 0 : int(ea)), "an engaged action runs exactly once unless released");
}
VC_CONTRACT(guarded_scope, 3, "proof", "awl::make_scope_guard(init, free, engaged)", "the initial action runs first, the final one also when the scope is left by an exception")
{
    std::vector<int> log;
    const bool engaged = vc_val<bool>("engaged");
    bool threw = vc_throws<Failure>([&] {
        auto g = awl::make_scope_guard(
            [&] {
                log.push_back(1);
                if (vc_case == 1)
                    throw Failure();
            },
            [&] { log.push_back(3); }, engaged);
        log.push_back(2);
        if (vc_case == 2)
            throw Failure();
    });
    if (!engaged)
        ENSURES_(log == std::vector<int>{2} && threw == (vc_case == 2), "a guard that is not engaged does nothing");
    else if (vc_case == 1)
        ENSURES_(log == std::vector<int>{1} && threw, "nothing is undone if the initial action fails");
    else
        ENSURES_(log == (std::vector<int>{1, 2, 3}) && threw == (vc_case == 2), "both actions run once, in order");
}

// ---- unique pointers -----------------------------------------------------------------------------------------------------
namespace {
struct Object {
    static inline int live = 0, fail = -1;
    uint64_t v;
    awl::unique_ptr<Object> next;
    std::function<void()> last;
    explicit Object(uint64_t x = 0) : v(x)
    {
        if (fail >= 0 && fail-- == 0)
            throw Failure();
        ++live;
    }
    Object(const Object&) = delete;
    ~Object()
    {
        --live;
        if (last)
            last();
    }
};
using Ptr = awl::unique_ptr<Object>;
} // namespace
VC_CONTRACT(unique_ptrs, 11, "proof", "awl::unique_ptr: every operation; awl::make_unique", "the object is deleted exactly once, by its last owner")
{
    Object::live = 0, Object::fail = -1;
    const size_t before = blocks();
    {
        const bool na = vc_pick(0, 1, "a") == 0, nb = vc_pick(0, 1, "b") == 0;
        const uint64_t x = vc_val<uint64_t>("x"), y = vc_val<uint64_t>("y");
        Ptr a = na ? Ptr() : awl::make_unique<Object>(x), b = nb ? Ptr() : awl::make_unique<Object>(y);
        Object *pa = a.get(), *pb = b.get();
        const int n = !na + !nb;
        ENSURES_(Object::live == n && (pa == nullptr) == na && (na || pa->v == x), "a pointer owns the object it was made with");
        ENSURES(bool(a) == !na && (a == pa) && !(a != pa) && (a == b) == (pa == pb) && (a != b) == (pa != pb));
        if (!na)
            ENSURES(&*a == pa && a->v == x);
        switch (vc_case) {
        case 0: break;
        case 1: {
            Ptr m(std::move(a));
            ENSURES_(m.get() == pa && !a && Object::live == n, "a moved-from pointer owns nothing");
            break;
        }
        case 2:
            a = std::move(b);
            ENSURES_(a.get() == pb && !b && Object::live == !nb, "the object of the target is deleted, that of the source has changed its owner");
            break;
        case 3: {
            Ptr& self = a;
            a = std::move(self);
            ENSURES_(a.get() == pa && Object::live == n, "a pointer assigned to itself keeps its object");
            break;
        }
        case 4: {
            Object* r = a.release();
            ENSURES_(r == pa && !a && Object::live == n, "a released object is not deleted");
            delete r;
            break;
        }
        case 5: {
            Object* o = new Object(y);
            a.reset(o);
            ENSURES_(a.get() == o && Object::live == 1 + !nb, "the old object is deleted, the new one is owned");
            break;
        }
        case 6:
            a.reset(nullptr);
            ENSURES_(!a && Object::live == !nb, "the object is deleted");
            a.reset(nullptr);
            break;
        case 7: {
            // the object at the head of a list is replaced by the rest, which it owns
            Ptr head = awl::make_unique<Object>(x);
            head->next = std::move(b);
            head = std::move(head->next);
            ENSURES_(head.get() == pb && Object::live == n, "the rest survives the head");
            break;
        }
        case 8: {
            // the object may use its pointer while it is being destroyed
            Object* seen = nullptr;
            if (!na)
                a->last = [&] { seen = a.get(); };
            a = std::move(b);
            ENSURES_(seen == pa && a.get() == pb, "the pointer keeps its value until the object is destroyed");
            break;
        }
        case 9: {
            Object::fail = 0;
            ENSURES_(vc_throws<Failure>([&] { awl::make_unique<Object>(x); }), "a failed construction is reported");
            Object::fail = -1;
            break;
        }
        case 10: {
            Ptr t(std::move(a));
            a = std::move(b);
            b = std::move(t);
            ENSURES_(a.get() == pb && b.get() == pa && !t && Object::live == n, "two pointers exchange their objects");
            break;
        }
        }
    }
    ENSURES_(Object::live == 0, "every object is deleted");
    ENSURES_(blocks() == before, "no memory leaks");
}

// ---- pools ---------------------------------------------------------------------------------------------------------------
namespace {
AWL_DECLARE_QUICK_LINK(OtherLink)
struct Pooled : OtherLink, awl::pooled_object {
    static inline int live = 0, fail = -1;
    static inline std::function<void(Pooled*)> finalize;
    int finals = 0;
    bool used = false;
    Pooled()
    {
        if (fail >= 0 && fail-- == 0)
            throw Failure();
        ++live;
    }
    ~Pooled() override { --live; }
    void Finalize() override
    {
        ++finals;
        if (finalize)
            finalize(this);
    }
};
using Pool = awl::object_pool<Pooled>;
void reset()
{
    Pooled::live = 0, Pooled::fail = -1;
    Pooled::finalize = nullptr;
}
using PoolLink = awl::pooled_object_link;
using Fwd = PoolLink::ForwardLink;
using Bwd = PoolLink::BackwardLink;
void join(PoolLink* a, PoolLink* b)
{
    a->Fwd::set_next(b);
    b->Bwd::set_next(a);
}
bool joined(PoolLink* a, PoolLink* b) { return a->Fwd::next() == b && b->Bwd::next() == a; }
// o is the first or the last one of a list of the others, the first of which is `first` and the last `last` (the list itself if there are none)
bool at_an_end(PoolLink* o, PoolLink* list, PoolLink* first, PoolLink* last)
{
    return (joined(last, o) && joined(o, list) && (first == list || joined(list, first))) || (joined(list, o) && joined(o, first) && (last == list || joined(last, list)));
}
template <class T> union Raw {
    T t;
    Raw() { new (&t) T(); }
    ~Raw() { }
};
} // namespace
VC_CONTRACT(pool_step, 6, "proof", "awl::object_pool::make, add, Deleter", "objects change between the lists of a pool of any size; only a free object is handed out")
{
    reset();
    Raw<Pool> pool;
    Raw<Pooled> u1, u2, u3, f1, f2, f3, f4;
    auto run = [&](auto& p) {
        if constexpr (requires { p.m_free.Null; p.m_used.Null; }) {
            PoolLink *u = &p.m_used.Null, *f = &p.m_free.Null;
            Fwd* right = static_cast<Fwd*>(vc_opaque("right"));
            Bwd* left = static_cast<Bwd*>(vc_opaque("left"));
            // used: u1, ..., u2; free: nothing, or f1, f3, ..., f4, f2; the order within the lists is not part of the contract
            int op = vc_case % 3;
            bool free = vc_case / 3;
            join(u, &u1.t), join(&u2.t, u);
            u1.t.Fwd::set_next(right), u2.t.Bwd::set_next(left);
            if (free) {
                join(f, &f1.t), join(&f1.t, &f3.t), join(&f4.t, &f2.t), join(&f2.t, f);
                f3.t.Fwd::set_next(right), f4.t.Bwd::set_next(left);
            }
            else
                join(f, f);
            const int live = Pooled::live;
            std::shared_ptr<Pooled> x;
            if (op == 1)
                x = p.add(&u3.t);
            else
                x = p.make();
            Pooled* o = x.get();
            auto rest = [&] { return (u1.t.Fwd::next() == right && u2.t.Bwd::next() == left) && (!free || (f3.t.Fwd::next() == right && f4.t.Bwd::next() == left)); };
            ENSURES_(at_an_end(o, u, &u1.t, &u2.t), "the object is used");
            ENSURES_(rest(), "the others are where they were");
            PoolLink *first = f, *last = f;             // what is left of the free ones
            if (op == 1) {
                ENSURES_(o == &u3.t, "exactly the given object is used");
                if (free)
                    first = &f1.t, last = &f2.t;
            }
            else {
                ENSURES_(o == &f1.t || o == &f2.t || !free, "a free object is used again");
                ENSURES_(Pooled::live == live + !free, "a new one is made if there is no free one");
                if (free)
                    first = o == &f1.t ? &f3.t : &f1.t, last = o == &f2.t ? &f4.t : &f2.t;
            }
            ENSURES_(joined(f, first) && joined(last, f), "the other free objects stay");
            ENSURES_(x.use_count() == 1 && o->finals == 0, "it has one owner");
            if (op == 2) {
                x->used = true;
                std::shared_ptr<Pooled> y = x;
                x.reset();
                ENSURES_(o->finals == 0 && at_an_end(o, u, &u1.t, &u2.t), "the object is used until its last owner is gone");
                y.reset();
                ENSURES_(o->finals == 1, "it is finalized once");
                ENSURES_(at_an_end(o, f, first, last), "it is free again");
                ENSURES_(rest() && joined(u, &u1.t) && joined(&u2.t, u), "the others are where they were");
                ENSURES_(Pooled::live == live + !free, "it is not deleted");
                return;
            }
            new (&x) std::shared_ptr<Pooled>();         // its owner is not part of this step
        }
    };
    run(pool.t);
}
namespace {
struct Pools {
    std::unique_ptr<Pool> pool = std::make_unique<Pool>();
    std::vector<std::shared_ptr<Pooled>> owners;
    std::vector<Pooled*> all;
    size_t free = 0;
    bool known(Pooled* p) const
    {
        for (Pooled* q : all)
            if (p == q)
                return true;
        return false;
    }
    bool owned(Pooled* p) const
    {
        for (auto& o : owners)
            if (o.get() == p)
                return true;
        return false;
    }
    void took(std::shared_ptr<Pooled> p, bool fresh)
    {
        ENSURES_(p != nullptr && !owned(p.get()), "an object in use is not handed out again");
        ENSURES_(!p->used, "an object in use is not handed out again");
        if (!fresh) {
            ENSURES_(known(p.get()) == (free != 0), "a free object is used again, if there is one");
            if (free)
                --free;
        }
        if (!known(p.get()))
            all.push_back(p.get());
        p->used = true;
        owners.push_back(std::move(p));
    }
    void make() { took(pool->make(), false); }
    void add() { took(pool->add(new Pooled()), true); }
    void drop(size_t i)
    {
        Pooled* p = owners[i].get();
        owners.erase(owners.begin() + ptrdiff_t(i));
        if (!owned(p)) {
            ENSURES_(!p->used, "the object is finalized when its last owner goes");
            ++free;
        }
    }
    void share(size_t i) { owners.push_back(owners[i]); }
    void clear()
    {
        pool->clear();
        std::vector<Pooled*> rest;
        for (Pooled* p : all)
            if (owned(p))
                rest.push_back(p);
        all = rest;
        free = 0;
    }
    void check() { ENSURES_(Pooled::live == int(all.size()), "no other objects exist"); }
    // an allocation of make or add fails: nothing is handed out; the object is free again, or was never made
    void failed_allocation()
    {
        bool adding = vc_pick(0, 1, "add");
        int which = int(vc_pick(0, 1, "which allocation"));
        static Pooled* seen;
        seen = nullptr;
        auto saved = Pooled::finalize;
        Pooled::finalize = [](Pooled* p) { seen = p; };
        Pooled* o = adding ? new Pooled() : nullptr;
        const int live = Pooled::live;
        std::shared_ptr<Pooled> p;
        vc_fail_new(which);
        bool threw = vc_throws<std::bad_alloc>([&] {
            if (adding)
                p = pool->add(o);
            else
                p = pool->make();
        });
        vc_fail_new(-1);
        Pooled::finalize = saved;
        ENSURES_(threw || p, "a failed allocation is reported");
        if (!threw)
            return took(std::move(p), adding);
        ENSURES_(!seen || !owned(seen), "an object in use is not finalized");
        if (Pooled::live == live) {
            if (adding || (seen && !known(seen)))
                all.push_back(adding ? o : seen), ++free;
        }
        else if (Pooled::live > live)
            all.push_back(seen), ++free;
        else if (!adding) {
            std::vector<Pooled*> rest;
            for (Pooled* q : all)
                if (q != seen)
                    rest.push_back(q);
            all = rest;
            --free;
        }
    }
};
void history(int steps, int first = -1)
{
    reset();
    const size_t before = blocks();
    Pooled::finalize = [](Pooled* p) {
        ENSURES_(p->used, "an object that is not in use is not finalized");
        p->used = false;
    };
    {
        Pools k;
        for (int i = 0; i != steps; ++i) {
            switch (i == 0 && first >= 0 ? uint64_t(first) : vc_pick(0, 5, "op")) {
            case 0: k.make(); break;
            case 1: k.add(); break;
            case 2:
                if (!k.owners.empty())
                    k.drop(size_t(vc_pick(0, k.owners.size() - 1, "which")));
                break;
            case 3:
                if (!k.owners.empty())
                    k.share(size_t(vc_pick(0, k.owners.size() - 1, "which")));
                break;
            case 4: k.clear(); break;
            case 5: {
                Pooled::fail = 0;
                bool threw = vc_throws<Failure>([&] { k.make(); });
                Pooled::fail = -1;
                ENSURES_(threw || k.known(k.owners.back().get()), "a failed construction is reported");
                break;
            }
            }
            k.check();
        }
        while (!k.owners.empty())
            k.drop(0);
        k.check();
    }
    ENSURES_(Pooled::live == 0, "the pool deletes its objects");
    Pooled::finalize = nullptr;
    ENSURES_(blocks() == before, "no memory leaks");
}
} // namespace
VC_CONTRACT(pool_history, 6, "bounded(every history of 5 operations)", "awl::object_pool", "an object is handed out once at a time, returns when its last owner goes and is deleted once")
{
    history(5, vc_case);
}
namespace {
void with_failed_allocation(int free)
{
    reset();
    const size_t before = blocks();
    Pooled::finalize = [](Pooled* p) { p->used = false; };
    {
        Pools k;
        for (int i = 0; i != 3; ++i)
            k.make();
        for (int i = 0; i != free; ++i)
            k.drop(0);
        k.failed_allocation();
        k.check();
        for (int i = 0; i != 2; ++i) {
            switch (vc_pick(0, 3, "op")) {
            case 0: k.make(); break;
            case 1: k.failed_allocation(); break;
            case 2: k.clear(); break;
            case 3:
                if (!k.owners.empty())
                    k.drop(0);
                break;
            }
            k.check();
        }
        while (!k.owners.empty())
            k.drop(0);
        k.check();
    }
    ENSURES_(Pooled::live == 0, "the pool deletes its objects");
    Pooled::finalize = nullptr;
    ENSURES_(blocks() == before, "no memory leaks");
}
} // namespace
VC_CONTRACT(pool_allocation, 3, "bounded(3 objects, 0 to 2 of them free, every failing allocation, 2 more operations)", "awl::object_pool::make, add",
            "a failed allocation is reported, hands nothing out and loses nothing")
{
    with_failed_allocation(vc_case);
}
VC_CONTRACT(finalization, 3, "bounded(one object)", "awl::object_pool::Deleter", "an object that is being finalized is not handed out")
{
    reset();
    {
        Pool pool;
        std::shared_ptr<Pooled> a = pool.make(), b;
        Pooled* p = a.get();
        int finals = 0;
        Pooled::finalize = [&](Pooled* q) {
            ENSURES_(q == p, "the object itself is finalized");
            if (finals++ == 0) {
                if (vc_case == 0)
                    b = pool.make();
                else if (vc_case == 1)
                    pool.clear();
            }
            q->used = false;
        };
        a.reset();
        ENSURES_(b.get() != p, "an object that is being finalized is not handed out");
        ENSURES_(finals == 1, "it is finalized once");
        std::shared_ptr<Pooled> c = pool.make();
        ENSURES_(c.get() == p, "it can be used again afterwards");
        p = nullptr;
        Pooled::finalize = nullptr;
        if (vc_case == 2) {
            std::weak_ptr<Pooled> w = c;
            c.reset();
            ENSURES_(!w.lock(), "no weak pointer revives an object that is free");
        }
    }
    ENSURES_(Pooled::live == 0, "the pool deletes its objects");
}
VC_CONTRACT(pool_histories, 2, "enum(random histories of 40 operations, executed)", "awl::object_pool", "an object is handed out once at a time, returns when its last owner goes and is deleted once")
{
    history(40);
}
VC_CONTRACT(pool_singleton, 1, "enum(the common pool, executed)", "awl::make_pooled, clear_pool", "the common pool of a type reuses and deletes its objects")
{
    reset();
    Pooled* p;
    {
        auto a = awl::make_pooled<Pooled>(), b = awl::make_pooled<Pooled>();
        ENSURES(a != b);
        p = a.get();
        b.reset();
        a.reset();
    }
    {
        auto b = awl::make_pooled<Pooled>(), a = awl::make_pooled<Pooled>();
        ENSURES(a != b && (a.get() == p || b.get() == p) && Pooled::live == 2);
    }
    awl::clear_pool<Pooled>();
    ENSURES(Pooled::live == 0);
}
