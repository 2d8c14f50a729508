// C23: queued updates reach observers once, in order, when processed.
// SOURCES:
// The mutex of the queue is replaced by a stand-in that obeys the contract of a recursive mutex.  While it is not held the
// shared lists of the queue are opaque: touching them without the lock fails an obligation.  Whenever it is free another
// thread may post: since a post takes the lock, posting at the points where the lock is taken and released, and in between
// (within an update), covers every interleaving.
#include "vc.h"
#include <functional>
#include <memory>
#include <mutex>
#include <new>
#include <stdexcept>
#include <string>
#include <vector>

struct vc_lock_state {
    int held = 0;
    std::function<void()> before, after;        // the lock is about to be taken; has been released
    std::function<void(bool)> shared;           // makes the shared data accessible or not
};
static vc_lock_state* vc_lock;                  // nullptr: nothing is observed
namespace std {
template <bool recursive> struct vc_mutex_ {
    int count = 0;
    void lock()
    {
        if (count == 0 && vc_lock && vc_lock->before)
            vc_lock->before();
        vc_assert(recursive || count == 0, "a mutex is not locked twice by one thread");
        if (count++ == 0 && vc_lock) {
            ++vc_lock->held;
            if (vc_lock->shared)
                vc_lock->shared(true);
        }
    }
    bool try_lock()
    {
        lock();
        return true;
    }
    void unlock()
    {
        vc_assert(count > 0, "a mutex that is not locked is not unlocked");
        if (--count == 0 && vc_lock) {
            --vc_lock->held;
            if (vc_lock->shared)
                vc_lock->shared(false);
            if (vc_lock->after)
                vc_lock->after();
        }
    }
    ~vc_mutex_() { vc_assert(count == 0, "a locked mutex is not destroyed"); }
};
using vc_recursive_mutex = vc_mutex_<true>;
using vc_plain_mutex = vc_mutex_<false>;
}
#include "Awl/QuickList.h"
#include "Awl/ScopeGuard.h"
#define recursive_mutex vc_recursive_mutex
#define mutex vc_plain_mutex
#include "Awl/UpdateQueue.h"
#undef recursive_mutex
#undef mutex

namespace {

struct Stop { };
struct Scene {
    std::vector<int>* log;
};
using Queue = awl::UpdateQueue<Scene&, uint32_t>;
using Fwd = awl::quick_link::ForwardLink;
using Bwd = awl::quick_link::BackwardLink;

// hides a list: while the lock is not held, its links are opaque
template <class L> struct Hidden {
    L* l = nullptr;
    Fwd* f = nullptr;
    Bwd* b = nullptr;
    void hide()
    {
        f = l->Null.Fwd::next();
        b = l->Null.Bwd::next();
        l->Null.Fwd::set_next(static_cast<Fwd*>(vc_opaque("shared")));
        l->Null.Bwd::set_next(static_cast<Bwd*>(vc_opaque("shared")));
    }
    void show()
    {
        l->Null.Fwd::set_next(f);
        l->Null.Bwd::set_next(b);
    }
};

struct World {
    std::unique_ptr<Queue> q = std::make_unique<Queue>();
    vc_lock_state lock;
    std::vector<int> pending;                   // expected: posted and not delivered yet
    std::vector<int> current;                   // expected: being delivered
    std::vector<int> log;                       // delivered by the current processing
    std::vector<std::function<void()>> within;  // what an update does when it is delivered
    uint32_t arg = 0;
    int next = 0;
    int others = 0;                             // posts of other threads that may still happen
    bool processing = false;
    bool quiet = false;                         // posting itself: no other thread may come in between

    template <class Q> void watch(Q& q_, int posts)
    {
        others = posts;
        if constexpr (requires { q_.pendingMessages.Null; q_.freeBlocks.Null; }) {
            using L = std::remove_reference_t<decltype(q_.pendingMessages)>;
            auto a = std::make_shared<Hidden<L>>(), b = std::make_shared<Hidden<L>>();
            a->l = &q_.pendingMessages;
            b->l = &q_.freeBlocks;
            lock.shared = [a, b](bool on) {
                if (on)
                    a->show(), b->show();
                else
                    a->hide(), b->hide();
            };
        }
        lock.before = [this] { interfere(); };
        lock.after = [this] { interfere(); };
        vc_lock = &lock;
        if (lock.shared)
            lock.shared(false);
    }
    void unwatch()
    {
        if (lock.shared)
            lock.shared(true);
        ENSURES_(lock.held == 0, "the lock is released");
        vc_lock = nullptr;
    }
    void interfere()
    {
        if (!quiet && others != 0 && vc_pick(0, 1, "another thread posts") != 0) {
            --others;
            post();
        }
    }
    // posting is atomic: the update takes its place when the lock is taken
    void post(std::function<void()> action = nullptr)
    {
        int id = next++;
        within.push_back(std::move(action));
        bool was = quiet;
        quiet = true;
        q->Push([this, id](Scene& s, uint32_t a) { deliver(id, s, a); });
        quiet = was;
        pending.push_back(id);
    }
    void deliver(int id, Scene& s, uint32_t a)
    {
        ENSURES_(processing, "nothing is delivered before the queue is processed");
        ENSURES_(lock.held == 0, "an update is delivered without the lock");
        ENSURES_(s.log == &log && a == arg, "the update gets the arguments of the processing");
        log.push_back(id);
        interfere();
        std::function<void()> action = within[size_t(id)];
        if (action)
            action();
    }
};
// what was posted before the lock was taken is delivered, the rest by the next processing
void process(World& k, bool throws = false)
{
    k.arg = vc_val<uint32_t>("arg");
    Scene s{&k.log};
    k.log.clear();
    std::vector<int> before = k.pending;
    k.processing = true;
    bool threw = vc_throws<Stop>([&] { k.q->ApplyUpdates(s, k.arg); });
    k.processing = false;
    ENSURES_(threw == throws, "exactly an exception of an update reaches the caller");
    // the delivered ones are the first of all those posted so far
    ENSURES_(k.log.size() <= k.pending.size() && std::vector<int>(k.pending.begin(), k.pending.begin() + ptrdiff_t(k.log.size())) == k.log,
             "updates are delivered once, in the order of posting");
    if (!throws)
        ENSURES_(k.log.size() >= before.size(), "every update posted before the processing is delivered");
    // documented: the updates behind one that throws are lost
    size_t gone = throws && k.log.size() < before.size() ? before.size() : k.log.size();
    k.pending.erase(k.pending.begin(), k.pending.begin() + ptrdiff_t(gone));
}
} // namespace

VC_CONTRACT(interleavings, 15, "bounded(up to 4 updates posted before, 3 by other threads at any point)", "awl::UpdateQueue::Push, ApplyUpdates, PrepareData, FreeData",
            "every interleaving of posting and processing: every update is delivered once, in order, by the next processing; shared data are touched only with the lock")
{
    World k;
    int earlier = vc_case % 5, first = vc_case / 5;     // messages in the free list come from an earlier processing
    for (int i = 0; i != first; ++i)
        k.post();
    if (first)
        process(k);
    for (int i = 0; i != earlier; ++i)
        k.post();
    k.watch(*k.q, 3);
    process(k);
    k.others = 0;
    process(k);
    ENSURES_(k.pending.empty(), "nothing is lost");
    process(k);
    ENSURES_(k.log.empty(), "nothing is delivered twice");
    k.unwatch();
}
VC_CONTRACT(reentrant, 9, "bounded(3 updates, each posting or clearing within its delivery)", "awl::UpdateQueue::Push, ClearPending, ApplyUpdates", "posts from within a delivery are delivered by the next processing")
{
    World k;
    k.watch(*k.q, 0);
    int expected = 0;
    for (int i = 0; i != 3; ++i) {
        int a = i == 0 ? vc_case % 3 : i == 1 ? vc_case / 3 : int(vc_pick(0, 2, "action"));
        switch (a) {
        case 0: k.post(); break;
        case 1: k.post([&] { k.post(); }); ++expected; break;
        case 2:
            k.post([&] {
                k.post();
                k.post([&] { k.post(); });
            });
            expected += 2;
            break;
        }
    }
    process(k);
    ENSURES_(k.log.size() == 3 && k.pending.size() == size_t(expected), "exactly the updates posted before are delivered");
    process(k);
    ENSURES_(k.log.size() == size_t(expected), "those posted meanwhile are delivered by the next processing");
    process(k);
    process(k);
    ENSURES_(k.log.empty() && k.pending.empty(), "nothing is lost, nothing is delivered twice");
    k.unwatch();
}
VC_CONTRACT(clearing, 4, "bounded(up to 3 updates)", "awl::UpdateQueue::ClearPending", "cleared updates are not delivered, later ones are")
{
    World k;
    k.post();
    if (vc_pick(0, 1, "processed before"))
        process(k);
    for (int i = 0; i != vc_case; ++i)
        k.post();
    k.watch(*k.q, 0);
    k.q->ClearPending();
    k.pending.clear();
    if (vc_pick(0, 1, "processed"))
        process(k);
    for (int i = 0; i != 3; ++i)
        k.post();
    process(k);
    ENSURES_(k.log.size() == 3, "the later updates are delivered");
    process(k);
    ENSURES_(k.log.empty(), "nothing is delivered twice");
    k.unwatch();
}
VC_CONTRACT(throwing, 6, "bounded(3 updates, one of which throws)", "awl::UpdateQueue::ApplyUpdates, FreeData", "an exception of an update reaches the caller, the queue stays usable, nothing is delivered twice")
{
    World k;
    int bad = vc_case % 3;
    bool posts = vc_case / 3;
    k.watch(*k.q, 0);
    for (int i = 0; i != 3; ++i)
        if (i == bad)
            k.post([&] {
                if (posts)
                    k.post();
                throw Stop();
            });
        else
            k.post();
    process(k, true);
    ENSURES_(k.log.size() == size_t(bad) + 1, "the updates in front of it have been delivered");
    k.post();
    process(k);
    ENSURES_(k.log.size() == size_t(posts) + 1, "those posted meanwhile and later are delivered");
    process(k);
    ENSURES_(k.log.empty(), "nothing is delivered twice");
    k.unwatch();
}
namespace {
// an update whose copies are counted and may fail
struct Counted {
    int* live;
    int* fail;                          // copies until one throws, < 0: none
    std::vector<int>* log;
    int id;
    Counted(int* l, int* f, std::vector<int>* o, int i) : live(l), fail(f), log(o), id(i) { ++*live; }
    Counted(const Counted& c) : live(c.live), fail(c.fail), log(c.log), id(c.id)
    {
        if (*fail >= 0 && (*fail)-- == 0)
            throw Stop();
        ++*live;
    }
    ~Counted() { --*live; }
    void operator()(Scene&, uint32_t) const { log->push_back(id); }
};
} // namespace
VC_CONTRACT(resources, 8, "bounded(up to 4 updates, every failing copy)", "awl::UpdateQueue::Push, ApplyUpdates, ~UpdateQueue", "an update that cannot be posted changes nothing; delivered updates are released, and the rest when the queue is destroyed")
{
    int live = 0, fail = -1;
    std::vector<int> log, expected;
    {
        Queue q;
        Scene s{&log};
        int warm = vc_case % 2;         // with and without recycled messages
        for (int i = 0; i != warm; ++i)
            q.Push(Counted(&live, &fail, &log, 100));
        q.ApplyUpdates(s, 0);
        ENSURES_(live == 0, "delivered updates are released");
        log.clear();
        for (int i = 0; i != 3; ++i) {
            bool failed = false;
            {
                std::function<void(Scene&, uint32_t)> f = Counted(&live, &fail, &log, i);
                if (i == vc_case / 2 % 2 + 1)
                    fail = int(vc_pick(0, 1, "failing copy"));
                failed = vc_throws<Stop>([&] { q.Push(f); });
                fail = -1;
            }
            if (!failed)
                expected.push_back(i);
        }
        ENSURES_(log.empty(), "nothing is delivered before the queue is processed");
        if (vc_case / 4) {
            q.ApplyUpdates(s, 0);
            ENSURES_(log == expected, "exactly the posted updates are delivered");
            ENSURES_(live == 0, "delivered updates are released");
        }
    }
    log.clear(), expected.clear();
    log.shrink_to_fit(), expected.shrink_to_fit();
    ENSURES_(live == 0, "every update is released with its queue");
#ifdef VC_SYMBOLIC
    ENSURES_(vc_live() == 0, "the queue releases its memory");
#endif
}

// posting in a queue of any length: the pending list and the free list are fragments
namespace {
using Message = Queue::Message;
void make(awl::quick_link* null, int shape, awl::quick_link* first, awl::quick_link* last, Fwd* fo, Bwd* bo)
{
    auto link = [](awl::quick_link* a, awl::quick_link* b) {
        a->Fwd::set_next(b);
        b->Bwd::set_next(a);
    };
    if (shape == 0)
        link(null, null);
    else if (shape == 1)
        link(null, first), link(first, null);
    else if (shape == 2)
        link(null, first), link(first, last), link(last, null);
    else {
        link(last, null), link(null, first);
        first->Fwd::set_next(fo);
        last->Bwd::set_next(bo);
    }
}
} // namespace
VC_CONTRACT(push_step, 8, "proof", "awl::UpdateQueue::Push", "the update becomes the last pending one, whatever the lengths of the pending and the free list")
{
    int shape = vc_case % 4, recycled = vc_case / 4;    // recycled: 0: no free message, 1: the first two of any number
    union U {
        Queue q;
        U() { new (&q) Queue(); }
        ~U() { }
    } u;
    auto run = [&](auto& q) {
        if constexpr (requires { q.pendingMessages.Null; q.freeBlocks.Null; }) {
            std::vector<int> log;
            std::function<void(Scene&, uint32_t)> old = [&log](Scene&, uint32_t) { log.push_back(1); };
            Message first(old), last(old), free1(old), free2(old), free3(old);
            awl::quick_link* n = &q.pendingMessages.Null;
            awl::quick_link* e = &q.freeBlocks.Null;
            Fwd* right = static_cast<Fwd*>(vc_opaque("right"));
            Bwd* left = static_cast<Bwd*>(vc_opaque("left"));
            make(n, shape, &first, &last, right, left);
            if (recycled) {
                make(e, 3, &free1, &free2, right, left);
                free1.Fwd::set_next(&free3);
                free3.Bwd::set_next(&free1);
                free3.Fwd::set_next(right);
            }
            uint32_t x = vc_val<uint32_t>("x"), got = 0;
            q.Push([&log, &got, x](Scene&, uint32_t a) {
                log.push_back(2);
                got = a + x;
            });
            awl::quick_link* last_pending = static_cast<awl::quick_link*>(n->Bwd::next());
            Message* m = static_cast<Message*>(last_pending);
            ENSURES_(last_pending->Fwd::next() == n, "the update is the last one");
            awl::quick_link* p = shape == 0 ? n : shape == 1 ? static_cast<awl::quick_link*>(&first) : &last;
            ENSURES_(last_pending->Bwd::next() == p && p->Fwd::next() == last_pending && last_pending != p, "it follows the one that was the last");
            if (shape == 1 || shape == 2)
                ENSURES_(n->Fwd::next() == &first && first.Bwd::next() == n, "the others are where they were");
            if (shape == 2)
                ENSURES_(first.Fwd::next() == &last && last.Bwd::next() == &first, "the others are where they were");
            if (shape == 3)
                ENSURES_(n->Fwd::next() == &first && first.Bwd::next() == n && first.Fwd::next() == right && last.Bwd::next() == left, "the others are where they were");
            if (recycled) {
                ENSURES_(m == &free1 && e->Fwd::next() == &free3 && free3.Bwd::next() == e && free3.Fwd::next() == right && e->Bwd::next() == &free2, "a free message is used again");
            }
            else
                ENSURES_(e->Fwd::next() == e && e->Bwd::next() == e, "no free message appears");
            Scene s{&log};
            uint32_t a = vc_val<uint32_t>("a");
            ENSURES_(log.empty(), "posting delivers nothing");
            m->Func(s, a);
            ENSURES_(log == std::vector<int>{2} && got == a + x, "the message holds the posted update");
        }
    };
    run(u.q);
}
// executed: random histories
VC_CONTRACT(histories, 4, "enum(random histories of 30 operations, executed)", "awl::UpdateQueue", "every update is delivered once, in the order of posting, when the queue is processed")
{
    World k;
    k.watch(*k.q, 1000);
    for (int i = 0; i != 30; ++i)
        switch (vc_pick(0, 5, "op")) {
        case 0: case 1: k.post(); break;
        case 2: {
            int n = int(vc_pick(1, 3, "n"));
            k.post([&k, n] {
                for (int j = 0; j != n; ++j)
                    k.post();
            });
            break;
        }
        case 3:
            k.quiet = true;
            k.q->ClearPending();
            k.quiet = false;
            k.pending.clear();
            break;
        default: process(k); break;
        }
    k.others = 0;
    process(k);
    process(k);
    process(k);
    ENSURES_(k.pending.empty() && k.log.empty(), "nothing is lost");
    k.unwatch();
}
