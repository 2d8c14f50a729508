// C17: vector_set stays balanced.
// SOURCES:
#include "vset.inc.h"
#include <cmath>
#include <set>

namespace {

int log2_floor(size_t n)
{
    int r = 0;
    while (n > 1) {
        n /= 2;
        ++r;
    }
    return r;
}
// a valid red-black tree with consistent links and counts
void balanced(const Set& s, const Keys& keys)
{
    Walk w;
    walk(w, s.m_root, nullptr, 1);
    ENSURES_(!w.redred, "no red node has a red child, the root is black");
    ENSURES_(w.blacks, "every path has the same number of black nodes");
    ENSURES_(w.keys == keys && w.links && w.counts, "the tree holds the elements in order, with their parents and counts");
    // 2^h <= (n + 1)^2
    size_t n1 = keys.size() + 1;
    ENSURES_((size_t(1) << w.height) <= n1 * n1, "the height is at most 2*log2(n+1)");
}
Keys with(Keys k, int v)
{
    size_t i = 0;
    while (i != k.size() && k[i] < v)
        ++i;
    k.insert(k.begin() + long(i), v);
    return k;
}
Node* node_of(const Set& s, int i)
{
    auto it = s.begin();
    while (i-- != 0)
        ++it;
    return const_cast<Node*>(*it.m_i);
}

} // namespace

VC_CONTRACT(insert_valid, 10, "bounded(every red-black tree of up to 9 nodes, every place)", "vector_set::insert, InsertNode, BalanceAfterInsert, RotateLeft, RotateRight",
            "inserting into a red-black tree gives a red-black tree")
{
    Set s;
    Keys k = any_set(s, vc_case);
    int v = 2 * int(vc_pick(0, uint64_t(vc_case), "place")) + 1;
    if (vc_pick(0, 1, "emplace") != 0)
        s.emplace(v);
    else
        s.insert(v);
    balanced(s, with(k, v));
    vc_cover("inserted");
}

// Known finding: removing a black node without children does not rebalance (a test of the suite relies on the shape that
// results), see known_leaf.  All other removals are under contract.
VC_CONTRACT(erase_valid, 10, "bounded(every red-black tree of up to 9 nodes, every element)", "vector_set::erase, RemoveNode, BalanceAfterRemove, CopyFrom",
            "erasing from a red-black tree gives a red-black tree, unless the node leaving its place is black and has no child")
{
    REQUIRES(vc_case != 0);
    Set s;
    Keys k = any_set(s, vc_case);
    int i = int(vc_pick(0, uint64_t(vc_case - 1), "element"));
    Node* z = node_of(s, i);
    Node* y = z->left && z->right ? node_of(s, i + 1) : z;
    bool leaf = y->color == Color::Black && !y->left && !y->right && vc_case != 1;
    Walk old;
    int bh = walk(old, s.m_root, nullptr, 1);
    s.erase(Set::iterator(Set::List::iterator(z)));
    k.erase(k.begin() + i);
    if (!leaf) {
        balanced(s, k);
        vc_cover("balanced");
    }
    else {
        Walk w;
        walk(w, s.m_root, nullptr, 1);
        ENSURES_(!w.redred, "no red node has a red child, the root is black");
        ENSURES_(w.keys == k && w.links && w.counts, "the tree holds the elements in order, with their parents and counts");
        ENSURES_(w.height <= old.height, "the height does not grow");
        vc_cover("leaf");
    }
    (void)bh;
}
VC_CONTRACT(known_leaf, 1, "enum(one input, executed)", "vector_set::erase, RemoveNode", "after inserting 1, 4, 2, 5, 3, 284 and erasing 1 the tree is balanced")
{
    Set s;
    for (int v : {1, 4, 2, 5, 3, 284})
        s.insert(v);
    s.erase(1);
    balanced(s, {2, 3, 4, 5, 284});
}

// ---- parts of trees of any size ------------------------------------------------------------------------------------------

namespace {

Node* plain(Set& s, int v, Color c, Node* parent)
{
    Node* x = s.CreateNode(v);
    x->parent = parent;
    x->color = c;
    return x;
}
// null or the root of a subtree of any size
Node* maybe(Set& s, Color c, Node* parent, const char* name) { return vc_pick(0, 1, name) != 0 ? stub(s, c, parent) : nullptr; }
size_t size_of(const Node* x) { return x ? x->count + 1 : 0; }
void recount(Node* x) { x->count = size_of(x->left) + size_of(x->right); }

struct Frozen {                                              // a stub: what is behind it must not change
    Node* x;
    size_t count;
    Node *left, *right;
    Color color;
    explicit Frozen(Node* n) : x(n), count(n ? n->count : 0), left(n ? n->left : nullptr), right(n ? n->right : nullptr), color(n ? n->color : Color::Black) { }
    void check(Node* parent, bool recoloured = false) const
    {
        if (x) {
            ENSURES_(x->count == count && x->left == left && x->right == right && (recoloured || x->color == color), "a subtree that moves is not changed");
            ENSURES_(x->parent == parent, "a subtree that moves knows its new parent");
        }
    }
};

} // namespace

// above: the node is the root; a left, a right child of a node whose other parts are opaque
VC_CONTRACT(rotate_left, 3, "proof", "vector_set::RotateLeft", "a left rotation keeps the order, the links and the counts of the subtrees, of any size")
{
    Set s;
    Node* g = vc_case == 0 ? nullptr : plain(s, 0, vc_pick(0, 1, "g red") ? Color::Red : Color::Black, nullptr);
    Node* other = g ? maybe(s, Color::Black, g, "other") : nullptr;
    Node* x = plain(s, 0, Color::Black, g);
    Node* y = plain(s, 0, Color::Red, x);
    Node *a = maybe(s, Color::Black, x, "a"), *b = maybe(s, Color::Black, y, "b"), *c = maybe(s, Color::Black, y, "c");
    y->left = b, y->right = c, recount(y);
    x->left = a, x->right = y, recount(x);
    if (g) {
        (vc_case == 1 ? g->left : g->right) = x;
        (vc_case == 1 ? g->right : g->left) = other;
        recount(g);
        s.m_root = g;
    }
    else
        s.m_root = x;
    size_t total = x->count, gcount = g ? g->count : 0;
    Frozen fa(a), fb(b), fc(c), fo(other);
    s.RotateLeft(x);
    ENSURES_(x->left == a && x->right == b && y->left == x && y->right == c, "the rotation");
    ENSURES_(x->parent == y && y->parent == g, "the parents");
    ENSURES_(s.m_root == (g ? g : y) && (!g || (vc_case == 1 ? g->left == y && g->right == other : g->right == y && g->left == other)), "the link from above");
    ENSURES_(x->count == size_of(a) + size_of(b) && y->count == total, "the counts");
    ENSURES_(!g || g->count == gcount, "the count above");
    fa.check(x), fb.check(x), fc.check(y), fo.check(g);
    s.m_root = nullptr;
}
VC_CONTRACT(rotate_right, 3, "proof", "vector_set::RotateRight", "a right rotation keeps the order, the links and the counts of the subtrees, of any size")
{
    Set s;
    Node* g = vc_case == 0 ? nullptr : plain(s, 0, vc_pick(0, 1, "g red") ? Color::Red : Color::Black, nullptr);
    Node* other = g ? maybe(s, Color::Black, g, "other") : nullptr;
    Node* y = plain(s, 0, Color::Black, g);
    Node* x = plain(s, 0, Color::Red, y);
    Node *a = maybe(s, Color::Black, x, "a"), *b = maybe(s, Color::Black, x, "b"), *c = maybe(s, Color::Black, y, "c");
    x->left = a, x->right = b, recount(x);
    y->left = x, y->right = c, recount(y);
    if (g) {
        (vc_case == 1 ? g->left : g->right) = y;
        (vc_case == 1 ? g->right : g->left) = other;
        recount(g);
        s.m_root = g;
    }
    else
        s.m_root = y;
    size_t total = y->count, gcount = g ? g->count : 0;
    Frozen fa(a), fb(b), fc(c), fo(other);
    s.RotateRight(y);
    ENSURES_(x->left == a && x->right == y && y->left == b && y->right == c, "the rotation");
    ENSURES_(y->parent == x && x->parent == g, "the parents");
    ENSURES_(s.m_root == (g ? g : x) && (!g || (vc_case == 1 ? g->left == x && g->right == other : g->right == x && g->left == other)), "the link from above");
    ENSURES_(y->count == size_of(b) + size_of(c) && x->count == total, "the counts");
    ENSURES_(!g || g->count == gcount, "the count above");
    fa.check(x), fb.check(y), fc.check(y), fo.check(g);
    s.m_root = nullptr;
}

// One round of the repair after an insertion, in a tree of any size: x is red, its parent is red and its grandparent black;
// the subtrees of x, its sibling and its uncle are arbitrary.  case: side of the parent, side of x, uncle (null, black, red)
// and what is above (nothing, a black node on either side).  `bh` is the black height the subtrees of x share.
VC_CONTRACT(insert_round, 36, "proof", "vector_set::BalanceAfterInsert",
            "a round of the repair gives a valid tree, or moves the conflict to the grandparent, whatever the sizes of the subtrees")
{
    bool pleft = vc_case % 2 == 0, xleft = vc_case / 2 % 2 == 0;
    int unc = vc_case / 4 % 3, above = vc_case / 12;
    Set s;
    Node* gg = above == 0 ? nullptr : plain(s, 0, Color::Black, nullptr);
    Node* other = gg ? maybe(s, Color::Black, gg, "other") : nullptr;
    Node* g = plain(s, 0, Color::Black, gg);
    Node* p = plain(s, 0, Color::Red, g);
    Node* x = plain(s, 0, Color::Red, p);
    // all these subtrees have black roots or are empty (then x is a new leaf)
    bool deep = vc_pick(0, 1, "deep") != 0;
    REQUIRES(deep || unc != 1);
    auto sub = [&](Node* par) { return deep ? stub(s, Color::Black, par) : nullptr; };
    Node *xl = sub(x), *xr = sub(x), *ps = sub(p);
    Node* u = unc == 0 ? nullptr : stub(s, unc == 1 ? Color::Black : Color::Red, g);
    REQUIRES(unc != 0 || !deep);
    x->left = xl, x->right = xr, recount(x);
    (xleft ? p->left : p->right) = x;
    (xleft ? p->right : p->left) = ps;
    recount(p);
    (pleft ? g->left : g->right) = p;
    (pleft ? g->right : g->left) = u;
    recount(g);
    if (gg) {
        (above == 1 ? gg->left : gg->right) = g;
        (above == 1 ? gg->right : gg->left) = other;
        recount(gg);
    }
    s.m_root = gg ? gg : g;
    size_t total = g->count;
    Frozen fl(xl), fr(xr), fs(ps), fu(u), fo(other);
    // the subtrees from left to right
    Node* before[4];
    {
        Node* a = pleft ? (xleft ? xl : ps) : u;
        Node* b = pleft ? (xleft ? xr : xl) : (xleft ? xl : ps);
        Node* c = pleft ? (xleft ? ps : xr) : (xleft ? xr : xl);
        Node* d = pleft ? u : (xleft ? ps : xr);
        before[0] = a, before[1] = b, before[2] = c, before[3] = d;
    }
    s.BalanceAfterInsert(x);
    Node* top = gg ? (above == 1 ? gg->left : gg->right) : s.m_root;
    ENSURES_(top && top->parent == gg && top->count == total, "the link from above, the number of nodes");
    ENSURES_(!gg || ((above == 1 ? gg->right : gg->left) == other && gg->parent == nullptr && s.m_root == gg && gg->color == Color::Black), "nothing above changes");
    fo.check(gg);
    if (unc == 2) {                                          // recoloured: the grandparent is red unless it is the root
        ENSURES_(top == g && (pleft ? g->left == p && g->right == u : g->right == p && g->left == u), "the shape is kept");
        ENSURES_((xleft ? p->left == x && p->right == ps : p->right == x && p->left == ps) && x->left == xl && x->right == xr, "the shape is kept");
        ENSURES_(p->parent == g && u->parent == g && x->parent == p, "the parents");
        ENSURES_(p->color == Color::Black && u->color == Color::Black && x->color == Color::Red, "the conflict is resolved");
        ENSURES_(g->color == (gg ? Color::Red : Color::Black), "the black heights are kept");
        fl.check(x), fr.check(x), fs.check(p), fu.check(g, true);
        vc_cover("recoloured");
    }
    else {                                                   // rotated: black over two red nodes over the four subtrees
        Node *l = top->left, *r = top->right;
        ENSURES_(l && r && l->parent == top && r->parent == top, "the shape");
        ENSURES_(top->color == Color::Black && l->color == Color::Red && r->color == Color::Red, "no conflict remains, the black heights are kept");
        ENSURES_(l->left == before[0] && l->right == before[1] && r->left == before[2] && r->right == before[3], "the order of the subtrees is kept");
        Node* order[3] = {pleft ? (xleft ? x : p) : g, pleft ? (xleft ? p : x) : (xleft ? x : p), pleft ? g : (xleft ? p : x)};
        ENSURES_(l == order[0] && top == order[1] && r == order[2], "the order of the nodes is kept");
        ENSURES_(l->count == size_of(l->left) + size_of(l->right) && r->count == size_of(r->left) + size_of(r->right), "the counts");
        for (int i = 0; i != 4; ++i)
            ENSURES_(!before[i] || before[i]->parent == (i < 2 ? l : r), "the parents of the subtrees");
        auto kept = [](const Frozen& f) {
            ENSURES_(!f.x || (f.x->count == f.count && f.x->left == f.left && f.x->right == f.right && f.x->color == f.color), "a subtree that moves is not changed");
        };
        kept(fl), kept(fr), kept(fs), kept(fu);
        vc_cover("rotated");
    }
    s.m_root = nullptr;
}
VC_CONTRACT(insert_done, 3, "proof", "vector_set::BalanceAfterInsert", "if the parent is black, or the node is the root, nothing but the colour of the root changes")
{
    Set s;
    Node* p = vc_case == 0 ? nullptr : plain(s, 0, Color::Black, nullptr);
    Node* x = stub(s, Color::Red, p);
    Node* other = p ? maybe(s, vc_pick(0, 1, "red") ? Color::Red : Color::Black, p, "other") : nullptr;
    if (p) {
        (vc_case == 1 ? p->left : p->right) = x;
        (vc_case == 1 ? p->right : p->left) = other;
        recount(p);
        s.m_root = p;
    }
    else
        s.m_root = x;
    size_t total = p ? p->count : 0;
    Frozen fx(x), fo(other);
    s.BalanceAfterInsert(x);
    fx.check(p, !p);
    fo.check(p);
    ENSURES_(s.m_root == (p ? p : x) && s.m_root->color == Color::Black && (!p || x->color == Color::Red), "the root is black, the node keeps its colour");
    ENSURES_(!p || (p->count == total && (vc_case == 1 ? p->left == x && p->right == other : p->right == x && p->left == other)), "nothing else changes");
    s.m_root = nullptr;
}
VC_CONTRACT(update_count, 9, "proof", "vector_set::Link::UpdateCount, SetLeft, SetRight, SetParent",
            "setting a child updates the counts of all nodes above, for subtrees of any size")
{
    // a chain of three nodes whose other subtrees are arbitrary; the lowest gets a new child
    int sides = vc_case % 3;
    Set s;
    Node* a = plain(s, 0, Color::Black, nullptr);
    Node* b = plain(s, 0, Color::Black, a);
    Node* c = plain(s, 0, Color::Black, b);
    Node *ao = maybe(s, Color::Black, a, "ao"), *bo = maybe(s, Color::Black, b, "bo"), *co = maybe(s, Color::Black, c, "co");
    Node *old = maybe(s, Color::Black, c, "old"), *now = maybe(s, Color::Black, c, "now");
    bool l = sides != 1;
    (l ? a->left : a->right) = b, (l ? a->right : a->left) = ao;
    bool bl = sides != 2;
    (bl ? b->left : b->right) = c, (bl ? b->right : b->left) = bo;
    int op = vc_case / 3;
    (op == 0 ? c->left : c->right) = old;
    (op == 0 ? c->right : c->left) = co;
    recount(c), recount(b), recount(a);
    Frozen fa(ao), fb(bo), fc(co), fn(now);
    if (op == 0)
        c->SetLeft(now);
    else if (op == 1)
        c->SetRight(now);
    else {
        c->right = now;
        if (now)
            now->SetParent(c);
        else
            c->UpdateCount();
    }
    ENSURES_((op == 0 ? c->left : c->right) == now && (op == 0 ? c->right : c->left) == co, "the child");
    ENSURES_(c->count == size_of(now) + size_of(co), "the count of the node");
    ENSURES_(b->count == c->count + 1 + size_of(bo) && a->count == b->count + 1 + size_of(ao), "the counts above");
    fa.check(a), fb.check(b), fc.check(c), fn.check(c);
    ENSURES_(c->GetLeftCount() == size_of(c->left) && c->GetRightCount() == size_of(c->right), "the sizes of the subtrees");
}

// ---- comparisons ---------------------------------------------------------------------------------------------------------

namespace {
struct Counting {
    static inline size_t calls = 0;
    bool operator()(int a, int b) const
    {
        ++calls;
        return a < b;
    }
};
using Counted = awl::vector_set<int, Counting>;
} // namespace

VC_CONTRACT(path_length, 1, "enum(random insertions of up to 2000 elements, executed)", "vector_set::find, lower_bound, insert",
            "a path from the root has at most 2*log2(n+1) nodes, each is compared at most twice")
{
    Counted s;
    unsigned n = unsigned(vc_pick(1, 2000, "n"));
    int mode = int(vc_pick(0, 3, "order"));
    uint32_t rnd = uint32_t(vc_pick(1, 1000000, "seed"));
    for (unsigned i = 0; i != n; ++i) {
        rnd = rnd * 1664525u + 1013904223u;
        int v = mode == 0 ? int(i) : mode == 1 ? -int(i) : mode == 2 ? int(rnd >> 12) : int(i % 2 ? i : 100000 - i);
        s.insert(v);
    }
    int depth = 0;
    while ((1.0 * (depth + 1)) <= 2 * std::log2(double(s.size()) + 1))
        ++depth;
    size_t i = 0;
    for (int v : s) {
        Counting::calls = 0;
        ENSURES_(s.contains(v), "contained");
        ENSURES_(Counting::calls <= size_t(2 * depth), "a lookup compares at most 2*log2(n+1) nodes");
        Counting::calls = 0;
        (void)s.lower_bound(v + 1);
        ENSURES_(Counting::calls <= size_t(2 * depth), "a lookup compares at most 2*log2(n+1) nodes");
        Counting::calls = 0;
        s.insert(v);
        ENSURES_(Counting::calls <= size_t(2 * depth), "an insertion compares at most 2*log2(n+1) nodes");
        ENSURES_(s.index_of(v) == i && s[i] == v, "positions");
        ++i;
    }
    (void)log2_floor;
}
