// Arbitrary states of a vector_set: every red-black tree of a given size, and fragments of trees of any size.
#pragma once
#include "vc.h"
#include "Awl/VectorSet.h"
#include <new>
#include <vector>

using Set = awl::vector_set<int>;
using Node = Set::Node;
using Color = Set::Color;
using Keys = std::vector<int>;

inline int pow4(int e) { return 1 << (2 * e); }
inline bool fits(int n, int bh, bool black)                // is there a red-black tree of n nodes and this black height
{
    int lo = (1 << bh) - 1, hi = black ? (bh ? pow4(bh) / 2 * 2 - 1 : 0) : 2 * pow4(bh) - 1;
    return n >= lo && n <= hi;
}

inline Node* any_tree(Set& s, int n, int bh, bool canRed, Node* parent, int lo)
{
    if (n == 0)
        return nullptr;
    // the possible colours and sizes of the left subtree
    int k = 0;
    for (int red = 0; red <= int(canRed); ++red)
        for (int l = 0; l < n; ++l)
            if (red ? fits(l, bh, true) && fits(n - 1 - l, bh, true) : bh > 0 && fits(l, bh - 1, false) && fits(n - 1 - l, bh - 1, false))
                ++k;
    REQUIRES(k != 0);
    int c = k == 1 ? 0 : int(vc_pick(0, uint64_t(k - 1), "shape"));
    for (int red = 0; red <= int(canRed); ++red)
        for (int l = 0; l < n; ++l)
            if (red ? fits(l, bh, true) && fits(n - 1 - l, bh, true) : bh > 0 && fits(l, bh - 1, false) && fits(n - 1 - l, bh - 1, false))
                if (c-- == 0) {
                    Node* x = s.CreateNode(2 * (lo + l) + 2);
                    x->parent = parent;
                    x->color = red ? Color::Red : Color::Black;
                    x->count = size_t(n - 1);
                    int b = red ? bh : bh - 1;
                    x->left = any_tree(s, l, b, !red, x, lo);
                    x->right = any_tree(s, n - 1 - l, b, !red, x, lo + l + 1);
                    return x;
                }
    return nullptr;
}
// every binary search tree of n nodes in which no red node has a red child
inline Node* any_weak(Set& s, int n, bool canRed, Node* parent, int lo, bool colours)
{
    if (n == 0)
        return nullptr;
    int l = n == 1 ? 0 : int(vc_pick(0, uint64_t(n - 1), "left size"));
    Node* x = s.CreateNode(2 * (lo + l) + 2);
    x->parent = parent;
    x->color = colours && canRed && vc_pick(0, 1, "red") != 0 ? Color::Red : Color::Black;
    x->count = size_t(n - 1);
    x->left = any_weak(s, l, x->color == Color::Black, x, lo, colours);
    x->right = any_weak(s, n - 1 - l, x->color == Color::Black, x, lo + l + 1, colours);
    return x;
}
inline void enlist(Set& s, Node* x)
{
    if (x) {
        enlist(s, x->left);
        s.m_list.push_back(x);
        enlist(s, x->right);
    }
}
// fills s with the keys 2, 4, ..., 2n in any valid tree
inline Keys any_set(Set& s, int n)
{
    int lo = -1, hi = -1;
    for (int bh = 0; bh != 5; ++bh)
        if (fits(n, bh, true)) {
            if (lo < 0)
                lo = bh;
            hi = bh;
        }
    s.m_root = any_tree(s, n, lo == hi ? lo : int(vc_pick(uint64_t(lo), uint64_t(hi), "black height")), false, nullptr, 0);
    enlist(s, s.m_root);
    Keys k;
    for (int i = 0; i != n; ++i)
        k.push_back(2 * i + 2);
    return k;
}

inline Keys any_weak_set(Set& s, int n, bool colours = true)
{
    s.m_root = any_weak(s, n, false, nullptr, 0, colours);
    enlist(s, s.m_root);
    Keys k;
    for (int i = 0; i != n; ++i)
        k.push_back(2 * i + 2);
    return k;
}

// contents, order and counts of the tree
struct Walk {
    Keys keys;
    bool links = true, counts = true, redred = false, blacks = true;
    int height = 0;
};
inline int walk(Walk& w, const Node* x, const Node* parent, int depth)
{
    if (!x)
        return 0;
    if (depth > w.height)
        w.height = depth;
    w.links = w.links && x->parent == parent;
    int l = walk(w, x->left, x, depth + 1);
    w.keys.push_back(x->value);
    int r = walk(w, x->right, x, depth + 1);
    size_t count = (x->left ? x->left->count + 1 : 0) + (x->right ? x->right->count + 1 : 0);
    w.counts = w.counts && x->count == count;
    if (x->color == Color::Red)
        w.redred = w.redred || !parent || parent->color == Color::Red;
    w.blacks = w.blacks && l == r;
    return l + (x->color == Color::Black ? 1 : 0);
}

// ---- fragments of trees of any size --------------------------------------------------------------------------------------

// a node that may be the root of a subtree of any size: its children must not be looked at
inline Node* stub(Set& s, Color c, Node* parent)
{
    Node* x = s.CreateNode(0);
    x->parent = parent;
    x->color = c;
    x->count = vc_any(64, "#count");
    REQUIRES(x->count < (uint64_t(1) << 50));
    x->left = static_cast<Node*>(vc_opaque("left"));
    x->right = static_cast<Node*>(vc_opaque("right"));
    return x;
}
struct Part {
    std::vector<Node*> order;                               // the nodes and stubs in order
    std::vector<Node*> stubs;
    bool is_stub(const Node* x) const
    {
        for (Node* s : stubs)
            if (s == x)
                return true;
        return false;
    }
};
// an arbitrary valid subtree: `depth` levels are explicit, behind them are stubs; bh: black height
inline Node* any_part(Set& s, Part& p, int bh, int depth, bool canRed, Node* parent)
{
    if (bh == 0) {
        if (!canRed || vc_pick(0, 1, "leaf") == 0)
            return nullptr;
        Node* x = s.CreateNode(0);
        x->parent = parent;
        x->color = Color::Red;
        x->count = 0;
        p.order.push_back(x);
        return x;
    }
    bool red = canRed && vc_pick(0, 1, "red") != 0;
    if (depth == 0) {
        Node* x = stub(s, red ? Color::Red : Color::Black, parent);
        p.order.push_back(x);
        p.stubs.push_back(x);
        return x;
    }
    Node* x = s.CreateNode(0);
    x->parent = parent;
    x->color = red ? Color::Red : Color::Black;
    x->left = any_part(s, p, red ? bh : bh - 1, depth - 1, !red, x);
    p.order.push_back(x);
    x->right = any_part(s, p, red ? bh : bh - 1, depth - 1, !red, x);
    x->count = x->GetLeftCount() + x->GetRightCount();
    return x;
}
struct PartWalk {
    std::vector<const Node*> order;
    bool links = true, counts = true, redred = false, blacks = true;
};
// black height of a subtree; stubs have the one they were made with, which is a function of their depth: given by the caller
template <class H> int walk_part(PartWalk& w, const Part& p, const Node* x, const Node* parent, H&& stubHeight)
{
    if (!x)
        return 0;
    w.links = w.links && x->parent == parent;
    if (x->color == Color::Red)
        w.redred = w.redred || (parent && parent->color == Color::Red);
    if (p.is_stub(x)) {
        w.order.push_back(x);
        return stubHeight(x);
    }
    int l = walk_part(w, p, x->left, x, stubHeight);
    w.order.push_back(x);
    int r = walk_part(w, p, x->right, x, stubHeight);
    size_t count = (x->left ? x->left->count + 1 : 0) + (x->right ? x->right->count + 1 : 0);
    w.counts = w.counts && x->count == count;
    w.blacks = w.blacks && l == r;
    return l + (x->color == Color::Black ? 1 : 0);
}
