// Contracts of the separately compiled parts of libstdc++, in executable form (symbolic mode only; part of the trusted base).
// The red-black tree of std::map/std::set is modelled as a plain binary search tree: clients see only its order.
#include <cstddef>
#include <list>
#include <map>
#include <unordered_map>
#include <cwchar>
#include <cwctype>

// <cstring>, <cwchar>
extern "C" int strcmp(const char* a, const char* b) noexcept
{
    for (;; ++a, ++b) {
        unsigned char x = (unsigned char)*a, y = (unsigned char)*b;
        if (x != y)
            return x < y ? -1 : 1;
        if (!x)
            return 0;
    }
}
extern "C" int wcscmp(const wchar_t* a, const wchar_t* b) noexcept
{
    for (;; ++a, ++b) {
        if (*a != *b)
            return *a < *b ? -1 : 1;
        if (!*a)
            return 0;
    }
}
extern "C" int wmemcmp(const wchar_t* a, const wchar_t* b, size_t n) noexcept
{
    for (size_t i = 0; i != n; ++i)
        if (a[i] != b[i])
            return a[i] < b[i] ? -1 : 1;
    return 0;
}
extern "C" wchar_t* wmemset(wchar_t* d, wchar_t c, size_t n) noexcept
{
    for (size_t i = 0; i != n; ++i)
        d[i] = c;
    return d;
}
extern "C" wchar_t* wmemcpy(wchar_t* d, const wchar_t* s, size_t n) noexcept { return (wchar_t*)__builtin_memcpy(d, s, n * sizeof(wchar_t)); }
extern "C" wchar_t* wmemmove(wchar_t* d, const wchar_t* s, size_t n) noexcept { return (wchar_t*)__builtin_memmove(d, s, n * sizeof(wchar_t)); }
extern "C" size_t wcslen(const wchar_t* a) noexcept
{
    size_t n = 0;
    while (a[n])
        ++n;
    return n;
}

// <cwctype> in the "C" locale
extern "C" wint_t towlower(wint_t c) noexcept { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
extern "C" wint_t towupper(wint_t c) noexcept { return c >= 'a' && c <= 'z' ? c - 32 : c; }

namespace std {
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const pos) noexcept
{
    _M_next = pos;
    _M_prev = pos->_M_prev;
    pos->_M_prev->_M_next = this;
    pos->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept
{
    _M_prev->_M_next = _M_next;
    _M_next->_M_prev = _M_prev;
}
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept
{
    if (this == last)
        return;
    last->_M_prev->_M_next = this;
    first->_M_prev->_M_next = last;
    _M_prev->_M_next = first;
    auto* tmp = _M_prev;
    _M_prev = last->_M_prev;
    last->_M_prev = first->_M_prev;
    first->_M_prev = tmp;
}
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept
{
    auto fix = [](_List_node_base& n, _List_node_base* old) {
        if (n._M_next == old)
            n._M_next = n._M_prev = &n;
        else
            n._M_next->_M_prev = n._M_prev->_M_next = &n;
    };
    auto* a = x._M_next;
    auto* b = x._M_prev;
    x._M_next = y._M_next;
    x._M_prev = y._M_prev;
    y._M_next = a;
    y._M_prev = b;
    fix(x, &y);
    fix(y, &x);
}

size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const
{
    return n < 13 ? 13 : n | 1;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const
{
    return elt + ins > bkt ? pair<bool, size_t>{true, (elt + ins) * 2 + 1} : pair<bool, size_t>{false, 0};
}
}

static _Rb_tree_node_base* rb_next(_Rb_tree_node_base* x)
{
    if (x->_M_right) {
        x = x->_M_right;
        while (x->_M_left)
            x = x->_M_left;
        return x;
    }
    auto* y = x->_M_parent;
    while (x == y->_M_right) {
        x = y;
        y = y->_M_parent;
    }
    return x->_M_right != y ? y : x;
}
static _Rb_tree_node_base* rb_prev(_Rb_tree_node_base* x)
{
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x)
        return x->_M_right;
    if (x->_M_left) {
        x = x->_M_left;
        while (x->_M_right)
            x = x->_M_right;
        return x;
    }
    auto* y = x->_M_parent;
    while (x == y->_M_left) {
        x = y;
        y = y->_M_parent;
    }
    return y;
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return rb_next(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return rb_next(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return rb_prev(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return rb_prev(const_cast<_Rb_tree_node_base*>(x)); }

void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw()
{
    x->_M_parent = p;
    x->_M_left = nullptr;
    x->_M_right = nullptr;
    x->_M_color = _S_black;                  // only the header is red
    if (left) {
        p->_M_left = x;                      // also makes leftmost = x when p is the header
        if (p == &h) {
            h._M_parent = x;
            h._M_right = x;
        }
        else if (p == h._M_left)
            h._M_left = x;
    }
    else {
        p->_M_right = x;
        if (p == h._M_right)
            h._M_right = x;
    }
}

_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw()
{
    auto replace = [&](_Rb_tree_node_base* o, _Rb_tree_node_base* n) {
        if (h._M_parent == o)
            h._M_parent = n;
        else if (o->_M_parent->_M_left == o)
            o->_M_parent->_M_left = n;
        else
            o->_M_parent->_M_right = n;
        if (n)
            n->_M_parent = o->_M_parent;
    };
    _Rb_tree_node_base* first = h._M_left;
    _Rb_tree_node_base* last = h._M_right;
    if (first == z)
        first = rb_next(z);                  // the header when z is the only node
    if (last == z)
        last = h._M_left == z ? &h : rb_prev(z);
    if (!z->_M_left)
        replace(z, z->_M_right);
    else if (!z->_M_right)
        replace(z, z->_M_left);
    else {
        auto* y = z->_M_right;
        while (y->_M_left)
            y = y->_M_left;
        if (y->_M_parent != z) {
            replace(y, y->_M_right);
            y->_M_right = z->_M_right;
            y->_M_right->_M_parent = y;
        }
        replace(z, y);
        y->_M_left = z->_M_left;
        y->_M_left->_M_parent = y;
    }
    h._M_left = first;
    h._M_right = last;
    return z;
}
}

// <cwchar> conversions in the "C" locale: ASCII only
extern "C" size_t mbsrtowcs(wchar_t* dst, const char** src, size_t len, mbstate_t*) noexcept
{
    size_t n = 0;
    for (const char* p = *src;; ++p, ++n) {
        if ((unsigned char)*p > 127)
            return size_t(-1);
        if (dst) {
            if (n == len) {
                *src = p;
                return n;
            }
            dst[n] = wchar_t(*p);
        }
        if (!*p) {
            if (dst)
                *src = nullptr;
            return n;
        }
    }
}
extern "C" size_t wcsrtombs(char* dst, const wchar_t** src, size_t len, mbstate_t*) noexcept
{
    size_t n = 0;
    for (const wchar_t* p = *src;; ++p, ++n) {
        if ((unsigned)*p > 127)
            return size_t(-1);
        if (dst) {
            if (n == len) {
                *src = p;
                return n;
            }
            dst[n] = char(*p);
        }
        if (!*p) {
            if (dst)
                *src = nullptr;
            return n;
        }
    }
}

// <cerrno>
extern "C" int* __errno_location() noexcept
{
    static int e;
    return &e;
}

namespace std {
// a hash that depends on the length only: equal keys have equal hashes, and the order of the elements is not relied upon
size_t _Hash_bytes(const void*, size_t len, size_t) { return len; }
}

// the reference counts of shared pointers: the atomic operations are used (sequentially)
extern "C" char __libc_single_threaded = 0;
