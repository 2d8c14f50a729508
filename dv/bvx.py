"""Constructors for bit-vector terms that contain products or quotients.

z3's simplifier moves extractions into sums and products, which destroys their arithmetic structure; these constructors
only move bit ranges around (concatenation, extraction, masks, shifts), so that bit-fields and register pairs cancel out.
"""
import z3


def val(e):
    return e.as_long() if z3.is_bv_value(e) else None


def const(v, n):
    return z3.BitVecVal(v, n)


def segs(e):
    """[(lo, width, term)] covering e from bit 0 up; a term of a segment has exactly its width"""
    n = e.size()
    if z3.is_bv_value(e) or not z3.is_app(e):
        return [(0, n, e)]
    d = e.decl().kind()
    if d == z3.Z3_OP_CONCAT:
        out = []
        lo = 0
        for c in reversed(e.children()):
            for l, w, t in segs(c):
                out.append((lo + l, w, t))
            lo += c.size()
        return out
    if d == z3.Z3_OP_ZERO_EXT:
        k = e.arg(0).size()
        return segs(e.arg(0)) + [(k, n - k, const(0, n - k))]
    return [(0, n, e)]


def cut(e, lo, w):
    """bits lo .. lo+w-1 of e, as a list of terms from low to high"""
    out = []
    for l, sw, t in segs(e):
        a, b = max(l, lo), min(l + sw, lo + w)
        if a < b:
            out.append(ext1(t, a - l, b - a))
    return out


def ext1(t, lo, w):
    n = t.size()
    if lo == 0 and w == n:
        return t
    v = val(t)
    if v is not None:
        return const((v >> lo) & ((1 << w) - 1), w)
    if z3.is_app(t):
        d = t.decl().kind()
        if d == z3.Z3_OP_EXTRACT:
            h0, l0 = t.params()
            return ext1(t.arg(0), l0 + lo, w)
        if d == z3.Z3_OP_SIGN_EXT and lo + w <= t.arg(0).size():
            return extract(t.arg(0), lo, w)
        if d in (z3.Z3_OP_CONCAT, z3.Z3_OP_ZERO_EXT):
            return extract(t, lo, w)
        if d == z3.Z3_OP_ITE:
            a, b = extract(t.arg(1), lo, w), extract(t.arg(2), lo, w)
            if a.eq(b):
                return a
            if val(a) is not None and val(b) is not None:
                return z3.If(t.arg(0), a, b)
        if d in (z3.Z3_OP_BOR, z3.Z3_OP_BXOR, z3.Z3_OP_BAND) and t.num_args() == 2:
            a, b = extract(t.arg(0), lo, w), extract(t.arg(1), lo, w)
            for x, y in ((a, b), (b, a)):
                if val(x) == 0:
                    return y if d != z3.Z3_OP_BAND else x
                if val(x) == (1 << w) - 1 and d == z3.Z3_OP_BAND:
                    return y
    return z3.Extract(lo + w - 1, lo, t)


def extract(e, lo, w):
    if lo == 0 and w == e.size():
        return e
    return concat(cut(e, lo, w))


def concat(parts):
    """parts from low to high"""
    out = []
    for p in parts:
        if out:
            q = out[-1]
            a, b = val(q), val(p)
            if a is not None and b is not None:
                out[-1] = const(a | b << q.size(), q.size() + p.size())
                continue
            if a is None and b is None and z3.is_app(p) and z3.is_app(q) and p.decl().kind() == z3.Z3_OP_EXTRACT and q.decl().kind() == z3.Z3_OP_EXTRACT \
                    and p.arg(0).eq(q.arg(0)) and p.params()[1] == q.params()[0] + 1:
                h, l = p.params()[0], q.params()[1]
                x = p.arg(0)
                out[-1] = x if l == 0 and h == x.size() - 1 else z3.Extract(h, l, x)
                continue
            if a is None and b is None and z3.is_app(p) and z3.is_app(q) and p.decl().kind() == z3.Z3_OP_ITE and q.decl().kind() == z3.Z3_OP_ITE \
                    and p.arg(0).eq(q.arg(0)):
                out[-1] = z3.If(p.arg(0), concat([q.arg(1), p.arg(1)]), concat([q.arg(2), p.arg(2)]))
                continue
        out.append(p)
    if len(out) == 1:
        return out[0]
    if val(out[-1]) == 0:
        low = out[0] if len(out) == 2 else z3.Concat(*reversed(out[:-1]))
        return z3.ZeroExt(out[-1].size(), low)
    return z3.Concat(*reversed(out))


def aligned(a, b):
    """common refinement: [(ta, tb)] from low to high"""
    cuts = sorted({l for l, w, _ in segs(a)} | {l for l, w, _ in segs(b)} | {a.size()})
    return [(extract(a, l, h - l), extract(b, l, h - l)) for l, h in zip(cuts, cuts[1:])]


def mask_cuts(v, n):
    """constant -> segments of equal bits"""
    out = []
    i = 0
    while i < n:
        j = i
        while j < n and ((v >> j) & 1) == ((v >> i) & 1):
            j += 1
        out.append((i, j - i, (v >> i) & 1))
        i = j
    return out


def binop(op, x, y):
    n = x.size()
    a, b = val(x), val(y)
    if op == 'and' and (a is not None or b is not None):
        e, m = (y, a) if a is not None else (x, b)
        return concat([extract(e, l, w) if bit else const(0, w) for l, w, bit in mask_cuts(m, n)])
    if op in ('or', 'xor', 'add'):
        if a == 0:
            return y
        if b == 0:
            return x
    if op in ('or', 'xor'):
        if op == 'or' and (a is not None or b is not None):
            e, m = (y, a) if a is not None else (x, b)
            return concat([const((1 << w) - 1, w) if bit else extract(e, l, w) for l, w, bit in mask_cuts(m, n)])
        sx, sy = segs(x), segs(y)
        cuts = sorted({l for l, w, _ in sx} | {l for l, w, _ in sy})
        isconst = lambda sg, l: any(lo <= l < lo + w and val(t) is not None for lo, w, t in sg)
        if not all(isconst(sx, l) or isconst(sy, l) for l in cuts):
            return (x | y) if op == 'or' else (x ^ y)
        parts = aligned(x, y)
        if all(val(p) == 0 or val(q) == 0 for p, q in parts):
            return concat([q if val(p) == 0 else p for p, q in parts])
        return (x | y) if op == 'or' else (x ^ y)
    if op in ('shl', 'lshr') and b is not None:
        if b == 0:
            return x
        if b >= n:
            return const(0, n)
        if op == 'shl':
            return concat([const(0, b)] + cut(x, 0, n - b))
        return concat(cut(x, b, n - b) + [const(0, b)])
    if op == 'mul':
        for p, q in ((a, y), (b, x)):
            if p == 0:
                return const(0, n)
            if p == 1:
                return q
    if op == 'sub' and b == 0:
        return x
    if op == 'udiv' and b == 1:
        return x
    if op == 'udiv' and b is not None and z3.is_app(x) and x.decl().kind() == z3.Z3_OP_BUDIV and val(x.arg(1)) and val(x.arg(1)) * b < (1 << n):
        return z3.UDiv(x.arg(0), const(val(x.arg(1)) * b, n))
    return {'and': lambda: x & y, 'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'shl': lambda: x << y,
            'lshr': lambda: z3.LShR(x, y), 'ashr': lambda: x >> y, 'udiv': lambda: z3.UDiv(x, y), 'urem': lambda: z3.URem(x, y),
            'sdiv': lambda: x / y, 'srem': lambda: z3.SRem(x, y)}[op]()
