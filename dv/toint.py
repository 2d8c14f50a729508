"""Bit-vector formulas -> linear integer arithmetic, with interval analysis to drop the modulo where no wrap can occur."""
import z3


class Bail(Exception):
    pass


class Tr:
    def __init__(self):
        self.vars = {}
        self.side = []
        self.memo = {}
        self.keep = []
        self.ufs = {}
        self.bmemo = {}
        self.nfresh = 0
        self.nodes = 0

    def var(self, e, n):
        nm = e.decl().name()
        if nm not in self.vars:
            v = z3.Int(nm)
            self.vars[nm] = (v, e)
            self.side.append(v >= 0)
            self.side.append(v < (1 << n))
        return self.vars[nm][0]

    def wrap(self, x, lo, hi, n):
        m = 1 << n
        if lo >= 0 and hi < m:
            return x, lo, hi
        if lo >= 0 and hi < 2 * m:
            return z3.If(x >= m, x - m, x), 0, m - 1
        if lo >= -m and hi < m:
            return z3.If(x < 0, x + m, x), 0, m - 1
        return x % m, 0, m - 1

    def t(self, e):
        """-> (Int expr or python int, lo, hi)"""
        i = e.get_id()
        r = self.memo.get(i)
        if r is not None:
            return r
        self.nodes += 1
        if self.nodes > 20000:
            raise Bail('size')
        r = self._t(e)
        if not isinstance(r[0], int) and r[1] == r[2]:
            r = (r[1], r[1], r[1])
        self.memo[i] = r
        self.keep.append(e)
        return r

    def lin(self, e, k, acc, n):
        """accumulate k*e into acc: list of (coef, expr, lo, hi); returns constant"""
        m = 1 << n
        if z3.is_bv_value(e):
            v = e.as_long()
            if v >= m // 2 and k != 0:
                v -= m
            return k * v
        d = e.decl().kind()
        if d == z3.Z3_OP_BADD:
            return sum(self.lin(c, k, acc, n) for c in e.children())
        if d == z3.Z3_OP_BNEG:
            return self.lin(e.arg(0), -k, acc, n)
        if d == z3.Z3_OP_BSUB:
            r = self.lin(e.arg(0), k, acc, n)
            for c in e.children()[1:]:
                r += self.lin(c, -k, acc, n)
            return r
        if d == z3.Z3_OP_BMUL and e.num_args() == 2:
            a, b = e.arg(0), e.arg(1)
            if z3.is_bv_value(b):
                a, b = b, a
            if z3.is_bv_value(a):
                v = a.as_long()
                if v >= m // 2:
                    v -= m
                # a*b where b itself is a sum: only distribute over a negation factor
                if v == -1:
                    return self.lin(b, -k, acc, n)
                x, lo, hi = self.t(b)
                acc.append((k * v, x, lo, hi))
                return 0
        if d == z3.Z3_OP_BNOT:
            # ~x = -x-1
            return self.lin(e.arg(0), -k, acc, n) - k
        x, lo, hi = self.t(e) if acc is not None else (None, 0, 0)
        acc.append((k, x, lo, hi))
        return 0

    def _t(self, e):
        n = e.size()
        m = 1 << n
        if z3.is_bv_value(e):
            v = e.as_long()
            return v, v, v
        if not z3.is_app(e):
            raise Bail('quant')
        d = e.decl().kind()
        ch = e.children()
        if d == z3.Z3_OP_UNINTERPRETED:
            if not ch:
                return self.var(e, n), 0, m - 1
            nm = e.decl().name()
            f = self.ufs.get(nm)
            if f is None:
                f = self.ufs[nm] = z3.Function(nm + '_i', *([z3.IntSort()] * (len(ch) + 1)))
            args = [self.iexpr(self.t(c)[0]) for c in ch]
            a = f(*args)
            self.side.append(a >= 0)
            self.side.append(a < m)
            return a, 0, m - 1
        if d in (z3.Z3_OP_BADD, z3.Z3_OP_BNEG, z3.Z3_OP_BSUB) or (d == z3.Z3_OP_BMUL and len(ch) == 2 and (z3.is_bv_value(ch[0]) or z3.is_bv_value(ch[1]))):
            acc = []
            if d == z3.Z3_OP_BMUL:
                c = ch[0] if z3.is_bv_value(ch[0]) else ch[1]
                b = ch[1] if c is ch[0] else ch[0]
                v = c.as_long()
                vs = v - m if v >= m // 2 else v
                x, lo, hi = self.t(b)
                if hi * v < m:
                    return (self.mulc(x, v), lo * v, hi * v)
                acc = [(vs, x, lo, hi)]
                const = 0
            else:
                const = self.lin(e, 1, acc, n)
            merged = {}
            for k, x, lo, hi in acc:
                if isinstance(x, int):
                    const += k * x
                    continue
                key = x.get_id()
                if key in merged:
                    merged[key] = (merged[key][0] + k, x, lo, hi)
                else:
                    merged[key] = (k, x, lo, hi)
            lo = hi = const
            s = None
            for k, x, l, h in merged.values():
                if k == 0:
                    continue
                lo += min(k * l, k * h)
                hi += max(k * l, k * h)
                t = self.mulc(x, k)
                s = t if s is None else s + t
            if s is None:
                v = const % m
                return v, v, v
            if const:
                s = s + const
            # constants are known modulo 2^n only: choose the representative that avoids wrapping
            if lo < 0 and lo + m >= 0 and hi + m < m:
                return s + m, lo + m, hi + m
            if lo >= m and hi - m < m:
                return s - m, lo - m, hi - m
            return self.wrap(s, lo, hi, n)
        if d == z3.Z3_OP_BMUL:
            if len(ch) == 2:
                k, x, lo, hi = self.smod(e)
                return self.wrap(self.mulc(x, k), min(k * lo, k * hi), max(k * lo, k * hi), n)
            x, lo, hi = self.t(ch[0])
            for c in ch[1:]:
                y, l2, h2 = self.t(c)
                if isinstance(x, int) or isinstance(y, int):
                    x = self.mulc(y, x) if isinstance(x, int) else self.mulc(x, y)
                else:
                    x = x * y
                lo, hi = lo * l2, hi * h2
                x, lo, hi = self.wrap(x, lo, hi, n)
            return x, lo, hi
        if d in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I):
            x, lo, hi = self.t(ch[0])
            y, l2, h2 = self.t(ch[1])
            if not isinstance(y, int):
                x = self.iexpr(x)
                self.nfresh += 1
                q, r = z3.Int('q!%d' % self.nfresh), z3.Int('r!%d' % self.nfresh)
                if l2 == 0:
                    self.side += [z3.Implies(y != 0, z3.And(x == q * y + r, r < y, q <= x)), r >= 0, q >= 0, q < m, z3.Implies(y == 0, z3.And(q == m - 1, r == x))]
                    return (q, 0, m - 1) if d in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I) else (r, 0, hi)
                self.side += [x == q * y + r, r >= 0, r < y, q >= 0, q <= x]
                return (q, 0, hi // max(l2, 1)) if d in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I) else (r, 0, min(hi, h2 - 1))
            if y == 0:
                raise Bail('div by zero')
            x = self.iexpr(x)
            if d in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I):
                return x / y, lo // y, hi // y
            if hi < y:
                return x, lo, hi
            return x % y, 0, y - 1
        if d in (z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I, z3.Z3_OP_BSREM, z3.Z3_OP_BSREM_I):
            y, l2, h2 = self.t(ch[1])
            if not isinstance(y, int) or y == 0:
                raise Bail('sdiv')
            ys = y - m if y >= m // 2 else y
            x, lo, hi = self.signed(ch[0])
            x = self.iexpr(x)
            a = abs(ys)
            if d in (z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I):
                q = z3.If(x >= 0, x / a, -((-x) / a))
                if ys < 0:
                    q = -q
                b = max(abs(lo), abs(hi)) // a
                return self.wrap(q, -b, b, n)
            r = z3.If(x >= 0, x % a, -((-x) % a))
            return self.wrap(r, -(a - 1) if lo < 0 else 0, a - 1, n)
        if d == z3.Z3_OP_CONCAT:
            ch = self.join_extracts(ch)
            if len(ch) == 1:
                return self.t(ch[0])
            s = 0
            lo = hi = 0
            off = 0
            for c in reversed(ch):
                x, l, h = self.t(c)
                s = s + self.mulc(x, 1 << off)
                lo += l << off
                hi += h << off
                off += c.size()
            return s, lo, hi
        if d == z3.Z3_OP_EXTRACT:
            h_, l_ = e.params()
            x, lo, hi = self.t(ch[0])
            if isinstance(x, int):
                v = (x >> l_) & ((1 << (h_ - l_ + 1)) - 1)
                return v, v, v
            if l_:
                x, lo, hi = x / (1 << l_), lo >> l_, hi >> l_
            w = 1 << (h_ - l_ + 1)
            if hi < w:
                return x, lo, hi
            return x % w, 0, w - 1
        if d == z3.Z3_OP_ZERO_EXT:
            return self.t(ch[0])
        if d == z3.Z3_OP_SIGN_EXT:
            x, lo, hi = self.t(ch[0])
            k = ch[0].size()
            h = 1 << (k - 1)
            if hi < h:
                return x, lo, hi
            add = m - (1 << k)
            if lo >= h:
                return x + add, lo + add, hi + add
            return z3.If(x >= h, x + add, x), 0, m - 1
        if d == z3.Z3_OP_BNOT:
            x, lo, hi = self.t(ch[0])
            return (m - 1) - x, m - 1 - hi, m - 1 - lo
        if d == z3.Z3_OP_BAND:
            if len(ch) == 2:
                a, b = ch
                if z3.is_bv_value(b):
                    a, b = b, a
                if z3.is_bv_value(a):
                    return self.mask(b, a.as_long(), n)
            raise Bail('and')
        if d == z3.Z3_OP_BOR:
            # disjoint by known zero bits
            s, lo, hi = self.t(ch[0])
            z = self.known_zero(ch[0])
            for c in ch[1:]:
                kz = self.known_zero(c)
                if (z | kz) != m - 1:
                    raise Bail('or')
                x, l, h = self.t(c)
                s = s + x
                lo, hi = lo + l, hi + h
                z &= kz
            return s, lo, hi
        if d == z3.Z3_OP_BXOR:
            if len(ch) == 2 and n == 1:
                x, _, _ = self.t(ch[0])
                y, _, _ = self.t(ch[1])
                return z3.If(self.iexpr(x) == self.iexpr(y), 0, 1), 0, 1
            raise Bail('xor')
        if d == z3.Z3_OP_BSHL:
            y, l2, h2 = self.t(ch[1])
            if isinstance(y, int):
                if y >= n:
                    return 0, 0, 0
                x, lo, hi = self.t(ch[0])
                if hi << y < m:
                    return self.mulc(x, 1 << y), lo << y, hi << y
                x = self.iexpr(x)
                return (x % (1 << (n - y))) * (1 << y), 0, m - (1 << y)
            raise Bail('shl')
        if d == z3.Z3_OP_BLSHR:
            y, l2, h2 = self.t(ch[1])
            if isinstance(y, int):
                if y >= n:
                    return 0, 0, 0
                x, lo, hi = self.t(ch[0])
                if y == 0:
                    return x, lo, hi
                return self.iexpr(x) / (1 << y), lo >> y, hi >> y
            raise Bail('lshr')
        if d == z3.Z3_OP_BASHR:
            y, l2, h2 = self.t(ch[1])
            if isinstance(y, int) and y < n:
                x, lo, hi = self.signed(ch[0])
                return self.wrap(self.iexpr(x) / (1 << y), lo >> y, hi >> y, n)
            raise Bail('ashr')
        if d == z3.Z3_OP_ITE:
            c = self.b(ch[0])
            x, lo, hi = self.t(ch[1])
            y, l2, h2 = self.t(ch[2])
            return z3.If(c, self.iexpr(x), self.iexpr(y)), min(lo, l2), max(hi, h2)
        raise Bail('op %s' % e.decl().name())

    @staticmethod
    def symdiv(e):
        return z3.is_app(e) and e.decl().kind() in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I) and not z3.is_bv_value(e.arg(1))

    def ledivq(self, k, q, strict):
        """k <= x div y (k < x div y) without the quotient: k*y <= x"""
        x, y = q.arg(0), q.arg(1)
        n = q.size()
        kk = self.iexpr(self.t(k)[0])
        x, y = self.iexpr(self.t(x)[0]), self.iexpr(self.t(y)[0])
        if strict:
            return z3.If(y == 0, kk < (1 << n) - 1, (kk + 1) * y <= x)
        return z3.Or(y == 0, kk * y <= x)

    def join_extracts(self, ch):
        out = []
        for c in ch:
            if out and c.decl().kind() == z3.Z3_OP_EXTRACT and out[-1].decl().kind() == z3.Z3_OP_EXTRACT \
                    and c.arg(0).get_id() == out[-1].arg(0).get_id() and out[-1].params()[1] == c.params()[0] + 1:
                h, l = out[-1].params()[0], c.params()[1]
                e = z3.Extract(h, l, c.arg(0)) if l or h != c.arg(0).size() - 1 else c.arg(0)
                self.keep.append(e)
                out[-1] = e
            else:
                out.append(c)
        return out

    def known_zero(self, e):
        n = e.size()
        m = 1 << n
        if z3.is_bv_value(e):
            return (m - 1) & ~e.as_long()
        d = e.decl().kind()
        if d == z3.Z3_OP_CONCAT:
            z = 0
            for c in e.children():
                z = (z << c.size()) | self.known_zero(c)
            return z
        if d == z3.Z3_OP_ZERO_EXT:
            k = e.arg(0).size()
            return self.known_zero(e.arg(0)) | ((m - 1) & ~((1 << k) - 1))
        if d == z3.Z3_OP_BAND:
            z = 0
            for c in e.children():
                z |= self.known_zero(c)
            return z
        if d == z3.Z3_OP_BOR:
            z = m - 1
            for c in e.children():
                z &= self.known_zero(c)
            return z
        if d == z3.Z3_OP_BSHL and z3.is_bv_value(e.arg(1)):
            k = e.arg(1).as_long()
            return ((self.known_zero(e.arg(0)) << k) | ((1 << k) - 1)) & (m - 1)
        if d == z3.Z3_OP_ITE:
            return self.known_zero(e.arg(1)) & self.known_zero(e.arg(2))
        _, _, hi = self.t(e)
        return (m - 1) & ~((1 << hi.bit_length()) - 1)

    def mask(self, e, k, n):
        x, lo, hi = self.t(e)
        x = self.iexpr(x)
        parts = []
        tot = 0
        i = 0
        while k >> i:
            if (k >> i) & 1:
                j = i
                while (k >> j) & 1:
                    j += 1
                y = x / (1 << i) if i else x
                if hi >> j:
                    y = y % (1 << (j - i))
                parts.append(y * (1 << i) if i else y)
                tot |= ((1 << (j - i)) - 1) << i
                i = j
            else:
                i += 1
        if not parts:
            return 0, 0, 0
        s = parts[0]
        for q in parts[1:]:
            s = s + q
        return s, 0, min(tot, hi)

    @staticmethod
    def mulc(x, k):
        if isinstance(x, int):
            return x * k
        return x if k == 1 else x * k

    @staticmethod
    def iexpr(x):
        return z3.IntVal(x) if isinstance(x, int) else x

    def smod(self, e):
        """(k, x, lo, hi): e == k*x modulo 2^n with k = 1 or -1, and lo <= x <= hi"""
        n = e.size()
        h = 1 << (n - 1)
        d = e.decl().kind()
        if d == z3.Z3_OP_BNEG:
            k, x, lo, hi = self.smod(e.arg(0))
            return -k, x, lo, hi
        if d == z3.Z3_OP_BMUL and e.num_args() == 2:
            a, b = e.arg(0), e.arg(1)
            for c, o in ((a, b), (b, a)):
                if z3.is_bv_value(c) and c.as_long() == 2 * h - 1:
                    k, x, lo, hi = self.smod(o)
                    return -k, x, lo, hi
            if not z3.is_bv_value(a) and not z3.is_bv_value(b):
                k, x, lo, hi = self.smod(a)
                l, y, l2, h2 = self.smod(b)
                ps = [lo * l2, lo * h2, hi * l2, hi * h2]
                return k * l, self.mulc(y, x) if isinstance(x, int) else self.mulc(x, y), min(ps), max(ps)
        if d == z3.Z3_OP_SIGN_EXT:
            i = e.arg(0)
            g = 1 << (i.size() - 1)
            k, x, lo, hi = self.smod(i)
            if -g <= min(k * lo, k * hi) and max(k * lo, k * hi) < g:
                return k, x, lo, hi
        x, lo, hi = self.t(e)
        return 1, x, lo, hi

    def signed(self, e):
        n = e.size()
        h = 1 << (n - 1)
        if z3.is_app(e) and e.decl().kind() in (z3.Z3_OP_BNEG, z3.Z3_OP_BMUL):
            k, x, lo, hi = self.smod(e)
            if not isinstance(x, int):
                lo, hi = min(k * lo, k * hi), max(k * lo, k * hi)
                if -h <= lo and hi < h:
                    return self.mulc(x, k), lo, hi
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_SIGN_EXT:
            return self.signed(e.arg(0))
        x, lo, hi = self.t(e)
        if isinstance(x, int):
            v = x - 2 * h if x >= h else x
            return v, v, v
        if hi < h:
            return x, lo, hi
        if lo >= h:
            return x - 2 * h, lo - 2 * h, hi - 2 * h
        return z3.If(x >= h, x - 2 * h, x), -h, h - 1

    def blist(self, cs):
        """a conjunction; equalities of adjacent slices of one term are joined"""
        out = []
        groups = {}
        for c in cs:
            if z3.is_eq(c) and z3.is_bv(c.arg(0)):
                for a, o in ((c.arg(0), c.arg(1)), (c.arg(1), c.arg(0))):
                    if a.decl().kind() == z3.Z3_OP_EXTRACT:
                        h, l = a.params()
                        groups.setdefault(a.arg(0).get_id(), []).append((l, h, o, a.arg(0), c))
                        break
                else:
                    out.append(c)
            else:
                out.append(c)
        res = [self.b(c) for c in out]
        for g in groups.values():
            g.sort(key=lambda t: t[0])
            i = 0
            while i < len(g):
                j = i
                while j + 1 < len(g) and g[j + 1][0] == g[j][1] + 1:
                    j += 1
                if j == i:
                    res.append(self.b(g[i][4]))
                else:
                    x, lo, hi = self.t(g[i][3])
                    base, top = g[i][0], g[j][1] + 1
                    x = self.iexpr(x)
                    if base:
                        x, hi = x / (1 << base), hi >> base
                    if hi >> (top - base):
                        x = x % (1 << (top - base))
                    y = 0
                    for k in range(i, j + 1):
                        y = y + self.mulc(self.t(g[k][2])[0], 1 << (g[k][0] - base))
                    res.append(x == self.iexpr(y))
                i = j + 1
        return res

    def b(self, e):
        i = e.get_id()
        r = self.bmemo.get(i)
        if r is None:
            r = self.bmemo[i] = self._b(e)
            self.keep.append(e)
        return r

    def _b(self, e):
        if z3.is_true(e) or z3.is_false(e):
            return e
        d = e.decl().kind()
        ch = e.children()
        if d == z3.Z3_OP_AND:
            return z3.And(*self.blist(ch))
        if d == z3.Z3_OP_OR:
            if len(ch) > 1 and all(z3.is_not(c) for c in ch):
                return z3.Not(z3.And(*self.blist([c.arg(0) for c in ch])))
            return z3.Or(*[self.b(c) for c in ch])
        if d == z3.Z3_OP_NOT:
            return z3.Not(self.b(ch[0]))
        if d == z3.Z3_OP_XOR:
            return z3.Xor(self.b(ch[0]), self.b(ch[1]))
        if d == z3.Z3_OP_IMPLIES:
            return z3.Implies(self.b(ch[0]), self.b(ch[1]))
        if d == z3.Z3_OP_ITE:
            return z3.If(self.b(ch[0]), self.b(ch[1]), self.b(ch[2]))
        if d in (z3.Z3_OP_EQ, z3.Z3_OP_IFF, z3.Z3_OP_DISTINCT):
            if z3.is_bool(ch[0]):
                r = self.b(ch[0]) == self.b(ch[1])
            else:
                r = self.iexpr(self.t(ch[0])[0]) == self.iexpr(self.t(ch[1])[0])
            return z3.Not(r) if d == z3.Z3_OP_DISTINCT else r
        if d in (z3.Z3_OP_ULT, z3.Z3_OP_ULEQ, z3.Z3_OP_UGT, z3.Z3_OP_UGEQ):
            l, r = (ch[0], ch[1]) if d in (z3.Z3_OP_ULT, z3.Z3_OP_ULEQ) else (ch[1], ch[0])
            strict = d in (z3.Z3_OP_ULT, z3.Z3_OP_UGT)
            if self.symdiv(r):
                return self.ledivq(l, r, strict)
            if self.symdiv(l):
                return z3.Not(self.ledivq(r, l, not strict))
            x, y = self.iexpr(self.t(ch[0])[0]), self.iexpr(self.t(ch[1])[0])
            return {z3.Z3_OP_ULT: x < y, z3.Z3_OP_ULEQ: x <= y, z3.Z3_OP_UGT: x > y, z3.Z3_OP_UGEQ: x >= y}[d]
        if d in (z3.Z3_OP_SLT, z3.Z3_OP_SLEQ, z3.Z3_OP_SGT, z3.Z3_OP_SGEQ):
            x, y = self.iexpr(self.signed(ch[0])[0]), self.iexpr(self.signed(ch[1])[0])
            return {z3.Z3_OP_SLT: x < y, z3.Z3_OP_SLEQ: x <= y, z3.Z3_OP_SGT: x > y, z3.Z3_OP_SGEQ: x >= y}[d]
        if d == z3.Z3_OP_UNINTERPRETED and not ch:
            return e
        raise Bail('bool op ' + e.decl().name())


def check(cs, timeout):
    """-> ('sat', ModelRef over the original symbols) / 'unsat' / 'unknown'"""
    tr = Tr()
    try:
        fs = tr.blist([d for c in cs for d in (c.children() if z3.is_and(c) else [c])])
    except (Bail, RecursionError):
        return 'bail', None
    s = z3.Solver()
    s.set('timeout', int(timeout * 1000))
    s.add(*tr.side)
    s.add(*fs)
    r = s.check()
    if r == z3.unsat:
        return 'unsat', None
    if r != z3.sat:
        return 'unknown', None
    m = s.model()
    s2 = z3.Solver()
    s2.set('timeout', 8000)
    s2.add(*cs)
    for nm, (v, e) in tr.vars.items():
        s2.add(e == z3.BitVecVal(m.eval(v, model_completion=True).as_long(), e.size()))
    if s2.check() == z3.sat:
        return 'sat', s2.model()
    return 'unknown', None
