"""Verification-condition generator: symbolic execution of LLVM IR with full-domain symbolic inputs.

One path = one conjunction of branch conditions (pc).  Every VC is "pc |- condition" and is sent to smt.check.
Nothing is sampled: every branch is followed unless the solver refutes it.
"""
import re
import time
import itertools
import z3
from . import smt, bvx
from .ir import Module, Function, PTR, I64, I32, I8, I1, VOID

SHIFT = 44
OFFM = (1 << SHIFT) - 1
M64 = (1 << 64) - 1


class Unsupported(Exception):
    pass


class PathEnd(Exception):
    """path is over (infeasible / assume false / finished)"""


class Violation(Exception):
    def __init__(self, label, kind, model, detail=''):
        self.label = label
        self.kind = kind
        self.model = model
        self.detail = detail


class Split(Exception):
    """re-execute the current instruction once per value of expr"""

    def __init__(self, expr, values):
        self.expr = expr
        self.values = values


class Budget(Exception):
    pass


class Lin:
    """obj base address + c + sum(coef*term)  (mod 2^64); obj == 0: a plain integer"""
    __slots__ = ('obj', 'c', 'terms')

    def __init__(self, obj, c, terms):
        self.obj = obj
        self.c = c
        self.terms = terms

    def __repr__(self):
        return 'Lin(%d,%d,%s)' % (self.obj, self.c, self.terms)


def mklin(obj, c, terms):
    acc = {}
    for k, t in terms:
        i = t.get_id()
        if i in acc:
            acc[i] = ((acc[i][0] + k) & M64, t)
        else:
            acc[i] = (k & M64, t)
    ts = tuple(v for v in acc.values() if v[0])
    c &= M64
    if not ts:
        return ((obj << SHIFT) + c) & M64
    return Lin(obj, c, ts)


def bv(v, n):
    """to z3 BV of n bits"""
    if isinstance(v, int):
        return z3.BitVecVal(v, n)
    if isinstance(v, Lin):
        e = z3.BitVecVal(((v.obj << SHIFT) + v.c) & M64, 64)
        for k, t in v.terms:
            e = e + (t if k == 1 else z3.BitVecVal(k, 64) * t)
        return z3.simplify(e)
    if z3.is_bool(v):
        return z3.If(v, z3.BitVecVal(1, n), z3.BitVecVal(0, n))
    return v


def boolv(v):
    if isinstance(v, int):
        return z3.BoolVal(bool(v & 1))
    if z3.is_bool(v):
        return v
    if z3.is_bv(v):
        return v == z3.BitVecVal(1, v.size()) if v.size() == 1 else z3.Extract(0, 0, v) == z3.BitVecVal(1, 1)
    raise Unsupported('bool of %r' % (v,))


def simp(e):
    """simplify, return python int when constant"""
    if isinstance(e, (int, Lin)):
        return e
    o = e
    e = z3.simplify(e)
    if z3.is_bool(o) and not z3.is_true(e) and not z3.is_false(e):
        # z3 splits comparisons of products and quotients into comparisons of bit ranges: keep those as written
        return o if smt._is_hard(o) else e
    if z3.is_bv_value(e):
        return e.as_long()
    if z3.is_true(e):
        return 1
    if z3.is_false(e):
        return 0
    return e


def simpb(e):
    r = simp(e)
    return z3.BoolVal(bool(r)) if isinstance(r, int) else r


def isc(v):
    return isinstance(v, int)


# slices of wide values: e.get_id() -> (e, X, lo, w, shift), meaning e == zext(X[lo+w-1 : lo]) << shift.
# They put a value back together that the calling convention or a byte-wise copy took apart.
SLICES = {}


# symbolic floating point values: ('fbits', bits) or ('fp', term, width)
FPFRESH = itertools.count()


def fpsort(n):
    return z3.Float64() if n == 64 else z3.Float32() if n == 32 else None


def fpabs(t):
    """a floating point operation is replaced by a name for its result; smt.check puts the definition back when it matters"""
    t = z3.simplify(t)
    if z3.is_fp_value(t):
        return t
    k = t.get_id()
    r = smt.FPNAMES.get(k)
    if r is None:
        c = z3.FP('fp!%d' % len(smt.FPNAMES), t.sort())
        r = smt.FPNAMES[k] = (c, t)
        smt.FPDEFS[c.decl().name()] = (c, t)
    return r[0]


def fpterm(v, n):
    s = fpsort(n)
    if s is None:
        raise Unsupported('float width')
    if isinstance(v, float):
        return z3.FPVal(v, s)
    if isinstance(v, tuple) and v[0] == 'fp':
        return v[1]
    if isinstance(v, tuple) and v[0] == 'fbits':
        b = v[1]
        if z3.is_app(b) and b.decl().kind() == z3.Z3_OP_FPA_TO_IEEE_BV:
            return b.arg(0)
        return z3.fpBVToFP(b, s)
    raise Unsupported('float value')


def fpbits(v):
    return z3.fpToIEEEBV(v[1]) if v[0] == 'fp' else v[1]


def slice_of(v, lo, w):
    r = SLICES.get(v.get_id())
    if r is not None and r[4] == 0 and lo + w <= r[3]:
        v, lo = r[1], lo + r[2]
    if smt._is_hard(v):
        e = bvx.extract(v, lo, w)
        return e.as_long() if z3.is_bv_value(e) else e
    e = simp(z3.Extract(lo + w - 1, lo, v)) if lo or w != v.size() else v
    if not isc(e):
        SLICES[e.get_id()] = (e, v, lo, w, 0)
    return e


def joined(parts):
    """parts: [(value, width)] least significant first -> the value they are slices of, or None"""
    X = lo = None
    pos = 0
    for v, w in parts:
        if not isc(v) and z3.is_bv(v):
            r = SLICES.get(v.get_id())
            if r is not None and r[4] == 0 and r[3] == w:
                X, lo = r[1], r[2] - pos
                break
        pos += w
    if X is None or lo < 0:
        return None
    pos = lo
    for v, w in parts:
        if pos + w > X.size():
            return None
        if isc(v):
            e = simp(z3.Extract(pos + w - 1, pos, X))
            if not isc(e) or e != v:
                return None
        else:
            r = SLICES.get(v.get_id()) if z3.is_bv(v) else None
            if r is None or r[4] or r[3] != w or r[2] != pos or r[1].get_id() != X.get_id():
                e = simp(z3.Extract(pos + w - 1, pos, X))
                if isc(e) or e.get_id() != v.get_id():
                    return None
        pos += w
    return slice_of(X, lo, pos - lo)


def slice_op(op, a, b, n):
    if op == 'lshr' and isc(b) and b < n and not isc(a):
        r = SLICES.get(a.get_id())
        if r is not None and r[4] == 0:
            if b >= r[3]:
                return 0
            v, lo, w = r[1], r[2] + b, r[3] - b
        else:
            v, lo, w = a, b, n - b
        e = simp(z3.LShR(a, z3.BitVecVal(b, n)))
        if not isc(e):
            SLICES[e.get_id()] = (e, v, lo, w, 0)
        return e
    if op == 'shl' and isc(b) and b < n and not isc(a):
        r = SLICES.get(a.get_id())
        e = simp(a << z3.BitVecVal(b, n))
        if r is not None and r[3] + r[4] + b <= n and not isc(e):
            SLICES[e.get_id()] = (e, r[1], r[2], r[3], r[4] + b)
        return e
    if op in ('or', 'add') and not isc(a) and not isc(b):
        ra, rb = SLICES.get(a.get_id()), SLICES.get(b.get_id())
        if ra is not None and rb is not None:
            if ra[4] > rb[4]:
                ra, rb = rb, ra
            if ra[1].get_id() == rb[1].get_id() and rb[2] == ra[2] + ra[3] and rb[4] == ra[4] + ra[3]:
                w = ra[3] + rb[3]
                e = slice_of(ra[1], ra[2], w)
                if isc(e):
                    return (e << ra[4]) & ((1 << n) - 1)
                if w < n:
                    e = z3.ZeroExt(n - w, e)
                if ra[4]:
                    e = e << z3.BitVecVal(ra[4], n)
                if w < n or ra[4]:
                    e = simp(e)
                    if not isc(e):
                        SLICES[e.get_id()] = (e, ra[1], ra[2], w, ra[4])
                return e
    return None


BINOPS = {'add': lambda x, y: x + y, 'sub': lambda x, y: x - y, 'mul': lambda x, y: x * y, 'and': lambda x, y: x & y, 'or': lambda x, y: x | y,
          'xor': lambda x, y: x ^ y, 'shl': lambda x, y: x << y, 'lshr': z3.LShR, 'ashr': lambda x, y: x >> y, 'udiv': z3.UDiv, 'urem': z3.URem,
          'sdiv': lambda x, y: x / y, 'srem': z3.SRem}


def fits(s, n):
    """the wider signed value s is representable in n bits"""
    w = s.size()
    return z3.And(s <= z3.BitVecVal((1 << (n - 1)) - 1, w), s >= z3.BitVecVal(-(1 << (n - 1)), w))


def tosigned(v, n):
    v &= (1 << n) - 1
    return v - (1 << n) if v >> (n - 1) else v


def termdiv(t, d):
    """t / d if syntactically exact, else None (t: z3 BV64)"""
    if z3.is_bv_value(t):
        v = tosigned(t.as_long(), 64)
        return z3.BitVecVal(v // d, 64) if v % d == 0 else None
    k = t.decl().kind()
    if k == z3.Z3_OP_BMUL:
        ch = t.children()
        for i, x in enumerate(ch):
            if z3.is_bv_value(x):
                q = termdiv(x, d)
                if q is not None:
                    rest = ch[:i] + ch[i + 1:]
                    r = q
                    for y in rest:
                        r = r * y
                    return z3.simplify(r)
        return None
    if k == z3.Z3_OP_BADD:
        qs = [termdiv(x, d) for x in t.children()]
        if any(q is None for q in qs):
            return None
        r = qs[0]
        for q in qs[1:]:
            r = r + q
        return z3.simplify(r)
    if k == z3.Z3_OP_CONCAT:
        ch = t.children()
        last = ch[-1]
        if z3.is_bv_value(last) and last.as_long() == 0 and d & (d - 1) == 0:
            sh = d.bit_length() - 1
            if last.size() >= sh and sh > 0:
                hi = z3.Concat(*ch[:-1]) if len(ch) > 2 else ch[0]
                hi2 = z3.Concat(hi, z3.BitVecVal(0, last.size() - sh)) if last.size() > sh else hi
                return z3.simplify(z3.ZeroExt(64 - hi2.size(), hi2))
        return None
    if k == z3.Z3_OP_ITE:
        c, a, b = t.children()
        qa = termdiv(a, d)
        qb = termdiv(b, d)
        if qa is None or qb is None:
            return None
        return z3.If(c, qa, qb)
    return None


def lindiv(v, d):
    """exact division of an int/Lin/BV value by d -> int/z3 BV64 or None"""
    if d == 1:
        return v if isc(v) else bv(v, 64)
    if isc(v):
        s = tosigned(v, 64)
        return (s // d) & M64 if s % d == 0 else None
    if isinstance(v, Lin):
        if v.obj:
            return None
        c = tosigned(v.c, 64)
        if c % d:
            return None
        e = z3.BitVecVal(c // d, 64)
        for k, t in v.terms:
            ks = tosigned(k, 64)
            if ks % d == 0:
                q = ks // d
                e = e + (t if q == 1 else z3.BitVecVal(q, 64) * t)
            else:
                q = termdiv(z3.simplify(z3.BitVecVal(k, 64) * t), d)
                if q is None:
                    return None
                e = e + q
        return simp(e)
    return termdiv(z3.simplify(v), d)


class SArr:
    """immutable log of updates of a symbolic array (element indices)"""
    __slots__ = ('kind', 'prev', 'a')

    def __init__(self, kind, prev, a):
        self.kind = kind
        self.prev = prev
        self.a = a


def sarr_read(arr, idx, w):
    """-> z3 BV w"""
    idx = bv(idx, 64)
    conds = []
    node = arr
    val = None
    while True:
        if node.kind == 'st':
            i, v = node.a
            d = z3.simplify(idx - i)
            if z3.is_bv_value(d):
                if d.as_long() == 0:
                    val = bv(v, w)
                    break
                node = node.prev
                continue
            conds.append((idx == i, bv(v, w)))
            node = node.prev
        elif node.kind == 'cp':
            start, ln, src, sstart = node.a
            inr = z3.simplify(z3.ULT(idx - start, ln))
            if z3.is_false(inr):
                node = node.prev
                continue
            v = sarr_read(src, z3.simplify(idx - start + sstart), w)
            if z3.is_true(inr):
                val = v
                break
            conds.append((inr, v))
            node = node.prev
        elif node.kind == 'fill':
            start, ln, fn = node.a
            inr = z3.simplify(z3.ULT(idx - start, ln))
            if z3.is_false(inr):
                node = node.prev
                continue
            v = bv(fn(z3.simplify(idx - start)), w)
            if z3.is_true(inr):
                val = v
                break
            conds.append((inr, v))
            node = node.prev
        elif node.kind == 'uf':
            val = node.a[0](idx)
            break
        elif node.kind == 'zero':
            val = z3.BitVecVal(0, w)
            break
        else:
            raise Unsupported('sarr')
    for c, v in reversed(conds):
        val = z3.If(c, v, val)
    return z3.simplify(val)


class Obj:
    __slots__ = ('id', 'size', 'cells', 'default', 'alive', 'const', 'kind', 'name', 'arr', 'es', 'maxn')

    def __init__(self, id, size, kind, name=''):
        self.id = id
        self.size = size
        self.cells = {}
        self.default = None
        self.alive = True
        self.const = False
        self.kind = kind
        self.name = name
        self.arr = None
        self.es = 0
        self.maxn = 1

    def clone(self):
        o = Obj.__new__(Obj)
        o.id = self.id
        o.size = self.size
        o.cells = dict(self.cells)
        o.default = self.default
        o.alive = self.alive
        o.const = self.const
        o.kind = self.kind
        o.name = self.name
        o.arr = self.arr
        o.es = self.es
        o.maxn = self.maxn
        return o


class Frame:
    __slots__ = ('fn', 'loc', 'block', 'insts', 'idx', 'prev', 'call', 'allocas', 'cuts', 'byvals')

    def __init__(self, fn, loc, call):
        self.fn = fn
        self.loc = loc
        self.block = fn.entry
        self.insts = fn.blocks[fn.entry]
        self.block = fn.entry
        self.idx = 0
        self.prev = None
        self.call = call   # the call Inst in the parent
        self.allocas = []
        self.cuts = None

    def clone(self):
        f = Frame.__new__(Frame)
        f.fn = self.fn
        f.loc = dict(self.loc)
        f.block = self.block
        f.insts = self.insts
        f.idx = self.idx
        f.prev = self.prev
        f.call = self.call
        f.allocas = list(self.allocas)
        f.cuts = dict(self.cuts) if self.cuts else None
        return f


class State:
    def __init__(self):
        self.frames = []
        self.mem = {}
        self.owned = set()
        self.pc = []
        self.model = None
        self.draws = []
        self.concr = {}
        self.caught = []       # stack of exception addresses
        self.exc_in_flight = None
        self.excinfo = {}      # addr -> typeinfo name
        self.nextobj = 0
        self.covers = set()
        self.trace = []
        self.ghost = {}
        self.depth = 0
        self.kill = False

    def clone(self):
        s = State.__new__(State)
        s.frames = [f.clone() for f in self.frames]
        s.mem = dict(self.mem)
        s.owned = set()
        self.owned = set()
        s.pc = list(self.pc)
        s.model = self.model
        s.draws = list(self.draws)
        s.concr = dict(self.concr)
        s.caught = list(self.caught)
        s.exc_in_flight = self.exc_in_flight
        s.excinfo = dict(self.excinfo)
        s.nextobj = self.nextobj
        s.covers = self.covers
        s.trace = list(self.trace)
        s.ghost = dict(self.ghost)
        s.depth = self.depth
        s.kill = False
        return s


STD_BASES = {
    '@_ZTISt9exception': None,
    '@_ZTISt11logic_error': '@_ZTISt9exception', '@_ZTISt12out_of_range': '@_ZTISt11logic_error',
    '@_ZTISt16invalid_argument': '@_ZTISt11logic_error', '@_ZTISt12length_error': '@_ZTISt11logic_error',
    '@_ZTISt12domain_error': '@_ZTISt11logic_error',
    '@_ZTISt13runtime_error': '@_ZTISt9exception', '@_ZTISt11range_error': '@_ZTISt13runtime_error',
    '@_ZTISt14overflow_error': '@_ZTISt13runtime_error', '@_ZTISt15underflow_error': '@_ZTISt13runtime_error',
    '@_ZTISt9bad_alloc': '@_ZTISt9exception', '@_ZTISt20bad_array_new_length': '@_ZTISt9bad_alloc',
    '@_ZTISt8bad_cast': '@_ZTISt9exception', '@_ZTISt10bad_typeid': '@_ZTISt9exception',
    '@_ZTISt17bad_function_call': '@_ZTISt9exception', '@_ZTISt18bad_variant_access': '@_ZTISt9exception',
    '@_ZTISt19bad_optional_access': '@_ZTISt9exception',
}
STD_THROWERS = {
    '_ZSt20__throw_length_errorPKc': '@_ZTISt12length_error',
    '_ZSt20__throw_out_of_rangePKc': '@_ZTISt12out_of_range',
    '_ZSt24__throw_out_of_range_fmtPKcz': '@_ZTISt12out_of_range',
    '_ZSt19__throw_logic_errorPKc': '@_ZTISt11logic_error',
    '_ZSt24__throw_invalid_argumentPKc': '@_ZTISt16invalid_argument',
    '_ZSt20__throw_out_of_rangePKc': '@_ZTISt12out_of_range',
    '_ZSt21__throw_runtime_errorPKc': '@_ZTISt13runtime_error',
    '_ZSt22__throw_overflow_errorPKc': '@_ZTISt14overflow_error',
    '_ZSt17__throw_bad_allocv': '@_ZTISt9bad_alloc',
    '_ZSt28__throw_bad_array_new_lengthv': '@_ZTISt20bad_array_new_length',
    '_ZSt16__throw_bad_castv': '@_ZTISt8bad_cast',
    '_ZSt25__throw_bad_function_callv': '@_ZTISt17bad_function_call',
    '_ZSt26__throw_bad_variant_accessPKc': '@_ZTISt18bad_variant_access',
    '_ZSt27__throw_bad_optional_accessv': '@_ZTISt19bad_optional_access',
}


class PModel:
    """a model composed of a model for the symbols vs and another one for all other symbols"""
    def __init__(self, ex, m, vs, rest):
        self.ex, self.m, self.vs, self.rest, self.flat = ex, m, vs, rest, None

    def value(self, i, x):
        m = self
        while isinstance(m, PModel):
            if i in m.vs:
                m = m.m
            else:
                m = m.rest
        return m.eval(x, model_completion=True)

    def eval(self, e, model_completion=True):
        vs = self.ex.tvars(e)
        if vs is None:
            raise z3.Z3Exception('partial model')
        m = self
        while isinstance(m, PModel):
            if vs <= m.vs:
                m = m.m
            elif not (vs & m.vs):
                m = m.rest
            else:
                sub = []
                for i in vs:
                    x = self.ex.varcache[i][1]
                    sub.append((x, m.value(i, x)))
                return z3.simplify(z3.substitute(e, *sub))
        return m.eval(e, model_completion=True)


class Executor:
    def __init__(self, mod, opts=None):
        self.m = mod
        self.opts = opts or {}
        self.base_mem = {}
        self.next_static = 1
        self.gaddr = {}
        self.faddr = {}
        self.addrf = {}
        self.tidx = {}
        self.fresh = 0
        self.vcs = {}           # label -> [instances, discharged, time]
        self.undecided = []
        self.violations = []
        self.covers = {}
        self.paths = 0
        self.steps = 0
        self.functions = {}
        self.opaque_called = {}
        self.assumes = 0
        self.deadline = None
        self.ub = self.opts.get('ub', True)
        self.timeout = self.opts.get('timeout', 20.0)
        self.max_viol = self.opts.get('max_viol', 3)
        self.loopinfo = {}
        self.worklist = []
        self.varcache = {}
        self.qcache = {}

    # ---- objects -----------------------------------------------------------
    def new_obj(self, st, size, kind, name=''):
        i = st.nextobj
        st.nextobj += 1
        o = Obj(i, size, kind, name)
        st.mem[i] = o
        st.owned.add(i)
        return o

    def wobj(self, st, oid):
        o = st.mem[oid]
        if oid not in st.owned:
            o = o.clone()
            st.mem[oid] = o
            st.owned.add(oid)
        return o

    def setup(self):
        """static memory: globals and functions"""
        st = State()
        st.nextobj = 1
        for g in self.m.globals.values():
            try:
                sz = self.m.size(g.ty)
            except Exception:
                sz = 64
            o = self.new_obj(st, sz, 'global', g.name)
            o.const = g.const
            self.gaddr[g.name] = o.id << SHIFT
            if g.external:
                o.kind = 'extern'
        for f in self.m.funcs.values():
            o = self.new_obj(st, 0, 'func', f.name)
            a = o.id << SHIFT
            self.faddr[f.name] = a
            self.addrf[a] = f
        self.st0 = st
        for g in self.m.globals.values():
            if g.init is not None:
                o = st.mem[self.gaddr[g.name] >> SHIFT]
                self.init_const(st, o, 0, g.ty, g.init)
        return st

    def init_const(self, st, o, off, ty, v):
        ty = self.m.resolve(ty)
        k = v[0]
        if k in ('zero', 'null') and ty[0] in ('arr', 'st'):
            n = self.m.size(ty)
            if off == 0 and n == o.size:
                o.default = 0
            else:
                for i in range(n):
                    o.cells[off + i] = (1, 0)
            return
        if k == 'undef':
            n = self.m.size(ty)
            for i in range(n):
                o.cells[off + i] = (1, 0)
            return
        if k == 'cstr':
            for i, b in enumerate(v[1]):
                o.cells[off + i] = (1, b)
            return
        if k == 'agg':
            if ty[0] == 'arr':
                es = self.m.size(ty[2])
                for i, (et, ev) in enumerate(v[1]):
                    self.init_const(st, o, off + i * es, et, ev)
            else:
                offs, _ = self.m.layout(ty)
                for i, (et, ev) in enumerate(v[1]):
                    self.init_const(st, o, off + offs[i], et, ev)
            return
        val = self.const(st, ty, v)
        n = self.m.size(ty)
        o.cells[off] = (n, val)
        o.maxn = max(o.maxn, n)

    # ---- constants ---------------------------------------------------------
    def sym_addr(self, name):
        if name in self.m.aliases:
            return self.const(None, PTR, self.m.aliases[name])
        if name in self.gaddr:
            return self.gaddr[name]
        if name in self.faddr:
            return self.faddr[name]
        raise Unsupported('symbol ' + name)

    def const(self, st, ty, v):
        k = v[0]
        if k == 'int':
            n = ty[1] if ty[0] == 'i' else 64
            return v[1] & ((1 << n) - 1)
        if k == 'null':
            return 0
        if k == 'glob':
            return self.sym_addr(v[1])
        if k == 'zero':
            ty = self.m.resolve(ty)
            if ty[0] == 'arr':
                return [self.const(st, ty[2], v) for _ in range(ty[1])]
            if ty[0] == 'st':
                return [self.const(st, f, v) for f in ty[1]]
            if ty[0] == 'f':
                return 0.0
            return 0
        if k == 'undef':
            ty = self.m.resolve(ty)
            if ty[0] == 'arr':
                return [self.const(st, ty[2], v) for _ in range(ty[1])]
            if ty[0] == 'st':
                return [self.const(st, f, v) for f in ty[1]]
            return 0
        if k == 'flt':
            t = v[1]
            if t.startswith('0x'):
                import struct
                if t[2] in 'KLMHR':
                    raise Unsupported('x86 fp const')
                return struct.unpack('>d', bytes.fromhex(t[2:].rjust(16, '0')))[0]
            return float(t)
        if k == 'gep':
            ops = v[2]
            base = self.const(st, PTR, ops[0][1])
            return self.gep(st, v[1], base, [(t, self.const(st, t, x)) for t, x in ops[1:]])
        if k == 'cast':
            return self.cast(st, v[1], v[2], self.const(st, v[2], v[3]), v[4])
        if k == 'bin':
            return self.binop(st, v[1], v[2], self.const(st, v[2], v[3]), self.const(st, v[2], v[4]), ())
        if k == 'cicmp':
            return self.icmp(st, v[1], v[2], self.const(st, v[2], v[3]), self.const(st, v[2], v[4]))
        if k == 'agg':
            return [self.const(st, t, x) for t, x in v[1]]
        if k == 'cstr':
            return list(v[1])
        raise Unsupported('const ' + str(v))

    def ev(self, st, ty, v):
        if v[0] == 'loc':
            return st.frames[-1].loc[v[1]]
        return self.const(st, ty, v)

    # ---- symbolic helpers -----------------------------------------------------
    def freshvar(self, n, name='u'):
        self.fresh += 1
        return z3.BitVec('%s!%d' % (name, self.fresh), n)

    def tvars(self, e):
        """ids of the free symbols of a term; None when it contains an uninterpreted function or a quantifier"""
        i = e.get_id()
        r = self.varcache.get(i)
        if r is not None:
            return r[0]
        todo = [e]
        while todo:
            x = todo[-1]
            j = x.get_id()
            if j in self.varcache:
                todo.pop()
                continue
            if not z3.is_app(x):
                self.varcache[j] = (None, x)
                todo.pop()
                continue
            ch = x.children()
            if not ch:
                v = frozenset([j]) if x.decl().kind() == z3.Z3_OP_UNINTERPRETED else frozenset()
                self.varcache[j] = (v, x)
                todo.pop()
                continue
            miss = [c for c in ch if c.get_id() not in self.varcache]
            if miss:
                todo.extend(miss)
                continue
            todo.pop()
            vs = [self.varcache[c.get_id()][0] for c in ch]
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED or any(v is None for v in vs) or z3.is_array(x):
                self.varcache[j] = (None, x)
            elif len(vs) == 1:
                self.varcache[j] = (vs[0], x)
            else:
                self.varcache[j] = (frozenset().union(*vs), x)
        return self.varcache[i][0]

    def query(self, st, conds, timeout, quick=False):
        """satisfiability of pc /\\ conds, restricted to the constraints that share symbols with conds; results are cached.
        The path condition itself is satisfiable (st.model is a witness)."""
        pc = st.pc
        sliced = None
        if st.model is not None:
            vs = set()
            for c in conds:
                v = self.tvars(c)
                if v is None:
                    vs = None
                    break
                vs |= v
            if vs is not None:
                pend = []
                sliced = []
                for c in pc:
                    v = self.tvars(c)
                    if v is None:
                        sliced = None
                        break
                    pend.append((c, v))
                if sliced is not None:
                    change = True
                    while change and pend:
                        change = False
                        rest = []
                        for c, v in pend:
                            if v & vs:
                                sliced.append(c)
                                if not v <= vs:
                                    vs |= v
                                    change = True
                            else:
                                rest.append((c, v))
                        pend = rest
        if sliced is None:
            return smt.check(pc + conds, timeout=timeout, quick=quick)
        qs = sliced + conds
        key = frozenset(c.get_id() for c in qs)
        hit = self.qcache.get(key)
        if hit is None:
            r, m = smt.check(qs, timeout=timeout, quick=quick)
            if r != 'unknown':
                self.qcache[key] = (r, m, qs)
        else:
            r, m = hit[0], hit[1]
        if r != 'sat' or len(sliced) == len(pc):
            return r, m
        return r, self.merge(st, m, vs)

    def merge(self, st, m, vs):
        """the model m for the symbols vs, st.model for all others"""
        return PModel(self, m, vs, st.model)

    def feas(self, st, cond):
        """is pc /\\ cond satisfiable?  returns (bool, model or None); unknown counts as satisfiable"""
        if st.model is not None:
            try:
                if z3.is_true(st.model.eval(cond, model_completion=True)):
                    return True, st.model
            except z3.Z3Exception:
                pass
        r, m = self.query(st, [cond], self.opts.get('ftimeout', 3.0), True)
        if r == 'unsat':
            return False, None
        return True, m

    def assume(self, st, cond):
        if isc(cond):
            if not (cond & 1):
                raise PathEnd('assume false')
            return
        c = simpb(boolv(cond))
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise PathEnd('assume false')
        ok, m = self.feas(st, c)
        if not ok:
            raise PathEnd('assume infeasible')
        st.pc.append(c)
        st.model = m

    def oblige(self, st, cond, label, kind, detail=''):
        """VC: pc |- cond"""
        rec = self.vcs.setdefault((label, kind), [0, 0, 0.0])
        rec[0] += 1
        if isc(cond):
            c = z3.BoolVal(bool(cond & 1))
        else:
            c = simpb(boolv(cond))
        if z3.is_true(c):
            rec[1] += 1
            return True
        t = time.time()
        neg = simpb(z3.Not(c))
        r, m = 'unknown', None
        if st.model is not None:
            try:
                if z3.is_true(st.model.eval(neg, model_completion=True)):
                    r, m = 'sat', st.model
            except z3.Z3Exception:
                pass
        if r == 'unknown':
            r, m = self.query(st, [neg], self.timeout)
        rec[2] += time.time() - t
        if r == 'unsat':
            rec[1] += 1
            return True
        if r == 'sat':
            m = self.small_model(st, neg, m)
            raise Violation(label, kind, m, detail)
        self.undecided.append((label, kind, 'solver returned unknown'))
        # continue as if it held: the obligation stays undischarged
        st.pc.append(c)
        return False

    def small_model(self, st, neg, m):
        """prefer a model whose size-like draws are small, so that it can be replayed"""
        hints = [e for (nm, bits, e) in st.draws if nm.startswith('#') and not isc(e)]
        if not hints:
            return m
        for lim in (4, 8, 16, 64, 1024):
            r, mm = smt.check(st.pc + [neg] + [z3.ULE(h, z3.BitVecVal(lim, h.size())) for h in hints if h.size() > 11 or lim < (1 << h.size())], timeout=5,
                              quick=True)
            if r == 'sat':
                return mm
        return m

    def values(self, st, e, limit):
        """all feasible values of e (BV)"""
        vals = []
        extra = []
        while True:
            v = None
            if st.model is not None and not vals:
                try:
                    mv = st.model.eval(e, model_completion=True)
                    if z3.is_bv_value(mv):
                        v = mv.as_long()
                except z3.Z3Exception:
                    pass
            if v is None:
                r, m = self.query(st, extra, 10) if extra else smt.check(st.pc, timeout=10)
                if r == 'unsat':
                    return vals
                if r == 'unknown':
                    raise Unsupported('cannot enumerate values of an expression')
                v = m.eval(e, model_completion=True).as_long()
            vals.append(v)
            extra.append(e != z3.BitVecVal(v, e.size()))
            if len(vals) > limit:
                raise Unsupported('more than %d values for an expression that must be concrete' % limit)

    def concretize(self, st, e, limit=300):
        """int value of e on this path; forks when there are several"""
        if isc(e):
            return e
        if isinstance(e, Lin):
            e = bv(e, 64)
        e = simp(e)
        if isc(e):
            return e
        if z3.is_bool(e):
            e = bv(e, 1)
        c = st.concr.get(e.get_id())
        if c is not None:
            return c[0]
        vals = self.values(st, e, limit)
        if not vals:
            raise PathEnd('infeasible')
        if len(vals) == 1:
            st.concr[e.get_id()] = (vals[0], e)
            return vals[0]
        raise Split(e, vals)

    # ---- memory ----------------------------------------------------------------
    def resolve_ptr(self, st, p):
        """-> (objid, off) off: int | Lin-with-obj-0 """
        if isc(p):
            return p >> SHIFT, p & OFFM
        if isinstance(p, Lin):
            if p.obj:
                return p.obj, mklin(0, p.c, p.terms)
            p = bv(p, 64)
        # general symbolic pointer
        c = st.concr.get(p.get_id())
        if c is not None:
            return c[0] >> SHIFT, c[0] & OFFM
        v = self.concretize(st, p, 64)
        return v >> SHIFT, v & OFFM

    def check_access(self, st, oid, off, n, what):
        o = st.mem.get(oid)
        if o is None or oid == 0:
            if oid == 0:
                self.viol_now(st, 'memory: null or invalid pointer dereference (%s)' % what)
            self.viol_now(st, 'memory: wild pointer dereference (%s)' % what)
        if not o.alive:
            self.viol_now(st, 'memory: use after free/scope of %s (%s)' % (o.name, what))
        if o.kind == 'func':
            self.viol_now(st, 'memory: data access to function (%s)' % what)
        if isc(off) and isc(o.size):
            if off + n > o.size:
                self.viol_now(st, 'memory: out-of-bounds access to %s offset %d size %d (%s)' % (o.name, off, o.size, what))
            return o
        # symbolic bound
        if o.es and not isc(o.size):
            idx = lindiv(off, o.es)
            cnt = lindiv(o.size, o.es)
            if idx is not None and cnt is not None and n == o.es:
                self.oblige(st, z3.ULT(bv(idx, 64), bv(cnt, 64)), 'memory safety', 'memory', 'out-of-bounds index into %s (%s)' % (o.name, what))
                return o
        offb = bv(off, 64)
        szb = bv(o.size, 64)
        self.oblige(st, z3.And(z3.ULE(offb, szb), z3.ULE(z3.BitVecVal(n, 64), szb - offb)), 'memory safety', 'memory',
                    'out-of-bounds access to %s (%s)' % (o.name, what))
        return o

    def viol_now(self, st, detail, label='memory safety', kind='memory'):
        rec = self.vcs.setdefault((label, kind), [0, 0, 0.0])
        rec[0] += 1
        m = st.model
        if m is None or True:
            r, m = smt.check(st.pc, timeout=10)
            if r == 'unsat':
                rec[1] += 1
                raise PathEnd('infeasible')
            if r == 'unknown':
                self.undecided.append((label, kind, detail))
                raise PathEnd('undecided')
        m = self.small_model(st, z3.BoolVal(True), m)
        raise Violation(label, kind, m, detail)

    def load(self, st, p, ty):
        ty = self.m.resolve(ty)
        if ty[0] == 'arr':
            es = self.m.size(ty[2])
            return [self.load(st, self.padd(p, i * es), ty[2]) for i in range(ty[1])]
        if ty[0] == 'st':
            offs, _ = self.m.layout(ty)
            return [self.load(st, self.padd(p, offs[i]), f) for i, f in enumerate(ty[1])]
        n = self.m.size(ty) if ty[0] != 'i' else (ty[1] + 7) // 8
        oid, off = self.resolve_ptr(st, p)
        o = self.check_access(st, oid, off, n, 'load')
        if not isc(off) and o.arr is None:
            v = self.table_load(o, off, n) if o.const and isc(o.size) and o.size >= 128 * n else None
            if v is not None:
                return self.totype(v, ty, n)
            if isc(o.size) and not (o.const is False and o.size > 4096):
                off = self.concretize(st, off)
            else:
                raise Unsupported('symbolic offset into %s' % o.name)
        if o.arr is not None or not isc(o.size):
            v = self.arr_load(st, oid, off, n)
        else:
            v = self.read(st, o, off, n)
        return self.totype(v, ty, n)

    def table_load(self, o, off, n):
        """element of a large constant table at a symbolic index: a multiplexer over the bits of the index"""
        idx = lindiv(off, n)
        if idx is None or o.size % n:
            return None
        cnt = o.size // n
        if cnt & (cnt - 1) or cnt > 4096:
            return None
        vals = []
        for i in range(cnt):
            c = o.cells.get(i * n)
            if c is None or c[0] != n or not isc(c[1]):
                return None
            vals.append(z3.BitVecVal(c[1], 8 * n))
        idx = simp(bv(idx, 64))
        if isc(idx):
            return vals[idx].as_long()
        b = 0
        while len(vals) > 1:
            c = z3.Extract(b, b, idx) == z3.BitVecVal(1, 1)
            vals = [lo if lo.eq(hi) else z3.If(c, hi, lo) for lo, hi in zip(vals[::2], vals[1::2])]
            b += 1
        return vals[0]

    def totype(self, v, ty, n):
        if ty[0] == 'i':
            if ty[1] == n * 8:
                if isinstance(v, float):
                    raise Unsupported('float bits')
                return v
            if isc(v):
                return v & ((1 << ty[1]) - 1)
            if isinstance(v, Lin):
                v = bv(v, 64)
            if ty[1] == 1:
                return simp(z3.Extract(0, 0, v) == z3.BitVecVal(1, 1))
            return slice_of(v, 0, ty[1])
        if ty[0] == 'ptr':
            if isc(v) or isinstance(v, Lin):
                return v
            return v
        if ty[0] == 'f':
            if isinstance(v, float):
                return v
            if isc(v):
                import struct
                if n == 8:
                    return struct.unpack('<d', v.to_bytes(8, 'little'))[0]
                if n == 4:
                    return struct.unpack('<f', v.to_bytes(4, 'little'))[0]
            return v if isinstance(v, tuple) else ('fbits', v)
        raise Unsupported('load type ' + str(ty))

    def arr_obj(self, st, oid, n):
        o = self.wobj(st, oid)
        if o.arr is None:
            o.es = n
            self.fresh += 1
            f = z3.Function('mem!%d' % self.fresh, z3.BitVecSort(64), z3.BitVecSort(8 * n))
            o.arr = SArr('zero', None, ()) if o.default == 0 else SArr('uf', None, (f,))
        return o

    def arr_load(self, st, oid, off, n):
        o = self.arr_obj(st, oid, n)
        if n == o.es:
            idx = lindiv(off, o.es)
            if idx is None:
                raise Unsupported('unaligned access to symbolic array')
            return simp(sarr_read(o.arr, idx, 8 * n))
        if n > o.es and n % o.es == 0:
            idx = lindiv(off, o.es)
            if idx is None:
                raise Unsupported('unaligned access to symbolic array')
            parts = [bv(sarr_read(o.arr, bv(idx, 64) + k, 8 * o.es), 8 * o.es) for k in range(n // o.es)]
            return simp(z3.Concat(*reversed(parts)))
        raise Unsupported('access of %d bytes to symbolic array of %d' % (n, o.es))

    def arr_store(self, st, oid, off, n, v):
        o = self.arr_obj(st, oid, n)
        if isinstance(v, float) or isinstance(v, tuple):
            raise Unsupported('float in symbolic array')
        if n == o.es:
            idx = lindiv(off, o.es)
            if idx is None:
                raise Unsupported('unaligned access to symbolic array')
            o.arr = SArr('st', o.arr, (bv(idx, 64), bv(v, 8 * n)))
            return
        if n > o.es and n % o.es == 0:
            idx = lindiv(off, o.es)
            if idx is None:
                raise Unsupported('unaligned access')
            vb = bv(v, 8 * n)
            for k in range(n // o.es):
                o.arr = SArr('st', o.arr, (z3.simplify(bv(idx, 64) + k), z3.simplify(z3.Extract(8 * o.es * (k + 1) - 1, 8 * o.es * k, vb))))
            return
        raise Unsupported('narrow store to symbolic array')

    def store(self, st, p, ty, v):
        ty = self.m.resolve(ty)
        if ty[0] == 'arr':
            es = self.m.size(ty[2])
            for i in range(ty[1]):
                self.store(st, self.padd(p, i * es), ty[2], v[i])
            return
        if ty[0] == 'st':
            offs, _ = self.m.layout(ty)
            for i, f in enumerate(ty[1]):
                self.store(st, self.padd(p, offs[i]), f, v[i])
            return
        n = self.m.size(ty) if ty[0] != 'i' else (ty[1] + 7) // 8
        oid, off = self.resolve_ptr(st, p)
        o = self.check_access(st, oid, off, n, 'store')
        if o.const:
            self.viol_now(st, 'memory: store to constant %s' % o.name)
        if ty[0] == 'i' and ty[1] != n * 8:
            if not isc(v):
                v = bv(v, 8 * n) if z3.is_bool(v) else z3.ZeroExt(n * 8 - v.size(), v)
        if isinstance(v, tuple) and v[0] in ('fbits', 'fp'):
            v = fpbits(v)
        if not isc(off) and o.arr is None:
            if isc(o.size) and o.size <= 4096:
                off = self.concretize(st, off)
        if o.arr is not None or not isc(o.size):
            self.arr_store(st, oid, off, n, v)
            return
        if not isc(off):
            raise Unsupported('symbolic store offset into %s' % o.name)
        o = self.wobj(st, oid)
        self.write(o, off, n, v)

    def write(self, o, off, n, v):
        cells = o.cells
        c = cells.get(off)
        if c is not None and c[0] == n:
            cells[off] = (n, v)
            return
        self.clear(o, off, n)
        cells[off] = (n, v)
        if n > o.maxn:
            o.maxn = n

    def clear(self, o, off, n):
        cells = o.cells
        for k in range(max(0, off - o.maxn + 1), off + n):
            c = cells.get(k)
            if c is not None and k + c[0] > off:
                del cells[k]
                if k < off or k + c[0] > off + n:
                    for i in range(c[0]):
                        if not (off <= k + i < off + n):
                            cells[k + i] = (1, self.byte(c[1], c[0], i))

    @staticmethod
    def byte(v, n, i):
        if isc(v):
            return (v >> (8 * i)) & 255
        if isinstance(v, float):
            import struct
            return struct.pack('<d' if n == 8 else '<f', v)[i]
        if isinstance(v, Lin):
            v = bv(v, 64)
        if isinstance(v, tuple):
            v = v[1]
        return slice_of(v, 8 * i, 8)

    def read(self, st, o, off, n):
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            return c[1]
        # assemble
        if c is None and o.default is None:
            anyc = False
            for k in range(max(0, off - o.maxn + 1), off + n):
                cc = o.cells.get(k)
                if cc is not None and k + cc[0] > off:
                    anyc = True
                    break
            if not anyc:
                if o.kind == 'extern':
                    raise Unsupported('read of external data ' + o.name)
                v = self.freshvar(8 * n, 'undef')
                o2 = self.wobj(st, o.id)
                self.write(o2, off, n, v)
                return v
        bs = []
        for i in range(n):
            b = None
            for k in range(off + i, max(-1, off + i - o.maxn), -1):
                cc = o.cells.get(k)
                if cc is not None:
                    if k + cc[0] > off + i:
                        b = self.byte(cc[1], cc[0], off + i - k)
                    break
            if b is None:
                if o.default is not None:
                    b = o.default
                else:
                    b = self.freshvar(8, 'undef')
                    o = self.wobj(st, o.id)
                    o.cells[off + i] = (1, b)
            bs.append(b)
        if all(isc(b) for b in bs):
            return sum(b << (8 * i) for i, b in enumerate(bs))
        if n > 1:
            r = joined([(b, 8) for b in bs])
            if r is not None:
                return r
            ps = [bv(b, 8) for b in bs]
            if any(smt._is_hard(b) for b in ps):
                e = bvx.concat(ps)
                return e.as_long() if z3.is_bv_value(e) else e
            return simp(z3.Concat(*reversed(ps)))
        return simp(bs[0])

    def padd(self, p, k):
        if isc(p):
            return (p + k) & M64
        if isinstance(p, Lin):
            return mklin(p.obj, p.c + k, p.terms)
        return simp(p + z3.BitVecVal(k, 64))

    def memset(self, st, p, val, n):
        n = self.sizeval(st, n)
        if isc(n):
            if n == 0:
                return
            oid, off = self.resolve_ptr(st, p)
            o = self.check_access(st, oid, off, n, 'memset')
            if o.arr is not None or not isc(o.size):
                if o.arr is None:
                    o = self.arr_obj(st, oid, 1)
                for i in range(n // o.es):
                    vb = bv(val, 8)
                    self.arr_store(st, oid, self.offadd(off, i * o.es), o.es, z3.Concat(*[vb] * o.es) if o.es > 1 else vb)
                return
            off = self.concretize(st, off)
            o = self.wobj(st, oid)
            if off == 0 and n == o.size:
                o.cells = {}
                o.default = None
                if isc(val) and n > 64:
                    o.default = val
                    return
            self.clear(o, off, n)
            if isc(val):
                i = 0
                while i < n:
                    w = 8 if (off + i) % 8 == 0 and n - i >= 8 else 1
                    o.cells[off + i] = (w, int.from_bytes(bytes([val]) * w, 'little'))
                    o.maxn = max(o.maxn, w)
                    i += w
            else:
                for i in range(n):
                    o.cells[off + i] = (1, val)
            return
        oid, off = self.resolve_ptr(st, p)
        o = self.arr_obj(st, oid, 1)
        cnt = lindiv(n, o.es)
        start = lindiv(off, o.es)
        size = lindiv(o.size, o.es)
        if cnt is None or start is None or size is None:
            raise Unsupported('memset alignment')
        cnt, start, size = bv(cnt, 64), bv(start, 64), bv(size, 64)
        self.oblige(st, z3.And(z3.ULE(start, size), z3.ULE(cnt, size - start)), 'memory safety', 'memory', 'memset out of bounds')
        vb = bv(val, 8)
        vv = z3.Concat(*[vb] * o.es) if o.es > 1 else vb
        o = self.wobj(st, oid)
        o.arr = SArr('fill', o.arr, (start, cnt, lambda i: vv))

    def offadd(self, off, k):
        if isc(off):
            return off + k
        if isinstance(off, Lin):
            return mklin(0, off.c + k, off.terms)
        return off + k

    def sizeval(self, st, n):
        """length operand: int, or symbolic"""
        if isc(n):
            return n
        if isinstance(n, Lin):
            return n
        n = simp(n)
        if isc(n):
            return n
        c = st.concr.get(n.get_id())
        if c is not None:
            return c[0]
        return n

    def memcpy(self, st, d, s, n, what='memcpy'):
        n = self.sizeval(st, n)
        if isc(n) and n == 0:
            return
        if not isc(n):
            do, _ = self.resolve_ptr(st, d)
            so, _ = self.resolve_ptr(st, s)
            if isc(st.mem[do].size if do in st.mem else 0) and isc(st.mem[so].size if so in st.mem else 0) and \
                    (st.mem[do].arr is None and st.mem[so].arr is None):
                n = self.concretize(st, n)
                if n == 0:
                    return
            else:
                return self.memcpy_sym(st, d, s, n)
        so, soff = self.resolve_ptr(st, s)
        do, doff = self.resolve_ptr(st, d)
        src = self.check_access(st, so, soff, n, what + ' source')
        dst = self.check_access(st, do, doff, n, what + ' destination')
        if src.arr is not None or not isc(src.size) or dst.arr is not None or not isc(dst.size):
            es = src.es if src.arr is not None else (dst.es if dst.arr is not None else 1)
            if src.arr is not None and dst.arr is not None and src.es != dst.es:
                es = max(src.es, dst.es)
            if n % es:
                raise Unsupported('memcpy granularity')
            vals = []
            ity = ('i', 8 * es)
            for i in range(n // es):
                vals.append(self.load(st, self.padd(s, i * es), ity))
            for i in range(n // es):
                self.store(st, self.padd(d, i * es), ity, vals[i])
            return
        soff = self.concretize(st, soff)
        doff = self.concretize(st, doff)
        self.copy_cells(st, do, doff, so, soff, n)

    def copy_cells(self, st, do, doff, so, soff, n):
        src = st.mem[so]
        items = []
        sc = src.cells
        if len(sc) > 4 * n + 64:
            rng = range(max(0, soff - src.maxn + 1), soff + n)
        else:
            rng = sorted(sc)
        covered = 0
        for k in rng:
            c = sc.get(k)
            if c is None:
                continue
            if k >= soff and k + c[0] <= soff + n:
                items.append((k - soff, c[0], c[1]))
                covered += c[0]
            elif k < soff + n and k + c[0] > soff:
                for i in range(c[0]):
                    if soff <= k + i < soff + n:
                        items.append((k + i - soff, 1, self.byte(c[1], c[0], i)))
                        covered += 1
        dst = self.wobj(st, do)
        self.clear(dst, doff, n)
        if covered < n and (src.default != dst.default):
            have = set()
            for o_, n_, _ in items:
                have.update(range(o_, o_ + n_))
            for i in range(n):
                if i not in have:
                    dst.cells[doff + i] = (1, src.default if src.default is not None else self.freshvar(8, 'undef'))
        for o_, n_, v_ in items:
            dst.cells[doff + o_] = (n_, v_)
            if n_ > dst.maxn:
                dst.maxn = n_

    def memcpy_sym(self, st, d, s, n):
        do, doff = self.resolve_ptr(st, d)
        so, soff = self.resolve_ptr(st, s)
        dst = st.mem.get(do)
        src = st.mem.get(so)
        if dst is None or src is None or do == 0 or so == 0:
            # only legal when n == 0
            self.oblige(st, bv(n, 64) == z3.BitVecVal(0, 64), 'memory safety', 'memory', 'memcpy through null')
            return
        if not dst.alive or not src.alive:
            self.viol_now(st, 'memory: memcpy on freed object')
        es = src.es or dst.es
        if not es:
            es = self.guess_es(n)
        if not src.es:
            src = self.to_arr(st, so, es)
        if not dst.es:
            dst = self.to_arr(st, do, es)
        es = src.es
        if dst.es != es:
            raise Unsupported('memcpy between symbolic arrays of different element size')
        cnt, di, si = lindiv(n, es), lindiv(doff, es), lindiv(soff, es)
        if cnt is None or di is None or si is None:
            raise Unsupported('memcpy alignment')
        cnt, di, si = bv(cnt, 64), bv(di, 64), bv(si, 64)
        for o, i, w in ((dst, di, 'destination'), (src, si, 'source')):
            sz = lindiv(o.size, es)
            if sz is None:
                raise Unsupported('array size')
            sz = bv(sz, 64)
            self.oblige(st, z3.And(z3.ULE(i, sz), z3.ULE(cnt, sz - i)), 'memory safety', 'memory', 'memcpy %s out of bounds' % w)
        dst = self.wobj(st, do)
        dst.arr = SArr('cp', dst.arr, (di, cnt, src.arr, si))

    def guess_es(self, n):
        for d in (8, 4, 2, 1):
            if lindiv(n, d) is not None:
                return d
        return 1

    def to_arr(self, st, oid, es):
        """turn an object into symbolic-array representation"""
        o = self.wobj(st, oid)
        if o.arr is not None:
            return o
        if not isc(o.size):
            return self.arr_obj(st, oid, es)
        self.fresh += 1
        f = z3.Function('mem!%d' % self.fresh, z3.BitVecSort(64), z3.BitVecSort(8 * es))
        arr = SArr('zero', None, ()) if o.default == 0 else SArr('uf', None, (f,))
        if o.cells:
            for i in range(o.size // es):
                has = any((i * es + k) in o.cells for k in range(es))
                if has:
                    v = self.read(st, o, i * es, es)
                    arr = SArr('st', arr, (z3.BitVecVal(i, 64), bv(v, 8 * es)))
        o = self.wobj(st, oid)
        o.es = es
        o.arr = arr
        o.cells = {}
        return o

    # ---- arithmetic --------------------------------------------------------------
    def gep(self, st, srcty, base, idx):
        """idx: [(ty, value)]"""
        c = 0
        terms = []

        def addterm(k, ty, v):
            nonlocal c
            n = ty[1]
            if isc(v):
                c += k * tosigned(v, n)
            elif isinstance(v, Lin):
                c += k * v.c
                for kk, t in v.terms:
                    terms.append((k * kk, t))
                if v.obj:
                    c += k * (v.obj << SHIFT)
            else:
                if z3.is_bool(v):
                    v = bv(v, n)
                if n < 64:
                    v = z3.simplify(z3.SignExt(64 - n, v))
                if z3.is_bv_value(v):
                    c += k * tosigned(v.as_long(), 64)
                else:
                    self.linterms(v, k, terms)
                    c += self._lc

        addterm(self.m.size(srcty), idx[0][0], idx[0][1])
        ty = srcty
        for t, v in idx[1:]:
            ty = self.m.resolve(ty)
            if ty[0] == 'st':
                if not isc(v):
                    raise Unsupported('symbolic struct index')
                c += self.m.layout(ty)[0][v]
                ty = ty[1][v]
            elif ty[0] in ('arr', 'vec'):
                ty = ty[2]
                addterm(self.m.size(ty), t, v)
            else:
                raise Unsupported('gep')
        if not terms:
            if isc(base):
                return (base + c) & M64
            return self.padd(base, c)
        if isc(base):
            obj = base >> SHIFT
            return mklin(obj, (base & OFFM) + c, terms)
        if isinstance(base, Lin):
            return mklin(base.obj, base.c + c, list(base.terms) + terms)
        e = base + z3.BitVecVal(c, 64)
        for k, t in terms:
            e = e + z3.BitVecVal(k, 64) * t
        return simp(e)

    def linterms(self, v, k, terms):
        """split k*v into linear terms; constant part left in self._lc"""
        self._lc = 0
        todo = [(v, k)]
        while todo:
            t, kk = todo.pop()
            if z3.is_bv_value(t):
                self._lc += kk * tosigned(t.as_long(), 64)
                continue
            d = t.decl().kind()
            if d == z3.Z3_OP_BADD:
                todo.extend((x, kk) for x in t.children())
            elif d == z3.Z3_OP_BMUL and z3.is_bv_value(t.arg(0)) and t.num_args() == 2:
                todo.append((t.arg(1), kk * t.arg(0).as_long()))
            elif d == z3.Z3_OP_BNEG:
                todo.append((t.arg(0), -kk))
            else:
                terms.append((kk & M64, t))

    def aslin(self, v):
        if isinstance(v, Lin):
            return v.obj, v.c, list(v.terms)
        if isc(v):
            return 0, v, []
        return 0, 0, [(1, v)]

    def binop(self, st, op, ty, a, b, flags):
        if ty[0] == 'f':
            return self.fbin(op, a, b, ty[1])
        if ty[0] == 'vec':
            raise Unsupported('vector op')
        n = ty[1]
        mask = (1 << n) - 1
        if isc(a) and isc(b):
            if op == 'add':
                if 'nsw' in flags and self.ub and st is not None:
                    s = tosigned(a, n) + tosigned(b, n)
                    if not -(1 << (n - 1)) <= s < (1 << (n - 1)):
                        self.viol_now(st, 'signed overflow in add', 'no undefined arithmetic', 'arith')
                return (a + b) & mask
            if op == 'sub':
                if 'nsw' in flags and self.ub and st is not None:
                    s = tosigned(a, n) - tosigned(b, n)
                    if not -(1 << (n - 1)) <= s < (1 << (n - 1)):
                        self.viol_now(st, 'signed overflow in sub', 'no undefined arithmetic', 'arith')
                return (a - b) & mask
            if op == 'mul':
                if 'nsw' in flags and self.ub and st is not None:
                    s = tosigned(a, n) * tosigned(b, n)
                    if not -(1 << (n - 1)) <= s < (1 << (n - 1)):
                        self.viol_now(st, 'signed overflow in mul', 'no undefined arithmetic', 'arith')
                return (a * b) & mask
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
            if op in ('shl', 'lshr', 'ashr'):
                if b >= n:
                    if self.ub and st is not None:
                        self.viol_now(st, 'shift amount %d >= width %d' % (b, n), 'no undefined arithmetic', 'arith')
                    return 0
                if op == 'shl':
                    return (a << b) & mask
                if op == 'lshr':
                    return a >> b
                return (tosigned(a, n) >> b) & mask
            if b == 0 and op in ('udiv', 'sdiv', 'urem', 'srem'):
                self.viol_now(st, 'division by zero', 'no undefined arithmetic', 'arith')
            if op == 'udiv':
                return a // b
            if op == 'urem':
                return a % b
            sa, sb = tosigned(a, n), tosigned(b, n)
            if op == 'sdiv':
                q = abs(sa) // abs(sb)
                return (q if (sa < 0) == (sb < 0) else -q) & mask
            if op == 'srem':
                r = abs(sa) % abs(sb)
                return (r if sa >= 0 else -r) & mask
            raise Unsupported(op)
        if n == 1:
            x, y = boolv(a), boolv(b)
            if op == 'and':
                return simp(z3.And(x, y))
            if op == 'or':
                return simp(z3.Or(x, y))
            if op == 'xor' or op == 'add' or op == 'sub':
                return simp(z3.Xor(x, y))
            raise Unsupported('i1 ' + op)
        # linear forms keep pointer differences exact
        if n == 64 and (isinstance(a, Lin) or isinstance(b, Lin)):
            if op in ('add', 'sub'):
                oa, ca, ta = self.aslin(a)
                ob, cb, tb = self.aslin(b)
                if isc(a) and isinstance(b, Lin) and b.obj and a >> SHIFT == b.obj:
                    oa, ca = b.obj, a & OFFM
                if isc(b) and isinstance(a, Lin) and a.obj and b >> SHIFT == a.obj:
                    ob, cb = a.obj, b & OFFM
                if op == 'add' and not (oa and ob):
                    return mklin(oa or ob, ca + cb, ta + tb)
                if op == 'sub' and ob == oa:
                    return mklin(0, ca - cb, ta + [(-k, t) for k, t in tb])
                if op == 'sub' and ob == 0:
                    return mklin(oa, ca - cb, ta + [(-k, t) for k, t in tb])
            elif op in ('sdiv', 'ashr', 'udiv', 'lshr') and isinstance(a, Lin) and isc(b) and 'exact' in flags:
                d = b if 'div' in op else 1 << b
                q = lindiv(a, d)
                if q is not None:
                    return q
            elif op == 'shl' and isinstance(a, Lin) and isc(b) and not a.obj:
                return mklin(0, a.c << b, [(k << b, t) for k, t in a.terms])
            elif op == 'mul' and not (isinstance(a, Lin) and isinstance(b, Lin)):
                l, k = (a, b) if isinstance(a, Lin) else (b, a)
                if isc(k) and not l.obj:
                    return mklin(0, l.c * k, [(kk * k, t) for kk, t in l.terms])
        if 'exact' in flags and isc(b) and op in ('sdiv', 'ashr', 'udiv', 'lshr') and n == 64:
            d = b if 'div' in op else 1 << b
            q = lindiv(a, d)
            if q is not None:
                return q if isc(q) else simp(q)
        if n > 64 and not (not isc(a) and smt._is_hard(a)) and not (not isc(b) and smt._is_hard(b)):
            r = slice_op(op, a, b, n)
            if r is not None:
                return r
        x, y = bv(a, n), bv(b, n)
        if op in ('add', 'sub', 'mul') and 'nsw' in flags and self.ub:
            if op == 'add':
                self.oblige_arith(st, fits(z3.SignExt(1, x) + z3.SignExt(1, y), n), 'signed overflow in add')
            elif op == 'sub':
                self.oblige_arith(st, fits(z3.SignExt(1, x) - z3.SignExt(1, y), n), 'signed overflow in sub')
            else:
                self.oblige_arith(st, fits(z3.SignExt(n, x) * z3.SignExt(n, y), n), 'signed overflow in mul')
        if op in ('shl', 'lshr', 'ashr') and not isc(b) and self.ub:
            self.oblige_arith(st, z3.ULT(y, z3.BitVecVal(n, n)), 'shift amount >= width')
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            if not isc(b):
                self.oblige_arith(st, y != z3.BitVecVal(0, n), 'division by zero')
            elif b == 0:
                self.viol_now(st, 'division by zero', 'no undefined arithmetic', 'arith')
        f = BINOPS[op]
        if op in ('udiv', 'urem') and isc(b) and b & (b - 1) == 0 and b > 1 and not smt._is_hard(x):
            k = b.bit_length() - 1
            if op == 'urem':
                return simp(z3.ZeroExt(n - k, z3.Extract(k - 1, 0, x)))
            return simp(z3.ZeroExt(k, z3.Extract(n - 1, k, x)))
        if op in ('mul', 'udiv', 'urem', 'sdiv', 'srem') or smt._is_hard(x) or smt._is_hard(y):
            e = bvx.binop(op, x, y)
            return e.as_long() if z3.is_bv_value(e) else e
        return simp(f(x, y))

    def oblige_arith(self, st, cond, detail):
        self.oblige(st, cond, 'no undefined arithmetic', 'arith', detail)

    def fbin(self, op, a, b, n=64):
        if isinstance(a, float) and isinstance(b, float) and n == 64:
            if op == 'fadd':
                return a + b
            if op == 'fsub':
                return a - b
            if op == 'fmul':
                return a * b
            if op == 'fdiv' and b != 0:
                return a / b
        g = {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}.get(op)
        if g is None:
            raise Unsupported('symbolic float ' + op)
        x, y = fpterm(a, n), fpterm(b, n)
        if op in ('fadd', 'fmul') and x.get_id() > y.get_id():
            x, y = y, x
        return ('fp', fpabs(g(z3.RNE(), x, y)), n)

    def icmp(self, st, pred, ty, a, b):
        n = 64 if ty[0] == 'ptr' else ty[1]
        if isc(a) and isc(b):
            if pred[0] == 's':
                a, b = tosigned(a, n), tosigned(b, n)
            p = pred[-2:] if len(pred) == 3 else pred
            return int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p])
        if isinstance(a, Lin) or isinstance(b, Lin):
            oa, ca, ta = self.aslin(a)
            ob, cb, tb = self.aslin(b)
            if isc(a) and isinstance(b, Lin) and b.obj:
                oa, ca = a >> SHIFT, a & OFFM
            if isc(b) and isinstance(a, Lin) and a.obj:
                ob, cb = b >> SHIFT, b & OFFM
            if oa and ob and oa != ob:
                # distinct objects: compare by (distinct) base addresses
                if pred == 'eq':
                    return 0
                if pred == 'ne':
                    return 1
                a, b = oa, ob
                p = pred[-2:]
                return int({'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p])
            if (oa and isc(b) and b == 0) or (ob and isc(a) and a == 0):
                return {'eq': 0, 'ne': 1}.get(pred, 0)
            if oa == ob and oa:
                # same object: compare element offsets; try to divide out a common factor
                fa, fb = mklin(0, ca, ta), mklin(0, cb, tb)
                es = st.mem[oa].es or 1 if st is not None and oa in st.mem else 1
                qa, qb = lindiv(fa, es), lindiv(fb, es)
                if es > 1 and qa is not None and qb is not None:
                    a, b = qa, qb
                    if pred[0] == 'u' or pred in ('eq', 'ne'):
                        pass
                else:
                    a, b = fa, fb
        if pred in ('eq', 'ne') and n > 1:
            it, k = (a, b) if isc(b) else (b, a)
            if isc(k) and z3.is_expr(it) and z3.is_app(it) and it.decl().kind() == z3.Z3_OP_ITE \
                    and z3.is_bv_value(it.arg(1)) and z3.is_bv_value(it.arg(2)):
                p, q = it.arg(1).as_long() == k, it.arg(2).as_long() == k
                if pred == 'ne':
                    p, q = not p, not q
                if p == q:
                    return int(p)
                return it.arg(0) if p else simp(z3.Not(it.arg(0)))
        x, y = bv(a, n), bv(b, n)
        if n == 1:
            x, y = boolv(a), boolv(b)
            if pred == 'eq':
                return simp(x == y)
            if pred == 'ne':
                return simp(z3.Xor(x, y))
            x, y = bv(x, 1), bv(y, 1)
        f = {'eq': lambda: x == y, 'ne': lambda: x != y, 'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y),
             'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y), 'slt': lambda: x < y, 'sle': lambda: x <= y,
             'sgt': lambda: x > y, 'sge': lambda: x >= y}[pred]
        return simp(f())

    def cast(self, st, op, fty, v, tty):
        fty = self.m.resolve(fty)
        tty = self.m.resolve(tty)
        if op in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'):
            if op == 'bitcast' and (fty[0] == 'f') != (tty[0] == 'f'):
                import struct
                if fty[0] == 'f' and isinstance(v, float):
                    return int.from_bytes(struct.pack('<d' if fty[1] == 64 else '<f', v), 'little')
                if isinstance(v, tuple) and v[0] in ('fbits', 'fp'):
                    return fpbits(v)
                if tty[0] == 'f' and isc(v):
                    return struct.unpack('<d' if tty[1] == 64 else '<f', v.to_bytes(tty[1] // 8, 'little'))[0]
                return ('fbits', v)
            if tty[0] == 'i' and tty[1] < 64 and fty[0] == 'ptr':
                return self.cast(st, 'trunc', I64, v, tty)
            return v
        if op in ('trunc', 'zext', 'sext'):
            n, t = fty[1], tty[1]
            if isc(v):
                if op == 'sext':
                    return tosigned(v, n) & ((1 << t) - 1)
                return v & ((1 << t) - 1)
            if op == 'trunc':
                v = bv(v, n)
                if t == 1:
                    if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE and z3.is_bv_value(v.arg(1)) and z3.is_bv_value(v.arg(2)):
                        p, q = v.arg(1).as_long() & 1, v.arg(2).as_long() & 1
                        if p and not q:
                            return v.arg(0)
                        if q and not p:
                            return z3.Not(v.arg(0))
                    return simp(z3.Extract(0, 0, v) == z3.BitVecVal(1, 1))
                return slice_of(v, 0, t) if n > 64 or smt._is_hard(v) else simp(z3.Extract(t - 1, 0, v))
            if n == 1:
                b = boolv(v)
                return z3.If(b, z3.BitVecVal(1 if op == 'zext' else (1 << t) - 1, t), z3.BitVecVal(0, t))
            v = bv(v, n)
            if smt._is_hard(v):
                return bvx.concat([v, z3.BitVecVal(0, t - n)]) if op == 'zext' else z3.SignExt(t - n, v)
            if op == 'zext' and t > 64:
                r = SLICES.get(v.get_id())
                e = simp(z3.ZeroExt(t - n, v))
                if r is not None and not isc(e):
                    SLICES[e.get_id()] = (e,) + r[1:]
                return e
            return simp(z3.ZeroExt(t - n, v) if op == 'zext' else z3.SignExt(t - n, v))
        if op in ('uitofp', 'sitofp'):
            if isc(v):
                r = v if op == 'uitofp' else tosigned(v, fty[1])
                if tty[1] == 64 or float(r) == r and abs(r) < 1 << 24:
                    return float(r)
                return ('fp', z3.FPVal(r, fpsort(tty[1])), tty[1])
            if fpsort(tty[1]) is not None:
                g = z3.fpUnsignedToFP if op == 'uitofp' else z3.fpSignedToFP
                return ('fp', fpabs(g(z3.RNE(), bv(v, fty[1]), fpsort(tty[1]))), tty[1])
        if op in ('fptoui', 'fptosi'):
            if isinstance(v, float):
                lo, hi = (-1, 1 << tty[1]) if op == 'fptoui' else (-(1 << (tty[1] - 1)) - 1, 1 << (tty[1] - 1))
                if not (v == v and abs(v) != float('inf') and lo < int(v) < hi):
                    return z3.BitVec('fptoi!%d' % next(FPFRESH), tty[1])
                return int(v) & ((1 << tty[1]) - 1)
            n, t = fty[1], fpterm(v, fty[1])
            k = tty[1]
            hi = z3.fpLT(t, z3.FPVal(2.0 ** (k if op == 'fptoui' else k - 1), fpsort(n)))
            if op == 'fptoui':
                lo = z3.fpGT(t, z3.FPVal(-1.0, fpsort(n)))
            elif k - 1 < (53 if n == 64 else 24):
                lo = z3.fpGT(t, z3.FPVal(-2.0 ** (k - 1) - 1.0, fpsort(n)))
            else:
                lo = z3.fpGEQ(t, z3.FPVal(-2.0 ** (k - 1), fpsort(n)))
            g = z3.fpToUBV if op == 'fptoui' else z3.fpToSBV
            # poison out of the range: any value
            return z3.If(z3.And(lo, hi), g(z3.RTZ(), t, z3.BitVecSort(k)), z3.BitVec('fptoi!%d' % next(FPFRESH), k))
        if op == 'fpext' and isinstance(v, float):
            return v
        if op in ('fpext', 'fptrunc') and isinstance(v, (tuple, float)) and fpsort(tty[1]) is not None:
            return ('fp', z3.fpFPToFP(z3.RNE(), fpterm(v, fty[1]), fpsort(tty[1])), tty[1])
        raise Unsupported('cast %s' % op)

    # ---- main loop ------------------------------------------------------------------
    def start(self, fname, args=()):
        st = self.st0.clone()
        f = self.m.funcs[fname]
        loc = {p[1]: a for p, a in zip(f.params, args)}
        st.frames.append(Frame(f, loc, None))
        return st

    def run_ctors(self):
        """dynamic initialisers of the translation unit, executed concretely"""
        g = self.m.globals.get('@llvm.global_ctors')
        if g is None or g.init is None or g.init[0] != 'agg':
            return
        for ty, v in g.init[1]:
            fn = v[1][1][1]
            if fn[0] != 'glob':
                continue
            st = self.st0
            f = self.m.funcs[fn[1]]
            if self.opts.get('skip_ctors'):
                continue
            st.frames = [Frame(f, {}, None)]
            saved = self.worklist
            self.worklist = []
            self.in_ctor = True
            try:
                self.exec_path(st)
            except PathEnd:
                pass
            except Unsupported as ex:
                self.ctor_problem = str(ex)
            self.worklist = saved
            st.frames = []
            st.kill = False

    def explore(self, st):
        self.worklist = [st]
        maxp = self.opts.get('max_paths', 200000)
        while self.worklist:
            if self.deadline and time.time() > self.deadline:
                raise Budget('time budget exhausted with %d paths pending' % len(self.worklist))
            s = self.worklist.pop()
            try:
                self.exec_path(s)
                self.paths += 1
            except PathEnd:
                self.paths += 1
            except Violation as v:
                self.paths += 1
                self.violations.append((v.label, v.kind, v.detail, self.tape(s, v.model), self.where(s)))
                if len(self.violations) >= self.max_viol:
                    return
            except Unsupported as u:
                self.paths += 1
                self.undecided.append(('translation', 'unsupported', '%s at %s' % (u, self.where(s))))
                if len(self.undecided) > 20:
                    return
            if self.paths > maxp:
                raise Budget('path budget exhausted')

    def where(self, st):
        return ' < '.join(f.fn.name[1:] for f in reversed(st.frames[-6:]))

    def tape(self, st, model):
        out = []
        for nm, bits, e in st.draws:
            if isc(e):
                out.append((nm, bits, e))
            elif callable(e):
                out.extend(e(model))
            else:
                try:
                    v = model.eval(e, model_completion=True) if model is not None else None
                except z3.Z3Exception:
                    v = None
                out.append((nm, bits, v.as_long() if v is not None and z3.is_bv_value(v) else 0))
        return out

    def exec_path(self, st):
        d = self.DISPATCH
        while st.frames:
            f = st.frames[-1]
            ins = f.insts[f.idx]
            self.steps += 1
            if self.steps & 1023 == 0 and self.deadline and time.time() > self.deadline:
                raise Budget('time budget exhausted')
            try:
                d[ins.op](self, st, f, ins)
            except Split as sp:
                vals = sp.values
                for v in vals:
                    s2 = st.clone()
                    c = sp.expr == z3.BitVecVal(v, sp.expr.size())
                    s2.pc.append(c)
                    try:
                        if s2.model is not None and not z3.is_true(s2.model.eval(c, model_completion=True)):
                            s2.model = None
                    except z3.Z3Exception:
                        s2.model = None
                    s2.concr[sp.expr.get_id()] = (v, sp.expr)
                    self.worklist.append(s2)
                raise PathEnd('split')
            if st.kill:
                return

    def jump(self, st, f, target):
        f.prev = f.block
        f.block = target
        f.insts = f.fn.blocks[target]
        f.idx = 0
        # phis in parallel
        ins = f.insts[0]
        if ins.op == 'phi':
            vals = []
            i = 0
            while f.insts[i].op == 'phi':
                x = f.insts[i]
                vals.append((x.res, self.ev(st, x.ty, x.a[0][f.prev])))
                i += 1
            for r, v in vals:
                f.loc[r] = v
            f.idx = i

    # instruction handlers
    def i_bin(self, st, f, x):
        op, a, b, fl = x.a
        f.loc[x.res] = self.binop(st, op, x.ty, self.ev(st, x.ty, a), self.ev(st, x.ty, b), fl)
        f.idx += 1

    def i_cast(self, st, f, x):
        op, fty, a = x.a
        f.loc[x.res] = self.cast(st, op, fty, self.ev(st, fty, a), x.ty)
        f.idx += 1

    def i_fneg(self, st, f, x):
        v = self.ev(st, x.ty, x.a[0])
        f.loc[x.res] = -v if isinstance(v, float) else ('fp', z3.fpNeg(fpterm(v, x.ty[1])), x.ty[1])
        f.idx += 1

    def i_icmp(self, st, f, x):
        pred, ty, a, b = x.a
        f.loc[x.res] = self.icmp(st, pred, ty, self.ev(st, ty, a), self.ev(st, ty, b))
        f.idx += 1

    def i_fcmp(self, st, f, x):
        pred, ty, a, b = x.a
        a, b = self.ev(st, ty, a), self.ev(st, ty, b)
        if pred in ('true', 'false'):
            f.loc[x.res] = int(pred == 'true')
        elif isinstance(a, float) and isinstance(b, float):
            nan = a != a or b != b
            if pred in ('ord', 'uno'):
                f.loc[x.res] = int((pred == 'uno') == nan)
            elif nan:
                f.loc[x.res] = int(pred[0] == 'u')
            else:
                p = pred[1:]
                f.loc[x.res] = int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p])
        else:
            n = self.m.resolve(ty)[1]
            a, b = fpterm(a, n), fpterm(b, n)
            nan = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
            if pred in ('ord', 'uno'):
                c = nan if pred == 'uno' else z3.Not(nan)
            else:
                c = {'eq': z3.fpEQ, 'ne': z3.fpNEQ, 'lt': z3.fpLT, 'le': z3.fpLEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ}[pred[1:]](a, b)
                c = z3.And(c, z3.Not(nan)) if pred == 'one' else c if pred[0] == 'o' else z3.Or(nan, c)
            f.loc[x.res] = simp(c)
        f.idx += 1

    def i_alloca(self, st, f, x):
        ty, cty, cnt = x.a
        n = self.concretize(st, self.ev(st, cty, cnt))
        o = self.new_obj(st, self.m.size(ty) * n, 'stack', f.fn.name + ':' + str(x.res))
        f.allocas.append(o.id)
        f.loc[x.res] = o.id << SHIFT
        f.idx += 1

    def i_load(self, st, f, x):
        p = self.ev(st, PTR, x.a[0])
        f.loc[x.res] = self.load(st, p, x.ty)
        f.idx += 1

    def i_store(self, st, f, x):
        v, p = x.a
        self.store(st, self.ev(st, PTR, p), x.ty, self.ev(st, x.ty, v))
        f.idx += 1

    def i_gep(self, st, f, x):
        sty, ops = x.a
        base = self.ev(st, PTR, ops[0][1])
        f.loc[x.res] = self.gep(st, sty, base, [(t, self.ev(st, t, v)) for t, v in ops[1:]])
        f.idx += 1

    def i_select(self, st, f, x):
        c, a, b = x.a
        c = self.ev(st, I1, c)
        a, b = self.ev(st, x.ty, a), self.ev(st, x.ty, b)
        if isc(c):
            f.loc[x.res] = a if c & 1 else b
            f.idx += 1
            return
        ty = self.m.resolve(x.ty)
        if ty[0] == 'i' and not isinstance(a, Lin) and not isinstance(b, Lin):
            if ty[1] == 1:
                f.loc[x.res] = simp(z3.If(boolv(c), boolv(a), boolv(b)))
            elif smt._is_hard(boolv(c)) or any(z3.is_expr(t) and smt._is_hard(t) for t in (a, b)):
                xa, xb = bv(a, ty[1]), bv(b, ty[1])
                c = simpb(boolv(c))
                f.loc[x.res] = a if z3.is_true(c) or xa.eq(xb) else b if z3.is_false(c) else z3.If(c, xa, xb)
            else:
                f.loc[x.res] = simp(z3.If(boolv(c), bv(a, ty[1]), bv(b, ty[1])))
            f.idx += 1
            return
        if isinstance(a, int) and isinstance(b, int) and a == b:
            f.loc[x.res] = a
            f.idx += 1
            return
        # pointer / float select: same-object pointers merge, otherwise fork
        if ty[0] in ('ptr', 'i'):
            la = (a >> SHIFT, a & OFFM, []) if isc(a) else self.aslin(a)
            lb = (b >> SHIFT, b & OFFM, []) if isc(b) else self.aslin(b)
            if la[0] == lb[0] and la[0] and la[0] in st.mem and not isc(st.mem[la[0]].size):
                es = st.mem[la[0]].es or 1
                qa, qb = lindiv(mklin(0, la[1], la[2]), es), lindiv(mklin(0, lb[1], lb[2]), es)
                if qa is not None and qb is not None:
                    f.loc[x.res] = mklin(la[0], 0, [(es, z3.If(boolv(c), bv(qa, 64), bv(qb, 64)))])
                    f.idx += 1
                    return
        v = self.concretize(st, bv(boolv(c), 1))
        f.loc[x.res] = a if v else b
        f.idx += 1

    def i_br(self, st, f, x):
        if x.a[0] is None:
            self.goto(st, f, x.a[1])
            return
        c = self.ev(st, I1, x.a[0])
        if isc(c):
            self.goto(st, f, x.a[1] if c & 1 else x.a[2])
            return
        c = simpb(boolv(c))
        if z3.is_true(c):
            self.goto(st, f, x.a[1])
            return
        if z3.is_false(c):
            self.goto(st, f, x.a[2])
            return
        k = st.concr.get(c.get_id())
        nc = simpb(z3.Not(c))
        t, mt = self.feas(st, c)
        if not t:
            self.goto(st, f, x.a[2])
            return
        e, me = self.feas(st, nc)
        if not e:
            self.goto(st, f, x.a[1])
            return
        s2 = st.clone()
        s2.pc.append(nc)
        s2.model = me
        st.pc.append(c)
        st.model = mt
        self.worklist.append(s2)
        try:
            self.goto(s2, s2.frames[-1], x.a[2])
        except PathEnd:
            self.worklist.remove(s2)
        except Violation:
            self.worklist.remove(s2)
            raise
        self.goto(st, f, x.a[1])

    def goto(self, st, f, target):
        h = self.loop_hook
        if h is not None and h(self, st, f, target):
            return
        self.jump(st, f, target)

    loop_hook = None

    def i_switch(self, st, f, x):
        v, d, cases = x.a
        v = self.ev(st, x.ty, v)
        n = x.ty[1]
        if not isc(v):
            v = simp(bv(v, n))
        if isc(v):
            for cv, lab in cases:
                if (cv & ((1 << n) - 1)) == v:
                    self.goto(st, f, lab)
                    return
            self.goto(st, f, d)
            return
        targets = {}
        conds = []
        for cv, lab in cases:
            c = v == z3.BitVecVal(cv, n)
            conds.append(c)
            targets.setdefault(lab, []).append(c)
        dc = z3.And(*[z3.Not(c) for c in conds]) if conds else z3.BoolVal(True)
        targets.setdefault(d, []).append(dc)
        alive = []
        for lab, cs in targets.items():
            c = z3.simplify(z3.Or(*cs)) if len(cs) > 1 else z3.simplify(cs[0])
            ok, m = self.feas(st, c)
            if ok:
                alive.append((lab, c, m))
        if not alive:
            raise PathEnd('infeasible switch')
        for lab, c, m in alive[1:]:
            s2 = st.clone()
            s2.pc.append(c)
            s2.model = m
            self.goto(s2, s2.frames[-1], lab)
            self.worklist.append(s2)
        lab, c, m = alive[0]
        st.pc.append(c)
        st.model = m
        self.goto(st, f, lab)

    def i_ret(self, st, f, x):
        v = None
        if x.a[0] is not None:
            v = self.ev(st, x.ty, x.a[0])
        self.pop_frame(st, f)
        if not st.frames:
            return
        p = st.frames[-1]
        c = f.call
        if c is None:
            # helper call made by the engine
            return
        if c.res is not None:
            p.loc[c.res] = v
        if c.a[2] is not None:
            self.goto(st, p, c.a[2])
        else:
            p.idx += 1

    def pop_frame(self, st, f):
        for oid in f.allocas:
            if oid in st.owned:
                st.mem[oid].alive = False
                st.mem[oid].cells = {}
            else:
                o = self.wobj(st, oid)
                o.alive = False
        st.frames.pop()
        if self.on_return is not None:
            self.on_return(self, st, f)

    on_return = None

    def i_unreachable(self, st, f, x):
        self.viol_now(st, 'unreachable code reached', 'no undefined behaviour', 'arith')

    def i_nop(self, st, f, x):
        f.idx += 1

    def i_freeze(self, st, f, x):
        f.loc[x.res] = self.ev(st, x.ty, x.a[0])
        f.idx += 1

    def i_extractvalue(self, st, f, x):
        v, idx = x.a
        r = self.ev(st, x.ty, v)
        for i in idx:
            r = r[i]
        f.loc[x.res] = r
        f.idx += 1

    def i_insertvalue(self, st, f, x):
        v, et, e, idx = x.a
        agg = self.ev(st, x.ty, v)
        e = self.ev(st, et, e)

        def ins(a, ix):
            a = list(a)
            if len(ix) == 1:
                a[ix[0]] = e
            else:
                a[ix[0]] = ins(a[ix[0]], ix[1:])
            return a

        f.loc[x.res] = ins(agg, idx)
        f.idx += 1

    def i_atomicrmw(self, st, f, x):
        kind, a, v = x.a
        p = self.ev(st, PTR, a)
        v = self.ev(st, x.ty, v)
        old = self.load(st, p, x.ty)
        new = v if kind == 'xchg' else self.binop(st, kind, x.ty, old, v, ())
        self.store(st, p, x.ty, new)
        f.loc[x.res] = old
        f.idx += 1

    def i_cmpxchg(self, st, f, x):
        a, c, n = x.a
        p = self.ev(st, PTR, a)
        c, n = self.ev(st, x.ty, c), self.ev(st, x.ty, n)
        old = self.load(st, p, x.ty)
        eq = self.concretize(st, self.icmp(st, 'eq', x.ty, old, c))
        if eq:
            self.store(st, p, x.ty, n)
        f.loc[x.res] = [old, eq]
        f.idx += 1

    def i_unsupported(self, st, f, x):
        raise Unsupported('instruction ' + str(x.a))

    def i_asm(self, st, f, x):
        if x.res is None:
            f.idx += 1
            return
        raise Unsupported('inline asm')

    # ---- exceptions ---------------------------------------------------------------
    def throw(self, st, addr, ti):
        st.excinfo[addr] = ti
        st.exc_in_flight = addr
        self.unwind(st)

    def unwind(self, st):
        """current frame's current instruction raised: find a landing pad"""
        first = True
        while st.frames:
            f = st.frames[-1]
            ins = f.insts[f.idx]
            if ins.op == 'call' and ins.a[3] is not None:
                lp = ins.a[3]
                # jump; the landingpad instruction decides
                self.jump(st, f, lp)
                return
            self.pop_frame(st, f)
        ti = st.excinfo.get(st.exc_in_flight)
        self.viol_now(st, 'exception %s escapes' % ti, 'no unexpected exception', 'exception')

    def ti_bases(self, ti):
        """all base typeinfos incl. itself"""
        out = [ti]
        if ti in STD_BASES and (ti not in self.m.globals or self.m.globals[ti].init is None):
            b = STD_BASES[ti]
            while b:
                out.append(b)
                b = STD_BASES.get(b)
            return out
        g = self.m.globals.get(ti)
        if g is None or g.init is None or g.init[0] != 'agg':
            return out
        els = g.init[1]
        vt = els[0][1]
        vtn = str(vt)
        if '__si_class_type_info' in vtn:
            out += self.ti_bases(els[2][1][1])
        elif '__vmi_class_type_info' in vtn:
            for e in els[4:]:
                if e[0] == PTR and e[1][0] == 'glob':
                    out += self.ti_bases(e[1][1])
        return out

    def ti_offsets(self, ti, off=0, out=None):
        """offsets of the public non-virtual bases of a class (and of the class itself)"""
        out = {} if out is None else out
        out.setdefault(ti, []).append(off)
        g = self.m.globals.get(ti)
        if g is None or g.init is None or g.init[0] != 'agg':
            return out
        els = g.init[1]
        vtn = str(els[0][1])
        if '__si_class_type_info' in vtn:
            self.ti_offsets(els[2][1][1], off, out)
        elif '__vmi_class_type_info' in vtn:
            for i, e in enumerate(els[4:], 4):
                if e[0] == PTR and e[1][0] == 'glob':
                    fl = els[i + 1][1]
                    fl = fl[1] if isinstance(fl, tuple) else fl
                    fl = int(fl)
                    if fl & 1:
                        raise Unsupported('virtual base')
                    if fl & 2:
                        self.ti_offsets(e[1][1], off + (fl >> 8), out)
        return out

    def i_landingpad(self, st, f, x):
        cleanup, clauses = x.a
        addr = st.exc_in_flight
        ti = st.excinfo[addr]
        bases = self.ti_bases(ti)
        sel = None
        for kind, v in clauses:
            if kind == 'catch':
                if v[0] == 'null':
                    sel = self.typeid(None)
                    break
                if v[0] == 'glob' and v[1] in bases:
                    sel = self.typeid(v[1])
                    break
            elif kind == 'filter':
                sel = self.typeid('filter')
                break
        if sel is None:
            if not cleanup:
                # not for us: continue unwinding out of this frame
                self.pop_frame(st, f)
                if not st.frames:
                    self.viol_now(st, 'exception %s escapes' % ti, 'no unexpected exception', 'exception')
                self.unwind(st)
                return
            sel = 0
        f.loc[x.res] = [addr, sel]
        f.idx += 1

    def typeid(self, name):
        if name not in self.tidx:
            self.tidx[name] = len(self.tidx) + 1
        return self.tidx[name]

    def i_resume(self, st, f, x):
        v = self.ev(st, x.ty, x.a[0])
        st.exc_in_flight = v[0]
        self.pop_frame(st, f)
        if not st.frames:
            self.viol_now(st, 'exception %s escapes' % st.excinfo.get(v[0]), 'no unexpected exception', 'exception')
        self.unwind(st)

    # ---- calls ---------------------------------------------------------------------
    def i_call(self, st, f, x):
        callee, args, normal, unw = x.a
        if callee[0] == 'glob':
            name = callee[1]
            if name in self.m.aliases and self.m.aliases[name][0] == 'glob':
                name = self.m.aliases[name][1]
        else:
            p = self.ev(st, PTR, callee)
            if not isc(p):
                p = self.concretize(st, p)
            fn = self.addrf.get(p)
            if fn is None:
                self.viol_now(st, 'call through invalid function pointer')
            name = fn.name
        self.call(st, f, x, name, args)

    def finish(self, st, f, x, v=None):
        """complete a call handled by a summary"""
        if x.res is not None:
            f.loc[x.res] = v
        if x.a[2] is not None:
            self.goto(st, f, x.a[2])
        else:
            f.idx += 1

    def call(self, st, f, x, name, args):
        from . import lib
        n = name[1:]
        red = self.redirect.get(n) if self.redirect else None
        if red is not None and not any(fr.fn.name == red for fr in st.frames[-3:]):
            name = red
            n = name[1:]
        h = lib.lookup(n)
        if h is not None:
            vals = [self.ev(st, t, v) for t, v, _ in args]
            h(self, st, f, x, vals)
            return
        fn = self.m.funcs.get(name)
        if fn is None:
            raise Unsupported('unknown function ' + name)
        if fn.is_decl:
            h = lib.lookup_external(n)
            if h is None:
                raise Unsupported('external function ' + n)
            vals = [self.ev(st, t, v) for t, v, _ in args]
            self.opaque_called[n] = self.opaque_called.get(n, 0) + 1
            h(self, st, f, x, vals)
            return
        loc = {}
        byv = None
        for (pt, pn, pa), (at, av, aa) in zip(fn.params, args):
            v = self.ev(st, at, av)
            if 'byval' in aa:
                sz = self.m.size(aa['byval'])
                o = self.new_obj(st, sz, 'stack', 'byval')
                self.memcpy(st, o.id << SHIFT, v, sz)
                v = o.id << SHIFT
                byv = (byv or []) + [o.id]
            loc[pn] = v
        if len(st.frames) > self.opts.get('max_depth', 400):
            raise Unsupported('call depth')
        self.functions[n] = self.functions.get(n, 0) + 1
        nf = Frame(fn, loc, x)
        if byv:
            nf.allocas.extend(byv)
        st.frames.append(nf)
        self.enter_block(st, nf)

    def enter_block(self, st, nf):
        pass

    redirect = None

    DISPATCH = {
        'bin': i_bin, 'cast': i_cast, 'fneg': i_fneg, 'icmp': i_icmp, 'fcmp': i_fcmp, 'alloca': i_alloca,
        'load': i_load, 'store': i_store, 'gep': i_gep, 'select': i_select, 'br': i_br, 'switch': i_switch,
        'ret': i_ret, 'unreachable': i_unreachable, 'nop': i_nop, 'freeze': i_freeze,
        'extractvalue': i_extractvalue, 'insertvalue': i_insertvalue, 'atomicrmw': i_atomicrmw,
        'cmpxchg': i_cmpxchg, 'unsupported': i_unsupported, 'asm': i_asm, 'landingpad': i_landingpad,
        'resume': i_resume, 'call': i_call,
    }
