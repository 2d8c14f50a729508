"""Summaries of functions that are not executed: compiler intrinsics, the C/C++ runtime, verification primitives.

Everything here is trusted; it is listed in the evidence as trusted base.
"""
import re
import z3
from .sym import (fpterm, fpsort, slice_of, Lin, SArr, Obj, SHIFT, OFFM, M64, Unsupported, PathEnd, Split, Violation, bv, boolv, isc, simp, mklin,
                  lindiv, tosigned, STD_THROWERS, I64, I8, PTR, termdiv)

EXACT = {}
PREFIX = []
REGEX = []
EXTERNAL = {}


def exact(*names):
    def d(fn):
        for n in names:
            EXACT[n] = fn
        return fn
    return d


def prefix(p):
    def d(fn):
        PREFIX.append((p, fn))
        return fn
    return d


def regex(r):
    def d(fn):
        REGEX.append((re.compile(r), fn))
        return fn
    return d


def external(*names):
    def d(fn):
        for n in names:
            EXTERNAL[n] = fn
        return fn
    return d


_cache = {}


def lookup(n):
    if n in _cache:
        return _cache[n]
    h = EXACT.get(n)
    if h is None:
        if n.startswith('llvm.'):
            for p, fn in PREFIX:
                if n.startswith(p):
                    h = fn
                    break
            if h is None:
                def h(ex, st, f, x, a, n=n):
                    raise Unsupported('intrinsic ' + n)
        else:
            for r, fn in REGEX:
                if r.search(n):
                    h = fn
                    break
    _cache[n] = h
    return h


def lookup_external(n):
    h = EXTERNAL.get(n)
    return h


def cstring(ex, st, p):
    oid, off = ex.resolve_ptr(st, p)
    o = st.mem[oid]
    s = ''
    while True:
        c = ex.read(st, o, off, 1)
        if not isc(c):
            return s
        if c == 0:
            return s
        s += chr(c)
        off += 1


# ---- verification primitives -------------------------------------------------

def record(ex, st, d):
    """a value drawn by the contract; values drawn inside a callee summary are not inputs"""
    if ex.redirect:
        names = set(ex.redirect.values())
        if any(fr.fn.name in names for fr in st.frames):
            return
    st.draws.append(d)


@exact('vc_use')
def _(ex, st, f, x, a):
    """callee contract substitution: calls of the functions matching the pattern go to the summary"""
    summ, pat = cstring(ex, st, a[0]), cstring(ex, st, a[1])
    r = re.compile(pat)
    if ex.redirect is None:
        ex.redirect = {}
    n = 0
    for mangled, dem in ex.m.demangled().items():
        if r.search(dem):
            ex.redirect[mangled[1:]] = '@' + summ
            n += 1
    ex.covers['use ' + summ + (' (inlined)' if n == 0 else '')] = 1
    ex.finish(st, f, x, n)


@exact('vc_any')
def _(ex, st, f, x, a):
    bits = a[0]
    nm = cstring(ex, st, a[1])
    v = ex.freshvar(bits, nm)
    record(ex, st, (nm, bits, v))
    ex.finish(st, f, x, v if bits == 64 else (z3.ZeroExt(64 - bits, v)))


@exact('vc_any128')
def _(ex, st, f, x, a):
    nm = cstring(ex, st, a[1])
    v = ex.freshvar(a[0], nm)
    record(ex, st, (nm, a[0], v))
    v = v if a[0] == 128 else z3.ZeroExt(128 - a[0], v)
    ex.finish(st, f, x, [slice_of(v, 0, 64), slice_of(v, 64, 64)])


@exact('vc_assume')
def _(ex, st, f, x, a):
    ex.assume(st, a[0])
    ex.finish(st, f, x)


@exact('vc_assert')
def _(ex, st, f, x, a):
    ex.oblige(st, a[0], cstring(ex, st, a[1]), 'ensures')
    ex.finish(st, f, x)


@exact('vc_invariant')
def _(ex, st, f, x, a):
    ex.oblige(st, a[0], cstring(ex, st, a[1]), 'invariant')
    ex.finish(st, f, x)


@exact('vc_fail')
def _(ex, st, f, x, a):
    ex.viol_now(st, cstring(ex, st, a[0]), cstring(ex, st, a[0]), 'ensures')


@exact('vc_cover')
def _(ex, st, f, x, a):
    nm = cstring(ex, st, a[0])
    ex.covers[nm] = ex.covers.get(nm, 0) + 1
    ex.finish(st, f, x)


@exact('vc_pick')
def _(ex, st, f, x, a):
    lo, hi = a[0], a[1]
    nm = cstring(ex, st, a[2])
    pend = st.ghost.get('pick')
    if pend is not None:
        st.ghost.pop('pick')
        record(ex, st, (nm, 64, pend))
        ex.finish(st, f, x, pend)
        return
    if hi < lo:
        raise PathEnd('empty pick')
    for v in range(lo + 1, hi + 1):
        s2 = st.clone()
        s2.ghost['pick'] = v
        ex.worklist.append(s2)
    record(ex, st, (nm, 64, lo))
    ex.finish(st, f, x, lo)


@exact('vc_conc')
def _(ex, st, f, x, a):
    v = ex.concretize(st, a[0], 5000)
    ex.finish(st, f, x, v)


@exact('vc_bytes')
def _(ex, st, f, x, a):
    p, n = a[0], a[1]
    n = ex.concretize(st, n)
    nm = cstring(ex, st, a[2])
    for i in range(n):
        v = ex.freshvar(8, nm)
        record(ex, st, (nm, 8, v))
        ex.store(st, ex.padd(p, i), I8, v)
    ex.finish(st, f, x)


@exact('vc_symarray')
def _(ex, st, f, x, a):
    """array of n elements of es bytes with arbitrary contents"""
    n, es = a[0], a[1]
    nm = cstring(ex, st, a[2])
    size = n * es if isc(n) else mklin(0, 0, [(es, bv(n, 64))])
    o = ex.new_obj(st, size, 'heap', nm)
    o.es = es
    ex.fresh += 1
    uf = z3.Function('%s!%d' % (nm, ex.fresh), z3.BitVecSort(64), z3.BitVecSort(8 * es))
    o.arr = SArr('uf', None, (uf,))
    nb = bv(n, 64)

    def dump(model):
        cnt = model.eval(nb, model_completion=True).as_long() if model is not None else 0
        out = []
        for i in range(min(cnt, 4096)):
            e = uf(z3.BitVecVal(i, 64))
            v = model.eval(e, model_completion=True)
            out.append((nm, 8 * es, v.as_long() if z3.is_bv_value(v) else 0))
        return out
    record(ex, st, (nm, 0, dump))
    ex.finish(st, f, x, o.id << SHIFT)


@exact('vc_opaque')
def _(ex, st, f, x, a):
    o = ex.new_obj(st, 0, 'opaque', cstring(ex, st, a[0]))
    ex.finish(st, f, x, o.id << SHIFT)


@exact('vc_live')
def _(ex, st, f, x, a):
    n = sum(1 for o in st.mem.values() if o.alive and o.kind == 'heap')
    ex.finish(st, f, x, n)


@exact('vc_fold')
def _(ex, st, f, x, a):
    """uninterpreted ghost sequence: vc_fold(id, n)"""
    uf = z3.Function('fold!%d' % a[0], z3.BitVecSort(64), z3.BitVecSort(64))
    ex.finish(st, f, x, simp(uf(bv(a[1], 64))))


@exact('vc_ghost_fn')
def _(ex, st, f, x, a):
    """uninterpreted spec function of two 64-bit arguments"""
    uf = z3.Function('ghost!%d' % a[0], z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(64))
    ex.finish(st, f, x, simp(uf(bv(a[1], 64), bv(a[2], 64))))


@exact('vc_fail_new')
def _(ex, st, f, x, a):
    n = a[0] if isc(a[0]) else ex.concretize(st, a[0])
    st.ghost['failnew'] = n - (1 << 32) if n >= 1 << 31 else n
    ex.finish(st, f, x)


@exact('vc_alive')
def _(ex, st, f, x, a):
    oid, off = ex.resolve_ptr(st, a[0])
    o = st.mem.get(oid)
    ex.finish(st, f, x, int(bool(o and o.alive and oid)))


@exact('vc_is_sym')
def _(ex, st, f, x, a):
    ex.finish(st, f, x, 1)


# ---- runtime -------------------------------------------------------------------

def heap(ex, st, size, nm='new'):
    if not isc(size) and not isinstance(size, Lin):
        terms = []
        ex.linterms(z3.simplify(size), 1, terms)
        size = mklin(0, ex._lc, terms)
    o = ex.new_obj(st, size, 'heap', nm)
    return o.id << SHIFT


@exact('_Znwm', '_Znam', 'malloc', '_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t')
def _(ex, st, f, x, a):
    n = a[0]
    if st.ghost.get('failnew', -1) >= 0 and x.a[0][1] in ('@_Znwm', '@_Znam'):
        st.ghost['failnew'] -= 1
        if st.ghost['failnew'] < 0:
            throw_std(ex, st, '@_ZTISt9bad_alloc')
            return
    if not isc(n) and not isinstance(n, Lin):
        n = simp(n)
    c = st.concr.get(n.get_id()) if not isc(n) and not isinstance(n, Lin) else None
    if c is not None:
        n = c[0]
    if not isc(n):
        # enumerate small ranges, keep the rest symbolic
        e = bv(n, 64)
        big, _m = ex.feas(st, z3.UGT(e, z3.BitVecVal(ex.opts.get('enum_alloc', 256), 64)))
        if not big:
            n = ex.concretize(st, e)
    if isc(n) and n > (1 << 40):
        throw_std(ex, st, '@_ZTISt9bad_alloc')
        return
    ex.finish(st, f, x, heap(ex, st, n))


@exact('_ZnwmSt11align_val_t', '_ZnamSt11align_val_t')
def _(ex, st, f, x, a):
    ex.finish(st, f, x, heap(ex, st, a[0]))


@exact('_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm', 'free', '_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t', '_ZdaPvSt11align_val_t')
def _(ex, st, f, x, a):
    p = a[0]
    if isc(p) and p == 0:
        ex.finish(st, f, x)
        return
    oid, off = ex.resolve_ptr(st, p)
    o = st.mem.get(oid)
    if o is None or oid == 0 or o.kind != 'heap':
        ex.viol_now(st, 'memory: delete of a non-heap pointer')
    if not o.alive:
        ex.viol_now(st, 'memory: double delete of %s' % o.name)
    if not isc(off):
        off = ex.concretize(st, off)
    if off != 0:
        ex.viol_now(st, 'memory: delete of an interior pointer')
    o = ex.wobj(st, oid)
    o.alive = False
    o.cells = {}
    o.arr = None
    ex.finish(st, f, x)


@prefix('llvm.memcpy')
def _(ex, st, f, x, a):
    ex.memcpy(st, a[0], a[1], a[2])
    ex.finish(st, f, x)


@prefix('llvm.memmove')
def _(ex, st, f, x, a):
    ex.memcpy(st, a[0], a[1], a[2])
    ex.finish(st, f, x)


@exact('memcpy', 'memmove')
def _(ex, st, f, x, a):
    ex.memcpy(st, a[0], a[1], a[2])
    ex.finish(st, f, x, a[0])


@prefix('llvm.memset')
def _(ex, st, f, x, a):
    ex.memset(st, a[0], a[1], a[2])
    ex.finish(st, f, x)


@exact('memset')
def _(ex, st, f, x, a):
    v = a[1]
    v = v & 255 if isc(v) else simp(z3.Extract(7, 0, v))
    ex.memset(st, a[0], v, a[2])
    ex.finish(st, f, x, a[0])


@exact('memcmp', 'bcmp', '__builtin_memcmp', 'strncmp')
def _(ex, st, f, x, a):
    n = a[2]
    if not isc(n):
        n = ex.concretize(st, n)
    r = z3.BitVecVal(0, 32)
    vals = []
    for i in range(n):
        p = ex.load(st, ex.padd(a[0], i), I8)
        q = ex.load(st, ex.padd(a[1], i), I8)
        vals.append((p, q))
        if isc(p) and isc(q) and p != q:
            break
    for p, q in reversed(vals):
        if isc(p) and isc(q):
            if p != q:
                r = z3.BitVecVal(-1 if p < q else 1, 32)
            continue
        p, q = bv(p, 8), bv(q, 8)
        r = z3.If(p == q, r, z3.If(z3.ULT(p, q), z3.BitVecVal(-1, 32), z3.BitVecVal(1, 32)))
    ex.finish(st, f, x, simp(r))


@exact('strlen')
def _(ex, st, f, x, a):
    oid, off = ex.resolve_ptr(st, a[0])
    k = 0
    while True:
        c = ex.load(st, ex.padd(a[0], k), I8)
        if not isc(c):
            z = ex.concretize(st, bv(z3.simplify(c == z3.BitVecVal(0, 8)), 1))
            if z:
                break
        elif c == 0:
            break
        k += 1
    ex.finish(st, f, x, k)


@exact('memchr')
def _(ex, st, f, x, a):
    n = ex.concretize(st, a[2])
    c = a[1]
    c = c & 255 if isc(c) else simp(z3.Extract(7, 0, c))
    for i in range(n):
        b = ex.load(st, ex.padd(a[0], i), I8)
        if isc(b) and isc(c):
            eq = b == c
        else:
            eq = ex.concretize(st, bv(z3.simplify(bv(b, 8) == bv(c, 8)), 1))
        if eq:
            ex.finish(st, f, x, ex.padd(a[0], i))
            return
    ex.finish(st, f, x, 0)


@exact('toupper', 'tolower')
def _(ex, st, f, x, a):
    c = a[0]
    up = x.a[0][1] == '@toupper'
    lo, hi = (97, 122) if up else (65, 90)
    d = -32 if up else 32
    if isc(c):
        ex.finish(st, f, x, (c + d) & 0xffffffff if lo <= c <= hi else c)
        return
    ex.oblige_arith(st, z3.And(c >= -1, c <= 255), 'ctype argument outside its domain')
    ex.finish(st, f, x, simp(z3.If(z3.And(c >= lo, c <= hi), c + d, c)))


@exact('isspace', 'isdigit', 'isalpha', 'isalnum')
def _(ex, st, f, x, a):
    c = bv(a[0], 32)
    n = x.a[0][1]
    def rng(l, h):
        return z3.And(c >= l, c <= h)
    if n == '@isspace':
        r = z3.Or(c == 32, rng(9, 13))
    elif n == '@isdigit':
        r = rng(48, 57)
    elif n == '@isalpha':
        r = z3.Or(rng(65, 90), rng(97, 122))
    else:
        r = z3.Or(rng(65, 90), rng(97, 122), rng(48, 57))
    ex.finish(st, f, x, simp(z3.If(r, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))))


@exact('abort', '_ZSt9terminatev', 'exit', '_Exit')
def _(ex, st, f, x, a):
    ex.viol_now(st, 'process termination (%s)' % x.a[0][1], 'no abnormal termination', 'exception')


@exact('__assert_fail', '_ZSt21__glibcxx_assert_failPKciS0_S0_')
def _(ex, st, f, x, a):
    try:
        t = cstring(ex, st, a[0]) if x.a[0][1] == '@__assert_fail' else cstring(ex, st, a[3])
    except Exception:
        t = '?'
    ex.viol_now(st, 'assert(%s) in %s' % (t, f.fn.name), 'assertions of the code', 'assert')


# ---- exceptions ------------------------------------------------------------------

def throw_std(ex, st, ti):
    o = ex.new_obj(st, 64, 'exc', ti)
    ex.throw(st, o.id << SHIFT, ti)


@exact(*STD_THROWERS.keys())
def _(ex, st, f, x, a):
    throw_std(ex, st, STD_THROWERS[x.a[0][1][1:]])


@exact('__cxa_allocate_exception')
def _(ex, st, f, x, a):
    o = ex.new_obj(st, a[0], 'exc', 'exception')
    ex.finish(st, f, x, o.id << SHIFT)


@exact('__dynamic_cast')
def _(ex, st, f, x, a):
    def glob(ad):
        for g, v in ex.gaddr.items():
            if v == ad:
                return g
        raise Unsupported('dynamic_cast type')
    src, dst = glob(a[1]), glob(a[2])
    vp = ex.load(st, a[0], PTR)
    top = tosigned(ex.load(st, ex.padd(vp, -16), I64), 64)
    whole = ex.padd(a[0], top)
    offs = ex.ti_offsets(glob(ex.load(st, ex.padd(vp, -8), PTR)))
    d = offs.get(dst, [])
    ex.finish(st, f, x, ex.padd(whole, d[0]) if len(d) == 1 and -top in offs.get(src, []) else 0)


@exact('__cxa_bad_cast')
def _(ex, st, f, x, a):
    throw_std(ex, st, '@_ZTISt8bad_cast')


@exact('__cxa_free_exception')
def _(ex, st, f, x, a):
    ex.finish(st, f, x)


@exact('__cxa_throw')
def _(ex, st, f, x, a):
    ti = None
    for g, ad in ex.gaddr.items():
        if ad == a[1]:
            ti = g
            break
    ex.throw(st, a[0], ti)


@exact('__cxa_begin_catch')
def _(ex, st, f, x, a):
    st.caught.append(a[0])
    ex.finish(st, f, x, a[0])


@exact('__cxa_end_catch')
def _(ex, st, f, x, a):
    if st.caught:
        st.caught.pop()
    ex.finish(st, f, x)


@exact('__cxa_get_exception_ptr')
def _(ex, st, f, x, a):
    ex.finish(st, f, x, a[0])


@exact('__cxa_rethrow')
def _(ex, st, f, x, a):
    if not st.caught:
        ex.viol_now(st, 'rethrow without exception', 'no abnormal termination', 'exception')
    st.exc_in_flight = st.caught[-1]
    ex.unwind(st)


@prefix('llvm.eh.typeid.for')
def _(ex, st, f, x, a):
    ti = None
    for g, ad in ex.gaddr.items():
        if ad == a[0]:
            ti = g
            break
    ex.finish(st, f, x, ex.typeid(ti))


@regex(r'^_ZNSt(9exception|11logic_error|12out_of_range|16invalid_argument|12length_error|13runtime_error|11range_error|'
       r'14overflow_error|12domain_error|9bad_alloc|8bad_cast|17bad_function_call|20bad_array_new_length)[CD][0-9]')
def _(ex, st, f, x, a):
    ex.finish(st, f, x)


@regex(r'^_ZNKSt(9exception|11logic_error|13runtime_error)4whatEv')
def _(ex, st, f, x, a):
    o = ex.new_obj(st, 1, 'const', 'what')
    o.cells[0] = (1, 0)
    ex.finish(st, f, x, o.id << SHIFT)


@exact('__cxa_guard_acquire')
def _(ex, st, f, x, a):
    b = ex.load(st, a[0], I8)
    ex.finish(st, f, x, 0 if (isc(b) and b) else 1)


@exact('__cxa_guard_release')
def _(ex, st, f, x, a):
    ex.store(st, a[0], I8, 1)
    ex.finish(st, f, x)


@exact('__cxa_atexit', '__cxa_thread_atexit', 'atexit', '__cxa_guard_abort', 'pthread_mutex_lock', 'pthread_mutex_unlock',
       'pthread_mutex_trylock', 'puts', 'printf', 'fprintf')
def _(ex, st, f, x, a):
    ex.finish(st, f, x, 0)


@exact('__cxa_pure_virtual')
def _(ex, st, f, x, a):
    ex.viol_now(st, 'pure virtual call', 'no abnormal termination', 'exception')


# ---- message formatting is opaque: the text of messages is in no property ------------

@regex(r'^_ZNSt8ios_base4Init[CD]')
def _(ex, st, f, x, a):
    ex.finish(st, f, x)


@regex(r'^_ZNK?St7__cxx11(19|18)basic_o?stringstreamI[cw]St11char_traitsI[cw]ESaI[cw]EE(C|D)[0-9]')
def _(ex, st, f, x, a):
    ex.finish(st, f, x)


@regex(r'^_ZNKR?St7__cxx11(19|18)basic_o?stringstreamI[cw]St11char_traitsI[cw]ESaI[cw]EE3strEv')
def _(ex, st, f, x, a):
    # sret string: empty
    p = a[0]
    ex.store(st, p, PTR, ex.padd(p, 16))
    ex.store(st, ex.padd(p, 8), I64, 0)
    ex.store(st, ex.padd(p, 16), I8, 0)
    ex.finish(st, f, x)


@regex(r'^_ZStlsI|^_ZNSo|^_ZNSt13basic_ostream|^_ZSt16__ostream_insert|^_ZStlsI.*basic_ostream|^_ZSt4endlI|^_ZSt5flushI')
def _(ex, st, f, x, a):
    ex.finish(st, f, x, a[0])


@regex(r'^_ZN3awl(6format|7aformat|.*basic_format)')
def _fmt(ex, st, f, x, a):
    ex.finish(st, f, x, a[0] if a else None)


REGEX = [r for r in REGEX if r[1] is not _fmt]


@regex(r'^_ZNSt6localeC|^_ZNSt6localeD|^_ZNSt8ios_base')
def _(ex, st, f, x, a):
    ex.finish(st, f, x, a[0] if a else None)


# ---- intrinsics ----------------------------------------------------------------------

@prefix('llvm.lifetime')
def _(ex, st, f, x, a):
    ex.finish(st, f, x)


for _n in ('llvm.dbg', 'llvm.assume', 'llvm.donothing', 'llvm.experimental.noalias', 'llvm.invariant', 'llvm.prefetch', 'llvm.stackrestore', 'llvm.var.annotation'):
    PREFIX.append((_n, lambda ex, st, f, x, a: ex.finish(st, f, x)))


@prefix('llvm.stacksave')
def _(ex, st, f, x, a):
    ex.finish(st, f, x, 0)


@prefix('llvm.threadlocal.address')
@prefix('llvm.launder')
def _(ex, st, f, x, a):
    ex.finish(st, f, x, a[0])


@prefix('llvm.strip.invariant')
def _(ex, st, f, x, a):
    ex.finish(st, f, x, a[0])


@prefix('llvm.expect')
def _(ex, st, f, x, a):
    ex.finish(st, f, x, a[0])


@prefix('llvm.is.constant')
def _(ex, st, f, x, a):
    ex.finish(st, f, x, 0)


@prefix('llvm.objectsize')
def _(ex, st, f, x, a):
    ex.finish(st, f, x, M64)


@prefix('llvm.trap')
def _(ex, st, f, x, a):
    ex.viol_now(st, 'trap', 'no abnormal termination', 'exception')


@prefix('llvm.ctpop')
def _(ex, st, f, x, a):
    n = x.ty[1]
    v = a[0]
    if isc(v):
        r = bin(v).count('1')
    else:
        r = z3.BitVecVal(0, n)
        for i in range(n):
            r = r + z3.ZeroExt(n - 1, z3.Extract(i, i, v))
        r = simp(r)
    ex.finish(st, f, x, r)


@prefix('llvm.cttz')
def _(ex, st, f, x, a):
    n = x.ty[1]
    v = a[0]
    if isc(v):
        r = n if v == 0 else (v & -v).bit_length() - 1
    else:
        r = z3.BitVecVal(n, n)
        for i in reversed(range(n)):
            r = z3.If(z3.Extract(i, i, v) == 1, z3.BitVecVal(i, n), r)
        r = simp(r)
    ex.finish(st, f, x, r)


@prefix('llvm.ctlz')
def _(ex, st, f, x, a):
    n = x.ty[1]
    v = a[0]
    if isc(v):
        r = n - v.bit_length()
    else:
        r = z3.BitVecVal(n, n)
        for i in range(n):
            r = z3.If(z3.Extract(i, i, v) == 1, z3.BitVecVal(n - 1 - i, n), r)
        r = simp(r)
    ex.finish(st, f, x, r)


@prefix('llvm.bswap')
def _(ex, st, f, x, a):
    n = x.ty[1]
    v = a[0]
    if isc(v):
        r = int.from_bytes(v.to_bytes(n // 8, 'little'), 'big')
    else:
        r = simp(z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, v) for i in range(n // 8)]))
    ex.finish(st, f, x, r)


def _minmax(pred):
    def h(ex, st, f, x, a):
        n = x.ty[1]
        c = ex.icmp(st, pred, x.ty, a[0], a[1])
        if isc(c):
            r = a[0] if c else a[1]
        else:
            r = simp(z3.If(boolv(c), bv(a[0], n), bv(a[1], n)))
        ex.finish(st, f, x, r)
    return h


PREFIX.append(('llvm.umin', _minmax('ult')))
PREFIX.append(('llvm.umax', _minmax('ugt')))
PREFIX.append(('llvm.smin', _minmax('slt')))
PREFIX.append(('llvm.smax', _minmax('sgt')))


def _fround(mode, conv=False):
    def h(ex, st, f, x, a):
        v = a[0]
        n = v[2] if isinstance(v, tuple) and v[0] == 'fp' else v[1].size() if isinstance(v, tuple) else x.ty[1] if x.ty[0] == 'f' else 64
        t = fpterm(v, n)
        r = z3.fpAbs(t) if mode is None else z3.fpRoundToIntegral(mode(), t)
        if conv:
            k = x.ty[1]
            ex.oblige_arith(st, z3.And(z3.fpLT(r, z3.FPVal(2.0 ** (k - 1), fpsort(n))), z3.fpGEQ(r, z3.FPVal(-2.0 ** (k - 1), fpsort(n)))),
                            'conversion of a floating point value out of the range of the integer')
            ex.finish(st, f, x, simp(z3.fpToSBV(z3.RTZ(), r, z3.BitVecSort(k))))
            return
        ex.finish(st, f, x, ('fp', r, n))
    return h


for _n, _m in (('ceil', z3.RTP), ('floor', z3.RTN), ('round', z3.RNA), ('trunc', z3.RTZ), ('fabs', None), ('roundeven', z3.RNE)):
    PREFIX.append(('llvm.%s.f' % _n, _fround(_m)))
    EXTERNAL[_n] = EXTERNAL[_n + 'f'] = _fround(_m)
for _n in ('llround', 'lround'):
    PREFIX.append(('llvm.' + _n, _fround(z3.RNA, True)))
    EXTERNAL[_n] = EXTERNAL[_n + 'f'] = _fround(z3.RNA, True)


@prefix('llvm.abs')
def _(ex, st, f, x, a):
    n = x.ty[1]
    if isc(a[0]):
        r = abs(tosigned(a[0], n)) & ((1 << n) - 1)
    else:
        r = simp(z3.If(a[0] < 0, -a[0], a[0]))
    ex.finish(st, f, x, r)


@prefix('llvm.usub.sat')
def _(ex, st, f, x, a):
    n = x.ty[1]
    p, q = bv(a[0], n), bv(a[1], n)
    ex.finish(st, f, x, simp(z3.If(z3.ULT(p, q), z3.BitVecVal(0, n), p - q)))


def _fsh(left):
    def h(ex, st, f, x, a):
        n = x.ty[1]
        p, q, s = bv(a[0], n), bv(a[1], n), bv(a[2], n)
        s = z3.URem(s, z3.BitVecVal(n, n))
        c = z3.Concat(p, q)
        s2 = z3.ZeroExt(n, s)
        r = z3.Extract(2 * n - 1, n, c << s2) if left else z3.Extract(n - 1, 0, z3.LShR(c, s2))
        ex.finish(st, f, x, simp(r))
    return h


PREFIX.append(('llvm.fshl', _fsh(True)))
PREFIX.append(('llvm.fshr', _fsh(False)))


def _ovf(kind):
    def h(ex, st, f, x, a):
        n = x.ty[1][0][1]
        p, q = a[0], a[1]
        mask = (1 << n) - 1
        if isc(p) and isc(q):
            if kind[0] == 'u':
                full = {'uadd': p + q, 'usub': p - q, 'umul': p * q}[kind]
                o = int(full < 0 or full > mask)
            else:
                sp, sq = tosigned(p, n), tosigned(q, n)
                full = {'sadd': sp + sq, 'ssub': sp - sq, 'smul': sp * sq}[kind]
                o = int(not -(1 << (n - 1)) <= full < (1 << (n - 1)))
            ex.finish(st, f, x, [full & mask, o])
            return
        p, q = bv(p, n), bv(q, n)
        ext = z3.ZeroExt if kind[0] == 'u' else z3.SignExt
        w = n if 'mul' in kind else 2
        P, Q = ext(w, p), ext(w, q)
        full = {'add': P + Q, 'sub': P - Q, 'mul': P * Q}[kind[1:]]
        r = {'add': p + q, 'sub': p - q, 'mul': p * q}[kind[1:]]
        o = ext(w, r) != full
        ex.finish(st, f, x, [simp(r), simp(o)])
    return h


for _k in ('uadd', 'usub', 'umul', 'sadd', 'ssub', 'smul'):
    PREFIX.append(('llvm.%s.with.overflow' % _k, _ovf(_k)))
