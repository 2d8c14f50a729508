"""Solver portfolio: every satisfiability question of the verifier goes through here."""
import os
import subprocess
import tempfile
import time
import z3
from . import toint

stats = {'queries': 0, 'time': 0.0, 'by': {}, 'unknown': 0}

_hard = {}
_NL = None


FPNAMES = {}
FPDEFS = {}


def fp_defs(cs):
    """definitions of the floating point results that the constraints mention"""
    if not FPDEFS:
        return []
    seen, out, todo = set(), [], list(cs)
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.num_args() == 0 and z3.is_fp(x):
                d = FPDEFS.get(x.decl().name())
                if d is not None:
                    out.append(d[0] == d[1])
                    todo.append(d[1])
            todo.extend(x.children())
    return out


def _is_hard(e):
    """does the term contain multiplication / division (better for the integer back end)?"""
    todo = [e]
    seen = []
    res = False
    while todo:
        x = todo.pop()
        i = x.get_id()
        c = _hard.get(i)
        if c is not None:
            if c[0]:
                res = True
                break
            continue
        if z3.is_app(x):
            k = x.decl().kind()
            if k == z3.Z3_OP_BMUL and x.num_args() == 2 and z3.is_bv_value(x.arg(0)) and x.arg(0).as_long() & (x.arg(0).as_long() - 1) == 0:
                todo.extend(x.children())
            elif k in (z3.Z3_OP_BMUL, z3.Z3_OP_BUDIV, z3.Z3_OP_BUREM, z3.Z3_OP_BSDIV, z3.Z3_OP_BSREM,
                     z3.Z3_OP_BUDIV_I, z3.Z3_OP_BUREM_I, z3.Z3_OP_BSDIV_I, z3.Z3_OP_BSREM_I):
                res = True
                break
            else:
                todo.extend(x.children())
        seen.append((i, x))
    if not res:
        for i, x in seen:
            _hard[i] = (False, x)
    else:
        _hard[e.get_id()] = (True, e)
    return res


def _mk(kind, timeout):
    if kind == 'bb':
        s = z3.Solver()
    elif kind == 'simple':
        s = z3.SimpleSolver()
    else:
        s = z3.SimpleSolver()
        s.set('bv.solver', 2)
    s.set('timeout', int(timeout * 1000))
    return s


def _one(kind, cs, timeout):
    if kind == 'lia':
        t = time.time()
        try:
            r, m = toint.check(cs, timeout)
        except z3.Z3Exception:
            r, m = 'unknown', None
        dt = time.time() - t
        stats['time'] += dt
        if r in ('sat', 'unsat'):
            b = stats['by'].setdefault(kind, [0, 0.0])
            b[0] += 1
            b[1] += dt
            return r, m
        return 'unknown', None
    s = _mk(kind, timeout)
    s.add(*cs)
    t = time.time()
    try:
        r = s.check()
    except z3.Z3Exception as ex:
        return 'unknown', None
    dt = time.time() - t
    stats['time'] += dt
    b = stats['by'].setdefault(kind, [0, 0.0])
    if r == z3.unsat:
        b[0] += 1
        b[1] += dt
        return 'unsat', None
    if r == z3.sat:
        b[0] += 1
        b[1] += dt
        m = s.model()
        if kind == 'int':
            # the integer back end's models are re-validated
            try:
                for c in cs:
                    if not z3.is_true(m.eval(c, model_completion=True)):
                        return 'unknown', None
            except z3.Z3Exception:
                return 'unknown', None
        return 'sat', m
    return 'unknown', None


def cvc5_check(cs, timeout, args=('--solve-bv-as-int=sum',)):
    s = z3.Solver()
    s.add(*cs)
    txt = '(set-logic ALL)\n' + s.to_smt2()
    fd, fn = tempfile.mkstemp(suffix='.smt2')
    os.write(fd, txt.encode())
    os.close(fd)
    t = time.time()
    try:
        out = subprocess.run(['cvc5', '--tlimit=%d' % int(timeout * 1000), *args, fn], capture_output=True, text=True,
                             timeout=timeout + 5).stdout.split('\n')[0].strip()
    except subprocess.TimeoutExpired:
        out = 'unknown'
    finally:
        os.unlink(fn)
    dt = time.time() - t
    stats['time'] += dt
    b = stats['by'].setdefault('cvc5', [0, 0.0])
    if out in ('sat', 'unsat'):
        b[0] += 1
        b[1] += dt
        return out
    return 'unknown'


def check(cs, timeout=20.0, quick=False):
    """-> ('sat', model) | ('unsat', None) | ('unknown', None)"""
    r, m = check1(cs, timeout, quick)
    if r == 'sat' and FPDEFS and not quick:
        d = fp_defs(cs)
        if d:
            # without the definitions of the floating point operations
            return check1(list(cs) + d, timeout, True)
    return r, m


def check1(cs, timeout=20.0, quick=False):
    stats['queries'] += 1
    cs = [c for c in cs if not z3.is_true(c)]
    for c in cs:
        if z3.is_false(c):
            return 'unsat', None
    hard = any(_is_hard(c) for c in cs)
    if quick:
        order = [('lia', timeout), ('int', timeout), ('bb', timeout)] if hard else [('bb', timeout), ('int', timeout)]
    elif hard:
        order = [('lia', min(timeout, 10)), ('int', min(timeout, 5)), ('bb', min(timeout, 5)), ('lia', timeout), ('int', timeout), ('bb', timeout)]
    else:
        order = [('bb', min(timeout, 8)), ('lia', min(timeout, 8)), ('int', min(timeout, 8)), ('bb', timeout)]
    t0 = time.time()
    first = True
    while order:
        k, t = order.pop(0)
        r, m = _one(k, cs, t)
        if r != 'unknown':
            return r, m
        if first and k == 'lia' and time.time() - t0 < min(timeout, 10) / 4:
            # not translatable: the bit-vector solver goes first
            order = [('bb', min(timeout, 4))] + [o for o in order if o[0] != 'lia']
        first = False
    if not quick:
        r = cvc5_check(cs, timeout)
        if r == 'unsat':
            return 'unsat', None
    stats['unknown'] += 1
    return 'unknown', None
