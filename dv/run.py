"""Check driver: python3-vt -m dv.run <PROPERTY> [--tier quick|thorough]

1. compiles contracts/<PROPERTY>.cpp + the real code of /repo to LLVM IR, and natively
2. generates and discharges the verification conditions (one job per contract and case)
3. executes 'enum' contracts natively (bounded, never counted as proved)
4. replays counterexamples on the real code; writes the evidence file
"""
import json
import multiprocessing as mp
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('DV_REPO', '/repo')
FAST = os.environ.get('DV_FAST') == '1'         # for experiments: stop at the first open obligation
CLANG = 'clang++-18'
COMMON = ['-std=gnu++20', '-fno-access-control', '-DAWL_INT_128', '-I' + REPO, '-I' + REPO + '/Platforms/Posix', '-I' + VERIF + '/contracts',
          '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-Wno-everything']
PASSES = 'function(sroa,early-cse,simplifycfg,instsimplify)'


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


class Check:
    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix='dv_%s_' % prop)
        self.files = sorted(f for f in os.listdir(VERIF + '/contracts') if re.match(prop + r'[a-z_]*\.cpp$', f))
        self.quick_budget = 600 if tier == 'quick' else 3000
        self.log = []

    def compile(self):
        """IR and native binary for every contract file of the property"""
        procs = []
        self.units = []
        for f in self.files:
            src = os.path.join(VERIF, 'contracts', f)
            b = os.path.join(self.work, f[:-4])
            extra = []
            head = open(src).read()
            m = re.search(r'^// *SOURCES: *(.*)$', head, re.M)
            if m:
                extra = [os.path.join(REPO, x) for x in m.group(1).split()]
            m = re.search(r'^// *FLAGS: *(.*)$', head, re.M)
            fl = m.group(1).split() if m else []
            m = re.search(r'^// *OPTS: *(.*)$', head, re.M)
            opts = json.loads(m.group(1)) if m else {}
            u = {'file': f, 'src': src, 'base': b, 'extra': extra, 'flags': fl, 'opts': opts}
            ll = []
            for i, s in enumerate([src] + extra):
                o = '%s.%d.ll' % (b, i)
                ll.append(o)
                procs.append((u, 'ir', subprocess.Popen(
                    [CLANG, *COMMON, *fl, '-DVC_SYMBOLIC', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-discard-value-names', '-S', '-emit-llvm',
                     '-o', o, s], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
                no = '%s.%d.o' % (b, i)
                procs.append((u, 'native', subprocess.Popen(
                    [CLANG, *COMMON, *fl, '-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize=vptr,function,alignment', '-fno-sanitize-recover=all',
                     '-fsanitize-coverage=trace-pc-guard', '-c', '-o', no, s], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
            u['ll'] = ll
            u['n'] = len(ll)
            self.units.append(u)
        rt = os.path.join(self.work, 'rt.o')
        procs.append((None, 'rt', subprocess.Popen([CLANG, '-std=gnu++20', '-O1', '-g1', '-c', '-o', rt, VERIF + '/native/vc_native.cpp'],
                                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        models = os.path.join(self.work, 'models.ll')
        procs.append((None, 'ir', subprocess.Popen(
            [CLANG, *COMMON, '-O1', '-Xclang', '-disable-llvm-passes', '-fno-discard-value-names', '-S', '-emit-llvm', '-o', models,
             VERIF + '/native/models.cpp'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        for u, k, p in procs:
            out = p.communicate()[0]
            if p.returncode:
                (u if u is not None else self.__dict__).setdefault('err_' + k, '')
                if u is None:
                    sys.stderr.write(out[-3000:])
                else:
                    u['err_' + k] = (u.get('err_' + k) or '') + out[-3000:]
        for u in self.units:
            if not u.get('err_ir'):
                m = u['base'] + '.ll'
                inp = m + '.l'
                r = sh(['llvm-link-18', '-S', '-o', inp, *u['ll']])
                if not r.returncode:
                    r = sh(['llvm-link-18', '-S', '--only-needed', '-o', inp, inp, models])
                if r.returncode:
                    u['err_ir'] = r.stderr
                    continue
                r = sh(['opt-18', '-S', '-passes=' + PASSES, '-o', m, inp])
                if r.returncode:
                    u['err_ir'] = r.stderr
                u['ir'] = m
            if not u.get('err_native'):
                r = sh([CLANG, '-fsanitize=address,undefined', '-o', u['base'] + '.bin', *['%s.%d.o' % (u['base'], i) for i in range(u['n'])], rt, '-lpthread'])
                if r.returncode:
                    u['err_native'] = r.stderr[-3000:]
                else:
                    u['bin'] = u['base'] + '.bin'

    def contracts(self):
        res = []
        for u in self.units:
            txt = open(u['src']).read()
            declared = len(re.findall(r'(?m)^VC_CONTRACT\(', txt))
            for inc in re.findall(r'#include "([A-Za-z0-9_]+\.inc\.h)"', txt):
                txt += open(os.path.join(VERIF, 'contracts', inc)).read()
            for m in re.finditer(r'VC_CONTRACT\(\s*(\w+)\s*,\s*(\d+)\s*,\s*"([^"]*)"\s*,\s*((?:"[^"]*"\s*)+),\s*((?:"[^"]*"\s*)+)\)', txt):
                if m.group(1) == 'name':
                    continue
                kind, _, tier = m.group(3).partition('@')
                declared -= 1
                if tier and tier != self.tier:
                    continue
                res.append({'unit': u, 'name': m.group(1), 'cases': int(m.group(2)), 'kind': kind,
                            'target': ''.join(re.findall(r'"([^"]*)"', m.group(4))), 'text': ''.join(re.findall(r'"([^"]*)"', m.group(5)))})
            if declared > 0:
                raise SystemExit('%s: %d contracts not understood' % (u['src'], declared))
        return res


_MOD = {}


def load_module(path):
    from .ir import Module
    if path not in _MOD:
        _MOD[path] = Module(open(path).read())
    return _MOD[path]


def job(args):
    """one contract case -> result dict"""
    path, name, case, opts, deadline = args
    from . import sym, smt, lib, loops
    t = time.time()
    res = {'name': name, 'case': case, 'violations': [], 'undecided': [], 'vcs': [], 'paths': 0, 'steps': 0}
    c0 = time.process_time()
    smt.stats.update({'queries': 0, 'time': 0.0, 'by': {}, 'unknown': 0})
    try:
        mod = load_module(path)
        ex = sym.Executor(mod, opts)
        ex.deadline = min(deadline, t + opts.get('job_secs', 300))
        ex.setup()
        loops.install(ex)
        ex.deadline = deadline
        ex.run_ctors()
        ex.deadline = min(deadline, t + opts.get('job_secs', 300))
        ex.vcs.clear()
        ex.functions.clear()
        st = ex.start('@vc__' + name, [case])
        r, m = smt.check([], 1)
        st.model = m
        try:
            ex.explore(st)
        except sym.Budget as b:
            ex.undecided.append(('budget', 'budget', str(b)))
        res['violations'] = ex.violations
        res['undecided'] = ex.undecided
        res['vcs'] = [(l, k, v[0], v[1], v[2]) for (l, k), v in ex.vcs.items()]
        res['paths'] = ex.paths
        res['steps'] = ex.steps
        res['covers'] = ex.covers
        res['functions'] = list(ex.functions)
        res['opaque'] = list(ex.opaque_called)
        res['loops'] = getattr(ex, 'loops_cut', {})
    except Exception as e:
        import traceback
        res['undecided'] = [('engine', 'engine', '%s: %s' % (type(e).__name__, traceback.format_exc()[-1500:]))]
    res['smt'] = dict(smt.stats)
    res['wall'] = time.time() - t
    return res


def write_tape(path, name, case, draws, label):
    with open(path, 'w') as f:
        f.write('contract %s\ncase %d\nlabel %s\n' % (name, case, label))
        for nm, bits, v in draws:
            f.write('draw %s %d %d %d\n' % ((nm or '_').replace(' ', '_'), bits, v & ((1 << 64) - 1), v >> 64))


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only', default=None)
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('--no-native', action='store_true')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('-p', action='store_true')
    ap.add_argument('-j', type=int, default=int(os.environ.get('DV_JOBS', '8')))
    a = ap.parse_args()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    ck = Check(a.prop, tier, seed)
    rc = 3
    try:
        rc = run(ck, a)
    finally:
        if not a.keep:
            shutil.rmtree(ck.work, ignore_errors=True)
        else:
            print('work dir', ck.work)
    sys.exit(rc)


def demangle(names):
    if not names:
        return []
    r = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True)
    return r.stdout.strip().split('\n')


def run(ck, a):
    prop, tier, seed = ck.prop, ck.tier, ck.seed
    ck.compile()
    t_compile = time.time() - ck.t0
    cons = ck.contracts()
    if a.only:
        cons = [c for c in cons if re.search(a.only, c['name'])]
    # contracts that state what a known finding violates are not obligations: they are executed to see whether the finding is still there
    known = [k for k in load_known() if k['property'] == ck.prop]
    known_cons = [c for c in cons if c['name'] in {k['contract'] for k in known}]
    cons = [c for c in cons if c not in known_cons]
    for k in known:
        k['fails'] = known_fails(ck, next((c for c in known_cons if c['name'] == k['contract']), None))
    ck.known = known
    deadline = time.time() + ck.quick_budget
    failures = []     # (contract name, case, label, kind, detail, tape or None, unit)
    sym_cons = [c for c in cons if not c['kind'].startswith('enum')]
    enum_cons = [c for c in cons if c['kind'].startswith('enum')]
    for u in ck.units:
        if u.get('err_ir') or u.get('err_native'):
            failures.append({'contract': '(compilation)', 'case': 0, 'label': 'the contracts no longer compile against the code', 'kind': 'frontend',
                             'detail': (u.get('err_ir') or '') + (u.get('err_native') or ''), 'tape': None, 'unit': u})
            if a.v:
                print(failures[-1]['detail'])
            if FAST:
                print('FAST does not compile', flush=True)
                os.killpg(os.getpgid(0), 9)
    jobs = []
    for c in sym_cons:
        u = c['unit']
        if u.get('err_ir'):
            continue
        load_module(u['ir'])
        opts = dict(u['opts'])
        for case in range(c['cases']):
            jobs.append((u['ir'], c['name'], case, opts, deadline))
    # long jobs first is unknown; keep order but spread
    results = []
    natprocs = start_native(ck, enum_cons, a) if not a.no_native else []
    if jobs:
        njobs = max(1, a.j - (len(natprocs) if natprocs else 0))
        with mp.get_context('fork').Pool(njobs, maxtasksperchild=20) as pool:
            for r in pool.imap_unordered(job, jobs, chunksize=1):
                results.append(r)
                if FAST and (r['violations'] or r['undecided']):
                    print('FAST caught by %s case %d: %s' % (r['name'], r['case'], (r['violations'] or r['undecided'])[0][0]), flush=True)
                    os.killpg(os.getpgid(0), 9)
                if a.v or (a.p and (r['violations'] or r['undecided'] or r['wall'] > 30)):
                    nv = sum(v[2] for v in r['vcs'])
                    nd = sum(v[3] for v in r['vcs'])
                    print('%-40s case %3d  paths %5d  vcs %4d/%4d  %.1fs smt %.1fs q=%d %s %s' % (
                        r['name'], r['case'], r['paths'], nd, nv, r['wall'], r['smt']['time'], r['smt']['queries'],
                        'VIOL' if r['violations'] else '', ('UNDECIDED ' + '; '.join('%s: %s' % (d[0], d[2][-300:]) for d in r['undecided'][:2])) if r['undecided'] else ''), flush=True)
                    for l in r.get('loops', {}).items():
                        print('   loop', l)
                    for v in r['violations']:
                        print('   ', v[0], v[1], v[2], v[4], v[3][:12])
    byname = {c['name']: c for c in cons}
    covers = {}
    for r in results:
        u = byname[r['name']]['unit']
        for v in r['violations']:
            failures.append({'contract': r['name'], 'case': r['case'], 'label': v[0], 'kind': v[1], 'detail': v[2], 'where': v[4], 'tape': v[3], 'unit': u})
        for d in r['undecided']:
            failures.append({'contract': r['name'], 'case': r['case'], 'label': d[0], 'kind': d[1], 'detail': d[2], 'tape': None, 'unit': u})
        for k, v in r.get('covers', {}).items():
            covers.setdefault((r['name'], k), 0)
            covers[(r['name'], k)] += v
    # vacuity: every contract produces obligations and reaches every cover point it names
    for c in sym_cons:
        if c['unit'].get('err_ir'):
            continue
        rs = [r for r in results if r['name'] == c['name']]
        nob = sum(v[2] for r in rs for v in r['vcs'] if v[1] in ('ensures', 'invariant'))
        if nob == 0 and not any(r['violations'] or r['undecided'] for r in rs):
            failures.append({'contract': c['name'], 'case': 0, 'label': 'vacuity: no obligation generated', 'kind': 'vacuity', 'detail': '', 'tape': None, 'unit': c['unit']})
        src = open(c['unit']['src']).read()
        m = re.search(r'VC_CONTRACT\(\s*' + c['name'] + r'\b.*?\n\}', src, re.S)
        for lab in re.findall(r'vc_cover\("([^"]*)"\)', m.group(0) if m else ''):
            if (c['name'], lab) not in covers and not any(r['violations'] or r['undecided'] for r in rs):
                failures.append({'contract': c['name'], 'case': 0, 'label': 'vacuity: %s is unreachable' % lab, 'kind': 'vacuity', 'detail': '', 'tape': None, 'unit': c['unit']})
    # native bounded contracts
    nat = finish_native(ck, natprocs, failures, byname, a)
    return report(ck, a, cons, sym_cons, enum_cons, results, failures, nat, t_compile)


def start_native(ck, enum_cons, a):
    """bounded contracts executed on the real code"""
    procs = []
    byunit = {}
    for c in enum_cons:
        if c['unit'].get('bin'):
            byunit.setdefault(c['unit']['base'], []).append(c)
    secs = 10 if FAST else 30 if ck.tier == 'quick' else 300
    for b, cs in byunit.items():
        groups = [cs[i::4] for i in range(4)]
        for i, g in enumerate(groups):
            if not g:
                continue
            out = '%s.nat%d' % (b, i)
            p = subprocess.Popen([cs[0]['unit']['bin'], 'search', out, str(secs), str(ck.seed + i), '1', '100000000', *[c['name'] for c in g]],
                                 stdout=subprocess.DEVNULL, stderr=open(out + '.err', 'w'), cwd=ck.work)
            procs.append((p, out, g))
    return procs


def parse_search(out):
    done, tape, info = [], [], {}
    for ln in open(out, errors='replace'):
        w = ln.rstrip('\n').split(' ')
        if w[0] == 'done':
            done.append({'name': w[1], 'case': int(w[2]), 'execs': int(w[3]), 'rejected': int(w[4]), 'nontrivial': int(w[5]), 'complete': w[6] == '1'})
        elif w[0] in ('contract', 'case', 'status', 'label'):
            info[w[0]] = ' '.join(w[1:])
        elif w[0] == 'draw':
            tape.append(('_'.join(w[1:-3]), int(w[-3]), int(w[-2]) | (int(w[-1]) << 64)))
    return done, info, tape


def finish_native(ck, procs, failures, byname, a):
    done = []
    for p, out, g in procs:
        p.wait()
        if not os.path.exists(out):
            continue
        d, info, tape = parse_search(out)
        done += d
        if a.v:
            for x in d:
                print('native %-34s case %2d execs %d rejected %d distinct %d complete %s' % (x['name'], x['case'], x['execs'], x['rejected'], x['nontrivial'], x['complete']))
        if info.get('status') == 'failed':
            u = byname[info['contract']]['unit']
            err = open(out + '.err', errors='replace').read()[-2000:] if os.path.exists(out + '.err') else ''
            failures.append({'contract': info['contract'], 'case': int(info['case']), 'label': info['label'], 'kind': 'executed contract', 'detail': err,
                             'tape': tape, 'unit': u, 'native': True})
    return done


def confirm(ck, f, idx):
    """replay a tape on the real code: True when it fails there"""
    u = f['unit']
    if not u.get('bin') or f['tape'] is None:
        return False, ''
    t = os.path.join(ck.work, 'tape%d' % idx)
    write_tape(t, f['contract'], f['case'], f['tape'], f['label'])
    try:
        r = sh([u['bin'], 'replay', t, '30'], timeout=90, cwd=ck.work)
    except subprocess.TimeoutExpired:
        return True, 'does not terminate'
    return r.returncode == 1, (r.stdout + r.stderr)[-3000:]


def search(ck, fs, secs):
    """directed native search for an input failing one of the contracts in fs"""
    byunit = {}
    for f in fs:
        u = f['unit']
        if u.get('bin'):
            byunit.setdefault(u['base'], (u, set()))[1].add('%s:%d' % (f['contract'], f['case']) if f['contract'] != '(compilation)' else '')
    found = []
    for b, (u, names) in byunit.items():
        names = [n for n in names if n]
        if not names:
            continue
        procs = []
        for i in range(8):
            out = '%s.s%d' % (b, i)
            sub = names if len(names) < 8 else names[i::8]
            procs.append((subprocess.Popen([u['bin'], 'search', out, str(secs), str(ck.seed * 100 + i), '1', '100000000', *sub],
                                           stdout=subprocess.DEVNULL, stderr=open(out + '.err', 'w'), cwd=ck.work), out))
        for p, out in procs:
            p.wait()
            d, info, tape = parse_search(out)
            if info.get('status') == 'failed':
                found.append({'contract': info['contract'], 'case': int(info['case']), 'label': info['label'], 'kind': 'executed contract',
                              'detail': open(out + '.err', errors='replace').read()[-2000:], 'tape': tape, 'unit': u, 'native': True})
    return found


def known_fails(ck, c):
    """does the listed input still fail on the real code?"""
    if c is None or not c['unit'].get('bin'):
        return True
    out = '%s.known.%s' % (c['unit']['base'], c['name'])
    p = subprocess.run([c['unit']['bin'], 'search', out, '10', str(ck.seed), '1', '1000', c['name']], stdout=subprocess.DEVNULL,
                       stderr=subprocess.DEVNULL, cwd=ck.work, timeout=120)
    d, info, tape = parse_search(out) if os.path.exists(out) else ([], {}, [])
    return info.get('status') == 'failed' or p.returncode not in (0, 1)


def load_known():
    """known_findings.txt: 'known: property=C17 contract=NAME :: text': NAME is a contract whose only input is the failing one"""
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r'known: property=(\S+) contract=(\S+) :: (.*)', ln.strip())
            if m:
                out.append({'property': m.group(1), 'contract': m.group(2), 'text': m.group(3)})
    return out


def report(ck, a, cons, sym_cons, enum_cons, results, failures, nat, t_compile):
    prop = ck.prop
    for k in ck.known:
        if k['fails']:
            print('KNOWN-FINDING: property=%s %s' % (prop, k['text']))
    verdict = None
    os.makedirs(VERIF + '/evidence/replay', exist_ok=True)
    if FAST:
        print('FAST ' + ('caught by ' + failures[0]['contract'] + ': ' + failures[0]['label'] if failures else 'survived'), flush=True)
        os.killpg(os.getpgid(0), 9)
    if failures:
        # 1. replay what the verifier (or the execution) gave
        conf = None
        for i, f in enumerate(sorted(failures, key=lambda f: 0 if f.get('native') else 1)):
            if f['tape'] is None or i > 60:
                continue
            ok, out = confirm(ck, f, i)
            f['replay_output'] = out
            if ok:
                conf = f
                break
        if conf is None:
            # 2. directed search on the contracts with an open obligation
            secs = 45 if ck.tier == 'quick' else 120
            fs = [f for f in failures if f['contract'] != '(compilation)']
            seen, uniq = set(), []
            for f in fs:
                k = (f['contract'], f['case'])
                if k not in seen:
                    seen.add(k)
                    uniq.append(f)
            try:
                found = search(ck, uniq[:64], secs) if uniq else []
            except Exception as e:
                print('search failed: %r' % e, file=sys.stderr)
                found = []
            for i, f in enumerate(found):
                ok, out = confirm(ck, f, 1000 + i)
                f['replay_output'] = out
                if ok:
                    conf = f
                    break
        rp = os.path.join(VERIF, 'evidence', 'replay', '%s.txt' % prop)
        f = conf or sorted(failures, key=lambda f: (f['tape'] is None, f['kind'] in ('engine', 'frontend', 'unsupported', 'budget')))[0]
        with open(rp, 'w') as o:
            o.write('property %s\nfailed obligation: %s / case %d / %s [%s]\n' % (prop, f['contract'], f['case'], f['label'], f['kind']))
            c = next((c for c in cons if c['name'] == f['contract']), None)
            if c:
                o.write('function(s) under contract: %s\ncontract: %s\n' % (c['target'], c['text']))
            if f.get('where'):
                o.write('call stack (innermost first): %s\n' % ' < '.join(demangle(f['where'].split(' < '))))
            o.write('verifier output: %s\n' % (f['detail'],))
            if f['tape'] is not None:
                o.write('confirmed on the real code: %s\n' % ('yes' if conf else 'no'))
                o.write('--- input (replay: bin/replay %s) ---\n' % rp)
                o.write('unit %s\ncontract %s\ncase %d\nlabel %s\n' % (f['unit']['file'], f['contract'], f['case'], f['label']))
                for nm, bits, v in f['tape']:
                    o.write('draw %s %d %d %d\n' % ((nm or '_').replace(' ', '_'), bits, v & ((1 << 64) - 1), v >> 64))
                o.write('--- native run ---\n%s\n' % f.get('replay_output', ''))
            o.write('--- all open obligations of this run ---\n')
            for g in failures[:50]:
                o.write('%s case %d: %s [%s] %s\n' % (g['contract'], g['case'], g['label'], g['kind'], str(g['detail'])[:600]))
        verdict = 'VIOLATION property=%s replay=%s%s' % (prop, rp, '' if conf else ' no-failing-input-found')
        print('open obligation: %s case %d: %s [%s]' % (f['contract'], f['case'], f['label'], f['kind']))
    # evidence
    kinds = {c['name']: c['kind'] for c in cons}

    def tally(pred):
        n = d = 0
        for r in results:
            if pred(kinds[r['name']]):
                for v in r['vcs']:
                    n += v[2]
                    d += v[3]
        return n, d
    pn, pd = tally(lambda k: k == 'proof')
    bn, bd = tally(lambda k: k.startswith('bounded'))
    by = {}
    for r in results:
        for k, v in r['smt']['by'].items():
            b = by.setdefault(k, [0, 0.0])
            b[0] += v[0]
            b[1] += v[1]
    names = {'bb': 'z3 (bit-vectors, bit-blasting)', 'int': 'z3 (bit-vectors, intblast)', 'lia': 'z3 (own translation to linear integer arithmetic)', 'cvc5': 'cvc5 (bit-vectors as integers)', 'simple': 'z3'}
    funcs = sorted(set(n for r in results for n in r.get('functions', [])))
    dem = [d for d in demangle(funcs) if 'awl::' in d]
    opaque = sorted(set(n for r in results for n in r.get('opaque', [])))
    cov = {
        'obligations': pn, 'discharged': pd,
        'checker_cmd': 'bin/check %s (VC generator dv/, back ends z3 %s and cvc5)' % (prop, z3v()),
        'trusted_base': ['clang++-18 front end and the LLVM passes ' + PASSES, 'VC generator dv/ (LLVM IR semantics, memory model, runtime summaries in dv/lib.py)', 'z3, cvc5'],
        'contracts': [{'contract': c['name'], 'kind': c['kind'], 'target': c['target'], 'text': c['text'], 'cases': c['cases'],
                       'obligations': sum(v[2] for r in results if r['name'] == c['name'] for v in r['vcs']),
                       'discharged': sum(v[3] for r in results if r['name'] == c['name'] for v in r['vcs']),
                       'paths': sum(r['paths'] for r in results if r['name'] == c['name']),
                       'solver_s': round(sum(r['smt']['time'] for r in results if r['name'] == c['name']), 2)} for c in sym_cons],
        'bounded_obligations': bn, 'bounded_discharged': bd,
        'back_ends': {names.get(k, k): {'queries_decided': v[0], 'seconds': round(v[1], 2)} for k, v in by.items()},
        'functions_executed_under_contract': len(dem),
        'functions': dem[:400],
        'loops_by_invariant': sorted(set('%s' % (k,) for r in results for k in r.get('loops', {}))),
        'executed_contracts': [{'contract': c['name'], 'kind': c['kind'], 'target': c['target'], 'text': c['text'],
                                'executions': sum(d['execs'] for d in nat if d['name'] == c['name']),
                                'outside_precondition': sum(d['rejected'] for d in nat if d['name'] == c['name']),
                                'space_completed': all(d['complete'] for d in nat if d['name'] == c['name']) and any(d['name'] == c['name'] for d in nat)}
                               for c in enum_cons],
    }
    if opaque:
        cov['trusted_base'].append('external functions by summary: ' + ', '.join(opaque))
    level = 'proof' if pn else 'other'
    if not pn:
        cov['explanation'] = 'bounded contract checks only'
    assum = ['objects live at distinct, fixed, non-overlapping addresses; allocation of less than 2^40 bytes succeeds',
             'template instantiations named in contracts/%s stand for the templates' % ', '.join(ck.files),
             'text of messages (std::ostream formatting) is not modelled']
    p = os.path.join(VERIF, 'contracts', prop + '.assume')
    if os.path.exists(p):
        assum += [x.strip() for x in open(p) if x.strip()]
    ev = {'property': prop, 'tier': ck.tier, 'seed': ck.seed, 'level': level, 'coverage': cov, 'assumptions': assum,
          'wall_s': round(time.time() - ck.t0, 2), 'violations': 1 if failures else 0}
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as o:
        json.dump(ev, o, indent=1)
    print('%s: %d/%d obligations discharged (proof), %d/%d bounded, %d executed-contract runs, %d paths, compile %.0fs, wall %.0fs' % (
        prop, pd, pn, bd, bn, sum(d['execs'] for d in nat), sum(r['paths'] for r in results), t_compile, time.time() - ck.t0))
    if verdict:
        print(verdict)
        return 1
    return 0


def z3v():
    import z3
    return z3.get_version_string()


if __name__ == '__main__':
    main()
