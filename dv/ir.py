"""Parser for the subset of textual LLVM IR (18) that clang++ emits for the code under contract.

Only structure is parsed here; semantics are in sym.py.  Functions are parsed lazily.
"""
import re
import subprocess

TOK = re.compile(r'''
   (?P<cstr>c"(?:[^"\\]|\\.)*")
 | (?P<loc>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<str>"(?:[^"\\]|\\.)*")
 | (?P<meta>![a-zA-Z_.0-9]*)
 | (?P<attr>\#\d+)
 | (?P<hexf>0x[KLMHR]?[0-9A-Fa-f]+)
 | (?P<flt>-?\d+\.\d+(?:e[+-]?\d+)?)
 | (?P<num>-?\d+)
 | (?P<dots>\.\.\.)
 | (?P<word>[a-zA-Z_$][-a-zA-Z$._0-9]*)
 | (?P<p>[][(){}<>,=*:|])
''', re.X)
WS = re.compile(r'\s+')


def tokenize(s):
    out = []
    i, n = 0, len(s)
    while i < n:
        c = s[i]
        if c in ' \t\n':
            i += 1
            continue
        if c == ';':
            j = s.find('\n', i)
            i = n if j < 0 else j
            continue
        m = TOK.match(s, i)
        if not m:
            raise SyntaxError('lex: ' + s[i:i + 60])
        k = m.lastgroup
        t = m.group()
        if k in ('loc', 'glob') and t[1] == '"':
            t = t[0] + t[2:-1]
        out.append((k, t))
        i = m.end()
    return out


# ---- types: tuples -------------------------------------------------------
# ('i', n) ('ptr',) ('void',) ('f', bits) ('arr', n, t) ('st', (t...), packed) ('named', name) ('fn', ret, args, va)
# ('vec', n, t) ('label',) ('meta',)
I1 = ('i', 1)
I8 = ('i', 8)
I32 = ('i', 32)
I64 = ('i', 64)
PTR = ('ptr',)
VOID = ('void',)


class P:
    """token cursor"""

    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j][1] if j < len(self.t) else None

    def kind(self, k=0):
        j = self.i + k
        return self.t[j][0] if j < len(self.t) else None

    def next(self):
        v = self.t[self.i][1]
        self.i += 1
        return v

    def accept(self, s):
        if self.peek() == s:
            self.i += 1
            return True
        return False

    def expect(self, s):
        if self.peek() != s:
            raise SyntaxError('expected %r got %r near %s' % (s, self.peek(), ' '.join(x[1] for x in self.t[max(0, self.i - 12):self.i + 8])))
        self.i += 1

    def more(self):
        return self.i < len(self.t)

    def skip_parens(self):
        self.expect('(')
        d = 1
        while d:
            x = self.next()
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1


PARAM_ATTRS = set('''noundef nonnull zeroext signext noalias nocapture readonly readnone writeonly returned inreg
 nofree nest swiftself immarg nounwind noreturn allocptr allocalign dead_on_unwind writable fastcc ccc coldcc tailcc
 mustprogress swifterror'''.split())
PAREN_ATTRS = set('''dereferenceable dereferenceable_or_null sret byval byref inalloca elementtype preallocated range
 nofpclass captures initializes memory'''.split())


def parse_type(p):
    k = p.kind()
    t = p.peek()
    if k == 'word':
        if re.fullmatch(r'i\d+', t):
            p.next()
            ty = ('i', int(t[1:]))
        elif t == 'ptr':
            p.next()
            if p.peek() == 'addrspace':
                p.next()
                p.skip_parens()
            ty = PTR
        elif t == 'void':
            p.next()
            ty = VOID
        elif t in ('float', 'double', 'x86_fp80', 'half', 'fp128'):
            p.next()
            ty = ('f', {'float': 32, 'double': 64, 'x86_fp80': 80, 'half': 16, 'fp128': 128}[t])
        elif t == 'label':
            p.next()
            ty = ('label',)
        elif t == 'metadata':
            p.next()
            ty = ('meta',)
        elif t == 'token':
            p.next()
            ty = ('token',)
        elif t == 'opaque':
            p.next()
            ty = ('opaque',)
        else:
            raise SyntaxError('type? ' + str(t) + ' near ' + ' '.join(x[1] for x in p.t[max(0, p.i - 10):p.i + 8]))
    elif k == 'loc':
        p.next()
        ty = ('named', t)
    elif t == '[':
        p.next()
        n = int(p.next())
        p.expect('x')
        e = parse_type(p)
        p.expect(']')
        ty = ('arr', n, e)
    elif t == '{':
        p.next()
        fs = []
        while not p.accept('}'):
            fs.append(parse_type(p))
            p.accept(',')
        ty = ('st', tuple(fs), False)
    elif t == '<':
        p.next()
        if p.peek() == '{':
            p.next()
            fs = []
            while not p.accept('}'):
                fs.append(parse_type(p))
                p.accept(',')
            p.expect('>')
            ty = ('st', tuple(fs), True)
        else:
            n = int(p.next())
            p.expect('x')
            e = parse_type(p)
            p.expect('>')
            ty = ('vec', n, e)
    else:
        raise SyntaxError('type? ' + str(t))
    # function type?
    if p.peek() == '(':
        p.next()
        args = []
        va = False
        while not p.accept(')'):
            if p.accept('...'):
                va = True
            else:
                args.append(parse_type(p))
                skip_attrs(p)
            p.accept(',')
        ty = ('fn', ty, tuple(args), va)
    return ty


def skip_attrs(p):
    """skip parameter attributes; returns dict of interesting ones"""
    res = {}
    while p.more():
        t = p.peek()
        k = p.kind()
        if k == 'word' and t in PARAM_ATTRS:
            p.next()
        elif k == 'word' and t in PAREN_ATTRS:
            p.next()
            if t in ('sret', 'byval'):
                p.expect('(')
                res[t] = parse_type(p)
                p.expect(')')
            else:
                p.skip_parens()
        elif t == 'align' :
            p.next()
            if p.peek() == '(':
                p.skip_parens()
            else:
                p.next()
        elif k == 'attr':
            p.next()
        elif k == 'str':
            p.next()
            if p.accept('='):
                p.next()
        else:
            break
    return res


# ---- constants / values --------------------------------------------------
# ('loc', name) ('glob', name) ('int', n) ('null',) ('undef',) ('zero',) ('cstr', bytes) ('agg', [(ty,val)])
# ('gep', srcty, [(ty,val)...], inbounds) ('cast', op, ty, val, toty) ('bin', op, ty, a, b) ('flt', text)

def parse_cstr(t):
    s = t[2:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out += s[i].encode('latin1')
            i += 1
    return bytes(out)


CASTS = set('trunc zext sext ptrtoint inttoptr bitcast addrspacecast fptoui fptosi uitofp sitofp fptrunc fpext'.split())
BINOPS = set('add sub mul udiv sdiv urem srem and or xor shl lshr ashr fadd fsub fmul fdiv frem'.split())
FLAGS = set('nsw nuw exact fast nnan ninf nsz arcp contract afn reassoc disjoint nneg'.split())


def parse_value(p, ty):
    k = p.kind()
    t = p.peek()
    if k == 'loc':
        p.next()
        return ('loc', t)
    if k == 'glob':
        p.next()
        return ('glob', t)
    if k == 'num':
        p.next()
        return ('int', int(t)) if ty[0] != 'f' else ('flt', t)
    if k in ('flt', 'hexf'):
        p.next()
        return ('flt', t)
    if k == 'cstr':
        p.next()
        return ('cstr', parse_cstr(t))
    if k == 'meta':
        # metadata operand: swallow
        p.next()
        if p.peek() == '(':
            p.skip_parens()
        return ('undef',)
    if t in ('true', 'false'):
        p.next()
        return ('int', 1 if t == 'true' else 0)
    if t == 'null':
        p.next()
        return ('null',)
    if t in ('undef', 'poison'):
        p.next()
        return ('undef',)
    if t in ('zeroinitializer', 'none'):
        p.next()
        return ('zero',)
    if t == '[' or t == '{':
        end = ']' if t == '[' else '}'
        p.next()
        els = []
        while not p.accept(end):
            et = parse_type(p)
            ev = parse_value(p, et)
            els.append((et, ev))
            p.accept(',')
        return ('agg', els)
    if t == '<':
        p.next()
        if p.peek() == '{':
            p.next()
            els = []
            while not p.accept('}'):
                et = parse_type(p)
                ev = parse_value(p, et)
                els.append((et, ev))
                p.accept(',')
            p.expect('>')
            return ('agg', els)
        els = []
        while not p.accept('>'):
            et = parse_type(p)
            ev = parse_value(p, et)
            els.append((et, ev))
            p.accept(',')
        return ('agg', els)
    if t == 'getelementptr':
        p.next()
        inb = False
        while p.peek() in ('inbounds', 'nuw', 'nusw') or p.peek() == 'inrange':
            if p.peek() == 'inrange':
                p.next()
                if p.peek() == '(':
                    p.skip_parens()
            else:
                inb = True
                p.next()
        p.expect('(')
        st = parse_type(p)
        p.expect(',')
        ops = []
        while not p.accept(')'):
            p.accept('inrange')
            et = parse_type(p)
            ev = parse_value(p, et)
            ops.append((et, ev))
            p.accept(',')
        return ('gep', st, ops)
    if t in CASTS:
        p.next()
        p.expect('(')
        et = parse_type(p)
        ev = parse_value(p, et)
        p.expect('to')
        tt = parse_type(p)
        p.expect(')')
        return ('cast', t, et, ev, tt)
    if t in BINOPS:
        p.next()
        while p.peek() in FLAGS:
            p.next()
        p.expect('(')
        et = parse_type(p)
        a = parse_value(p, et)
        p.expect(',')
        et2 = parse_type(p)
        b = parse_value(p, et2)
        p.expect(')')
        return ('bin', t, et, a, b)
    if t in ('icmp',):
        p.next()
        pred = p.next()
        p.expect('(')
        et = parse_type(p)
        a = parse_value(p, et)
        p.expect(',')
        parse_type(p)
        b = parse_value(p, et)
        p.expect(')')
        return ('cicmp', pred, et, a, b)
    if t in ('dso_local_equivalent', 'no_cfi'):
        p.next()
        return parse_value(p, ty)
    raise SyntaxError('value? %r near %s' % (t, ' '.join(x[1] for x in p.t[max(0, p.i - 10):p.i + 8])))


class Inst:
    __slots__ = ('op', 'res', 'ty', 'a', 'line')

    def __init__(self, op, res, ty, a, line):
        self.op = op
        self.res = res
        self.ty = ty
        self.a = a
        self.line = line

    def __repr__(self):
        return '%s = %s %s %s' % (self.res, self.op, self.ty, self.a)


class Function:
    def __init__(self, name, ret, params, text, va):
        self.name = name
        self.ret = ret
        self.params = params    # [(ty, name, attrs)]
        self.text = text        # body lines or None
        self.va = va
        self._blocks = None
        self.entry = None
        self.order = None

    @property
    def is_decl(self):
        return self.text is None

    @property
    def blocks(self):
        if self._blocks is None:
            self.parse_body()
        return self._blocks

    def parse_body(self):
        blocks = {}
        order = []
        cur = None
        lines = self.text
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            i += 1
            s = ln.strip()
            if not s or s[0] == ';':
                continue
            if not ln.startswith(' ') and not ln.startswith('\t'):
                m = re.match(r'("?)([-a-zA-Z$._0-9 ]+)\1:', s)
                if m:
                    cur = '%' + m.group(2)
                    blocks[cur] = []
                    order.append(cur)
                    continue
            if cur is None:
                cur = '%__entry'
                blocks[cur] = []
                order.append(cur)
            # multi-line: switch [ ... ], landingpad clauses, invoke continuation
            if re.search(r'\bswitch\b', s) and '[' in s and ']' not in s.split('[', 1)[1]:
                while ']' not in lines[i]:
                    s += ' ' + lines[i].strip()
                    i += 1
                s += ' ' + lines[i].strip()
                i += 1
            elif re.match(r'(%\S+ = )?invoke\b', s):
                if not re.search(r'\bunwind label\b', s):
                    s += ' ' + lines[i].strip()
                    i += 1
            elif ' landingpad ' in s:
                while i < n and re.match(r'\s+(catch|cleanup|filter)\b', lines[i]):
                    s += ' ' + lines[i].strip()
                    i += 1
            blocks[cur].append(parse_inst(s))
        self._blocks = blocks
        self.order = order
        self.entry = order[0]


def parse_callargs(p):
    args = []
    p.expect('(')
    while not p.accept(')'):
        et = parse_type(p)
        at = skip_attrs(p)
        if et == ('meta',):
            # metadata argument: swallow until , or )
            d = 0
            while True:
                x = p.peek()
                if d == 0 and x in (',', ')'):
                    break
                if x == '(':
                    d += 1
                if x == ')':
                    d -= 1
                p.next()
            ev = ('undef',)
        else:
            ev = parse_value(p, et)
        args.append((et, ev, at))
        p.accept(',')
    return args


def strip_meta(s):
    # remove trailing ", !tbaa !5, !srcloc !7" etc.
    return re.sub(r',\s*![a-zA-Z_.]+ !\d+', '', re.sub(r',\s*![a-zA-Z_.]+ !DIExpression\([^)]*\)', '', s))


DBG = re.compile(r'!dbg !(\d+)')


def parse_inst(s):
    m = DBG.search(s)
    line = int(m.group(1)) if m else None
    p = P(tokenize(strip_meta(s)))
    res = None
    if p.kind() == 'loc' and p.peek(1) == '=':
        res = p.next()
        p.next()
    op = p.next()
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()
    if op in BINOPS:
        fl = set()
        while p.peek() in FLAGS:
            fl.add(p.next())
        ty = parse_type(p)
        a = parse_value(p, ty)
        p.expect(',')
        b = parse_value(p, ty)
        return Inst('bin', res, ty, (op, a, b, fl), line)
    if op in CASTS:
        while p.peek() in FLAGS:
            p.next()
        ty = parse_type(p)
        a = parse_value(p, ty)
        p.expect('to')
        tt = parse_type(p)
        return Inst('cast', res, tt, (op, ty, a), line)
    if op == 'fneg':
        while p.peek() in FLAGS:
            p.next()
        ty = parse_type(p)
        return Inst('fneg', res, ty, (parse_value(p, ty),), line)
    if op == 'icmp' or op == 'fcmp':
        while p.peek() in FLAGS or p.peek() == 'samesign':
            p.next()
        pred = p.next()
        ty = parse_type(p)
        a = parse_value(p, ty)
        p.expect(',')
        b = parse_value(p, ty)
        return Inst(op, res, I1, (pred, ty, a, b), line)
    if op == 'alloca':
        p.accept('inalloca')
        ty = parse_type(p)
        cnt = ('int', 1)
        cty = I32
        while p.accept(','):
            if p.peek() == 'align':
                p.next()
                p.next()
            elif p.peek() == 'addrspace':
                p.next()
                p.skip_parens()
            else:
                cty = parse_type(p)
                cnt = parse_value(p, cty)
        return Inst('alloca', res, PTR, (ty, cty, cnt), line)
    if op == 'load':
        p.accept('atomic')
        p.accept('volatile')
        ty = parse_type(p)
        p.expect(',')
        pt = parse_type(p)
        a = parse_value(p, pt)
        return Inst('load', res, ty, (a,), line)
    if op == 'store':
        p.accept('atomic')
        p.accept('volatile')
        ty = parse_type(p)
        v = parse_value(p, ty)
        p.expect(',')
        pt = parse_type(p)
        a = parse_value(p, pt)
        return Inst('store', None, ty, (v, a), line)
    if op == 'getelementptr':
        while p.peek() in ('inbounds', 'nuw', 'nusw'):
            p.next()
        st = parse_type(p)
        p.expect(',')
        ops = []
        while True:
            et = parse_type(p)
            ev = parse_value(p, et)
            ops.append((et, ev))
            if not p.accept(','):
                break
        return Inst('gep', res, PTR, (st, ops), line)
    if op == 'select':
        while p.peek() in FLAGS:
            p.next()
        ct = parse_type(p)
        c = parse_value(p, ct)
        p.expect(',')
        ty = parse_type(p)
        a = parse_value(p, ty)
        p.expect(',')
        parse_type(p)
        b = parse_value(p, ty)
        return Inst('select', res, ty, (c, a, b), line)
    if op == 'phi':
        while p.peek() in FLAGS:
            p.next()
        ty = parse_type(p)
        inc = {}
        while True:
            p.expect('[')
            v = parse_value(p, ty)
            p.expect(',')
            b = p.next()
            p.expect(']')
            inc[b] = v
            if not p.accept(','):
                break
        return Inst('phi', res, ty, (inc,), line)
    if op == 'br':
        if p.peek() == 'label':
            p.next()
            return Inst('br', None, None, (None, p.next()), line)
        parse_type(p)
        c = parse_value(p, I1)
        p.expect(',')
        p.expect('label')
        a = p.next()
        p.expect(',')
        p.expect('label')
        b = p.next()
        return Inst('br', None, None, (c, a, b), line)
    if op == 'switch':
        ty = parse_type(p)
        v = parse_value(p, ty)
        p.expect(',')
        p.expect('label')
        d = p.next()
        p.expect('[')
        cases = []
        while not p.accept(']'):
            parse_type(p)
            cv = parse_value(p, ty)
            p.expect(',')
            p.expect('label')
            cases.append((cv[1], p.next()))
        return Inst('switch', None, ty, (v, d, cases), line)
    if op == 'ret':
        ty = parse_type(p)
        if ty == VOID:
            return Inst('ret', None, ty, (None,), line)
        return Inst('ret', None, ty, (parse_value(p, ty),), line)
    if op == 'unreachable':
        return Inst('unreachable', None, None, (), line)
    if op in ('call', 'invoke'):
        while p.peek() in FLAGS or p.peek() in ('fastcc', 'ccc', 'coldcc'):
            p.next()
        skip_attrs(p)
        if p.peek() == 'addrspace':
            p.next()
            p.skip_parens()
        # return type; might be function type
        rt = parse_type(p)
        if rt[0] == 'fn':
            rt = rt[1]
        if p.peek() == 'asm':
            return Inst('asm', res, rt, (), line)
        callee = parse_value(p, PTR)
        args = parse_callargs(p)
        normal = unwind = None
        while p.more():
            t = p.next()
            if t == 'to' and op == 'invoke':
                p.expect('label')
                normal = p.next()
                p.expect('unwind')
                p.expect('label')
                unwind = p.next()
                break
        return Inst('call', res, rt, (callee, args, normal, unwind), line)
    if op == 'landingpad':
        ty = parse_type(p)
        cleanup = False
        clauses = []
        while p.more():
            t = p.next()
            if t == 'cleanup':
                cleanup = True
            elif t in ('catch', 'filter'):
                et = parse_type(p)
                ev = parse_value(p, et)
                clauses.append((t, ev))
        return Inst('landingpad', res, ty, (cleanup, clauses), line)
    if op == 'resume':
        ty = parse_type(p)
        return Inst('resume', None, ty, (parse_value(p, ty),), line)
    if op == 'extractvalue':
        ty = parse_type(p)
        v = parse_value(p, ty)
        idx = []
        while p.accept(','):
            idx.append(int(p.next()))
        return Inst('extractvalue', res, ty, (v, idx), line)
    if op == 'insertvalue':
        ty = parse_type(p)
        v = parse_value(p, ty)
        p.expect(',')
        et = parse_type(p)
        ev = parse_value(p, et)
        idx = []
        while p.accept(','):
            idx.append(int(p.next()))
        return Inst('insertvalue', res, ty, (v, et, ev, idx), line)
    if op == 'freeze':
        ty = parse_type(p)
        return Inst('freeze', res, ty, (parse_value(p, ty),), line)
    if op == 'fence':
        return Inst('nop', None, None, (), line)
    if op == 'atomicrmw':
        p.accept('volatile')
        kind = p.next()
        parse_type(p)
        a = parse_value(p, PTR)
        p.expect(',')
        ty = parse_type(p)
        v = parse_value(p, ty)
        return Inst('atomicrmw', res, ty, (kind, a, v), line)
    if op == 'cmpxchg':
        p.accept('weak')
        p.accept('volatile')
        parse_type(p)
        a = parse_value(p, PTR)
        p.expect(',')
        ty = parse_type(p)
        c = parse_value(p, ty)
        p.expect(',')
        parse_type(p)
        n = parse_value(p, ty)
        return Inst('cmpxchg', res, ty, (a, c, n), line)
    return Inst('unsupported', res, None, (s,), line)


class Global:
    __slots__ = ('name', 'ty', 'init', 'const', 'external')

    def __init__(self, name, ty, init, const, external):
        self.name = name
        self.ty = ty
        self.init = init
        self.const = const
        self.external = external


LINKAGE = set('''private internal available_externally linkonce weak common appending extern_weak linkonce_odr weak_odr
 external dso_local dso_preemptable default hidden protected unnamed_addr local_unnamed_addr thread_local
 externally_initialized'''.split())


class Module:
    def __init__(self, text):
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.aliases = {}
        self._sz = {}
        self._dem = None
        self.parse(text)

    def demangled(self):
        if self._dem is None:
            names = [n for n in self.funcs]
            r = subprocess.run(['llvm-cxxfilt-18'], input='\n'.join(n[1:] for n in names), capture_output=True, text=True)
            self._dem = dict(zip(names, r.stdout.split('\n')))
        return self._dem

    def parse(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            i += 1
            if not ln or ln[0] in ';!\n' or ln.startswith('source_filename') or ln.startswith('target') \
                    or ln.startswith('attributes') or ln.startswith('$'):
                continue
            if ln[0] == '%':
                p = P(tokenize(ln))
                nm = p.next()
                p.expect('=')
                p.expect('type')
                self.types[nm] = parse_type(p)
            elif ln[0] == '@':
                self.parse_global(ln)
            elif ln.startswith('declare'):
                f = self.parse_header(ln, False)
                if f.name not in self.funcs:
                    self.funcs[f.name] = f
            elif ln.startswith('define'):
                body = []
                while lines[i] != '}':
                    body.append(lines[i])
                    i += 1
                i += 1
                f = self.parse_header(ln, True)
                f.text = body
                self.funcs[f.name] = f

    def parse_global(self, ln):
        p = P(tokenize(strip_meta(ln)))
        nm = p.next()
        p.expect('=')
        external = False
        while True:
            t = p.peek()
            if t in LINKAGE:
                if t in ('external', 'extern_weak'):
                    external = True
                p.next()
                if t == 'thread_local' and p.peek() == '(':
                    p.skip_parens()
            elif t == 'addrspace':
                p.next()
                p.skip_parens()
            else:
                break
        k = p.next()
        if k == 'alias' or k == 'ifunc':
            parse_type(p)
            p.expect(',')
            parse_type(p)
            v = parse_value(p, PTR)
            self.aliases[nm] = v
            return
        ty = parse_type(p)
        init = None
        if not external and p.more() and p.peek() != ',':
            init = parse_value(p, ty)
        self.globals[nm] = Global(nm, ty, init, k == 'constant', external)

    def parse_header(self, ln, define):
        # cut off trailing personality etc by locating name
        p = P(tokenize(re.sub(r'\s*\{$', '', strip_meta(ln))))
        p.next()
        while p.peek() in LINKAGE or p.peek() in ('fastcc', 'ccc', 'coldcc'):
            p.next()
        skip_attrs(p)
        rt = parse_type(p)
        name = p.next()
        p.expect('(')
        params = []
        va = False
        while not p.accept(')'):
            if p.accept('...'):
                va = True
                continue
            ty = parse_type(p)
            at = skip_attrs(p)
            pn = None
            if p.kind() == 'loc':
                pn = p.next()
            elif define:
                pn = '%' + str(len(params))
            params.append((ty, pn, at))
            p.accept(',')
        return Function(name, rt, params, None, va)

    # ---- layout -----------------------------------------------------------
    def resolve(self, ty):
        while ty[0] == 'named':
            ty = self.types[ty[1]]
        return ty

    def align(self, ty):
        k = ty[0]
        if k == 'i':
            n = ty[1]
            if n <= 8:
                return 1
            if n <= 16:
                return 2
            if n <= 32:
                return 4
            if n <= 64:
                return 8
            return 16
        if k == 'ptr':
            return 8
        if k == 'f':
            return {16: 2, 32: 4, 64: 8, 80: 16, 128: 16}[ty[1]]
        if k == 'arr':
            return self.align(ty[2])
        if k == 'vec':
            return max(1, ty[1] * self.size(ty[2]))
        if k == 'st':
            if ty[2]:
                return 1
            return max([self.align(f) for f in ty[1]] or [1])
        if k == 'named':
            return self.align(self.resolve(ty))
        raise SyntaxError('align ' + str(ty))

    def size(self, ty):
        r = self._sz.get(ty)
        if r is None:
            r = self._sz[ty] = self._size(ty)
        return r

    def _size(self, ty):
        k = ty[0]
        if k == 'i':
            n = (ty[1] + 7) // 8
            a = self.align(ty)
            return (n + a - 1) // a * a
        if k == 'ptr':
            return 8
        if k == 'f':
            return {16: 2, 32: 4, 64: 8, 80: 16, 128: 16}[ty[1]]
        if k == 'arr':
            return ty[1] * self.size(ty[2])
        if k == 'vec':
            return ty[1] * self.size(ty[2])
        if k == 'st':
            return self.layout(ty)[1]
        if k == 'named':
            return self.size(self.resolve(ty))
        raise SyntaxError('size ' + str(ty))

    def layout(self, ty):
        key = ('L', ty)
        r = self._sz.get(key)
        if r is not None:
            return r
        offs = []
        o = 0
        ma = 1
        for f in ty[1]:
            if not ty[2]:
                a = self.align(f)
                ma = max(ma, a)
                o = (o + a - 1) // a * a
            offs.append(o)
            o += self.size(f)
        if not ty[2]:
            o = (o + ma - 1) // ma * ma
        r = (offs, o)
        self._sz[key] = r
        return r
