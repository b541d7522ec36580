"""Parser for the textual LLVM IR that clang emits (LLVM 18, opaque pointers).

Function bodies are parsed lazily, on first execution, so that IR this
parser does not know in functions no contract reaches is never an error.
"""
import re
import struct


class Unsupported(Exception):
    """The front end or the executor met something it cannot interpret.
    Always reported as 'undecided', never as a violation."""


# ---------------------------------------------------------------- types
# ('i',n) ('f32',) ('f64',) ('ptr',) ('void',) ('arr',n,T) ('vec',n,T)
# ('st',(T..),packed)  ('named',name) ('other',text)

TOK = re.compile(r'''\s*(?:
  (?P<str>c?"(?:[^"])*")|
  (?P<meta>![A-Za-z_.\\0-9]*(?:\([^()]*(?:\([^()]*\)[^()]*)*\))?)|
  (?P<id>[%@](?:"[^"]*"|[-A-Za-z$._0-9]+))|
  (?P<attr>\#[0-9]+)|
  (?P<num>-?[0-9]+\.[0-9]*(?:[eE][-+]?[0-9]+)?|0x[A-Z]?[0-9A-Fa-f]+|-?[0-9]+)|
  (?P<word>[A-Za-z_$.][-A-Za-z_$.0-9]*)|
  (?P<p>\.\.\.|[\[\](){}<>,=*|:])
)''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '' or s[i:].lstrip().startswith(';'):
                break
            raise Unsupported('cannot tokenize IR: ' + s[i:i + 60])
        k = m.lastgroup
        t = m.group(k)
        out.append((k, t))
        i = m.end()
        if s[i:i + 2] == ' ;':
            break
    return out


class Toks:
    def __init__(self, s):
        self.t = tokenize(s)
        self.i = 0

    def peek(self, d=0):
        return self.t[self.i + d][1] if self.i + d < len(self.t) else None

    def kind(self, d=0):
        return self.t[self.i + d][0] if self.i + d < len(self.t) else None

    def next(self):
        if self.i >= len(self.t):
            raise Unsupported('unexpected end of IR line')
        x = self.t[self.i][1]
        self.i += 1
        return x

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x:
            raise Unsupported('IR: expected %r, got %r' % (x, y))

    def done(self):
        return self.i >= len(self.t)


def parse_type(tk):
    t = tk.next()
    if re.fullmatch(r'i\d+', t):
        return ('i', int(t[1:]))
    if t == 'float':
        return ('f32',)
    if t == 'double':
        return ('f64',)
    if t == 'ptr':
        if tk.peek() == 'addrspace':
            raise Unsupported('addrspace')
        return ('ptr',)
    if t == 'void':
        return ('void',)
    if t == '[':
        n = int(tk.next())
        tk.expect('x')
        e = parse_type(tk)
        tk.expect(']')
        return ('arr', n, e)
    if t == '<':
        if tk.peek() == '{':
            tk.next()
            el = []
            while not tk.accept('}'):
                el.append(parse_type(tk))
                tk.accept(',')
            tk.expect('>')
            return ('st', tuple(el), True)
        n = int(tk.next())
        tk.expect('x')
        e = parse_type(tk)
        tk.expect('>')
        return ('vec', n, e)
    if t == '{':
        el = []
        while not tk.accept('}'):
            el.append(parse_type(tk))
            tk.accept(',')
        return ('st', tuple(el), False)
    if t.startswith('%'):
        return ('named', t)
    return ('other', t)


PARAM_ATTRS = {
    'noundef', 'nonnull', 'signext', 'zeroext', 'inreg', 'noalias', 'nocapture', 'readonly',
    'writeonly', 'readnone', 'returned', 'nofree', 'nest', 'immarg', 'swiftself', 'allocptr',
    'dead_on_unwind', 'writable', 'allocalign', 'noext'}
PAREN_ATTRS = {'align', 'dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'byref',
               'inalloca', 'preallocated', 'elementtype', 'alignstack', 'nofpclass', 'range', 'memory',
               'captures'}


def skip_attrs(tk):
    """Returns a dict of the parenthesised type attributes (byval, sret)."""
    got = {}
    while True:
        p = tk.peek()
        if p in PARAM_ATTRS:
            tk.next()
            got[p] = True
        elif p in PAREN_ATTRS:
            tk.next()
            if tk.peek() == '(':
                tk.next()
                if p in ('byval', 'sret', 'byref'):
                    got[p] = parse_type(tk)
                    tk.expect(')')
                else:
                    d = 1
                    while d:
                        x = tk.next()
                        d += (x == '(') - (x == ')')
            else:
                tk.next()   # align N
        elif tk.kind() == 'str':
            tk.next()
            if tk.accept('='):
                tk.next()
        else:
            return got


def parse_value(tk, ty):
    """Operand of a known type."""
    k = tk.kind()
    t = tk.next()
    if k == 'id':
        if t[0] == '%':
            return ('reg', t)
        return ('glob', t)
    if t == 'true':
        return ('int', 1)
    if t == 'false':
        return ('int', 0)
    if t == 'undef':
        return ('undef',)
    if t == 'poison':
        return ('undef', 'poison')
    if t == 'null':
        return ('null',)
    if t == 'zeroinitializer':
        return ('zero',)
    if k == 'num':
        if ty[0] in ('f32', 'f64'):
            if t.startswith('0x'):
                if not re.fullmatch(r'0x[0-9A-Fa-f]+', t):
                    raise Unsupported('float constant ' + t)
                bits = int(t, 16)
                d = struct.unpack('<d', struct.pack('<Q', bits))[0]
                if d != d:
                    # NaN: keep the payload
                    if ty[0] == 'f64':
                        return ('fbits', bits)
                    s = (bits >> 63) & 1
                    return ('fbits', (s << 31) | 0x7f800000 | ((bits >> 29) & 0x7fffff))
            else:
                d = float(t)
            if ty[0] == 'f64':
                return ('fbits', struct.unpack('<Q', struct.pack('<d', d))[0])
            return ('fbits', struct.unpack('<I', struct.pack('<f', d))[0])
        return ('int', int(t, 16) if t.startswith('0x') else int(t))
    if k == 'str' and t.startswith('c"'):
        raw = t[2:-1]
        bs = bytearray()
        i = 0
        while i < len(raw):
            if raw[i] == '\\':
                if raw[i + 1] == '\\':
                    bs.append(0x5c)
                    i += 2
                else:
                    bs.append(int(raw[i + 1:i + 3], 16))
                    i += 3
            else:
                bs.append(ord(raw[i]) & 0xff)
                i += 1
        return ('bytes', bytes(bs))
    if t in ('[', '<', '{'):
        packed = False
        if t == '<' and tk.peek() == '{':
            tk.next()
            packed = True
            close = '}'
        else:
            close = {'[': ']', '<': '>', '{': '}'}[t]
        el = []
        while not tk.accept(close):
            et = parse_type(tk)
            el.append((et, parse_value(tk, et)))
            tk.accept(',')
        if packed:
            tk.expect('>')
        return ('agg', el)
    if t == 'getelementptr':
        while tk.peek() in ('inbounds', 'nuw', 'nusw'):
            tk.next()
        tk.expect('(')
        bt = parse_type(tk)
        tk.expect(',')
        ops = []
        while True:
            tk.accept('inrange')
            ot = parse_type(tk)
            ops.append((ot, parse_value(tk, ot)))
            if not tk.accept(','):
                break
        tk.expect(')')
        return ('cgep', bt, ops)
    if t in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'add', 'sub'):
        raise Unsupported('constant expression ' + t)
    if k == 'meta' or t == 'metadata':
        return ('meta',)
    raise Unsupported('IR operand %r' % (t,))


# ------------------------------------------------------------ functions

class Instr:
    __slots__ = ('op', 'res', 'a', 'dbg', 'text', 'align', 'tbaa', 'access')

    def __init__(self, op, res, a, dbg, text):
        self.op = op
        self.res = res
        self.a = a
        self.dbg = dbg
        self.text = text
        self.align = 0        # load, store, alloca: the alignment the instruction relies on
        self.tbaa = None      # load, store: number of the access tag
        self.access = False   # getelementptr: the address is read or written as it is
        if op in ('load', 'store', 'alloca', 'atomicrmw', 'cmpxchg'):
            m = re.search(r', align (\d+)', text)
            self.align = int(m.group(1)) if m else 0
            m = re.search(r'!tbaa !(\d+)', text)
            self.tbaa = int(m.group(1)) if m else None


class Block:
    __slots__ = ('name', 'instrs', 'succ')

    def __init__(self, name):
        self.name = name
        self.instrs = []
        self.succ = []


class Function:
    def __init__(self, mod, name, header, body):
        self.mod = mod
        self.name = name
        self.header = header
        self.body = body
        self._parsed = False
        self.ipdom = None

    def parse(self):
        if self._parsed:
            return self
        self._parse_header()
        self._parse_body()
        self._parsed = True
        return self

    def _parse_header(self):
        h = self.header
        at = h.index('@' + self.name) if ('@' + self.name) in h else h.index('@"')
        p = h.index('(', at)
        # find the matching parenthesis
        d = 0
        for q in range(p, len(h)):
            d += (h[q] == '(') - (h[q] == ')')
            if d == 0:
                break
        tk = Toks(h[p + 1:q])
        self.params = []
        n = 0
        while not tk.done():
            if tk.accept('...'):
                break
            ty = parse_type(tk)
            at_ = skip_attrs(tk)
            if not tk.done() and tk.kind() == 'id':
                nm = tk.next()
            else:
                nm = '%%%d' % n
            n += 1
            self.params.append((ty, nm, at_))
            tk.accept(',')
        pre = h[:at]
        m = re.search(r'define\s+(.*)$', pre)
        tk = Toks(m.group(1))
        self.ret = None
        while not tk.done():
            w = tk.peek()
            if w in ('dso_local', 'internal', 'linkonce_odr', 'private', 'weak', 'weak_odr', 'hidden',
                     'protected', 'external', 'linkonce', 'available_externally', 'unnamed_addr',
                     'local_unnamed_addr', 'fastcc', 'ccc', 'coldcc'):
                tk.next()
                continue
            g = skip_attrs(tk)
            if g:
                continue
            if tk.done():
                break
            self.ret = parse_type(tk)
            break

    def _parse_body(self):
        self.blocks = {}
        self.order = []
        nparams = sum(1 for p in self.params if re.fullmatch(r'%\d+', p[1]))
        cur = Block('%' + str(nparams))
        first = True
        lines = self.body
        i = 0
        while i < len(lines):
            ln = lines[i]
            i += 1
            s = ln.strip()
            if not s or s.startswith(';'):
                continue
            m = re.match(r'^("[^"]*"|[-A-Za-z$._0-9]+):', ln)
            if m:
                nm = '%' + m.group(1)
                if first and not cur.instrs:
                    cur = Block(nm)
                else:
                    self._add(cur)
                    cur = Block(nm)
                first = False
                continue
            first = False
            if s.startswith('switch') and not s.rstrip().endswith(']') and ']' not in s:
                while ']' not in s:
                    s += ' ' + lines[i].strip()
                    i += 1
            if re.match(r'(%[^ ]+ = )?(invoke|call)\b', s) and s.count('(') > s.count(')'):
                while s.count('(') > s.count(')'):
                    s += ' ' + lines[i].strip()
                    i += 1
            if re.match(r'(%[^ ]+ = )?invoke\b', s) and ' unwind label' not in s:
                s += ' ' + lines[i].strip()
                i += 1
            if ' landingpad' in s or s.startswith('landingpad'):
                while i < len(lines) and re.match(r'\s*(cleanup|catch|filter)\b', lines[i]):
                    s += ' ' + lines[i].strip()
                    i += 1
                cur.instrs.append(Instr('landingpad', None, None, None, s))
                continue
            cur.instrs.append(self._instr(s))
        self._add(cur)
        for b in self.blocks.values():
            t = b.instrs[-1] if b.instrs else None
            if t is None:
                continue
            if t.op == 'br':
                b.succ = [x for x in t.a[1:]] if t.a[0] is not None else [t.a[1]]
            elif t.op == 'switch':
                b.succ = [t.a[2]] + [x[1] for x in t.a[3]]
            elif t.op == 'invoke':
                b.succ = [t.a['normal']]
        used = set()
        for b in self.blocks.values():
            for x in b.instrs:
                if x.op == 'load' and x.a[1][0] == 'reg':
                    used.add(x.a[1][1])
                elif x.op == 'store' and x.a[2][0] == 'reg':
                    used.add(x.a[2][1])
        for b in self.blocks.values():
            for x in b.instrs:
                if x.op == 'getelementptr' and x.res in used:
                    x.access = True
        self._postdom()

    def _add(self, b):
        self.blocks[b.name] = b
        self.order.append(b.name)

    def _postdom(self):
        """Immediate post-dominators over the blocks that can reach a return."""
        EXIT = '<exit>'
        succ = {}
        for n, b in self.blocks.items():
            if b.instrs and b.instrs[-1].op == 'ret':
                succ[n] = [EXIT]
            else:
                succ[n] = list(dict.fromkeys(b.succ))
        pred = {}
        for n, ss in succ.items():
            for s in ss:
                pred.setdefault(s, []).append(n)
        live = {EXIT}
        work = [EXIT]
        while work:
            x = work.pop()
            for p in pred.get(x, []):
                if p not in live:
                    live.add(p)
                    work.append(p)
        pd = {n: set(live) for n in live}
        pd[EXIT] = {EXIT}
        ch = True
        nodes = [n for n in reversed(self.order) if n in live]
        while ch:
            ch = False
            for n in nodes:
                ss = [s for s in succ[n] if s in live]
                new = set.intersection(*[pd[s] for s in ss]) | {n} if ss else {n}
                if new != pd[n]:
                    pd[n] = new
                    ch = True
        self.ipdom = {}
        for n in live:
            if n == EXIT:
                continue
            c = pd[n] - {n}
            best = None
            for x in c:
                if all(y in pd[x] for y in c):
                    best = x
                    break
            self.ipdom[n] = best

    # -------------------------------------------------------- one line
    def _instr(self, s):
        dbg = None
        m = re.search(r', !dbg !(\d+)', s)
        if m:
            dbg = int(m.group(1))
        core = re.sub(r'(, ![A-Za-z_.]+ !\d+)+\s*$', '', s)
        core = re.sub(r', !srcloc !\d+', '', core)
        try:
            res = None
            tk = Toks(core)
            if tk.kind() == 'id' and tk.peek(1) == '=':
                res = tk.next()
                tk.next()
            op = tk.next()
            a = self._operands(op, tk, core)
            return Instr(op if op not in ('tail', 'musttail', 'notail') else 'call', res, a, dbg, s)
        except Unsupported as e:
            return Instr('unsupported', None, str(e) + ' in: ' + s[:120], dbg, s)

    def _tv(self, tk):
        ty = parse_type(tk)
        skip_attrs(tk)
        return ty, parse_value(tk, ty)

    def _operands(self, op, tk, core):
        if op == 'alloca':
            tk.accept('inalloca')
            ty = parse_type(tk)
            n = ('int', 1)
            while tk.accept(','):
                if tk.peek() == 'align':
                    tk.next()
                    tk.next()
                else:
                    n = self._tv(tk)[1]
            return (ty, n)
        if op == 'load':
            while tk.peek() in ('volatile', 'atomic'):
                tk.next()
            ty = parse_type(tk)
            tk.expect(',')
            return (ty, self._tv(tk)[1])
        if op == 'store':
            while tk.peek() in ('volatile', 'atomic'):
                tk.next()
            ty, v = self._tv(tk)
            tk.expect(',')
            return (ty, v, self._tv(tk)[1])
        if op == 'atomicrmw':
            tk.accept('volatile')
            what = tk.next()
            p = self._tv(tk)[1]
            tk.expect(',')
            ty, v = self._tv(tk)
            return (what, ty, p, v)
        if op == 'cmpxchg':
            while tk.peek() in ('weak', 'volatile'):
                tk.next()
            p = self._tv(tk)[1]
            tk.expect(',')
            ty, c = self._tv(tk)
            tk.expect(',')
            return (ty, p, c, self._tv(tk)[1])
        if op == 'getelementptr':
            inb = False
            while tk.peek() in ('inbounds', 'nuw', 'nusw'):
                inb |= tk.next() == 'inbounds'
            bt = parse_type(tk)
            tk.expect(',')
            ops = []
            while True:
                ops.append(self._tv(tk))
                if not tk.accept(','):
                    break
            return (bt, ops, inb)
        if op in ('add', 'sub', 'mul', 'shl', 'sdiv', 'udiv', 'srem', 'urem', 'ashr', 'lshr', 'and', 'or', 'xor'):
            fl = set()
            while tk.peek() in ('nsw', 'nuw', 'exact', 'disjoint'):
                fl.add(tk.next())
            ty = parse_type(tk)
            x = parse_value(tk, ty)
            tk.expect(',')
            return (ty, x, parse_value(tk, ty), fl)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            self._fmf(tk)
            ty = parse_type(tk)
            x = parse_value(tk, ty)
            tk.expect(',')
            return (ty, x, parse_value(tk, ty))
        if op == 'fneg':
            self._fmf(tk)
            ty = parse_type(tk)
            return (ty, parse_value(tk, ty))
        if op == 'icmp':
            while tk.peek() == 'samesign':
                tk.next()
            c = tk.next()
            ty = parse_type(tk)
            x = parse_value(tk, ty)
            tk.expect(',')
            return (c, ty, x, parse_value(tk, ty))
        if op == 'fcmp':
            self._fmf(tk)
            c = tk.next()
            ty = parse_type(tk)
            x = parse_value(tk, ty)
            tk.expect(',')
            return (c, ty, x, parse_value(tk, ty))
        if op in ('trunc', 'zext', 'sext', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext', 'fptrunc',
                  'bitcast', 'ptrtoint', 'inttoptr'):
            while tk.peek() in ('nneg', 'nsw', 'nuw'):
                tk.next()
            ty, v = self._tv(tk)
            tk.expect('to')
            return (ty, v, parse_type(tk))
        if op == 'select':
            self._fmf(tk)
            ct, c = self._tv(tk)
            tk.expect(',')
            t1, x = self._tv(tk)
            tk.expect(',')
            t2, y = self._tv(tk)
            return (ct, c, t1, x, y)
        if op == 'freeze':
            return self._tv(tk)
        if op == 'phi':
            self._fmf(tk)
            ty = parse_type(tk)
            inc = []
            while True:
                tk.expect('[')
                v = parse_value(tk, ty)
                tk.expect(',')
                inc.append((v, tk.next()))
                tk.expect(']')
                if not tk.accept(','):
                    break
            return (ty, inc)
        if op == 'br':
            if tk.accept('label'):
                return (None, tk.next())
            ty, c = self._tv(tk)
            tk.expect(',')
            tk.expect('label')
            a = tk.next()
            tk.expect(',')
            tk.expect('label')
            return (c, a, tk.next())
        if op == 'switch':
            ty, v = self._tv(tk)
            tk.expect(',')
            tk.expect('label')
            d = tk.next()
            tk.expect('[')
            cs = []
            while not tk.accept(']'):
                ct, cv = self._tv(tk)
                tk.expect(',')
                tk.expect('label')
                cs.append((cv, tk.next()))
            return (ty, v, d, cs)
        if op == 'ret':
            ty = parse_type(tk)
            if ty[0] == 'void':
                return (ty, None)
            return (ty, parse_value(tk, ty))
        if op in ('unreachable', 'resume', 'fence'):
            return None
        if op == 'extractvalue':
            ty, v = self._tv(tk)
            idx = []
            while tk.accept(','):
                idx.append(int(tk.next()))
            return (ty, v, idx)
        if op == 'insertvalue':
            ty, v = self._tv(tk)
            tk.expect(',')
            et, e = self._tv(tk)
            idx = []
            while tk.accept(','):
                idx.append(int(tk.next()))
            return (ty, v, et, e, idx)
        if op == 'extractelement':
            ty, v = self._tv(tk)
            tk.expect(',')
            return (ty, v) + self._tv(tk)
        if op == 'insertelement':
            ty, v = self._tv(tk)
            tk.expect(',')
            et, e = self._tv(tk)
            tk.expect(',')
            return (ty, v, et, e) + self._tv(tk)
        if op == 'shufflevector':
            ty, v = self._tv(tk)
            tk.expect(',')
            t2, w = self._tv(tk)
            tk.expect(',')
            mt, m = self._tv(tk)
            return (ty, v, w, mt, m)
        if op in ('tail', 'musttail', 'notail'):
            op = tk.next()
        if op in ('call', 'invoke'):
            self._fmf(tk)
            while tk.peek() in ('fastcc', 'ccc', 'coldcc'):
                tk.next()
            skip_attrs(tk)
            rt = parse_type(tk)
            va = False
            if tk.peek() == '(':
                d = 0
                while True:
                    x = tk.next()
                    va |= x == '...'
                    d += (x == '(') - (x == ')')
                    if d == 0:
                        break
            asm = None
            if tk.peek() == 'asm':
                m = re.search(r'\basm (?:sideeffect |alignstack |inteldialect )*"((?:[^"\\]|\\.)*)", "([^"]*)"', core)
                if not m:
                    raise Unsupported('inline asm')
                asm = m.groups()
                while tk.peek() != '(':
                    tk.next()
                callee = '@<asm>'
            elif tk.kind() != 'id':
                raise Unsupported('callee')
            else:
                callee = tk.next()
            tk.expect('(')
            args = []
            while not tk.accept(')'):
                if tk.peek() == 'metadata':
                    d = 0
                    while not (d == 0 and tk.peek() in (',', ')')):
                        x = tk.next()
                        d += (x in '([{') - (x in ')]}') if len(x) == 1 else 0
                    args.append((('meta',), ('meta',), {}))
                else:
                    ty = parse_type(tk)
                    at = skip_attrs(tk)
                    args.append((ty, parse_value(tk, ty), at))
                tk.accept(',')
            r = {'ret': rt, 'callee': callee, 'args': args, 'asm': asm}
            if op == 'invoke':
                while tk.peek() != 'to':
                    tk.next()
                tk.next()
                tk.expect('label')
                r['normal'] = tk.next()
            return r
        raise Unsupported('instruction ' + op)

    def _fmf(self, tk):
        while tk.peek() in ('nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast'):
            x = tk.next()
            raise Unsupported('fast-math flag ' + x)


class Module:
    def __init__(self, path, tag):
        self.tag = tag
        self.structs = {}
        self.globals = {}      # name -> (linkage_words, type, initvalue|None)
        self.funcs = {}
        self.declared = set()
        self.dbgline = {}
        self.folded = {}       # line -> the compiler's message about a constant expression it folds there
        self.md = {}
        self.typemaps = {}
        self.globals_text = {}
        self.tbaa_cache = {}
        self.aliases = {}
        with open(path) as f:
            lines = f.read().split('\n')
        # (libstdc++ names a symbol this way)
        self.module_asm = [x for x in lines if x.startswith('module asm') and '_ZSt21ios_base_library_initv' not in x]
        i = 0
        while i < len(lines):
            ln = lines[i]
            if ln.startswith('define '):
                m = re.search(r'@("[^"]*"|[-A-Za-z$._0-9]+)\(', ln)
                name = m.group(1).strip('"')
                j = i + 1
                while lines[j] != '}':
                    j += 1
                self.funcs[name] = Function(self, name, ln, lines[i + 1:j])
                i = j + 1
                continue
            if ln.startswith('declare '):
                m = re.search(r'@("[^"]*"|[-A-Za-z$._0-9]+)\(', ln)
                self.declared.add(m.group(1).strip('"'))
            elif ln.startswith('%') and ' = type ' in ln:
                nm, rest = ln.split(' = type ', 1)
                self.structs[nm] = rest
            elif ln.startswith('@'):
                self._global(ln)
            elif ln.startswith('!'):
                m = re.match(r'!(\d+) = (?:distinct )?!DILocation\(line: (\d+)', ln)
                if m:
                    self.dbgline[int(m.group(1))] = int(m.group(2))
                elif ' = !{' in ln:
                    a, b = ln.split(' = ', 1)
                    if a[1:].isdigit():
                        self.md[int(a[1:])] = b
            i += 1

    def tbaa_name(self, tag):
        """the name of the scalar type an access tag names"""
        if tag not in self.tbaa_cache:
            m = re.match(r'!\{!\d+, !(\d+), i64 \d+', self.md.get(tag, ''))
            m = re.match(r'!\{!"([^"]*)"', self.md.get(int(m.group(1)), '')) if m else None
            self.tbaa_cache[tag] = m.group(1) if m else None
        return self.tbaa_cache[tag]

    def leaves(self, ty, off=0):
        """[(offset, size, 'i'|'f'|'p')] of the scalars of a type; None where a union or raw bytes make it open"""
        k = ty[0]
        if k == 'named':
            return [] if 'union.' in ty[1] else self.leaves(self.struct(ty[1]), off)
        if k in ('arr', 'vec'):
            if k == 'vec':
                return []
            s = self.sizeof(ty[2])
            one = self.leaves(ty[2])
            return [(off + i * s + o, n, c) for i in range(ty[1]) for o, n, c in one] if ty[1] <= 4096 else []
        if k == 'st':
            return [x for o, t in zip(self.layout(ty)[0], ty[1]) for x in self.leaves(t, off + o)]
        if k == 'i':
            return [(off, self.sizeof(ty), 'i')] if ty[1] > 8 else []
        return [(off, self.sizeof(ty), 'p' if k == 'ptr' else 'f')]

    def _global(self, ln):
        m = re.match(r'@("[^"]*"|[-A-Za-z$._0-9]+) = (.*)$', ln)
        name = '@' + m.group(1)
        a = re.match(r'(?:[a-z_]+ )*alias .*, ptr @("[^"]*"|[-A-Za-z$._0-9]+)', m.group(2))
        if a:
            self.aliases[m.group(1).strip('"')] = a.group(1).strip('"')
            return
        self.globals[name] = m.group(2)
        self.globals_text[name] = m.group(2)

    def struct(self, name):
        v = self.structs.get(name)
        if v is None:
            raise Unsupported('unknown struct ' + name)
        if isinstance(v, str):
            if v.strip() == 'opaque':
                raise Unsupported('opaque struct ' + name)
            v = parse_type(Toks(v))
            self.structs[name] = v
        return v

    def global_def(self, name):
        """-> (is_constant, is_external, type, init, words)"""
        g = self.globals.get(name)
        if g is None:
            return None
        if isinstance(g, str):
            tk = Toks(re.sub(r'(, ![A-Za-z_.]+ !\d+)+\s*$', '', g))
            words = []
            while tk.peek() not in ('global', 'constant', 'alias'):
                w = tk.next()
                words.append(w)
                if w in ('thread_local', 'addrspace') and tk.peek() == '(':
                    while tk.next() != ')':
                        pass
            kind = tk.next()
            ty = parse_type(tk)
            init = None
            if kind != 'alias' and 'external' not in words and 'extern_weak' not in words:
                init = parse_value(tk, ty)
            g = (kind == 'constant', init is None, ty, init, words)
            self.globals[name] = g
        return g

    # ------------------------------------------------------ data layout
    def resolve(self, ty):
        return self.struct(ty[1]) if ty[0] == 'named' else ty

    def sizeof(self, ty):
        k = ty[0]
        if k == 'i':
            n = (ty[1] + 7) // 8
            p = 1
            while p < n:
                p *= 2
            return p
        if k == 'f32':
            return 4
        if k in ('f64', 'ptr'):
            return 8
        if k == 'arr':
            return ty[1] * self.sizeof(ty[2])
        if k == 'vec':
            return ty[1] * self.sizeof(ty[2])
        if k == 'named':
            return self.sizeof(self.struct(ty[1]))
        if k == 'st':
            return self.layout(ty)[1]
        raise Unsupported('sizeof %r' % (ty,))

    def alignof(self, ty):
        k = ty[0]
        if k in ('i', 'f32', 'f64', 'ptr'):
            return self.sizeof(ty)
        if k == 'arr':
            return self.alignof(ty[2])
        if k == 'vec':
            return self.sizeof(ty)
        if k == 'named':
            return self.alignof(self.struct(ty[1]))
        if k == 'st':
            return 1 if ty[2] else max([self.alignof(t) for t in ty[1]] + [1])
        raise Unsupported('alignof %r' % (ty,))

    def layout(self, ty):
        off = 0
        offs = []
        for t in ty[1]:
            if not ty[2]:
                al = self.alignof(t)
                off = (off + al - 1) // al * al
            offs.append(off)
            off += self.sizeof(t)
        if not ty[2]:
            al = self.alignof(ty)
            off = (off + al - 1) // al * al
        return offs, off


# ------------------------------------------------ who may write a global object
_INITFN = re.compile(r'_GLOBAL__(sub_)?I_|__cxx_global_var_init|__cxx_global_array_dtor')


_SYM = re.compile(r'@("[^"]*"|[-A-Za-z$._0-9]+)')
_REGSYM = re.compile(r'[%@](?:"[^"]*"|[-A-Za-z$._0-9]+)')
_READERS = frozenset({'strlen', 'memcmp', 'strcmp', '__cxa_atexit'})


def _params(f):
    """names of the parameters of f"""
    h = f.header
    p = h.index('(', _SYM.search(h).end())
    d = q = 0
    for q in range(p, len(h)):
        d += (h[q] == '(') - (h[q] == ')')
        if d == 0:
            break
    return re.findall(r'(%(?:"[^"]*"|[-A-Za-z$._0-9]+))(?:,|$)', re.sub(r'\([^()]*\)', '', h[p + 1:q]))


def _call_args(s, k):
    """the argument texts of a call whose opening parenthesis is at k"""
    out, d, a = [], 0, k + 1
    for q in range(k, len(s)):
        d += (s[q] in '([{<') - (s[q] in ')]}>')
        if d == 1 and s[q] == ',' or d == 0:
            out.append(s[a:q].strip())
            a = q + 1
        if d == 0:
            break
    return [x for x in out if x]


def _may_write(mods, f, root, memo):
    """(f may write through root or through a pointer derived from it, or lose track of it; f may return such a pointer)"""
    key = (f.mod.tag, f.name, root)
    if key in memo:
        return memo[key]
    memo[key] = (True, True)          # recursion: anything
    der, holders = {root}, set()
    lines = []
    for ln in f.body:
        s = re.sub(r', !.*$|, align \d+', '', ln.strip())
        if s and '@llvm.dbg' not in s and '@llvm.lifetime' not in s and '__cxa_guard_' not in s:
            lines.append((s, set(_REGSYM.findall(s))))
    allocas = {m.group(1) for s, _ in lines for m in [re.match(r'(%\S+) = alloca ', s)] if m}
    writes = returns = False
    n = -1
    while not writes and n != len(der) + len(holders):
        n = len(der) + len(holders)
        for s, syms in lines:
            if not syms & (der | holders):
                continue
            m = re.match(r'(%\S+) = ', s)
            res, t = (m.group(1), s[m.end():]) if m else (None, s)
            op = t.split(' ', 1)[0]
            if op in ('tail', 'musttail', 'notail'):
                t = t[len(op) + 1:]
                op = 'call'
            if op == 'alloca':
                continue
            if op == 'load':
                x = re.search(r', ptr (\S+)(?: syncscope\("[^"]*"\))?(?: \w+)?$', t)
                if x and x.group(1).rstrip(',') in holders:
                    der.add(res)
                continue
            if op == 'store':
                x = re.match(r'store (?:volatile )?(.*), ptr (.*)$', t)
                val, dst = set(_REGSYM.findall(x.group(1))), set(_REGSYM.findall(x.group(2)))
                if dst & der:
                    writes = True
                elif val & holders:
                    writes = True
                elif val & der:
                    if len(dst) == 1 and dst <= allocas:
                        holders |= dst
                    else:
                        writes = True
                continue
            if syms & holders:
                writes = True         # the address of the variable that holds the pointer goes somewhere
                continue
            if op in ('getelementptr', 'bitcast', 'phi', 'select', 'freeze'):
                der.add(res)
                continue
            if op == 'icmp' or op == 'br':
                continue
            if op == 'ret':
                returns = True
                continue
            if op in ('call', 'invoke'):
                x = re.search(r'@("[^"]*"|[-A-Za-z$._0-9]+)\(', t)
                if not x or set(_REGSYM.findall(t[:x.start()])) & der:
                    writes = True
                    continue
                cal = x.group(1).strip('"')
                args = _call_args(t, x.end() - 1)
                g = next((m2.funcs[cal] for m2 in [f.mod] + list(mods) if cal in m2.funcs), None)
                for i, a in enumerate(args):
                    if not set(_REGSYM.findall(a)) & der:
                        continue
                    if a.startswith('ptr') and 'byval(' in a or cal in _READERS:
                        continue
                    if cal == 'llvm.threadlocal.address.p0':
                        der.add(res)
                    elif re.match(r'llvm\.mem(cpy|move)\.', cal):
                        writes = writes or i == 0
                    elif g is None:
                        writes = True
                    else:
                        ps = _params(g)
                        w, r = _may_write(mods, g, ps[i], memo) if i < len(ps) else (True, True)
                        writes = writes or w
                        if r and res:
                            der.add(res)
                continue
            writes = True
    memo[key] = (writes, returns)
    return memo[key]


def _writers(mods, mod, name):
    """names of functions of mod that may write through @name (by a store or by letting its address escape)"""
    memo = mods[0].__dict__.setdefault('_mwmemo', {})
    return {f.name for f in mod.funcs.values() if f.body and any(name in ln for ln in f.body)
            and name in {x for ln in f.body for x in _REGSYM.findall(ln)} and any(_may_write(mods, f, name, memo))}


def ctors(mod):
    """functions run before main, in their order"""
    t = mod.globals_text.get('@llvm.global_ctors', '')
    x = re.findall(r'\{ i32 (\d+), ptr @("[^"]*"|[-A-Za-z$._0-9]+)', t)
    return [b.strip('"') for _, b in sorted(x, key=lambda e: int(e[0]))]


def startup_only(mods):
    """(module tag, name) of the functions that nothing but dynamic initialisation refers to"""
    cache = mods[0].__dict__.setdefault('_startup', {})
    key = tuple(id(m) for m in mods)
    if key in cache:
        return cache[key]
    refs = {}                        # function -> functions that refer to it; None: something else does
    for m in mods:
        for f in m.funcs.values():
            for ln in f.body or ():
                if '@' in ln:
                    for x in _SYM.findall(ln):
                        refs.setdefault(x.strip('"'), set()).add((m.tag, f.name))
        for g, t in m.globals_text.items():
            if g != '@llvm.global_ctors':
                for x in _SYM.findall(t):
                    refs.setdefault(x.strip('"'), set()).add(None)
    out = {(m.tag, n) for m in mods for n in set(m.funcs) & set(ctors(m)) | {n for n in m.funcs if _INITFN.match(n)}}
    while True:
        new = set()
        for m in mods:
            for f in m.funcs.values():
                k = (m.tag, f.name)
                if k not in out and re.match(r'define (?:dso_local )?(?:internal|linkonce|private)', f.header) and refs.get(f.name) and \
                        all(x in out for x in refs[f.name] if x != k):
                    new.add(k)
        if not new:
            cache[key] = out
            return out
        out |= new


def global_class(mods, mod, name):
    """'never' written | 'init' (written only by dynamic initialisation) | 'guard' (function-local static) | 'mutable'"""
    cache = mod.__dict__.setdefault('_gclass', {})
    if name in cache:
        return cache[name]
    nm = name[1:].strip('"')
    if nm.startswith('_ZGV'):
        r = 'guard'
    else:
        w = set()
        for m in mods:
            if m is mod or name in m.globals:
                w |= {(m.tag, x) for x in _writers(mods, m, name)}
        if not w:
            r = 'never'
        elif w <= startup_only(mods):
            r = 'init'
        elif nm.startswith('_Z') and any('@_ZGV' + nm[2:] in m.globals for m in mods):
            r = 'guard'
        else:
            r = 'mutable'
    cache[name] = r
    return r


def constants(mods, name, limit=60):
    """numbers that occur in the function and what it calls (outside the standard library): candidates for sampled inputs"""
    todo, seen, ints, flts = [(name, 0)], set(), set(), set()
    while todo:
        n, d = todo.pop()
        if n in seen or d > 4:
            continue
        seen.add(n)
        for m in mods:
            f = m.funcs.get(n)
            for ln in f.body or () if f else ():
                ln = re.sub(r'!.*$|, align \d+|i(?:8|16|32|64) \d+, i32 \d+$', '', ln)
                if 'getelementptr' in ln or 'alloca' in ln:
                    continue
                for x in _SYM.findall(ln):
                    x = x.strip('"')
                    if not re.match(r'_ZN?K?S[tas]|llvm\.', x):
                        todo.append((x, d + 1))
                flts |= set(re.findall(r'0x[0-9A-F]{16}|-?\d\.\d+e[+-]\d+', ln))
                ints |= {int(x) for x in re.findall(r'(?<=[ ])-?\d+\b(?![.\w])', ln)}
    ints -= {0, 1, -1}
    out = [('i', x) for x in sorted(ints, key=abs, reverse=True)[:limit]]
    for x in sorted(flts)[:limit]:
        out.append(('f', struct.unpack('>d', bytes.fromhex(x[2:]))[0] if x.startswith('0x') else float(x)))
    return out


def init_functions(mod):
    return [mod.funcs[n] for n in ctors(mod) if n in mod.funcs]
