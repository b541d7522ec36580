"""Verification-condition generator: symbolic execution of LLVM IR with path merging.

A function is run once on fully symbolic inputs.  Branches on symbolic conditions are forked
and merged again at the immediate post-dominator, so the result is one formula per output byte;
loops are followed until their condition becomes infeasible (there is no cut-off that drops
paths: exceeding a resource limit raises Unsupported = 'undecided').
"""
import re
import copy
import z3
import fpx
import irparse
from irparse import Unsupported

MASK = lambda n: (1 << n) - 1


# ------------------------------------------------------------------ values
class FV:
    """A float/double value: its bit pattern (when known) and/or its IEEE term."""
    __slots__ = ('w', '_bits', '_fp', 'ext', 'op', '_dy')

    def __init__(self, w, bits=None, fp=None):
        self.w = w
        self._bits = bits
        self._fp = fp
        self._dy = None     # (t, lo, hi, e): the value is exactly the integer t of [lo, hi] over 2^e, apart from the sign of zero
        self.ext = None     # FV32 this f64 value was extended from
        self.op = None      # (name, FV32.., ) : this f64 = op of extended operands

    @property
    def fp(self):
        if self._fp is None:
            b = self._bits
            self._fp = fpx.from_bits(z3.BitVecVal(b, self.w) if isinstance(b, int) else b, self.w)
        return self._fp

    def bits(self, ctx):
        if self._bits is None:
            if z3.is_fp_value(self._fp) and not self._fp.isNaN():
                s = z3.simplify(z3.fpToIEEEBV(self._fp))
                if z3.is_bv_value(s):
                    self._bits = s.as_long()
                    return self._bits
            b = ctx.fresh('fbits', self.w)
            ctx.defs.append(fpx.from_bits(b, self.w) == self._fp)
            self._bits = b
        return self._bits

    @property
    def dy(self):
        if self._dy is None:
            self._dy = False
            b = self._bits
            if b is None and self._fp is not None and z3.is_fp_value(self._fp) and not self._fp.isNaN():
                b = z3.simplify(z3.fpToIEEEBV(self._fp))
                b = b.as_long() if z3.is_bv_value(b) else None
            elif z3.is_bv_value(b):
                b = b.as_long()
            if isinstance(b, int):
                f, x = (23, 8) if self.w == 32 else (52, 11)
                ex = b >> f & MASK(x)
                if ex != MASK(x):
                    m = (b & MASK(f)) | (1 << f if ex else 0)
                    k = max(ex, 1) - (1 << x - 1) + 1 - f
                    while m and not m & 1:
                        m, k = m >> 1, k + 1
                    if not m:
                        k = 0
                    if k > 0 and (m << k).bit_length() <= f + 1:
                        m, k = m << k, 0
                    if k <= 0 and k >= -64:
                        m = -m if b >> self.w - 1 & 1 else m
                        self._dy = (z3.BitVecVal(m, 64), m, m, -k)
        return self._dy or None

    def exactly(self, d):
        """note the exact value d, if it is one of this format"""
        if d is not None and max(abs(d[1]), abs(d[2])) <= 1 << (24 if self.w == 32 else 53) and d[3] <= 100:
            self._dy = d
        return self

    def same(self, o):
        if self is o:
            return True
        if self._bits is not None and o._bits is not None:
            return same_int(self._bits, o._bits)
        if self._fp is not None and o._fp is not None:
            return self._fp.eq(o._fp)
        return False


def dy_align(a, b):
    e = max(a[3], b[3])
    out = []
    for t, lo, hi, k in (a, b):
        if e - k > 60 or max(abs(lo), abs(hi)) << (e - k) > 1 << 61:
            return None
        out.append((t << (e - k) if e > k else t, lo << (e - k), hi << (e - k), e))
    return out


def dy_bin(op, a, b):
    if not a or not b:
        return None
    if op == 'fdiv':
        n = b[1]
        if b[1] != b[2] or n == 0 or abs(n) & (abs(n) - 1):
            return None
        if n < 0:
            a = dy_neg(a)
        k = abs(n).bit_length() - 1 - b[3]
        if k < 0 and max(abs(a[1]), abs(a[2])) << -k > 1 << 61:
            return None
        return a[:3] + (a[3] + k,) if k >= 0 else (a[0] << -k, a[1] << -k, a[2] << -k, a[3])
    if op == 'fmul':
        c = [x * y for x in a[1:3] for y in b[1:3]]
        if max(map(abs, c)) > 1 << 61:
            return None
        return a[0] * b[0], min(c), max(c), a[3] + b[3]
    ab = dy_align(a, b)
    if ab is None:
        return None
    a, b = ab
    return (a[0] + b[0], a[1] + b[1], a[2] + b[2], a[3]) if op == 'fadd' else (a[0] - b[0], a[1] - b[2], a[2] - b[1], a[3])


def dy_neg(a):
    return a and (-a[0], -a[2], -a[1], a[3])


def dy_round(a, mode):
    """the integer a rounds to"""
    if not a or a[3] == 0:
        return a
    t, lo, hi, e = a
    if e > 60 or max(abs(lo), abs(hi)) > 1 << 61:
        return None
    half = 1 << (e - 1)
    if mode == 'rtn':
        return t >> e, lo >> e, hi >> e, 0
    if mode == 'rtp':
        return dy_neg(dy_round(dy_neg(a), 'rtn'))
    lo, hi = (lo >> e) - 1, (hi >> e) + 1
    if mode == 'rtz':
        r = z3.If(t < 0, -(-t >> e), t >> e)
    elif mode == 'rna':
        r = z3.If(t < 0, -((-t + half) >> e), (t + half) >> e)
    else:
        f = t >> e
        r = (t + (half - 1) + (f & 1)) >> e
    return r, lo, hi, 0


class Off:
    """Symbolic byte offset: c + e with e a 64-bit term, a multiple of stride."""
    __slots__ = ('c', 'e', 'stride')

    def __init__(self, c, e, stride):
        self.c = c
        self.e = e
        self.stride = stride

    def term(self):
        return z3.BitVecVal(self.c & MASK(64), 64) + self.e


class Ptr:
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts      # [(guard, obj|None, off int|Off)]


class FnPtr:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name


class Undef:
    __slots__ = ()


class Obj:
    __slots__ = ('id', 'size', 'name', 'kind', 'const', 'idx', 'align', 'types')

    def __init__(self, id, size, name, kind, const=False):
        self.id = id
        self.size = size
        self.name = name
        self.kind = kind
        self.const = const
        self.align = 16           # guaranteed alignment of its address
        self.types = None         # offset -> (size, class) of its declared scalars, where known


def same_int(a, b):
    if isinstance(a, int) or isinstance(b, int):
        return isinstance(a, int) and isinstance(b, int) and a == b
    return a is b or a.eq(b)


def bv(x, n):
    if isinstance(x, int):
        return z3.BitVecVal(x & MASK(n), n)
    return x


def is_t(c):
    return c is True or (not isinstance(c, bool) and z3.is_true(c))


def is_f(c):
    return c is False or (not isinstance(c, bool) and z3.is_false(c))


def b_not(c):
    if is_t(c):
        return False
    if is_f(c):
        return True
    if z3.is_not(c):
        return c.arg(0)
    return z3.Not(c)


def b_and(*cs):
    out = []
    for c in cs:
        if is_f(c):
            return False
        if not is_t(c):
            out.append(c)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def b_or(*cs):
    out = []
    for c in cs:
        if is_t(c):
            return True
        if not is_f(c):
            out.append(c)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def zb(c):
    return z3.BoolVal(c) if isinstance(c, bool) else c


# ---------------------------------------------- smart bit-vector constructors
def norm(e):
    """Constant -> int."""
    if isinstance(e, int):
        return e
    if z3.is_bv_value(e):
        return e.as_long()
    return e


K = z3


def _kind(e):
    return e.decl().kind() if not isinstance(e, int) and z3.is_app(e) else None


def zext(e, n, m):
    if isinstance(e, int):
        return e & MASK(n)
    if n == m:
        return e
    if _kind(e) == z3.Z3_OP_ZERO_EXT:
        return z3.ZeroExt(m - e.arg(0).size(), e.arg(0))
    return z3.ZeroExt(m - n, e)


def sext(e, n, m):
    if isinstance(e, int):
        e &= MASK(n)
        return (e | (MASK(m) ^ MASK(n))) if (e >> (n - 1)) & 1 else e
    if n == m:
        return e
    k = _kind(e)
    if k == z3.Z3_OP_SIGN_EXT:
        return z3.SignExt(m - e.arg(0).size(), e.arg(0))
    if k == z3.Z3_OP_ZERO_EXT and e.arg(0).size() < n:
        return z3.ZeroExt(m - e.arg(0).size(), e.arg(0))
    return z3.SignExt(m - n, e)


def trunc(e, m):
    """Low m bits; pushed through +,-,* and bitwise operations (ring homomorphism mod 2^m)."""
    if isinstance(e, int):
        return e & MASK(m)
    n = e.size()
    if n == m:
        return e
    k = _kind(e)
    if k in (z3.Z3_OP_ZERO_EXT, z3.Z3_OP_SIGN_EXT):
        a = e.arg(0)
        if a.size() >= m:
            return trunc(a, m)
        return (zext if k == z3.Z3_OP_ZERO_EXT else sext)(a, a.size(), m)
    if k in (z3.Z3_OP_BADD, z3.Z3_OP_BSUB, z3.Z3_OP_BMUL, z3.Z3_OP_BAND, z3.Z3_OP_BOR, z3.Z3_OP_BXOR) \
            and e.num_args() == 2:
        f = {z3.Z3_OP_BADD: add, z3.Z3_OP_BSUB: sub, z3.Z3_OP_BMUL: mul, z3.Z3_OP_BAND: and_,
             z3.Z3_OP_BOR: or_, z3.Z3_OP_BXOR: xor}[k]
        return f(trunc(norm(e.arg(0)), m), trunc(norm(e.arg(1)), m), m)
    if k == z3.Z3_OP_BNEG:
        return norm(-bv(trunc(e.arg(0), m), m))
    if k == z3.Z3_OP_BNOT:
        return norm(~bv(trunc(e.arg(0), m), m))
    if k == z3.Z3_OP_ITE:
        return ite(e.arg(0), trunc(norm(e.arg(1)), m), trunc(norm(e.arg(2)), m), m)
    if k == z3.Z3_OP_EXTRACT:
        hi, lo = e.params()
        if lo == 0:
            return trunc(e.arg(0), m)
        return z3.Extract(lo + m - 1, lo, e.arg(0))
    return z3.Extract(m - 1, 0, e)


def ite(c, a, b, n):
    if is_t(c):
        return a
    if is_f(c):
        return b
    if same_int(a, b):
        return a
    return z3.If(c, bv(a, n), bv(b, n))


def _sorted(a, b):
    # canonical operand order for commutative operators
    if isinstance(a, int):
        return b, a
    if isinstance(b, int):
        return a, b
    return (a, b) if a.get_id() <= b.get_id() else (b, a)


def add(a, b, n):
    if isinstance(a, int) and isinstance(b, int):
        return (a + b) & MASK(n)
    a, b = _sorted(a, b)
    if isinstance(b, int) and b & MASK(n) == 0:
        return a
    return bv(a, n) + bv(b, n)


def sub(a, b, n):
    if isinstance(a, int) and isinstance(b, int):
        return (a - b) & MASK(n)
    if isinstance(b, int):
        return add(a, (-b) & MASK(n), n)
    return bv(a, n) - bv(b, n)


def mul(a, b, n):
    if isinstance(a, int) and isinstance(b, int):
        return (a * b) & MASK(n)
    a, b = _sorted(a, b)
    if isinstance(b, int):
        b &= MASK(n)
        if b == 0:
            return 0
        if b == 1:
            return a
        if b & (b - 1) == 0:
            return shl(a, b.bit_length() - 1, n)
    # canonical form: multiply at the exact width of the product when that is narrower
    l1, h1 = srange(a, n)
    l2, h2 = srange(b, n)
    p = [l1 * l2, l1 * h2, h1 * l2, h1 * h2]
    m = swidth(min(p), max(p))
    if m < n:
        return sext(mul(trunc(a, m), trunc(b, m), m), m, n)
    return bv(a, n) * bv(b, n)


def swidth(lo, hi):
    return max((lo if lo >= 0 else ~lo).bit_length(), (hi if hi >= 0 else ~hi).bit_length()) + 1


def shl(a, k, n):
    """constant shift"""
    if isinstance(a, int):
        return (a << k) & MASK(n)
    if k == 0:
        return a
    if k >= n:
        return 0
    return norm(z3.Concat(bv(trunc(a, n - k), n - k), z3.BitVecVal(0, k)))


def and_(a, b, n):
    if isinstance(a, int) and isinstance(b, int):
        return a & b & MASK(n)
    a, b = _sorted(a, b)
    if isinstance(b, int):
        b &= MASK(n)
        if b == 0:
            return 0
        if b == MASK(n):
            return a
        if b & (b + 1) == 0:      # low mask
            m = b.bit_length()
            return zext(trunc(a, m), m, n)
    return bv(a, n) & bv(b, n)


def or_(a, b, n):
    if isinstance(a, int) and isinstance(b, int):
        return (a | b) & MASK(n)
    a, b = _sorted(a, b)
    if isinstance(b, int) and b & MASK(n) == 0:
        return a
    return bv(a, n) | bv(b, n)


def xor(a, b, n):
    if isinstance(a, int) and isinstance(b, int):
        return (a ^ b) & MASK(n)
    a, b = _sorted(a, b)
    if isinstance(b, int):
        if b & MASK(n) == 0:
            return a
        if b & MASK(n) == MASK(n):
            return ~a
    return bv(a, n) ^ bv(b, n)


def to_s(x, n):
    x &= MASK(n)
    return x - (1 << n) if x >> (n - 1) else x


def srange(e, n, depth=6):
    """A sound signed interval of e."""
    full = (-(1 << (n - 1)), (1 << (n - 1)) - 1)
    if isinstance(e, int):
        v = to_s(e, n)
        return v, v
    k = _kind(e)
    if k == z3.Z3_OP_BNUM:
        v = to_s(e.as_long(), n)
        return v, v
    if depth == 0:
        return full
    if k == z3.Z3_OP_SIGN_EXT:
        return srange(e.arg(0), e.arg(0).size(), depth - 1)
    if k == z3.Z3_OP_ZERO_EXT:
        lo, hi = srange(e.arg(0), e.arg(0).size(), depth - 1)
        return (lo, hi) if lo >= 0 else (0, MASK(e.arg(0).size()))
    if k in (z3.Z3_OP_BADD, z3.Z3_OP_BSUB, z3.Z3_OP_BMUL) and e.num_args() == 2:
        l1, h1 = srange(e.arg(0), n, depth - 1)
        l2, h2 = srange(e.arg(1), n, depth - 1)
        if k == z3.Z3_OP_BADD:
            r = (l1 + l2, h1 + h2)
        elif k == z3.Z3_OP_BSUB:
            r = (l1 - h2, h1 - l2)
        else:
            p = [l1 * l2, l1 * h2, h1 * l2, h1 * h2]
            r = (min(p), max(p))
        return r if full[0] <= r[0] and r[1] <= full[1] else full
    if k == z3.Z3_OP_ITE:
        l1, h1 = srange(e.arg(1), n, depth - 1)
        l2, h2 = srange(e.arg(2), n, depth - 1)
        return min(l1, l2), max(h1, h2)
    if k == z3.Z3_OP_CONCAT and _kind(e.arg(0)) == z3.Z3_OP_BNUM and e.arg(0).as_long() == 0:
        return 0, MASK(n - e.arg(0).size())
    if k == z3.Z3_OP_CONCAT and e.num_args() == 2 and z3.is_bv_value(e.arg(1)) and e.arg(1).as_long() == 0:
        s = e.arg(1).size()
        lo, hi = srange(e.arg(0), n - s, depth - 1)
        return lo << s, hi << s
    return full


# ------------------------------------------------------------------- state
class State:
    __slots__ = ('mem', 'pc', 'regs', 'ret')

    def __init__(self, mem, pc, regs):
        self.mem = mem
        self.pc = pc
        self.regs = regs
        self.ret = None

    def fork(self):
        s = State(dict(self.mem), self.pc, dict(self.regs))
        return s


class Obligation:
    __slots__ = ('kind', 'fn', 'line', 'pc', 'cond', 'detail', 'how')

    def __init__(self, kind, fn, line, pc, cond, detail, how=None):
        self.kind = kind
        self.fn = fn
        self.line = line
        self.pc = pc
        self.cond = cond
        self.detail = detail
        self.how = how


class CallChecked(Exception):
    """the call is checked against the callee's signature, and nothing else is asked"""


class Ctx:
    MAX_STEPS = 400000
    MAX_DEPTH = 900

    def __init__(self, modules):
        self.modules = modules            # [user, lib]
        self.n = 0
        self.defs = []                    # definitional side constraints (always satisfiable)
        self.obls = []
        self.undefs = {}                  # name -> where
        self.objs = {}
        self.globals = {}
        self.aborts = []                  # (pc, fn, line, what)
        self.pads = []                    # (function, invoke) under way
        self.io = []                      # (pc, what)
        self.written = frozenset()        # static objects and blocks that calls are known to write (after initialisation)
        self.start_mem = {}               # content of the global objects before the call
        self.havoc = []                   # external results assumed arbitrary
        self.gwrites = []
        self.in_guard = 0
        self.dyninit = set()             # static objects it reads that dynamic initialisation fills
        self.init_mem = {}               # blocks allocated by dynamic initialisation: id -> content
        self.impure = []
        self.in_init = False
        self.cur = None                   # the state being executed
        self.steps = 0
        self.assume = []                  # entry assumptions
        self.funcs_used = set()
        self.ext_used = set()
        self.solver = None
        self.feas_queries = 0
        self.calldepth = 0
        self.dead = set()
        self.heap = {}                    # id -> (block, its 'released' flag, path, allocator, where, at start-up)
        self.calls_only = False           # stop at the first call into another module
        self.addrs = {}                   # object -> (its address, the object)
        self.pint = {}                    # term id -> (term, pointer it was made from)

    def addr(self, o):
        """the address of an object: arbitrary, as far as its alignment and the other objects allow"""
        if o.id not in self.addrs:
            a = self.fresh('addr', 64)
            cs = [z3.ULT(z3.BitVecVal(1 << 12, 64), a), z3.ULT(a, z3.BitVecVal(1 << 47, 64))]
            k = o.align.bit_length() - 1
            if k > 0:
                cs.append(z3.Extract(k - 1, 0, a) == 0)
            for b, q in self.addrs.values():
                cs.append(z3.Or(z3.ULE(a + o.size, b), z3.ULE(b + q.size, a)))
            self.addrs[o.id] = (a, o)
            self.assume += cs
            if self.solver is not None:
                for c in cs:
                    self.solver.add(c)
        return self.addrs[o.id][0]

    def ptr_int(self, p):
        t = None
        for g, o, off in reversed(p.alts):
            f = off.term() if isinstance(off, Off) else z3.BitVecVal(off & MASK(64), 64)
            e = f if o is None else self.addr(o) + f
            t = e if t is None else z3.If(zb(g), e, t)
        t = z3.simplify(t)
        if z3.is_bv_value(t):
            return t.as_long()
        self.pint[t.get_id()] = (t, p)
        return t

    def ptr_diff(self, x, y):
        """x - y for two addresses into one object, or None"""
        if isinstance(x, int) or isinstance(y, int):
            return None
        a, b = self.pint.get(x.get_id()), self.pint.get(y.get_id())
        if a is None or b is None or len(a[1].alts) != 1 or len(b[1].alts) != 1:
            return None
        (_, o, f), (_, q, h) = a[1].alts[0], b[1].alts[0]
        if o is not q:
            return None
        if isinstance(f, int) and isinstance(h, int):
            return (f - h) & MASK(64)
        t = [k.term() if isinstance(k, Off) else z3.BitVecVal(k & MASK(64), 64) for k in (f, h)]
        return norm(z3.simplify(t[0] - t[1]))

    def fresh(self, tag, w):
        self.n += 1
        return z3.BitVec('%s!%d' % (tag, self.n), w)

    def undef(self, w, where):
        self.n += 1
        nm = 'undef!%d' % self.n
        self.undefs[nm] = where
        return z3.BitVec(nm, w) if w > 1 else z3.Bool(nm)

    def newobj(self, size, name, kind, const=False):
        self.n += 1
        o = Obj('o%d' % self.n, size, name, kind, const)
        self.objs[o.id] = o
        return o

    def feasible(self, pc, cond):
        if is_f(cond):
            return False
        if self.solver is None:
            self.solver = z3.Solver()
            self.solver.set('timeout', 3000)
            for a in self.assume:
                self.solver.add(a)
        self.feas_queries += 1
        s = self.solver
        s.push()
        for c in pc:
            s.add(zb(c))
        s.add(zb(cond))
        r = s.check()
        s.pop()
        return r != z3.unsat


class Frame:
    __slots__ = ('fn', 'mod', 'stops', 'allocas', 'va')

    def __init__(self, fn):
        self.fn = fn
        self.mod = fn.mod
        self.stops = []
        self.allocas = []
        self.va = []            # the variable arguments: (type, value)


POISON_OK = frozenset({'insertelement', 'insertvalue', 'shufflevector', 'freeze', 'phi', 'resume'})


class Exec:
    cur = None

    def __init__(self, ctx):
        self.c = ctx

    # ------------------------------------------------------ symbol lookup
    def find_fn(self, name, mod):
        name = mod.aliases.get(name, name)
        f = mod.funcs.get(name)
        if f is not None:
            return f
        for m in self.c.modules:
            name = m.aliases.get(name, name)
            if name in m.funcs and not m.funcs[name].header.startswith('define internal'):
                return m.funcs[name]
        return None

    def global_obj(self, st, name, mod):
        nm = name[1:].strip('"')
        d = mod.global_def(name)
        owner = mod
        if d is None:
            if self.find_fn(nm, mod) is not None or nm in mod.declared:
                return FnPtr(nm)
            raise Unsupported('unknown global ' + name)
        if d[1]:      # external
            for m in self.c.modules:
                d2 = m.global_def(name)
                if d2 is not None and not d2[1]:
                    d, owner = d2, m
                    break
        key = name if not set(d[4]) & {'private', 'internal'} else (name, owner.tag)
        o = self.c.globals.get(key)
        if o is None:
            const, ext, ty, init, words = d
            size = owner.sizeof(ty)
            o = self.c.newobj(size, name, 'global', const)
            m = re.search(r', align (\d+)', owner.globals_text.get(name, ''))
            o.align = int(m.group(1)) if m else owner.alignof(ty)
            o.types = typemap(owner, ty)
            self.c.globals[key] = o
            if const and init is not None:
                cells = [None] * size
                self.init_cells(cells, 0, ty, init, owner, st)
            elif const and re.match(r'@"?_ZT[ISV]', name):
                o.kind = 'opaque'         # type information of the runtime: only its address is used
                cells = [None] * size
            elif const:
                raise Unsupported('external constant ' + name)
            elif init is not None and irparse.global_class(self.c.modules, owner, name) != 'mutable':
                # never written after start-up: its content is its initial value
                cells = [None] * size
                self.init_cells(cells, 0, ty, init, owner, st)
                if irparse.global_class(self.c.modules, owner, name) == 'init':
                    self.c.globals[key] = o
                    o.idx = cells
                    st.mem[o.id] = cells
                    self.c.dyninit.add(nm)
                    cells = self.run_init(owner, st, o)
                    st.mem.pop(o.id, None)
            elif ext and not KNOWN_DATA.fullmatch(nm):
                # data of another library: its content is whatever the process has put there
                self.c.impure.append((st.pc, nm, nm, 0))
                cells = [(self.c.fresh('global_' + nm, 8), 0, 1) for _ in range(size)]
            elif ty[0] == 'ptr':
                so = self.c.newobj(1, name + '(target)', 'opaque')
                pv = Ptr([(True, so, 0)])
                cells = [(pv, k, 8) for k in range(8)]
            else:
                cells = []
                for k in range(size):
                    cells.append((self.c.fresh('global_' + nm, 8), 0, 1))
            o.idx = cells
        self.c.start_mem[o.id] = o.idx
        if o.id not in st.mem:
            st.mem[o.id] = o.idx
        for k, v in self.c.init_mem.items():
            st.mem.setdefault(k, v)
        return Ptr([(True, o, 0)])

    def run_init(self, mod, st, o):
        """content of o after the dynamic initialisation of the module"""
        c = self.c
        if c.in_init:
            return o.idx
        c.in_init = True
        saved = (len(c.obls), len(c.gwrites), len(c.io), len(c.aborts), len(c.impure))
        st2 = State(dict(st.mem), (), {})
        try:
            for f in irparse.init_functions(mod):
                st2 = self.call_fn(st2, f, [])
                if st2 is None:
                    raise Unsupported('dynamic initialisation does not return')
        finally:
            c.in_init = False
        del c.obls[saved[0]:], c.gwrites[saved[1]:], c.io[saved[2]:], c.aborts[saved[3]:], c.impure[saved[4]:]
        for g in c.globals.values():
            if g.id in st2.mem and g is not o and not g.const:
                g.idx = st2.mem[g.id]
        for h, fl, _, _, _, init in c.heap.values():       # memory the initialisation allocated
            if init:
                self.forget(st2)
                c.init_mem.update({k: st2.mem[k] for k in (h.id, fl.id) if k in st2.mem and k not in st.mem})
        return st2.mem[o.id]

    def init_cells(self, cells, off, ty, v, mod, st):
        k = v[0]
        ty = mod.resolve(ty)
        if k == 'zero' or k == 'null':
            for i in range(mod.sizeof(ty)):
                cells[off + i] = (0, 0, 1)
            return
        if k == 'undef':
            return
        if k == 'bytes':
            for i, b in enumerate(v[1]):
                cells[off + i] = (b, 0, 1)
            return
        if k == 'agg':
            if ty[0] in ('arr', 'vec'):
                s = mod.sizeof(ty[2])
                for i, (et, e) in enumerate(v[1]):
                    self.init_cells(cells, off + i * s, et, e, mod, st)
            else:
                offs, _ = mod.layout(ty)
                for o, (et, e) in zip(offs, v[1]):
                    self.init_cells(cells, off + o, et, e, mod, st)
            return
        n = mod.sizeof(ty)
        if k == 'int':
            val = v[1] & MASK(8 * n)
            for i in range(n):
                cells[off + i] = (val, i, n)
            return
        if k == 'fbits':
            val = FV(8 * n, bits=v[1])
            for i in range(n):
                cells[off + i] = (val, i, n)
            return
        if k in ('glob', 'cgep'):
            val = self.constval(st, ty, v, mod)
            for i in range(n):
                cells[off + i] = (val, i, n)
            return
        raise Unsupported('initializer ' + k)

    # ---------------------------------------------------------- operands
    def constval(self, st, ty, v, mod):
        k = v[0]
        if k == 'int':
            if ty[0] == 'i':
                return v[1] & MASK(ty[1])
            raise Unsupported('int constant of type %r' % (ty,))
        if k == 'fbits':
            return FV(32 if ty[0] == 'f32' else 64, bits=v[1])
        if k == 'null':
            return Ptr([(True, None, 0)])
        if k == 'glob':
            return self.global_obj(st, v[1], mod)
        if k == 'cgep':
            base = self.constval(st, v[2][0][0], v[2][0][1], mod)
            idx = [(t, self.constval(st, t, x, mod)) for t, x in v[2][1:]]
            return self.gep(mod, base, v[1], idx)
        if k == 'undef':
            ty = mod.resolve(ty)
            return self.undefval(ty, mod, 'undef constant')
        ty = mod.resolve(ty)
        if k == 'zero':
            if ty[0] == 'i':
                return 0
            if ty[0] in ('f32', 'f64'):
                return FV(32 if ty[0] == 'f32' else 64, bits=0)
            if ty[0] == 'ptr':
                return Ptr([(True, None, 0)])
            if ty[0] in ('vec', 'arr'):
                return [self.constval(st, ty[2], v, mod) for _ in range(ty[1])]
            if ty[0] == 'st':
                return [self.constval(st, t, v, mod) for t in ty[1]]
        if k == 'agg':
            return [self.constval(st, t, x, mod) for t, x in v[1]]
        if k == 'meta':
            return None
        raise Unsupported('constant %r' % (v,))

    def undefval(self, ty, mod, where):
        ty = mod.resolve(ty)
        if ty[0] == 'i':
            return self.c.undef(ty[1], where)
        if ty[0] in ('f32', 'f64'):
            w = 32 if ty[0] == 'f32' else 64
            return FV(w, bits=self.c.undef(w, where))
        if ty[0] in ('vec', 'arr'):
            return [self.undefval(ty[2], mod, where) for _ in range(ty[1])]
        if ty[0] == 'st':
            return [self.undefval(t, mod, where) for t in ty[1]]
        if ty[0] == 'ptr':
            return Undef()
        raise Unsupported('undef of %r' % (ty,))

    def val(self, fr, st, ty, v):
        if v[0] == 'reg':
            try:
                return st.regs[v[1]]
            except KeyError:
                raise Unsupported('register %s not available at merge' % v[1])
        if len(v) == 2 and v[0] == 'undef' and self.cur is not None and self.cur.op not in POISON_OK and ty[0] != 'vec':
            # clang folds a constant operation with undefined behaviour (5 / 0, 1 << 40) to poison
            self.obl('overflow', fr, self.cur, st, False, 'a constant operation has undefined behaviour')
        return self.constval(st, ty, v, fr.mod)

    # ------------------------------------------------------------ memory
    def obl(self, kind, fr, ins, st, cond, detail, how=None):
        if isinstance(cond, bool):
            if cond:
                self.c.obls.append(Obligation(kind, fr.fn.name, 0, None, True, None, how or 'constant folding'))
                return
        line = fr.mod.dbgline.get(ins.dbg, 0) if ins is not None and ins.dbg is not None else 0
        self.c.obls.append(Obligation(kind, fr.fn.name, line, st.pc, cond, detail, how))

    def resolve_ptr(self, p):
        if isinstance(p, Undef):
            raise Unsupported('use of an undefined pointer')
        if isinstance(p, FnPtr):
            raise Unsupported('data access through a function pointer')
        if not isinstance(p, Ptr):
            raise Unsupported('access through a non-pointer value')
        return p.alts

    def cells_value(self, cells, off, n):
        """Raw value held in cells[off:off+n]: int / BV / FV / Ptr."""
        c0 = cells[off]
        if c0 is not None and c0[1] == 0 and c0[2] == n:
            v = c0[0]
            ok = True
            for k in range(1, n):
                ck = cells[off + k]
                if ck is None or ck[0] is not v or ck[1] != k or ck[2] != n:
                    ok = False
                    break
            if ok:
                return v
        parts = []
        k = 0
        while k < n:
            c = cells[off + k]
            v, j, m = c
            # take the longest run of consecutive bytes of the same value
            r = 1
            while k + r < n:
                d = cells[off + k + r]
                if d[0] is v and d[1] == j + r and d[2] == m:
                    r += 1
                else:
                    break
            if isinstance(v, FV):
                v = v.bits(self.c)
            if isinstance(v, (Ptr, FnPtr, Undef)):
                raise Unsupported('partial read of a pointer')
            if isinstance(v, int):
                parts.append(((v >> (8 * j)) & MASK(8 * r), 8 * r))
            elif r == m:
                parts.append((v, 8 * r))
            else:
                parts.append((z3.Extract(8 * (j + r) - 1, 8 * j, v), 8 * r))
            k += r
        if all(isinstance(v, int) for v, _ in parts):
            x = 0
            s = 0
            for v, w in parts:
                x |= v << s
                s += w
            return x
        parts = [bv(v, w) for v, w in reversed(parts)]
        if len(parts) == 1:
            return parts[0]
        # re-join adjacent extracts of one value
        out = [parts[0]]
        for p in parts[1:]:
            q = out[-1]
            if _kind(p) == z3.Z3_OP_EXTRACT and _kind(q) == z3.Z3_OP_EXTRACT and p.arg(0).eq(q.arg(0)) \
                    and q.params()[1] == p.params()[0] + 1:
                hi, lo = q.params()[0], p.params()[1]
                b = p.arg(0)
                out[-1] = b if hi == b.size() - 1 and lo == 0 else z3.Extract(hi, lo, b)
            else:
                out.append(p)
        return out[0] if len(out) == 1 else z3.Concat(*out)

    def define_cells(self, st, o, off, n, where):
        cells = st.mem[o.id]
        if any(cells[off + k] is None for k in range(n)):
            cells = list(cells)
            for k in range(n):
                if cells[off + k] is None:
                    cells[off + k] = (self.c.undef(8, where), 0, 1)
            st.mem[o.id] = cells
        return cells

    def typed(self, raw, ty, mod):
        ty = mod.resolve(ty)
        k = ty[0]
        if k == 'i':
            if isinstance(raw, FV):
                raw = raw.bits(self.c)
            if isinstance(raw, (Ptr, FnPtr, Undef)):
                raise Unsupported('pointer read as integer')
            if ty[1] % 8:
                raw = trunc(raw, ty[1])
                if ty[1] == 1 and not isinstance(raw, int):
                    return raw == 1
            return raw
        if k in ('f32', 'f64'):
            if isinstance(raw, FV):
                return raw
            if isinstance(raw, (Ptr, FnPtr, Undef)):
                raise Unsupported('pointer read as float')
            return FV(32 if k == 'f32' else 64, bits=raw)
        if k == 'ptr':
            if isinstance(raw, (Ptr, FnPtr, Undef)):
                return raw
            if isinstance(raw, int) and raw == 0:
                return Ptr([(True, None, 0)])
            return Undef()
        raise Unsupported('typed load %r' % (ty,))

    def load(self, fr, ins, st, ty, p, what='read'):
        mod = fr.mod
        ty = mod.resolve(ty)
        if ty[0] in ('vec', 'arr'):
            s = mod.sizeof(ty[2])
            return [self.load(fr, ins if ins is None else part(ins, i * s), st, ty[2], self.padd(p, i * s)) for i in range(ty[1])]
        if ty[0] == 'st':
            offs, _ = mod.layout(ty)
            return [self.load(fr, ins if ins is None else part(ins, o), st, t, self.padd(p, o)) for o, t in zip(offs, ty[1])]
        n = mod.sizeof(ty)
        res = None
        self.access_obl(fr, ins, st, ty, p, n)
        for g, o, off in self.resolve_ptr(p):
            v = self.load1(fr, ins, st, ty, g, o, off, n)
            res = v if res is None else self.merge_typed(g, v, res, ty, mod)
        return res

    def alive(self, fr, ins, st, g, o, kind):
        if o is not None and o.id in self.c.heap:
            v = self.cells_value(st.mem[self.c.heap[o.id][1].id], 0, 1)
            ok = v == 0
            self.obl(kind, fr, ins, st, True if is_t(ok) else b_or(b_not(g) if not is_t(g) else False, zb(ok)), 'access to a released block')

    def load1(self, fr, ins, st, ty, g, o, off, n):
        self.alive(fr, ins, st, g, o, 'mem-read')
        if o is None or o.id in self.c.dead or o.kind == 'opaque':
            why = 'null' if o is None else ('out-of-scope object ' if o.id in self.c.dead else 'opaque ') + o.name
            self.obl('mem-read', fr, ins, st, b_not(g) if not is_t(g) else False, 'read through %s pointer' % why)
            return self.undefval(ty, fr.mod, 'invalid read')
        if isinstance(off, int):
            ok = 0 <= off and off + n <= o.size
            self.obl('mem-read', fr, ins, st, True if ok else b_not(g) if not is_t(g) else False,
                     'read of %d byte(s) at offset %d of %s (%d bytes)' % (n, off, o.name, o.size))
            if not ok:
                return self.undefval(ty, fr.mod, 'out-of-bounds read')
            if any(c is None for c in st.mem[o.id][off:off + n]) and ty[0] == 'ptr':
                return Undef()
            cells = self.define_cells(st, o, off, n, 'uninitialised byte of %s in %s' % (o.name, fr.fn.name))
            return self.typed(self.cells_value(cells, off, n), ty, fr.mod)
        t, cand = self.candidates(off, o, n, st)
        inb = b_or(*[t == k for k in cand])
        if is_t(g):
            self.obl('mem-read', fr, ins, st, inb, 'read of %d byte(s) at a computed offset of %s (%d bytes)' % (n, o.name, o.size))
        else:
            self.obl('mem-read', fr, ins, st, b_or(b_not(g), inb), 'read at a computed offset of ' + o.name)
        if any(c is None for k in cand for c in st.mem[o.id][k:k + n]):
            # only define what is read symbolically
            for k in cand:
                self.define_cells(st, o, k, n, 'uninitialised byte of %s in %s' % (o.name, fr.fn.name))
        cells = st.mem[o.id]
        res = self.undefval(ty, fr.mod, 'out-of-bounds read')
        for k in cand:
            res = self.merge_typed(t == k, self.typed(self.cells_value(cells, k, n), ty, fr.mod), res, ty, fr.mod)
        return res

    def access_obl(self, fr, ins, st, ty, p, n):
        """alignment of the address; compatibility of the access with the declared type of the object"""
        if ins is None or ins.op not in ('load', 'store') or n == 1:
            return
        tag = fr.mod.tbaa_name(ins.tbaa) if ins.tbaa is not None else None
        cls = None
        if tag is not None and tag not in ('omnipotent char', 'vtable pointer'):
            cls = (n, 'p' if ty[0] == 'ptr' else 'f' if ty[0] in ('f32', 'f64') else 'i')
        for g, o, off in self.resolve_ptr(p):
            if o is None or (o.size == n and o.kind == 'alloca' and o.align >= ins.align and o.types and o.types[0][:2] == (0, n)
                             and (cls is None or o.types[0][2] == cls[1])):
                continue
            ng = b_not(g) if not is_t(g) else False
            a = ins.align
            if a > 1:
                if o.align < a:
                    self.obl('align', fr, ins, st, ng, 'access of %d byte(s) through an address that is only aligned to %d (%s)' % (n, o.align, o.name))
                elif isinstance(off, int):
                    self.obl('align', fr, ins, st, True if off % a == 0 else ng, 'access of %d byte(s) at offset %d of %s' % (n, off, o.name))
                elif off.c % a or off.stride % a:
                    t = z3.Extract(a.bit_length() - 2, 0, off.term()) == 0
                    self.obl('align', fr, ins, st, t if is_t(g) else b_or(b_not(g), t), 'aligned access at a computed offset of ' + o.name)
            if cls is not None and o.types is not None and isinstance(off, int):
                bad = [k for k in range(off, off + n) if k in o.types and (o.types[k][1:] != cls or o.types[k][0] != off)]
                self.obl('alias', fr, ins, st, ng if bad else True,
                         'bytes of %s are accessed as another type than the declared one (%s)' % (o.name, tag))

    def candidates(self, off, o, n, state):
        st = off.stride
        c0 = off.c % st if st else off.c
        t = off.term()
        cand = [k for k in range(c0, o.size - n + 1, st or 1)]
        if len(cand) > 4096:
            raise Unsupported('symbolic access into a large object')
        cells = state.mem[o.id]
        if len(cells) > n and any(c is not None and isinstance(c[0], (Ptr, FnPtr)) for c in cells):
            cand = [k for k in cand if all(c is None or not isinstance(c[0], (Ptr, FnPtr)) for c in cells[k:k + n])
                    or self.c.feasible(state.pc, t == k)]
        return t, cand

    def store(self, fr, ins, st, ty, v, p):
        mod = fr.mod
        ty = mod.resolve(ty)
        if ty[0] in ('vec', 'arr'):
            s = mod.sizeof(ty[2])
            for i in range(ty[1]):
                self.store(fr, ins if ins is None else part(ins, i * s), st, ty[2], v[i], self.padd(p, i * s))
            return
        if ty[0] == 'st':
            offs, _ = mod.layout(ty)
            for i, (o, t) in enumerate(zip(offs, ty[1])):
                self.store(fr, ins if ins is None else part(ins, o), st, t, v[i], self.padd(p, o))
            return
        n = mod.sizeof(ty)
        if ty[0] == 'i':
            if ty[1] == 1 and not isinstance(v, int):
                v = z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
            elif ty[1] % 8:
                v = zext(v, ty[1], 8 * n)
        alts = self.resolve_ptr(p)
        self.access_obl(fr, ins, st, ty, p, n)
        for g, o, off in alts:
            self.alive(fr, ins, st, g, o, 'mem-write')
            if o is None or o.id in self.c.dead or o.kind == 'opaque' or o.const:
                why = 'null' if o is None else o.name
                self.obl('mem-write', fr, ins, st, b_not(g) if not is_t(g) else False,
                         'write through an invalid or read-only pointer (%s)' % why)
                continue
            if o.kind == 'global' or (o.id in self.c.heap and self.c.heap[o.id][5]):
                self.note_gwrite(fr, ins, st, o, v)
            if isinstance(off, int):
                ok = 0 <= off and off + n <= o.size
                self.obl('mem-write', fr, ins, st, True if ok else b_not(g) if not is_t(g) else False,
                         'write of %d byte(s) at offset %d of %s (%d bytes)' % (n, off, o.name, o.size))
                if not ok:
                    continue
                new = v
                if not is_t(g):
                    cells = self.define_cells(st, o, off, n, 'uninitialised byte of ' + o.name)
                    sty = ty if ty[0] != 'i' else ('i', 8 * n)
                    new = self.merge_typed(g, v, self.typed(self.cells_value(cells, off, n), sty, mod), sty, mod)
                cells = list(st.mem[o.id])
                for k in range(n):
                    cells[off + k] = (new, k, n)
                st.mem[o.id] = cells
                continue
            t, cand = self.candidates(off, o, n, st)
            inb = b_or(*[t == k for k in cand])
            self.obl('mem-write', fr, ins, st, inb if is_t(g) else b_or(b_not(g), inb),
                     'write of %d byte(s) at a computed offset of %s (%d bytes)' % (n, o.name, o.size))
            for k in cand:
                c = b_and(g, t == k)
                if all(x is None for x in st.mem[o.id][k:k + n]) and ty[0] == 'ptr':
                    raise Unsupported('symbolic pointer store')
                cells = self.define_cells(st, o, k, n, 'uninitialised byte of ' + o.name)
                sty = ty if ty[0] != 'i' else ('i', 8 * n)
                old = self.typed(self.cells_value(cells, k, n), sty, mod)
                new = self.merge_typed(c, v, old, sty, mod)
                cells = list(st.mem[o.id])
                for j in range(n):
                    cells[k + j] = (new, j, n)
                st.mem[o.id] = cells

    def note_gwrite(self, fr, ins, st, o, v):
        """a write to an object that outlives the call; v: the value, or the cells of a block copy"""
        if o.name.startswith('@_ZGV') or (self.c.in_guard and self.fixed(v)):
            return
        line = fr.mod.dbgline.get(ins.dbg, 0) if ins is not None and ins.dbg is not None else 0
        self.c.gwrites.append((st.pc, o.name, fr.fn.name, line))

    def fixed(self, v):
        """is the value the same whenever it is computed?"""
        if isinstance(v, list):
            return all(c is None or self.fixed(c[0]) for c in v)
        if isinstance(v, FV):
            return isinstance(v._bits, int) or (v._fp is not None and z3.is_fp_value(v._fp))
        if isinstance(v, Ptr):
            return all(is_t(g) and isinstance(off, int) and (o is None or o.kind in ('global', 'opaque') or
                       (o.id in self.c.heap and self.c.heap[o.id][5])) for g, o, off in v.alts)
        if isinstance(v, FnPtr):
            return True
        if z3.is_expr(v):
            return z3.is_bv_value(z3.simplify(v))
        return isinstance(v, int)

    def forget(self, st):
        """what earlier calls may have left in the static objects (and blocks) found to be written is arbitrary"""
        c = self.c
        if not c.written:
            return
        ids = [o.id for o in c.globals.values() if o.name in c.written]
        if any(n == 'heap block' for n in c.written):
            ids += [h for h, x in c.heap.items() if x[5]]
        for i in ids:
            if i in st.mem:
                st.mem[i] = [x if x is not None and isinstance(x[0], (Ptr, FnPtr)) else (c.fresh('state', 8), 0, 1) for x in st.mem[i]]

    def padd(self, p, k):
        if k == 0:
            return p
        if not isinstance(p, Ptr):
            raise Unsupported('arithmetic on a non-data pointer')
        out = []
        for g, o, off in p.alts:
            if isinstance(off, int):
                out.append((g, o, off + k))
            else:
                out.append((g, o, Off(off.c + k, off.e, off.stride)))
        return Ptr(out)

    def index_obl(self, fr, ins, st, bt, idx):
        """an index into an array member stays inside that array (one past it only for an address that is not accessed)"""
        mod = fr.mod
        ty = bt
        for n, (it, iv) in enumerate(idx):
            if n == 0:
                continue
            ty = mod.resolve(ty)
            if ty[0] == 'st':
                ty = ty[1][iv]
                continue
            if ty[0] == 'arr' and ty[1] > 0:
                top = ty[1] if ins.access and n == len(idx) - 1 else ty[1] + 1
                if isinstance(iv, int):
                    if not 0 <= to_s(iv, it[1]) < top:
                        self.obl('index', fr, ins, st, False, 'index %d into an array of %d' % (to_s(iv, it[1]), ty[1]))
                else:
                    # an array too long for the index type to leave it needs no obligation beyond the sign
                    c = z3.ULT(iv, top) if top < 1 << it[1] else True
                    self.obl('index', fr, ins, st, c, 'index into an array of %d' % ty[1])
            ty = ty[2]

    def gep(self, mod, base, bt, idx):
        if isinstance(base, Undef):
            raise Unsupported('arithmetic on an undefined pointer')
        terms = []       # (expr64, scale)
        c = 0
        ty = bt
        for n, (it, iv) in enumerate(idx):
            if n == 0:
                sz = mod.sizeof(ty)
            else:
                ty = mod.resolve(ty)
                if ty[0] == 'st':
                    offs, _ = mod.layout(ty)
                    c += offs[iv]
                    ty = ty[1][iv]
                    continue
                ty = ty[2]
                sz = mod.sizeof(ty)
            if isinstance(iv, int):
                c += to_s(iv, it[1]) * sz
            else:
                terms.append((sext(iv, it[1], 64), sz))
        p = self.padd(base, c)
        if not terms:
            return p
        out = []
        for g, o, off in p.alts:
            if isinstance(off, int):
                off = Off(off, None, 0)
            e, stride = off.e, off.stride
            for x, s in terms:
                t = bv(mul(x, s, 64), 64)
                e = t if e is None else e + t
                stride = s if stride == 0 else _gcd(stride, s)
            out.append((g, o, Off(off.c, e, stride)))
        return Ptr(out)

    # ----------------------------------------------------------- merging
    def merge_val(self, c, a, b):
        """c ? a : b"""
        if a is b:
            return a
        if is_t(c):
            return a
        if is_f(c):
            return b
        if isinstance(a, list):
            return [self.merge_val(c, x, y) for x, y in zip(a, b)]
        if isinstance(a, FV) or isinstance(b, FV):
            if not isinstance(a, FV):
                a = FV(b.w, bits=a)
            if not isinstance(b, FV):
                b = FV(a.w, bits=b)
            if a.same(b):
                return a
            if a._bits is not None and b._bits is not None:
                r = FV(a.w, bits=ite(c, a._bits, b._bits, a.w))
                if a._fp is not None or b._fp is not None:
                    r._fp = z3.If(c, a.fp, b.fp)
            else:
                r = FV(a.w, fp=z3.If(c, a.fp, b.fp))
            if a.dy and b.dy and not isinstance(c, (bool, int)):
                ab = dy_align(a.dy, b.dy)
                if ab:
                    p, q = ab
                    r.exactly((z3.If(c, p[0], q[0]), min(p[1], q[1]), max(p[2], q[2]), p[3]))
            return r
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            alts = []
            for g, o, off in a.alts:
                alts.append((b_and(c, g), o, off))
            for g, o, off in b.alts:
                for i, (g2, o2, off2) in enumerate(alts):
                    if o2 is o and isinstance(off, int) and isinstance(off2, int) and off == off2:
                        alts[i] = (b_or(g2, b_and(b_not(c), g)), o, off)
                        break
                else:
                    alts.append((b_and(b_not(c), g), o, off))
            if len(alts) == 1:
                alts = [(True, alts[0][1], alts[0][2])]
            return Ptr(alts)
        if isinstance(a, (Ptr, FnPtr, Undef)) or isinstance(b, (Ptr, FnPtr, Undef)):
            if isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name:
                return a
            return Undef()
        if isinstance(a, int) and isinstance(b, int):
            if a == b:
                return a
            return ('ints', c, a, b)
        if not isinstance(a, int) and z3.is_bool(a) or not isinstance(b, int) and z3.is_bool(b):
            a = bool(a) if isinstance(a, int) else a
            b = bool(b) if isinstance(b, int) else b
            if not isinstance(a, bool) and not isinstance(b, bool) and a.eq(b):
                return a
            return b_or(b_and(c, a), b_and(b_not(c), b))
        n = (a if not isinstance(a, int) else b).size()
        return ite(c, a, b, n)

    def merge_w(self, c, a, b, n):
        """Integer-aware merge with a known bit width n (1 = boolean)."""
        r = self.merge_val(c, a, b)
        if isinstance(r, tuple):
            if n == 1:
                return zb(c) if r[2] else b_not(zb(c))
            return z3.If(zb(c), z3.BitVecVal(r[2], n), z3.BitVecVal(r[3], n))
        return r

    def merge_typed(self, c, a, b, ty, mod):
        ty = mod.resolve(ty)
        if ty[0] == 'i':
            return self.merge_w(c, a, b, ty[1])
        if ty[0] in ('vec', 'arr'):
            return [self.merge_typed(c, x, y, ty[2], mod) for x, y in zip(a, b)]
        if ty[0] == 'st':
            return [self.merge_typed(c, x, y, t, mod) for x, y, t in zip(a, b, ty[1])]
        return self.merge_val(c, a, b)

    def merge_states(self, pc0, c, a, b, widths, exact):
        if a is None:
            return b
        if b is None:
            return a
        n = len(pc0)
        ea, eb = a.pc[n:], b.pc[n:]
        # ea/eb start with c / not c
        if exact and len(ea) <= 1 and len(eb) <= 1:
            pc = pc0
        else:
            pc = pc0 + (b_or(b_and(*ea), b_and(*eb)),)
        m = State({}, pc, {})
        for k, v in a.regs.items():
            w = b.regs.get(k, m)
            if w is m:
                continue
            if v is w:
                m.regs[k] = v
                continue
            try:
                r = self.merge_typed(c, v, w, widths[k][0], widths[k][1]) if k in widths else self.merge_val(c, v, w)
            except Unsupported:
                continue
            if not isinstance(r, tuple):
                m.regs[k] = r
        start = self.c.start_mem
        for oid, ca in a.mem.items():
            cb = b.mem.get(oid)
            if cb is None:
                cb = start.get(oid)       # a global object the other path has not touched
            if cb is None or ca is cb:
                m.mem[oid] = ca
            else:
                m.mem[oid] = self.merge_cells(c, ca, cb)
        for oid, cb in b.mem.items():
            if oid not in m.mem:
                ca = start.get(oid)
                m.mem[oid] = cb if ca is None or ca is cb else self.merge_cells(c, ca, cb)
        return m

    def merge_cells(self, c, ca, cb):
        out = list(ca)
        i = 0
        n = len(ca)
        while i < n:
            x, y = ca[i], cb[i]
            if x is y:
                i += 1
                continue
            if x is None or y is None:
                if x is None and y is None:
                    i += 1
                    continue
                u = (self.c.undef(8, 'uninitialised byte'), 0, 1)
                x, y = x or u, y or u
                out[i] = self.merge_byte(c, x, y)
                i += 1
                continue
            if x[0] is y[0] and x[1:] == y[1:]:
                i += 1
                continue
            k = x[2]
            if x[1] == 0 and y[1] == 0 and y[2] == k and i + k <= n and \
                    all(ca[i + j] is not None and cb[i + j] is not None and ca[i + j][0] is x[0] and ca[i + j][1] == j
                        and cb[i + j][0] is y[0] and cb[i + j][1] == j for j in range(k)):
                v = self.merge_w(c, x[0], y[0], 8 * k)
                for j in range(k):
                    out[i + j] = (v, j, k)
                i += k
                continue
            if isinstance(x[0], (Ptr, FnPtr, Undef)) or isinstance(y[0], (Ptr, FnPtr, Undef)):
                for j in range(i, n):
                    out[j] = None
                return out
            out[i] = self.merge_byte(c, x, y)
            i += 1
        return out

    def merge_byte(self, c, x, y):
        def byte(t):
            v, j, m = t
            if isinstance(v, FV):
                v = v.bits(self.c)
            if isinstance(v, (Ptr, FnPtr, Undef)):
                return self.c.undef(8, 'byte of a pointer')
            if isinstance(v, int):
                return (v >> (8 * j)) & 255
            return v if m == 1 else z3.Extract(8 * j + 7, 8 * j, v)
        return (self.merge_w(c, byte(x), byte(y), 8), 0, 1)

    # -------------------------------------------------------------- calls
    def call_fn(self, st, fn, args, types=()):
        """Run a defined function; returns the merged state at its return, or None."""
        fn.parse()
        self.c.funcs_used.add(fn.name)
        self.c.calldepth += 1
        if self.c.calldepth > 60:
            raise Unsupported('call depth')
        saved = st.regs
        fr = Frame(fn)
        fr.va = list(zip(types, args))[len(fn.params):]
        st.regs = {}
        for (ty, nm, at), v in zip(fn.params, args):
            if 'byval' in at:
                sz = fn.mod.sizeof(at['byval'])
                o = self.c.newobj(sz, 'by-value copy', 'alloca')
                o.align = max(fn.mod.alignof(at['byval']), 8)
                o.types = typemap(fn.mod, at['byval'])
                src = self.resolve_ptr(v)
                if len(src) != 1 or not isinstance(src[0][2], int) or src[0][1] is None:
                    raise Unsupported('byval of a symbolic pointer')
                _, so, off = src[0]
                st.mem[o.id] = list(st.mem[so.id][off:off + sz])
                fr.allocas.append(o)
                v = Ptr([(True, o, 0)])
            st.regs[nm] = v
        out = self.run(fr, st, fn.order[0], None, '<exit>')
        self.c.calldepth -= 1
        if out is not None:
            rv = out.regs.get('<ret>')
            out.regs = saved
            out.ret = rv
            for o in fr.allocas:
                self.c.dead.add(o.id)
        return out

    # ---------------------------------------------------------- the runner
    def run(self, fr, st, bname, pred, stop, depth=0):
        if depth > self.c.MAX_DEPTH:
            raise Unsupported('path nesting limit (loop without a provable bound?)')
        phidone = False
        fr.stops.append(stop)
        try:
            while True:
                if bname == stop:
                    if not phidone and stop != '<exit>':
                        self.phis(fr, st, bname, pred)
                    return st
                blk = fr.fn.blocks[bname]
                self.c.cur = st
                if not phidone:
                    self.phis(fr, st, bname, pred)
                phidone = False
                nxt = None
                for ins in blk.instrs:
                    if ins.op == 'phi':
                        continue
                    self.c.steps += 1
                    if self.c.steps > self.c.MAX_STEPS:
                        raise Unsupported('step limit (loop without a provable bound?)')
                    op = ins.op
                    if op == 'br':
                        if ins.a[0] is None:
                            nxt = ins.a[1]
                            break
                        c = self.val(fr, st, ('i', 1), ins.a[0])
                        if isinstance(c, int):
                            nxt = ins.a[1] if c else ins.a[2]
                            break
                        c = z3.simplify(c)
                        if z3.is_true(c) or z3.is_false(c):
                            nxt = ins.a[1] if z3.is_true(c) else ins.a[2]
                            break
                        self.check_undef_branch(fr, ins, st, c)
                        nxt, st, done = self.fork(fr, st, bname, [(c, ins.a[1]), (z3.Not(c), ins.a[2])], stop, depth)
                        if done:
                            return st
                        phidone = True
                        break
                    if op == 'switch':
                        ty, v, d, cs = ins.a
                        x = self.val(fr, st, ty, v)
                        if isinstance(x, int):
                            nxt = d
                            for cv, b in cs:
                                if cv[1] & MASK(ty[1]) == x:
                                    nxt = b
                                    break
                            break
                        arms = {}
                        conds = []
                        for cv, b in cs:
                            e = x == z3.BitVecVal(cv[1] & MASK(ty[1]), ty[1])
                            conds.append(e)
                            arms.setdefault(b, []).append(e)
                        lst = [(b_or(*es), b) for b, es in arms.items()]
                        lst.append((b_not(b_or(*conds)) if conds else True, d))
                        nxt, st, done = self.fork(fr, st, bname, lst, stop, depth)
                        if done:
                            return st
                        phidone = True
                        break
                    if op == 'ret':
                        ty, v = ins.a
                        if v is not None:
                            st.regs['<ret>'] = self.val(fr, st, ty, v)
                        nxt = '<exit>'
                        break
                    if op == 'unreachable':
                        self.obl('unreachable', fr, ins, st, False, 'control reaches unreachable code')
                        return None
                    if op == 'resume':
                        return None
                    if op in ('call', 'invoke'):
                        if op == 'invoke':
                            self.c.pads.append((fr.fn, ins))
                        st = self.call(fr, ins, st)
                        if op == 'invoke':
                            self.c.pads.pop()
                        if st is None:
                            return None
                        if op == 'invoke':
                            nxt = ins.a['normal']
                            break
                        continue
                    if op == 'unsupported':
                        raise Unsupported(ins.a)
                    self.step(fr, ins, st)
                if nxt is None:
                    raise Unsupported('block without terminator')
                if not phidone:
                    pred = bname
                bname = nxt
                if bname != stop and bname in fr.stops:
                    raise Unsupported('control flow not nested by post-dominators')
        finally:
            fr.stops.pop()

    def check_undef_branch(self, fr, ins, st, c):
        if self.c.undefs and mentions(c, self.c.undefs):
            self.obl('uninit', fr, ins, st, ('indep', c), 'branch on an uninitialised value')

    def fork(self, fr, st, bname, arms, stop, depth):
        """arms: [(cond, target)]. Returns (next block, merged state, done)."""
        pc0 = st.pc
        join = fr.fn.ipdom.get(bname)
        live = [(c, b) for c, b in arms if self.c.feasible(pc0, c)]
        if not live:
            # every continuation is infeasible: the path itself is
            return None, None, True
        if len(live) == 1:
            c, b = live[0]
            st2 = st
            # the condition is implied by pc: nothing to add
            self.phis(fr, st2, b, bname) if b != '<exit>' else None
            if b == stop:
                return b, st2, True
            return b, st2, False
        merged = None
        mc = None
        target = join if join is not None else None
        outs = []
        for c, b in live:
            s = st.fork()
            s.pc = pc0 + (c,)
            r = self.run(fr, s, b, bname, target if target is not None else '<none>', depth + 1)
            outs.append((c, r))
        widths = self.reg_types(fr)
        for c, r in reversed(outs):
            if r is None:
                continue
            if merged is None:
                merged = r
                mc = c
            else:
                merged = self.merge_states(pc0, c, r, merged, widths, len(outs) == 2)
        if merged is None:
            return None, None, True
        if target == '<exit>' or target == stop:
            return target, merged, True
        return target, merged, False

    def reg_types(self, fr):
        t = getattr(fr.fn, 'regty', None)
        if t is None:
            t = {}
            m = fr.mod
            for b in fr.fn.blocks.values():
                for i in b.instrs:
                    if i.res is None:
                        continue
                    o = i.op
                    if o in ('load', 'phi'):
                        t[i.res] = (i.a[0], m)
                    elif o == 'atomicrmw':
                        t[i.res] = (i.a[1], m)
                    elif o == 'cmpxchg':
                        t[i.res] = (('st', (i.a[0], ('i', 1)), False), m)
                    elif o in ('add', 'sub', 'mul', 'shl', 'sdiv', 'udiv', 'srem', 'urem', 'ashr', 'lshr', 'and', 'or', 'xor'):
                        t[i.res] = (i.a[0], m)
                    elif o in ('icmp', 'fcmp'):
                        if i.a[1][0] != 'vec':
                            t[i.res] = (('i', 1), m)
                    elif o in ('trunc', 'zext', 'sext', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext', 'fptrunc', 'bitcast'):
                        t[i.res] = (i.a[2], m)
                    elif o == 'select':
                        t[i.res] = (i.a[2], m)
                    elif o in ('call', 'invoke'):
                        t[i.res] = (i.a['ret'], m)
            for ty, nm, _ in fr.fn.params:
                t[nm] = (ty, m)
            t['<ret>'] = (fr.fn.ret, m)
            fr.fn.regty = t
        return t

    def phis(self, fr, st, bname, pred):
        blk = fr.fn.blocks.get(bname)
        if blk is None or not blk.instrs or blk.instrs[0].op != 'phi':
            return
        new = {}
        for ins in blk.instrs:
            if ins.op != 'phi':
                break
            ty, inc = ins.a
            for v, b in inc:
                if b == pred:
                    new[ins.res] = self.val(fr, st, ty, v)
                    break
            else:
                raise Unsupported('phi without incoming value')
        st.regs.update(new)

    # ------------------------------------------------------- instructions
    def atomic(self, fr, ins, st):
        """read, modify and write in one step (what other threads do is the business of the purity obligation)"""
        a, R = ins.a, st.regs
        ty, p = (a[1], a[2]) if ins.op == 'atomicrmw' else (a[0], a[1])
        if ty[0] != 'i':
            raise Unsupported('atomic operation on a ' + ty[0])
        n = ty[1]
        p = self.val(fr, st, ('ptr',), p)
        old = self.load(fr, ins, st, ty, p)
        if ins.op == 'cmpxchg':
            cmp, new = self.val(fr, st, ty, a[2]), self.val(fr, st, ty, a[3])
            eq = old == cmp if isinstance(old, int) and isinstance(cmp, int) else bv(old, n) == bv(cmp, n)
            if eq is True:
                v = new
            elif eq is False:
                v = old
            else:
                v = z3.If(eq, bv(new, n), bv(old, n))
            self.store(fr, ins, st, ty, v, p)
            R[ins.res] = [old, int(eq) if isinstance(eq, bool) else eq]
            return
        x = self.val(fr, st, ty, a[3])
        o, x2 = bv(old, n), bv(x, n)
        f = {'xchg': lambda: x2, 'add': lambda: o + x2, 'sub': lambda: o - x2, 'and': lambda: o & x2, 'or': lambda: o | x2,
             'xor': lambda: o ^ x2, 'nand': lambda: ~(o & x2), 'max': lambda: z3.If(o > x2, o, x2), 'min': lambda: z3.If(o < x2, o, x2),
             'umax': lambda: z3.If(z3.UGT(o, x2), o, x2), 'umin': lambda: z3.If(z3.ULT(o, x2), o, x2)}.get(a[0])
        if f is None:
            raise Unsupported('atomic operation ' + a[0])
        self.store(fr, ins, st, ty, norm(z3.simplify(f())), p)
        R[ins.res] = old

    def step(self, fr, ins, st):
        op, a, mod = ins.op, ins.a, fr.mod
        self.cur = ins
        if mod.folded and ins.dbg is not None:
            msg = mod.folded.get(mod.dbgline.get(ins.dbg, 0))
            if msg:
                self.obl('overflow', fr, ins, st, False, 'in a constant expression: ' + msg)
        R = st.regs
        if op == 'alloca':
            ty, n = a
            cnt = self.constval(st, ('i', 64), n, mod) if n[0] != 'reg' else st.regs[n[1]]
            if not isinstance(cnt, int):
                raise Unsupported('variable-length array')
            o = self.c.newobj(mod.sizeof(ty) * cnt, 'local %s' % ins.res, 'alloca')
            o.align = ins.align or mod.alignof(ty)
            o.types = typemap(mod, ty) if cnt == 1 else None
            st.mem[o.id] = [None] * o.size
            fr.allocas.append(o)
            R[ins.res] = Ptr([(True, o, 0)])
        elif op == 'load':
            R[ins.res] = self.load(fr, ins, st, a[0], self.val(fr, st, ('ptr',), a[1]))
        elif op == 'store':
            self.store(fr, ins, st, a[0], self.val(fr, st, a[0], a[1]), self.val(fr, st, ('ptr',), a[2]))
        elif op in ('atomicrmw', 'cmpxchg'):
            self.atomic(fr, ins, st)
        elif op == 'getelementptr':
            bt, ops, inb = a
            base = self.val(fr, st, ops[0][0], ops[0][1])
            idx = [(t, self.val(fr, st, t, v)) for t, v in ops[1:]]
            self.index_obl(fr, ins, st, bt, idx)
            R[ins.res] = self.gep(mod, base, bt, idx)
        elif op in BIN:
            ty, x, y, fl = a
            x, y = self.val(fr, st, ty, x), self.val(fr, st, ty, y)
            ty = mod.resolve(ty)
            if ty[0] == 'vec':
                R[ins.res] = [self.binop(fr, ins, st, op, p, q, ty[2][1], fl) for p, q in zip(x, y)]
            else:
                R[ins.res] = self.binop(fr, ins, st, op, x, y, ty[1], fl)
        elif op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            ty, x, y = a
            x, y = self.val(fr, st, ty, x), self.val(fr, st, ty, y)
            if ty[0] == 'vec':
                R[ins.res] = [self.fbin(op, p, q) for p, q in zip(x, y)]
            else:
                R[ins.res] = self.fbin(op, x, y)
        elif op == 'fneg':
            x = self.val(fr, st, a[0], a[1])
            R[ins.res] = [self.fneg(e) for e in x] if a[0][0] == 'vec' else self.fneg(x)
        elif op == 'icmp':
            c, ty, x, y = a
            x, y = self.val(fr, st, ty, x), self.val(fr, st, ty, y)
            if ty[0] == 'vec':
                R[ins.res] = [self.icmp(c, p, q, ty[2]) for p, q in zip(x, y)]
            else:
                R[ins.res] = self.icmp(c, x, y, ty)
        elif op == 'fcmp':
            c, ty, x, y = a
            x, y = self.val(fr, st, ty, x), self.val(fr, st, ty, y)
            if ty[0] == 'vec':
                R[ins.res] = [self.fcmp(c, p, q) for p, q in zip(x, y)]
            else:
                R[ins.res] = self.fcmp(c, x, y)
        elif op in ('trunc', 'zext', 'sext', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext', 'fptrunc', 'bitcast', 'ptrtoint', 'inttoptr'):
            ty, x, ty2 = a
            x = self.val(fr, st, ty, x)
            ty, ty2 = mod.resolve(ty), mod.resolve(ty2)
            if op == 'bitcast':
                R[ins.res] = self.bitcast(x, ty, ty2, mod)
            elif ty[0] == 'vec':
                R[ins.res] = [self.cast(fr, ins, st, op, e, ty[2], ty2[2]) for e in x]
            else:
                R[ins.res] = self.cast(fr, ins, st, op, x, ty, ty2)
        elif op == 'select':
            ct, c, ty, x, y = a
            c = self.val(fr, st, ct, c)
            x, y = self.val(fr, st, ty, x), self.val(fr, st, ty, y)
            if ct[0] == 'vec':
                R[ins.res] = [self.sel(k, p, q, ty[2], mod) for k, p, q in zip(c, x, y)]
            else:
                R[ins.res] = self.sel(c, x, y, ty, mod)
        elif op == 'freeze':
            R[ins.res] = self.val(fr, st, a[0], a[1])
        elif op == 'extractvalue':
            v = self.val(fr, st, a[0], a[1])
            for i in a[2]:
                v = v[i]
            R[ins.res] = v
        elif op == 'insertvalue':
            v = self.val(fr, st, a[0], a[1])
            e = self.val(fr, st, a[2], a[3])
            R[ins.res] = self.insert(v, e, a[4])
        elif op == 'extractelement':
            v = self.val(fr, st, a[0], a[1])
            i = self.val(fr, st, a[2], a[3])
            if not isinstance(i, int):
                raise Unsupported('symbolic vector index')
            R[ins.res] = v[i]
        elif op == 'insertelement':
            v = list(self.val(fr, st, a[0], a[1]))
            e = self.val(fr, st, a[2], a[3])
            i = self.val(fr, st, a[4], a[5])
            if not isinstance(i, int):
                raise Unsupported('symbolic vector index')
            v[i] = e
            R[ins.res] = v
        elif op == 'shufflevector':
            ty, v, w, mt, m = a
            v, w = self.val(fr, st, ty, v), self.val(fr, st, ty, w)
            src = list(v) + list(w)
            if m[0] == 'zero':
                m = [0] * mt[1]
            elif m[0] in ('undef',):
                m = [None] * mt[1]
            else:
                m = [None if e[1][0] == 'undef' else e[1][1] for e in m[1]]
            R[ins.res] = [src[k] if k is not None else self.undefval(ty[2], mod, 'shuffle') for k in m]
        elif op in ('landingpad', 'fence'):
            pass
        else:
            raise Unsupported('instruction ' + op)

    def insert(self, v, e, idx):
        v = list(v)
        v[idx[0]] = e if len(idx) == 1 else self.insert(v[idx[0]], e, idx[1:])
        return v

    def sel(self, c, x, y, ty, mod):
        if isinstance(c, (int, bool)):
            return x if c else y
        return self.merge_typed(c, x, y, ty, mod)

    def to_raw_cells(self, v, ty, mod):
        ty = mod.resolve(ty)
        if ty[0] in ('vec', 'arr'):
            out = []
            for e in v:
                out += self.to_raw_cells(e, ty[2], mod)
            return out
        n = mod.sizeof(ty)
        return [(v, k, n) for k in range(n)]

    def bitcast(self, x, ty, ty2, mod):
        if ty2[0] == 'ptr':
            return x
        if (ty[0] == 'vec' and ty[2] == ('i', 1)) or (ty2[0] == 'vec' and ty2[2] == ('i', 1)):
            raise Unsupported('bitcast of a mask vector')
        cells = self.to_raw_cells(x, ty, mod)
        if ty2[0] == 'vec':
            s = mod.sizeof(ty2[2])
            return [self.typed(self.cells_value(cells, i * s, s), ty2[2], mod) for i in range(ty2[1])]
        return self.typed(self.cells_value(cells, 0, len(cells)), ty2, mod)

    def b2i(self, x):
        """i1 value as a z3/py boolean"""
        return bool(x) if isinstance(x, int) else x

    def binop(self, fr, ins, st, op, x, y, n, fl):
        if n == 1:
            x, y = self.b2i(x), self.b2i(y)
            if op == 'and':
                r = b_and(x, y)
            elif op == 'or':
                r = b_or(x, y)
            elif op in ('xor', 'add', 'sub'):
                r = b_or(b_and(x, b_not(y)), b_and(b_not(x), y))
            elif op == 'mul':
                r = b_and(x, y)
            else:
                raise Unsupported('i1 ' + op)
            return int(r) if isinstance(r, bool) else r
        conc = isinstance(x, int) and isinstance(y, int)
        if isinstance(x, (Ptr, Undef, FnPtr)) or isinstance(y, (Ptr, Undef, FnPtr)):
            raise Unsupported('integer arithmetic on pointers')
        if self.c.pint and n == 64 and op in ('add', 'sub', 'and'):
            if op == 'sub':
                r = self.c.ptr_diff(x, y)
                if r is not None:
                    return r
            for u, v in ((x, y), (y, x)):
                if op != 'and' and not isinstance(u, int) and isinstance(v, int) and u.get_id() in self.c.pint and (op == 'add' or u is x):
                    return self.c.ptr_int(self.padd(self.c.pint[u.get_id()][1], to_s(v, 64) if op == 'add' else -to_s(v, 64)))
        if op in ('add', 'sub', 'mul'):
            if 'nsw' in fl:
                self.overflow(fr, ins, st, op, x, y, n)
            if 'nuw' in fl and op == 'sub' or 'nuw' in fl:
                self.uoverflow(fr, ins, st, op, x, y, n)
            return {'add': add, 'sub': sub, 'mul': mul}[op](x, y, n)
        if op == 'and':
            return and_(x, y, n)
        if op == 'or':
            return or_(x, y, n)
        if op == 'xor':
            return xor(x, y, n)
        if op in ('shl', 'lshr', 'ashr'):
            if isinstance(y, int):
                ok = y < n
                self.obl('shift', fr, ins, st, ok, 'shift of a %d-bit value by %d' % (n, to_s(y, n)))
                if not ok:
                    return self.c.undef(n, 'over-wide shift')
                if op == 'shl':
                    if 'nsw' in fl and not isinstance(x, int):
                        lo, hi = srange(x, n)
                        full = -(1 << (n - 1)) <= lo << y and hi << y < (1 << (n - 1))
                        self.obl('overflow', fr, ins, st, True if full else
                                 (bv(shl(x, y, n), n) >> y) == bv(x, n), 'signed left shift overflows', 'interval analysis' if full else None)
                    return shl(x, y, n)
                if isinstance(x, int):
                    return (x >> y) if op == 'lshr' else (to_s(x, n) >> y) & MASK(n)
                if y == 0:
                    return x
                if op == 'lshr':
                    return z3.ZeroExt(y, z3.Extract(n - 1, y, x))
                k = _kind(x)
                if k == z3.Z3_OP_ZERO_EXT and x.arg(0).size() < n:
                    m = x.arg(0).size()
                    if y >= m:
                        return 0
                    return z3.ZeroExt(n - m + y, z3.Extract(m - 1, y, x.arg(0)))
                return z3.SignExt(y, z3.Extract(n - 1, y, x))
            ok = z3.ULT(y, n)
            self.obl('shift', fr, ins, st, ok, 'shift amount not below %d' % n)
            xx = bv(x, n)
            r = {'shl': lambda: xx << y, 'lshr': lambda: z3.LShR(xx, y), 'ashr': lambda: xx >> y}[op]()
            return z3.If(ok, r, self.c.undef(n, 'over-wide shift'))
        # division
        nz = (y != 0) if isinstance(y, int) else (y != z3.BitVecVal(0, n))
        self.obl('divzero', fr, ins, st, nz if not isinstance(y, int) else bool(y), 'division by zero')
        if isinstance(y, int) and y == 0:
            return self.c.undef(n, 'division by zero')
        if op in ('sdiv', 'srem'):
            mn = 1 << (n - 1)
            if conc:
                ok = not (x == mn and y == MASK(n))
            elif isinstance(y, int):
                ok = True if y != MASK(n) else bv(x, n) != z3.BitVecVal(mn, n)
            else:
                ok = z3.Not(z3.And(bv(x, n) == z3.BitVecVal(mn, n), bv(y, n) == z3.BitVecVal(MASK(n), n)))
            self.obl('overflow', fr, ins, st, ok, 'signed division overflows')
        if conc:
            if op == 'udiv':
                return x // y
            if op == 'urem':
                return x % y
            p, q = to_s(x, n), to_s(y, n)
            d = abs(p) // abs(q) * (1 if (p < 0) == (q < 0) else -1)
            return (d if op == 'sdiv' else p - d * q) & MASK(n)
        xx, yy = bv(x, n), bv(y, n)
        return {'udiv': lambda: z3.UDiv(xx, yy), 'urem': lambda: z3.URem(xx, yy), 'sdiv': lambda: xx / yy,
                'srem': lambda: z3.SRem(xx, yy)}[op]()

    def overflow(self, fr, ins, st, op, x, y, n):
        l1, h1 = srange(x, n)
        l2, h2 = srange(y, n)
        if op == 'add':
            lo, hi = l1 + l2, h1 + h2
        elif op == 'sub':
            lo, hi = l1 - h2, h1 - l2
        else:
            p = [l1 * l2, l1 * h2, h1 * l2, h1 * h2]
            lo, hi = min(p), max(p)
        if -(1 << (n - 1)) <= lo and hi < (1 << (n - 1)):
            how = 'constant folding' if isinstance(x, int) and isinstance(y, int) else 'interval analysis'
            self.obl('overflow', fr, ins, st, True, None, how)
            return
        if isinstance(x, int) and isinstance(y, int):
            self.obl('overflow', fr, ins, st, False, 'signed %s overflows' % op)
            return
        xx, yy = bv(x, n), bv(y, n)
        if op == 'add':
            ok = z3.And(z3.BVAddNoOverflow(xx, yy, True), z3.BVAddNoUnderflow(xx, yy))
        elif op == 'sub':
            ok = z3.And(z3.BVSubNoOverflow(xx, yy), z3.BVSubNoUnderflow(xx, yy, True))
        else:
            ok = z3.And(z3.BVMulNoOverflow(xx, yy, True), z3.BVMulNoUnderflow(xx, yy))
        self.obl('overflow', fr, ins, st, ok, 'signed %d-bit %s overflows' % (n, op))

    def uoverflow(self, fr, ins, st, op, x, y, n):
        # nuw appears only in compiler-made address arithmetic at this level
        if isinstance(x, int) and isinstance(y, int):
            return
        raise Unsupported('nuw arithmetic')

    def fbin(self, op, x, y):
        f = {'fadd': fpx.add, 'fsub': fpx.sub, 'fmul': fpx.mul, 'fdiv': fpx.div}[op]
        r = FV(x.w, fp=f(x.fp, y.fp))
        if x.w == 64:
            ex, ey = as_f32(x), as_f32(y)
            if ex is not None and ey is not None:
                r.op = (op, ex, ey)
        return r.exactly(dy_bin(op, x.dy, y.dy))

    def fneg(self, x):
        r = FV(x.w, fp=fpx.neg(x.fp))
        if x._bits is not None:
            r._bits = xor(x._bits, 1 << (x.w - 1), x.w)
        if x.ext is not None:
            r.ext = self.fneg(x.ext)
        if x.op is not None:
            o, p, q = x.op
            r.op = ('fneg', x.op)
        return r.exactly(dy_neg(x.dy))

    def icmp(self, c, x, y, ty):
        if ty[0] == 'ptr':
            return self.pcmp(c, x, y)
        n = ty[1]
        if n == 1:
            x, y = self.b2i(x), self.b2i(y)
            if c == 'ne':
                r = b_or(b_and(x, b_not(y)), b_and(b_not(x), y))
            elif c == 'eq':
                r = b_not(b_or(b_and(x, b_not(y)), b_and(b_not(x), y)))
            else:
                raise Unsupported('i1 icmp ' + c)
            return int(r) if isinstance(r, bool) else r
        if isinstance(x, int) and isinstance(y, int):
            sx, sy = to_s(x, n), to_s(y, n)
            return int({'eq': x == y, 'ne': x != y, 'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y,
                        'slt': sx < sy, 'sle': sx <= sy, 'sgt': sx > sy, 'sge': sx >= sy}[c])
        if isinstance(x, (Ptr, Undef, FnPtr)) or isinstance(y, (Ptr, Undef, FnPtr)):
            raise Unsupported('pointer compared as integer')
        p, q = bv(x, n), bv(y, n)
        return {'eq': lambda: p == q, 'ne': lambda: p != q, 'ult': lambda: z3.ULT(p, q), 'ule': lambda: z3.ULE(p, q),
                'ugt': lambda: z3.UGT(p, q), 'uge': lambda: z3.UGE(p, q), 'slt': lambda: p < q, 'sle': lambda: p <= q,
                'sgt': lambda: p > q, 'sge': lambda: p >= q}[c]()

    def pcmp(self, c, x, y):
        if isinstance(x, FnPtr) or isinstance(y, FnPtr):
            if isinstance(y, FnPtr) and not isinstance(x, FnPtr):
                x, y = y, x
            if c in ('eq', 'ne') and isinstance(y, FnPtr):
                return int((x.name == y.name) == (c == 'eq'))
            if c in ('eq', 'ne') and isinstance(y, Ptr) and all(o is None for _, o, _ in y.alts):
                return int(c == 'ne')
            raise Unsupported('comparison of a function pointer')
        if not (isinstance(x, Ptr) and isinstance(y, Ptr)):
            raise Unsupported('comparison of an undefined pointer')
        if len(x.alts) != 1 or len(y.alts) != 1:
            r = None
            for g1, o1, f1 in x.alts:
                for g2, o2, f2 in y.alts:
                    e = self.pcmp(c, Ptr([(True, o1, f1)]), Ptr([(True, o2, f2)]))
                    e = bool(e) if isinstance(e, int) else e
                    t = b_and(g1, g2, e)
                    r = t if r is None else b_or(r, t)
            return int(r) if isinstance(r, bool) else r
        _, o1, f1 = x.alts[0]
        _, o2, f2 = y.alts[0]
        if o1 is not o2:
            if c in ('eq', 'ne') and (o1 is None or o2 is None or (isinstance(f1, int) and isinstance(f2, int))):
                return int(c == 'ne')
            raise Unsupported('comparison of pointers into different objects')
        if isinstance(f1, int) and isinstance(f2, int):
            return self.icmp(c.replace('s', 'u') if c[0] == 's' else c, f1 & MASK(64), f2 & MASK(64), ('i', 64))
        t = [f.term() if isinstance(f, Off) else z3.BitVecVal(f & MASK(64), 64) for f in (f1, f2)]
        return self.icmp(c, t[0], t[1], ('i', 64))

    def fcmp(self, c, x, y):
        if c == 'true':
            return 1
        if c == 'false':
            return 0
        if x.dy and y.dy and not (z3.is_fp_value(x.fp) and z3.is_fp_value(y.fp)):
            ab = dy_align(x.dy, y.dy)
            if ab:
                if c in ('ord', 'uno'):
                    return int(c == 'ord')
                (p, pl, ph, _), (q, ql, qh, _) = ab
                k = c[1:]
                f = {'eq': lambda: p == q, 'ne': lambda: p != q, 'lt': lambda: p < q, 'le': lambda: p <= q, 'gt': lambda: p > q, 'ge': lambda: p >= q}[k]
                if (k == 'lt' and ph < ql) or (k == 'le' and ph <= ql) or (k == 'gt' and pl > qh) or (k == 'ge' and pl >= qh):
                    return 1
                if (k == 'lt' and pl >= qh) or (k == 'le' and pl > qh) or (k == 'gt' and ph <= ql) or (k == 'ge' and ph < ql):
                    return 0
                f = z3.simplify(f())
                return 1 if z3.is_true(f) else 0 if z3.is_false(f) else f
        a, b = x.fp, y.fp
        nan = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
        f = {'oeq': lambda: z3.fpEQ(a, b), 'ogt': lambda: z3.fpGT(a, b), 'oge': lambda: z3.fpGEQ(a, b),
             'olt': lambda: z3.fpLT(a, b), 'ole': lambda: z3.fpLEQ(a, b),
             'one': lambda: z3.And(z3.Not(nan), z3.Not(z3.fpEQ(a, b))), 'ord': lambda: z3.Not(nan),
             'uno': lambda: nan, 'ueq': lambda: z3.Or(nan, z3.fpEQ(a, b)), 'ugt': lambda: z3.Not(z3.fpLEQ(a, b)),
             'uge': lambda: z3.Not(z3.fpLT(a, b)), 'ult': lambda: z3.Not(z3.fpGEQ(a, b)),
             'ule': lambda: z3.Not(z3.fpGT(a, b)), 'une': lambda: z3.Not(z3.fpEQ(a, b))}[c]()
        f = z3.simplify(f) if z3.is_fp_value(a) and z3.is_fp_value(b) else f
        if z3.is_true(f):
            return 1
        if z3.is_false(f):
            return 0
        return f

    def cast(self, fr, ins, st, op, x, ty, ty2):
        if op == 'trunc':
            r = trunc(x, ty2[1])
            if ty2[1] == 1 and not isinstance(r, int):
                return r == 1
            return r
        if op in ('zext', 'sext'):
            n, m = ty[1], ty2[1]
            if n == 1:
                if isinstance(x, int):
                    return x if op == 'zext' else (MASK(m) if x else 0)
                return z3.If(x, z3.BitVecVal(1 if op == 'zext' else MASK(m), m), z3.BitVecVal(0, m))
            return (zext if op == 'zext' else sext)(x, n, m)
        if op in ('sitofp', 'uitofp'):
            w = 32 if ty2[0] == 'f32' else 64
            if ty[1] == 1:
                lo, hi = fpx.const(0.0, w), fpx.const(1.0 if op == 'uitofp' else -1.0, w)
                if isinstance(x, int):
                    return FV(w, fp=hi if x & 1 else lo)
                c = x if z3.is_bool(x) else x == 1
                return FV(w, fp=hi if is_t(c) else lo if is_f(c) else z3.If(c, hi, lo))
            e = bv(x, ty[1])
            k = _kind(e)
            # a zero-extended value is non-negative: both conversions agree
            n = ty[1]
            if n <= 32:
                lo, hi = (0, MASK(e.arg(0).size())) if k == z3.Z3_OP_ZERO_EXT else srange(e, n) if op == 'sitofp' else (0, MASK(n))
            else:
                lo, hi = (0, MASK(e.arg(0).size())) if k == z3.Z3_OP_ZERO_EXT else srange(e, n)
                if op == 'uitofp' and lo < 0:
                    lo, hi = 0, MASK(64)
            d = None
            if n <= 64 and max(abs(lo), abs(hi)) <= 1 << 53:
                ext = z3.SignExt if op == 'sitofp' and n < 64 else z3.ZeroExt
                d = (ext(64 - n, e) if n < 64 else e, lo, hi, 0)
            if k == z3.Z3_OP_ZERO_EXT:
                return FV(w, fp=fpx.from_uint(e.arg(0), w)).exactly(d)
            if op == 'sitofp' and k == z3.Z3_OP_SIGN_EXT:
                return FV(w, fp=fpx.from_sint(e.arg(0), w)).exactly(d)
            r = FV(w, fp=(fpx.from_sint if op == 'sitofp' else fpx.from_uint)(e, w))
            return r.exactly(d)
        if op in ('fptosi', 'fptoui'):
            n = ty2[1]
            sg = op == 'fptosi'
            d = dy_round(x.dy, 'rtz')
            if d and not z3.is_fp_value(x.fp):
                a, b = (-(1 << n - 1), MASK(n - 1)) if sg else (0, MASK(n))
                r = z3.Extract(n - 1, 0, d[0]) if n < 64 else d[0]
                if n > 64:
                    r = z3.SignExt(n - 64, d[0])
                if a <= d[1] and d[2] <= b:
                    self.obl('fptoint', fr, ins, st, True, None)
                    return norm(z3.simplify(r))
                ok = z3.simplify(z3.And(d[0] >= max(a, -(1 << 63)), d[0] <= min(b, MASK(63))))
                self.obl('fptoint', fr, ins, st, ok, 'float to %s%d conversion out of range' % ('' if sg else 'unsigned ', n))
                return z3.If(ok, r, self.c.undef(n, 'out-of-range float conversion'))
            x32 = as_f32(x) if x.w == 64 else None
            if x32 is not None:
                x = x32
            ok = z3.simplify(fpx.in_range(x.fp, n, sg, x.w)) if z3.is_fp_value(x.fp) else fpx.in_range(x.fp, n, sg, x.w)
            if z3.is_true(ok):
                self.obl('fptoint', fr, ins, st, True, None)
                return norm(fpx.to_int(x.fp, n, sg))
            self.obl('fptoint', fr, ins, st, ok, 'float to %s%d conversion out of range' % ('' if sg else 'unsigned ', n))
            return z3.If(ok, fpx.to_int(x.fp, n, sg), self.c.undef(n, 'out-of-range float conversion'))
        if op == 'fpext':
            r = FV(64, fp=z3.simplify(z3.fpFPToFP(z3.RNE(), x.fp, fpx.F64)) if z3.is_fp_value(x.fp)
                   else z3.fpFPToFP(z3.RNE(), x.fp, fpx.F64))
            r.ext = x
            return r.exactly(x.dy)
        if op == 'fptrunc':
            e = as_f32(x)
            if e is not None:       # the same number; a NaN may come back with another payload, quieted
                r = FV(32, fp=e.fp)
                r.ext, r.op = e.ext, e.op
                return r.exactly(e.dy)
            if x.op is not None:
                return self.narrow_op(x.op).exactly(x.dy)
            return FV(32, fp=z3.simplify(z3.fpFPToFP(z3.RNE(), x.fp, fpx.F32)) if z3.is_fp_value(x.fp)
                      else z3.fpFPToFP(z3.RNE(), x.fp, fpx.F32)).exactly(x.dy)
        if op == 'ptrtoint' and isinstance(x, Ptr):
            r = self.c.ptr_int(x)
            return trunc(r, ty2[1]) if ty2[1] < 64 else r
        if op == 'inttoptr' and ty[1] == 64:
            if isinstance(x, int) and x == 0:
                return Ptr([(True, None, 0)])
            if not isinstance(x, int) and x.get_id() in self.c.pint:
                return self.c.pint[x.get_id()][1]
        raise Unsupported('cast ' + op)

    def narrow_op(self, o):
        """float(double(a) op double(b)) == a op b for op in + - * / (Figueroa 1995: 53 >= 2*24+2)."""
        if o[0] == 'fneg':
            return self.fneg(self.narrow_op(o[1]))
        return self.fbin(o[0], o[1], o[2])

    # --------------------------------------------------------------- calls
    def abi(self, mod, d, f):
        a = [_abi_type(mod, ty, at) for ty, v, at in d['args']]
        b = [_abi_type(f.mod, ty, at) for ty, nm, at in f.params]
        return a == b and _abi_type(mod, d['ret'], {}) == _abi_type(f.mod, f.ret, {})

    def call(self, fr, ins, st):
        import builtins_ir
        d = ins.a
        cal = d['callee']
        args = []
        if cal[0] == '%':
            t = st.regs.get(cal)
            if not isinstance(t, FnPtr):
                raise Unsupported('indirect call')
            name = t.name
        else:
            name = cal[1:].strip('"')
        if name.startswith('llvm.dbg.') or name.startswith('llvm.lifetime.') or name == 'llvm.donothing' or \
                name.startswith('llvm.experimental.noalias') or name.startswith('llvm.assume'):
            return st
        for ty, v, at in d['args']:
            args.append(self.val(fr, st, ty, v))
        f = self.find_fn(name, fr.mod)
        b = builtins_ir.lookup(name)
        if b is not None and (f is None or builtins_ir.preferred(name)):
            self.c.ext_used.add(name)
            r = b(self, fr, ins, st, name, args, d)
            if r is None:
                return None
            rv = r[0] if isinstance(r, tuple) and r else None
            if ins.res is not None:
                st.regs[ins.res] = rv
            return st
        if f is None and builtins_ir.IMPURE.fullmatch(name):
            line = fr.mod.dbgline.get(ins.dbg, 0) if ins.dbg is not None else 0
            self.c.impure.append((st.pc, name, fr.fn.name, line))
            self.c.ext_used.add(name)
            rv = builtins_ir.havoc(self, st, d['ret'], name)
            if ins.res is not None:
                st.regs[ins.res] = rv
            return st
        if f is None:
            raise Unsupported('external function without a contract: ' + name)
        if f.mod is not fr.mod:
            f.parse()
            same = self.abi(fr.mod, d, f)
            self.obl('abi', fr, ins, st, same, 'the call of %s passes and returns values as its definition expects' % name, 'signature comparison')
            if not same:
                return None
            if self.c.calls_only:
                raise CallChecked()
        st2 = self.call_fn(st, f, args, [a[0] for a in d['args']])
        if st2 is None:
            return None
        if ins.res is not None:
            st2.regs[ins.res] = st2.ret
        return st2


def part(ins, off):
    """the access of one element of an aggregate, `off` bytes into it"""
    if off == 0:
        return ins
    r = copy.copy(ins)
    r.align = min(ins.align or 1, off & -off)
    return r


def typemap(mod, ty):
    c = mod.typemaps
    key = repr(ty)
    if key not in c:
        c[key] = {o + k: (o, n, x) for o, n, x in mod.leaves(ty) for k in range(n)}
    return c[key]


def _abi_type(mod, ty, at):
    ty = mod.resolve(ty)
    for k in ('byval', 'sret'):
        if k in at:
            return (k, mod.sizeof(at[k]))
    if ty[0] in ('st', 'arr'):
        return ('agg', mod.sizeof(ty))
    if ty[0] == 'i' and ty[1] < 32:
        return ('i', ty[1], 'signext' in at, 'zeroext' in at)
    return ty


# objects of other libraries whose content no result may depend on (streams), or that never changes after start-up
KNOWN_DATA = re.compile(r'std(err|out|in)|_ZSt\d(cerr|cout|clog|cin)|__dso_handle|__cpu_model|__cpu_features2|__libc_single_threaded|_ZTV.*|_ZTI.*|_ZTS.*')
BIN = {'add', 'sub', 'mul', 'shl', 'sdiv', 'udiv', 'srem', 'urem', 'ashr', 'lshr', 'and', 'or', 'xor'}


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return a


def as_f32(x):
    """The f32 value an f64 value is exactly equal to, when that is evident."""
    if x.ext is not None:
        return x.ext
    if z3.is_fp_value(x.fp) and not x.fp.isNaN():
        y = z3.simplify(z3.fpFPToFP(z3.RNE(), x.fp, fpx.F32))
        back = z3.simplify(z3.fpFPToFP(z3.RNE(), y, fpx.F64))
        if back.eq(x.fp):
            return FV(32, fp=y)
    return None


_MC = {}


def mentions(e, names):
    """Does the term mention one of the variables?"""
    seen = set()
    stack = [e]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in names:
                return True
            continue
        stack.extend(x.children())
    return False
