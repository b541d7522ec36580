"""Contracts assumed for functions outside the repository (C/C++ runtime and LLVM intrinsics).

Every entry used by a run is listed in the evidence file as a trusted external contract.
A callee that is neither defined in the repository nor listed here raises Unsupported.
"""
import re
import z3
import fpx
import symex as S
from symex import FV, Ptr, Unsupported, bv, norm, MASK, zb


def i1(x):
    return bool(x) if isinstance(x, int) else x


def vec1(f):
    """lift a scalar model to vectors"""
    def g(ex, fr, ins, st, name, args, d):
        if args and isinstance(args[0], list):
            n = len(args[0])
            return ([f(ex, fr, ins, st, name, [a[i] if isinstance(a, list) else a for a in args], d)[0] for i in range(n)],)
        return f(ex, fr, ins, st, name, args, d)
    return g


# ---------------------------------------------------------------- control
SIGABRT = re.compile(r'abort|_ZSt9terminatev|__assert_fail|__clang_call_terminate|__cxa_call_unexpected|raise\(6\)')
THROW = re.compile(r'__cxa_throw|__cxa_rethrow|_ZSt\d+__throw_\w+|__cxa_throw_bad_array_new_length')


def landing(c):
    """where an exception thrown here goes: 'escapes' the function, ends in std::'terminate', or is 'caught'"""
    for fn, ins in reversed(c.pads):
        m = re.search(r'unwind label %("[^"]*"|[\w.$-]+)', ins.text)
        b = fn.blocks.get('%' + m.group(1)) if m else None
        if b is None:
            raise Unsupported('exception with an unknown handler')
        t = [x.text for x in b.instrs]
        if any('__clang_call_terminate' in x for x in t):
            return 'terminate'
        if re.search(r'\b(catch|filter)\b', t[0]):
            return 'caught'
    return 'escapes'


def b_abort(ex, fr, ins, st, name, args, d):
    if name == 'raise':
        name = 'raise(%s)' % (args[0] if isinstance(args[0], int) else '?')
    if THROW.fullmatch(name):
        w = landing(ex.c)
        if w == 'caught':
            raise Unsupported('an exception is thrown and caught')
        if w == 'terminate':
            name = '__clang_call_terminate'
    line = fr.mod.dbgline.get(ins.dbg, 0) if ins is not None and ins.dbg is not None else 0
    ex.c.aborts.append((st.pc, fr.fn.name, line, name))
    return None


def b_ub(ex, fr, ins, st, name, args, d):
    ex.obl('unreachable', fr, ins, st, False, 'library precondition violated (%s)' % name)
    return None


def b_io(ex, fr, ins, st, name, args, d):
    ex.c.io.append((st.pc, name, fr.fn.name, fr.mod.dbgline.get(ins.dbg, 0) if ins.dbg is not None else 0))
    r = d['ret']
    if r[0] == 'i':
        return (ex.c.fresh('io', r[1]),)
    if r[0] == 'ptr':
        return (args[0] if args and isinstance(args[0], Ptr) else S.Undef(),)
    return ()


def b_snprintf(ex, fr, ins, st, name, args, d):
    """up to n bytes of unspecified text, terminated"""
    n = min(const_n(args[1]), 4096)
    t = [ex.c.fresh('text', 8) for _ in range(n)]
    if n:
        ex.c.defs.append(z3.Or([x == 0 for x in t]))
    for i in range(n):
        ex.store(fr, ins, st, ('i', 8), t[i], ex.padd(args[0], i))
    return (ex.c.fresh('io', 32),)


def b_nop(ex, fr, ins, st, name, args, d):
    r = d['ret']
    if r[0] == 'i':
        return (0,)
    if r[0] == 'ptr':
        return (args[0] if args else S.Undef(),)
    return ()


# ----------------------------------------------------------------- memory
def one(p):
    if not isinstance(p, Ptr) or len(p.alts) != 1 or not isinstance(p.alts[0][2], int):
        return None
    return p.alts[0]


def const_n(n):
    if not isinstance(n, int):
        n2 = z3.simplify(n)
        if not z3.is_bv_value(n2):
            raise Unsupported('block operation of symbolic length')
        n = n2.as_long()
    return n


def open_n(n):
    """a length that is not a constant, or None"""
    if isinstance(n, int):
        return None
    n = z3.simplify(n)
    return None if z3.is_bv_value(n) else n


def within(ex, fr, ins, st, n, *ps):
    """the bytes 0, 1, ... of a block operation of symbolic length n: [(condition that the operation reaches the byte)]"""
    top = 0
    for p in ps:
        for g, o, off in ex.resolve_ptr(p):
            top = max(top, (o.size if o is not None and o.kind != 'opaque' else 0) - (off if isinstance(off, int) else 0))
    if top > 256:
        raise Unsupported('block operation of symbolic length on a large object')
    w = n.size()
    ex.obl('mem-write', fr, ins, st, z3.ULE(n, z3.BitVecVal(top, w)), 'block operation longer than every object')
    return [z3.UGT(n, z3.BitVecVal(k, w)) for k in range(top)]


def guarded(ex, p, k, g):
    return Ptr([(S.b_and(c, g), o, off) for c, o, off in ex.padd(p, k).alts])


def b_memcpy(ex, fr, ins, st, name, args, d):
    dst, src, n = args[0], args[1], open_n(args[2])
    if n is not None:
        gs = within(ex, fr, ins, st, n, dst, src)
        if 'memmove' not in name and any(o is q for _, o, _ in ex.resolve_ptr(dst) for _, q, _ in ex.resolve_ptr(src)):
            raise Unsupported('memcpy of symbolic length inside one object')
        vals = [ex.load(fr, ins, st, ('i', 8), guarded(ex, src, k, g)) for k, g in enumerate(gs)]
        for k, g in enumerate(gs):
            ex.store(fr, ins, st, ('i', 8), vals[k], guarded(ex, dst, k, g))
        return (dst,)
    n = const_n(args[2])
    if n == 0:
        return (dst,)
    if n > 1 << 20:
        raise Unsupported('huge block operation')
    a, b = one(dst), one(src)
    if a is None or b is None:
        vals = [ex.load(fr, ins, st, ('i', 8), ex.padd(src, k)) for k in range(n)]
        for k in range(n):
            ex.store(fr, ins, st, ('i', 8), vals[k], ex.padd(dst, k))
        return (dst,)
    (_, so, soff), (_, do, doff) = b, a
    if (so is not None and so.kind == 'heap') or (do is not None and do.kind == 'heap'):
        vals = [ex.load(fr, ins, st, ('i', 8), ex.padd(src, k)) for k in range(n)]
        for k in range(n):
            ex.store(fr, ins, st, ('i', 8), vals[k], ex.padd(dst, k))
        return (dst,)
    okr = so is not None and so.id not in ex.c.dead and so.kind != 'opaque' and 0 <= soff and soff + n <= so.size
    ex.obl('mem-read', fr, ins, st, okr, '%s reads %d byte(s) at offset %d of %s (%d bytes)'
           % (name, n, soff, so.name if so else 'null', so.size if so else 0))
    okw = do is not None and do.id not in ex.c.dead and do.kind != 'opaque' and not do.const and 0 <= doff and doff + n <= do.size
    ex.obl('mem-write', fr, ins, st, okw, '%s writes %d byte(s) at offset %d of %s (%d bytes)'
           % (name, n, doff, do.name if do else 'null', do.size if do else 0))
    if okr and okw and so is do and 'memcpy' in name and soff != doff and abs(soff - doff) < n:
        ex.obl('mem-write', fr, ins, st, False, 'memcpy between overlapping regions')
    if not okw:
        return (dst,)
    if okr:
        new = list(st.mem[so.id][soff:soff + n])
    else:
        new = [(ex.c.undef(8, 'out-of-bounds read'), 0, 1) for _ in range(n)]
    if do.kind == 'global':
        ex.note_gwrite(fr, ins, st, do, new)
    cells = list(st.mem[do.id])
    cells[doff:doff + n] = new
    st.mem[do.id] = cells
    return (dst,)


def b_memset(ex, fr, ins, st, name, args, d):
    dst, v, n = args[0], args[1], open_n(args[2])
    w = d['args'][1][0][1]
    v = S.trunc(v, 8) if w > 8 else v
    if n is not None:
        for k, g in enumerate(within(ex, fr, ins, st, n, dst)):
            ex.store(fr, ins, st, ('i', 8), v, guarded(ex, dst, k, g))
        return (dst,)
    n = const_n(args[2])
    if n > 1 << 20:
        raise Unsupported('huge block operation')
    for k in range(n):
        ex.store(fr, ins, st, ('i', 8), v, ex.padd(dst, k))
    return (dst,)


def b_memcmp(ex, fr, ins, st, name, args, d):
    n = const_n(args[2])
    r = 0
    for k in reversed(range(n)):
        x = ex.load(fr, ins, st, ('i', 8), ex.padd(args[0], k))
        y = ex.load(fr, ins, st, ('i', 8), ex.padd(args[1], k))
        if isinstance(x, int) and isinstance(y, int):
            if x != y:
                r = MASK(32) if x < y else 1
            continue
        x, y = bv(x, 8), bv(y, 8)
        r = z3.If(x == y, bv(r, 32), z3.If(z3.ULT(x, y), bv(MASK(32), 32), bv(1, 32)))
    return (r,)


def b_strlen(ex, fr, ins, st, name, args, d):
    alive, arms = True, []
    for k in range(1 << 16):
        x = ex.load(fr, ins, st, ('i', 8), guarded(ex, args[0], k, alive) if arms else ex.padd(args[0], k))
        if isinstance(x, int):
            if x == 0:
                r = k
                for g, n in reversed(arms):
                    r = z3.If(g, bv(n, 64), bv(r, 64))
                return (r,)
            continue
        if len(arms) == 256:
            raise Unsupported('strlen of symbolic bytes')
        z = x == 0
        arms.append((z, k))
        alive = S.b_and(alive, z3.Not(z))
        if z3.is_false(z3.simplify(alive)):
            break
        if all(o is not None and isinstance(off, int) and off + k + 1 >= o.size for _, o, off in ex.resolve_ptr(args[0])):
            ex.obl('mem-read', fr, ins, st, z3.Or([g for g, _ in arms]), 'strlen runs past the end of the object')
            r = bv(k, 64)
            for g, n in reversed(arms):
                r = z3.If(g, bv(n, 64), r)
            return (r,)
    raise Unsupported('strlen')


def b_new(ex, fr, ins, st, name, args, d):
    n = const_n(args[0])
    if name == 'calloc':
        n *= const_n(args[1])
    o = ex.c.newobj(n, 'heap block', 'heap')
    st.mem[o.id] = [None if name != 'calloc' else (0, 0, 1)] * n
    if name != '__cxa_allocate_exception':
        fl = ex.c.newobj(1, 'heap block released', 'alloca')
        st.mem[fl.id] = [(0, 0, 1)]
        line = fr.mod.dbgline.get(ins.dbg, 0) if ins is not None and ins.dbg is not None else 0
        ex.c.heap[o.id] = (o, fl, st.pc, family(name), '%s:%d' % (fr.fn.name, line), bool(ex.c.in_guard or ex.c.in_init))
    return (Ptr([(True, o, 0)]),)


def family(name):
    return 'malloc' if name in ('malloc', 'calloc', 'free') else 'new[]' if '_Zna' in name or '_Zda' in name else 'new'


def b_free(ex, fr, ins, st, name, args, d):
    """the block is a live one, from the matching allocation function"""
    for g, o, off in ex.resolve_ptr(args[0]):
        if o is None:
            continue
        ng = S.b_not(g) if not S.is_t(g) else False
        if o.kind != 'heap' or off != 0 or (o.id in ex.c.heap and ex.c.heap[o.id][3] != family(name)):
            ex.obl('mem-write', fr, ins, st, ng, '%s of memory that does not come from the matching allocation function (%s)' % (name, o.name))
            continue
        if o.id not in ex.c.heap:
            continue
        fl = ex.c.heap[o.id][1]
        v = ex.cells_value(st.mem[fl.id], 0, 1)
        ok = v == 0
        ex.obl('mem-write', fr, ins, st, True if S.is_t(ok) else S.b_or(ng, zb(ok)), 'block released twice')
        st.mem[fl.id] = [(1 if S.is_t(g) else z3.If(g, z3.BitVecVal(1, 8), bv(v, 8)), 0, 1)]
    return ()


def b_atexit(ex, fr, ins, st, name, args, d):
    """registered by the initialisation of a static object; elsewhere an effect"""
    if not (ex.c.in_guard or ex.c.in_init):
        ex.c.impure.append((st.pc, name, fr.fn.name, fr.mod.dbgline.get(ins.dbg, 0) if ins.dbg is not None else 0))
    return (0,)


def b_asm(ex, fr, ins, st, name, args, d):
    """an empty template: a barrier; outputs hold the inputs tied to them"""
    if d['asm'][0]:
        raise Unsupported('inline asm')
    cons = [x for x in d['asm'][1].split(',') if x and not x.startswith('~')]
    outs = [x for x in cons if x.startswith('=')]
    ins_ = cons[len(outs):]
    if any('*' in x for x in cons) or len(ins_) != len(args):
        # memory operands of an empty template: nothing is read or written
        if len(ins_) + len([x for x in outs if '*' in x]) != len(args) or [x for x in outs if '*' not in x]:
            raise Unsupported('inline asm')
        return ()
    vals = []
    for k, x in enumerate(outs):
        t = [a for y, a in zip(ins_, args) if y == str(k)]
        if not t:
            raise Unsupported('inline asm')
        vals.append(t[0])
    if not vals:
        return ()
    return (vals[0] if len(vals) == 1 else vals,)


def b_va_start(ex, fr, ins, st, name, args, d):
    """System V x86-64: va_list = {gp_offset, fp_offset, overflow_arg_area, reg_save_area}"""
    p = args[0]
    gp = fp = over = 0
    slots = []
    for ty, nm, at in fr.fn.params:
        if ty[0] in ('f32', 'f64', 'vec'):
            fp += 1
        else:
            gp += 1
    if gp > 6 or fp > 8 or any(ty[0] in ('st', 'named', 'arr') for ty, nm, at in fr.fn.params):
        raise Unsupported('va_start')
    g0, f0 = gp, fp
    for ty, v in fr.va:
        n = fr.mod.sizeof(ty) if ty[0] in ('i', 'ptr', 'f64') else 99
        if n > 8:
            raise Unsupported('va_start')
        if ty[0] == 'f64' and fp < 8:
            slots.append((0, 48 + 16 * fp, ty, v))
            fp += 1
        elif ty[0] != 'f64' and gp < 6:
            slots.append((0, 8 * gp, ty, v))
            gp += 1
        else:
            slots.append((1, 8 * over, ty, v))
            over += 1
    areas = []
    for k, (size, what) in enumerate(((176, 'saved argument registers'), (8 * over + 8, 'stack arguments'))):
        o = ex.c.newobj(size, what, 'alloca')
        o.align = 16
        st.mem[o.id] = [None] * size
        fr.allocas.append(o)
        q = Ptr([(True, o, 0)])
        areas.append(q)
        for kk, off, ty, v in slots:
            if kk == k:
                ex.store(fr, None, st, ty, v, ex.padd(q, off))
    ex.store(fr, ins, st, ('i', 32), 8 * g0, p)
    ex.store(fr, ins, st, ('i', 32), 48 + 16 * f0, ex.padd(p, 4))
    ex.store(fr, ins, st, ('ptr',), areas[1], ex.padd(p, 8))
    ex.store(fr, ins, st, ('ptr',), areas[0], ex.padd(p, 16))
    return ()


def b_va_copy(ex, fr, ins, st, name, args, d):
    for off, ty in ((0, ('i', 32)), (4, ('i', 32)), (8, ('ptr',)), (16, ('ptr',))):
        ex.store(fr, ins, st, ty, ex.load(fr, ins, st, ty, ex.padd(args[1], off)), ex.padd(args[0], off))
    return ()


def b_guard_acquire(ex, fr, ins, st, name, args, d):
    ex.c.in_guard += 1
    return (1,)


def b_guard_release(ex, fr, ins, st, name, args, d):
    ex.c.in_guard -= 1
    if not ex.c.in_guard:
        ex.forget(st)
    return ()


# ---------------------------------------------------------------- integer
def _s(x, n):
    return S.to_s(x, n)


def width(d, k=0):
    t = d['args'][k][0]
    return t[2][1] if t[0] == 'vec' else t[1]


def b_minmax(ex, fr, ins, st, name, args, d):
    n = width(d)
    x, y = args[0], args[1]
    k = re.search(r'(smax|smin|umax|umin)', name).group(1)
    c = {'smax': 'sgt', 'smin': 'slt', 'umax': 'ugt', 'umin': 'ult'}[k]
    t = ex.icmp(c, x, y, ('i', n))
    return (ex.sel(t, x, y, ('i', n), fr.mod),)


def b_abs(ex, fr, ins, st, name, args, d):
    n = width(d)
    x = args[0]
    poison = True
    if name.startswith('llvm.abs') and len(args) > 1 and args[1] == 0:
        poison = False
    if isinstance(x, int):
        if poison:
            ex.obl('overflow', fr, ins, st, x != 1 << (n - 1), 'abs of the minimum value')
        return (abs(_s(x, n)) & MASK(n),)
    lo, hi = S.srange(x, n)
    if poison:
        if lo > -(1 << (n - 1)):
            ex.obl('overflow', fr, ins, st, True, None, 'interval analysis')
        else:
            ex.obl('overflow', fr, ins, st, x != z3.BitVecVal(1 << (n - 1), n), 'abs of the minimum value')
    return (z3.If(x < 0, -x, x),)


def b_withov(ex, fr, ins, st, name, args, d):
    m = re.match(r'llvm\.([su])(add|sub|mul)\.with\.overflow', name)
    sg, op = m.group(1) == 's', m.group(2)
    n = width(d)
    x, y = args
    w = 2 * n + 2
    e = S.sext if sg else S.zext
    f = {'add': S.add, 'sub': S.sub, 'mul': S.mul}[op]
    wide = f(e(x, n, w), e(y, n, w), w)
    r = S.trunc(wide, n)
    ov = ex.icmp('ne', wide, e(r, n, w), ('i', w))
    return ([r, ov],)


def b_sat(ex, fr, ins, st, name, args, d):
    m = re.match(r'llvm\.([su])(add|sub|shl)\.sat', name)
    if m.group(2) == 'shl':
        raise Unsupported(name)
    sg, op = m.group(1) == 's', m.group(2)
    n = width(d)
    w = n + 2
    e = S.sext if sg else S.zext
    wide = (S.add if op == 'add' else S.sub)(e(args[0], n, w), e(args[1], n, w), w)
    lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if sg else (0, MASK(n))
    wide = bv(wide, w)
    r = z3.If(wide < lo, z3.BitVecVal(lo, n), z3.If(wide > hi, z3.BitVecVal(hi, n), z3.Extract(n - 1, 0, wide)))
    return (norm(z3.simplify(r)) if isinstance(args[0], int) and isinstance(args[1], int) else r,)


def b_bswap(ex, fr, ins, st, name, args, d):
    n = width(d)
    x = args[0]
    if isinstance(x, int):
        return (int.from_bytes(x.to_bytes(n // 8, 'little'), 'big'),)
    return (z3.Concat(*[z3.Extract(8 * k + 7, 8 * k, x) for k in range(n // 8)]),)


def b_bitrev(ex, fr, ins, st, name, args, d):
    n = width(d)
    x = args[0]
    if isinstance(x, int):
        return (int(format(x, '0%db' % n)[::-1], 2),)
    return (z3.Concat(*[z3.Extract(k, k, x) for k in range(n)]),)


def b_ctpop(ex, fr, ins, st, name, args, d):
    n = width(d)
    x = args[0]
    if isinstance(x, int):
        return (bin(x).count('1'),)
    r = z3.BitVecVal(0, n)
    for k in range(n):
        r = r + z3.ZeroExt(n - 1, z3.Extract(k, k, x))
    return (r,)


def ffs_pattern(fn, ins):
    """__builtin_ffs: the count of zeros of 0 is computed and not selected"""
    for b in fn.blocks.values():
        for i, x in enumerate(b.instrs):
            if x is ins:
                t = [re.sub(r',? ![\w]+.*', '', y.text) for y in b.instrs[i:i + 4]]
                m = re.search(r'cttz\.i(\d+)\(i\d+ (?:noundef )?(\S+), i1 true', t[0])
                if not m or len(t) < 4:
                    return False
                w, v = m.groups()
                a, c, r = (re.escape(y.res or "?") for y in b.instrs[i:i + 3])
                return bool(re.search(r'add i%s %s, 1$' % (w, a), t[1].strip()) and re.search(r'icmp eq i%s %s, 0$' % (w, re.escape(v)), t[2].strip()) and
                            re.search(r'select i1 %s, i%s 0, i%s %s$' % (r, w, w, c), t[3].strip()))
    return False


def b_clz(ex, fr, ins, st, name, args, d):
    n = width(d)
    x = args[0]
    lead = 'ctlz' in name
    zp = len(args) > 1 and args[1] == 1 and not ffs_pattern(fr.fn, ins)
    if isinstance(x, int):
        if zp:
            ex.obl('shift', fr, ins, st, x != 0, 'count of zeros of 0')
        if lead:
            return (n - x.bit_length(),)
        return (n if x == 0 else (x & -x).bit_length() - 1,)
    if zp:
        ex.obl('shift', fr, ins, st, x != z3.BitVecVal(0, n), 'count of zeros of 0')
    r = z3.BitVecVal(n, n)
    rng = range(n) if lead else reversed(range(n))
    for k in rng:
        r = z3.If(z3.Extract(k, k, x) == 1, z3.BitVecVal(n - 1 - k if lead else k, n), r)
    return (r,)


def b_fsh(ex, fr, ins, st, name, args, d):
    n = width(d)
    a, b, k = args
    if not isinstance(k, int):
        k2 = z3.URem(bv(k, n), z3.BitVecVal(n, n))
        w = z3.Concat(bv(a, n), bv(b, n))
        kk = z3.ZeroExt(n, k2)
        if 'fshl' in name:
            return (z3.Extract(2 * n - 1, n, w << kk),)
        return (z3.Extract(n - 1, 0, z3.LShR(w, kk)),)
    k %= n
    w = z3.simplify(z3.Concat(bv(a, n), bv(b, n)))
    sh = n - k if 'fshl' in name else k
    if 'fshl' in name and k == 0:
        return (a,)
    if sh == 0:
        return (b,)
    return (norm(z3.simplify(z3.Extract(n - 1 + sh, sh, w))),)


def b_expect(ex, fr, ins, st, name, args, d):
    return (args[0],)


# ------------------------------------------------------------------ float
def b_fabs(ex, fr, ins, st, name, args, d):
    x = args[0]
    r = FV(x.w, fp=z3.simplify(z3.fpAbs(x.fp)) if z3.is_fp_value(x.fp) else z3.fpAbs(x.fp))
    if x._bits is not None:
        r._bits = S.and_(x._bits, MASK(x.w - 1), x.w)
    if x.ext is not None:
        r.ext = b_fabs(ex, fr, ins, st, name, [x.ext], d)[0]
    if x.dy:
        t, lo, hi, e = x.dy
        r.exactly((z3.If(t < 0, -t, t), 0 if lo < 0 < hi else min(abs(lo), abs(hi)), max(abs(lo), abs(hi)), e))
    return (r,)


def b_copysign(ex, fr, ins, st, name, args, d):
    x, y = args
    xb, yb = x.bits(ex.c), y.bits(ex.c)
    s = 1 << (x.w - 1)
    return (FV(x.w, bits=S.or_(S.and_(xb, s - 1, x.w), S.and_(yb, s, x.w), x.w)),)


def b_modf(ex, fr, ins, st, name, args, d):
    x = args[0]
    ip = fpx.round_int(x.fp, 'rtz')
    ex.store(fr, ins, st, ('f%d' % x.w,), FV(x.w, fp=ip), args[1])
    zero = fpx.const(0.0, x.w)
    frac = z3.If(z3.fpIsInf(x.fp), zero, fpx.sub(x.fp, ip))
    frac = z3.If(z3.fpIsNaN(x.fp), x.fp, z3.If(z3.fpIsNegative(x.fp), fpx.neg(z3.fpAbs(frac)), z3.fpAbs(frac)))
    return (FV(x.w, fp=frac),)


def b_round(ex, fr, ins, st, name, args, d):
    n = name.replace('llvm.', '').split('.')[0]
    mode = {'floor': 'rtn', 'ceil': 'rtp', 'trunc': 'rtz', 'rint': 'rne', 'nearbyint': 'rne', 'roundeven': 'rne',
            'round': 'rna'}[n.rstrip('f') if n not in ('floor',) else n] if n not in ('floorf', 'ceilf') else \
        ('rtn' if n == 'floorf' else 'rtp')
    x = args[0]
    r = FV(x.w, fp=fpx.round_int(x.fp, mode))
    if x.ext is not None:
        r.ext = FV(32, fp=fpx.round_int(x.ext.fp, mode)).exactly(S.dy_round(x.ext.dy, mode))
    return (r.exactly(S.dy_round(x.dy, mode)),)


def b_lround(ex, fr, ins, st, name, args, d):
    n = name.replace('llvm.', '').split('.')[0]
    mode = 'rna' if 'round' in n else 'rne'
    x = args[0]
    w = d['ret'][1]
    k = S.dy_round(x.dy, mode)
    if k and -(1 << w - 1) <= k[1] and k[2] < 1 << w - 1:
        ex.obl('fptoint', fr, ins, st, True, None)
        return (S.norm(z3.simplify(z3.Extract(w - 1, 0, k[0]) if w < 64 else k[0])),)
    if x.ext is not None:
        x = x.ext
    r = fpx.round_int(x.fp, mode)
    ok = fpx.in_range(r, w, True, x.w)
    ex.obl('fptoint', fr, ins, st, ok, 'float to integer conversion out of range')
    return (z3.If(ok, fpx.to_int(r, w, True), ex.c.undef(w, 'out-of-range float conversion')),)


def b_fma(ex, fr, ins, st, name, args, d):
    a, b, c = args
    if a.w == 64 and 'fmuladd' not in name:
        pass
    if 'fmuladd' in name:
        raise Unsupported('contractable multiply-add')
    return (FV(a.w, fp=fpx.fma(a.fp, b.fp, c.fp)),)


def b_sqrt(ex, fr, ins, st, name, args, d):
    return (FV(args[0].w, fp=fpx.sqrt(args[0].fp)),)


def b_fminmax(ex, fr, ins, st, name, args, d):
    """maxnum/minnum/fmax/fmin: a NaN operand yields the other; either zero may be returned for +0,-0."""
    x, y = args
    a, b = x.fp, y.fp
    mx = 'max' in name
    pick = z3.fpGT(a, b) if mx else z3.fpLT(a, b)
    ex.c.n += 1
    arb = z3.Bool('either_zero!%d' % ex.c.n)
    r = z3.If(z3.fpIsNaN(a), b, z3.If(z3.fpIsNaN(b), a, z3.If(pick, a, z3.If(z3.fpEQ(a, b), z3.If(arb, a, b), b))))
    return (_dy_pick(FV(x.w, fp=r), x, y, mx),)


def _dy_pick(r, x, y, mx):
    ab = S.dy_align(x.dy, y.dy) if x.dy and y.dy else None
    if ab:
        (p, pl, ph, e), (q, ql, qh, _) = ab
        f = max if mx else min
        r.exactly((z3.If(p >= q if mx else p <= q, p, q), f(pl, ql), f(ph, qh), e))
    return r


def b_maximum(ex, fr, ins, st, name, args, d):
    x, y = args
    a, b = x.fp, y.fp
    mx = 'maximum' in name
    neg = z3.fpIsNegative
    tie = z3.If(neg(a), b, a) if mx else z3.If(neg(a), a, b)
    r = z3.If(z3.fpIsNaN(a), a, z3.If(z3.fpIsNaN(b), b, z3.If(z3.fpEQ(a, b), tie,
              z3.If(z3.fpGT(a, b) if mx else z3.fpLT(a, b), a, b))))
    return (_dy_pick(FV(x.w, fp=r), x, y, mx),)


def b_fpclass(ex, fr, ins, st, name, args, d):
    x, m = args[0], args[1]
    f = x.fp
    parts = []
    bits = x._bits
    if m & 3 == 3:
        parts.append(z3.fpIsNaN(f))
    elif m & 3:
        b = bv(x.bits(ex.c), x.w)
        q = z3.Extract(22, 22, b) == 1 if x.w == 32 else z3.Extract(51, 51, b) == 1
        parts.append(z3.And(z3.fpIsNaN(f), q if m & 2 else z3.Not(q)))
    neg, pos = z3.fpIsNegative(f), z3.fpIsPositive(f)
    for bit_n, bit_p, pred in ((2, 9, z3.fpIsInf), (3, 8, z3.fpIsNormal), (4, 7, z3.fpIsSubnormal), (5, 6, z3.fpIsZero)):
        n, p = m >> bit_n & 1, m >> bit_p & 1
        if n and p:
            parts.append(pred(f))
        elif n:
            parts.append(z3.And(pred(f), neg))
        elif p:
            parts.append(z3.And(pred(f), pos))
    r = z3.simplify(z3.Or(*parts)) if parts else z3.BoolVal(False)
    if z3.is_true(r):
        return (1,)
    if z3.is_false(r):
        return (0,)
    return (r,)


def b_fpto_sat(ex, fr, ins, st, name, args, d):
    sg = 'fptosi' in name
    w = d['ret'][1] if d['ret'][0] != 'vec' else d['ret'][2][1]
    x = args[0]
    if x.ext is not None:
        x = x.ext
    f = x.fp
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, MASK(w))
    ok = fpx.in_range(f, w, sg, x.w)
    r = z3.If(z3.fpIsNaN(f), z3.BitVecVal(0, w), z3.If(ok, fpx.to_int(f, w, sg),
              z3.If(z3.fpIsNegative(f), z3.BitVecVal(lo, w), z3.BitVecVal(hi, w))))
    return (r,)


def b_ldexp(ex, fr, ins, st, name, args, d):
    raise Unsupported(name)


def b_stmxcsr(ex, fr, ins, st, name, args, d):
    ex.c.impure.append((st.pc, name, fr.fn.name, fr.mod.dbgline.get(ins.dbg, 0) if ins.dbg is not None else 0))
    ex.store(fr, ins, st, ('i', 32), ex.c.fresh('mxcsr', 32), args[0])
    return ()


TABLE = [
    (r'llvm\.x86\.sse\.stmxcsr', b_stmxcsr),
    (r'abort|_ZSt9terminatev|exit|_exit|_Exit|quick_exit|__assert_fail|__cxa_throw|__cxa_rethrow|_ZSt\d+__throw_\w+|'
     r'llvm\.trap|llvm\.ubsantrap|raise|__cxa_call_unexpected|__clang_call_terminate|__cxa_throw_bad_array_new_length', b_abort),
    (r'_ZSt21__glibcxx_assert_failPKciS0_S0_', b_ub),
    (r'fprintf|printf|vfprintf|vprintf|vdprintf|dprintf|fputs|puts|fputc|putc|putchar|fwrite|perror|fflush|write|psignal|syslog|'
     r'_ZStlsI.*|_ZNSolsE.*|_ZNSo\w*|_ZSt4endl.*|_ZSt16__ostream_insert.*|_ZSt5flush.*|__fprintf_chk|__printf_chk', b_io),
    (r'__cxa_begin_catch|__cxa_end_catch|_ZNSt8ios_base4InitC1Ev|'
     r'_ZNSt8ios_base4InitD1Ev|__cxa_guard_abort|_ZNSaIcE[CD][12]\w*|__cxa_free_exception|llvm\.prefetch.*|llvm\.stackrestore.*|llvm\.stacksave.*|'
     r'llvm\.invariant.*|llvm\.var\.annotation.*|llvm\.sideeffect|_ZNSt\d+(\w*_error|out_of_range|invalid_argument|exception)[CD][012]\w*|_ZNSt9exceptionD[12]Ev', b_nop),
    (r'memcpy|memmove|llvm\.mem(cpy|move)\..*|__memcpy_chk|__memmove_chk|llvm\.memcpy\.inline.*', b_memcpy),
    (r'_ZdlPv\w*|_ZdaPv\w*|free', b_free),
    (r'__cxa_atexit|atexit|at_quick_exit', b_atexit),
    (r'<asm>', b_asm),
    (r'__cpu_indicator_init', lambda ex, fr, ins, st, name, args, d: (0,)),
    (r'memset|llvm\.memset\..*|__memset_chk', b_memset),
    (r'memcmp|bcmp', b_memcmp),
    (r'strlen', b_strlen),
    (r'_Znwm\w*|_Znam\w*|malloc|calloc|__cxa_allocate_exception', b_new),
    (r'v?snprintf', b_snprintf),
    (r'llvm\.va_start(\.p0)?', b_va_start),
    (r'llvm\.va_copy(\.p0)?', b_va_copy),
    (r'llvm\.va_end(\.p0)?', b_nop),
    (r'__cxa_guard_acquire', b_guard_acquire),
    (r'__cxa_guard_release', b_guard_release),
    (r'llvm\.[su](max|min)\..*', vec1(b_minmax)),
    (r'llvm\.abs\..*|abs|labs|llabs', vec1(b_abs)),
    (r'llvm\.[su](add|sub|mul)\.with\.overflow\..*', b_withov),
    (r'llvm\.[su](add|sub|shl)\.sat\..*', vec1(b_sat)),
    (r'llvm\.bswap\..*', vec1(b_bswap)),
    (r'llvm\.bitreverse\..*', vec1(b_bitrev)),
    (r'llvm\.ctpop\..*', vec1(b_ctpop)),
    (r'llvm\.ct[lt]z\..*', vec1(b_clz)),
    (r'llvm\.fsh[lr]\..*', vec1(b_fsh)),
    (r'llvm\.expect\..*|llvm\.threadlocal\.address.*|llvm\.annotation\..*|llvm\.launder.*|llvm\.ptr\.annotation.*', b_expect),
    (r'llvm\.fabs\..*|fabsf?', vec1(b_fabs)),
    (r'llvm\.copysign\..*|copysignf?', vec1(b_copysign)),
    (r'llvm\.(floor|ceil|trunc|rint|nearbyint|round|roundeven)\..*|(floor|ceil|trunc|rint|nearbyint|round|roundeven)f?', vec1(b_round)),
    (r'modff?', b_modf),
    (r'llvm\.l?l?(rint|round)\..*|l?l(rint|round)f?', b_lround),
    (r'llvm\.fma\..*|fmaf?', vec1(b_fma)),
    (r'llvm\.fmuladd\..*', b_fma),
    (r'llvm\.sqrt\..*|sqrtf?', vec1(b_sqrt)),
    (r'llvm\.(maxnum|minnum)\..*|f(max|min)f?', vec1(b_fminmax)),
    (r'llvm\.(maximum|minimum)\..*', vec1(b_maximum)),
    (r'llvm\.is\.fpclass\..*', b_fpclass),
    (r'llvm\.fpto[su]i\.sat\..*', vec1(b_fpto_sat)),
]


def b_not_once(ex, fr, ins, st, name, args, d):
    ex.obl('post', fr, ins, st, False, 'each argument of the call is evaluated once')
    return ()


TABLE.append((r'vc_not_once', b_not_once))
TABLE = [(re.compile(p), f) for p, f in TABLE]

# C library functions whose result depends on, or that change, state outside the arguments
IMPURE = re.compile(r'rand|srand|random|srandom|[dlmnje]rand48(_r)?|arc4random\w*|getrandom|getentropy|time|clock|getenv|secure_getenv|gettimeofday|'
                    r'clock_gettime|clock_getres|times|localtime(_r)?|gmtime(_r)?|mktime|ctime(_r)?|errno|__errno_location|fegetround|'
                    r'fesetround|feclearexcept|feraiseexcept|fetestexcept|fe(get|set|hold|update)env|setlocale|getpid|getppid|gettid|getuid|getauxval|'
                    r'sysconf|isatty|getpagesize|uname|gethostname|getrusage|alarm|syscall|pthread_\w+|fopen|fclose|fread|getc|fgetc|getchar|read|'
                    r'llvm\.(get|set|reset)\.(rounding|fpenv|fpmode).*|llvm\.readcyclecounter|llvm\.x86\.rdtsc.*|llvm\.x86\.sse\.ldmxcsr|'
                    r'llvm\.returnaddress.*|llvm\.frameaddress.*|llvm\.addressofreturnaddress.*|llvm\.read_(volatile_)?register.*|'
                    r'_ZNSt6chrono\w*clock3nowEv|_ZNSt13random_device\w*|_ZNSt11this_thread\w*|'
                    r'sched_\w+|usleep|sleep|nanosleep|clock_nanosleep|signal|sigaction|system|setenv|putenv|unsetenv|unlink|remove|rename|open|close|mmap|munmap|brk|sbrk')

# those that change something a later call depends on
EFFECT = re.compile(r'fesetround|fe(set|hold|update)env|feenableexcept|fedisableexcept|llvm\.(set|reset)\.(rounding|fpenv|fpmode).*|llvm\.x86\.sse\.ldmxcsr|setlocale|signal|sigaction|alarm|setenv|putenv|unsetenv|'
                    r'system|unlink|remove|rename|_ZSt13set_terminatePFvvE|_ZSt15set_new_handlerPFvvE')


def havoc(ex, st, ty, name):
    """an arbitrary value: nothing is assumed about the callee"""
    if ty[0] == 'i':
        return ex.c.fresh('ext_' + name, ty[1])
    if ty[0] == 'f32' or ty[0] == 'f64':
        w = 32 if ty[0] == 'f32' else 64
        return FV(w, bits=ex.c.fresh('ext_' + name, w))
    if ty[0] == 'ptr':
        o = ex.c.newobj(64, 'object returned by ' + name, 'heap')
        st.mem[o.id] = [(ex.c.fresh('ext_' + name, 8), 0, 1) for _ in range(64)]
        return Ptr([(True, o, 0)])
    return None


_cache = {}


def lookup(name):
    if name in _cache:
        return _cache[name]
    r = None
    if name.startswith('llvm.x86.'):
        import x86_ir
        t = TABLE + [(re.compile(p), f) for p, f in x86_ir.TABLE]
    else:
        t = TABLE
    for p, f in t:
        if p.fullmatch(name):
            r = f
            break
    _cache[name] = r
    return r


def preferred(name):
    """Use the assumed contract even when a definition is visible."""
    return name in ('__clang_call_terminate',) or re.match(r'_ZStlsI|_ZNSolsE|_ZSt4endlI|_ZSt5flushI', name) is not None
