"""Normal form of bit-vector goals with products: every sum of products becomes one polynomial over the integers.

A bit-vector term of n bits is congruent mod 2^n to a polynomial whose atoms are signed or unsigned slices of the variables (or opaque
terms).  If the interval of the polynomial fits the unsigned (signed) range of n bits, it equals the unsigned (signed) value, so that
zero (sign) extensions can be dropped.  The polynomial is then written back as a term in one fixed way.  The result is equivalent to the
input; two spellings of one product (schoolbook halves, wider or narrower intermediate types, shifts for factors) become one term, which
the solver then need not prove equal by bit-blasting two multipliers.  Cross-checked by vc/selftest.py."""
import math
import z3
from symex import srange, swidth, sext, zext, trunc, norm, bv, MASK

OP = {}
for _n in ('BADD', 'BSUB', 'BMUL', 'BNEG', 'BNOT', 'SIGN_EXT', 'ZERO_EXT', 'EXTRACT', 'CONCAT', 'BNUM', 'BSHL', 'ITE', 'EQ', 'DISTINCT', 'SLT', 'SLEQ',
           'SGT', 'SGEQ', 'ULT', 'ULEQ', 'UGT', 'UGEQ', 'UNINTERPRETED', 'BLSHR', 'BASHR'):
    OP[_n] = getattr(z3, 'Z3_OP_' + _n)
O = type('O', (), OP)
MAXMONO = 200
STRUCT = {O.CONCAT, O.ZERO_EXT, O.SIGN_EXT, O.EXTRACT}
SHIFT = {O.BSHL, O.BLSHR}


class TooBig(Exception):
    pass


def const_bv(t):
    return t.as_long() if z3.is_bv_value(t) else None


def has_product(fs):
    seen = set()
    st = list(fs)
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x) and x.decl().kind() == O.BMUL and sum(not z3.is_bv_value(a) for a in x.children()) > 1:
            return True
        st.extend(x.children())
    return False


def nonlin(p):
    return any(len(m) > 1 for m in p)


class Ring:
    def __init__(self):
        self.atoms = {}        # (id, kind) -> (term, signed, lo, hi)
        self.keep = []
        self.cp = {}
        self.cc = {}
        self.cuts = {}
        self.flags = {}
        self.pc = {}

    # ---- concatenations of slices
    def pieces(self, t):
        """t as slices (term, high bit, low bit) or constants (None, value, width), from the top; a run of copies of a sign bit is left as copies"""
        i = t.get_id()
        if i not in self.pc:
            self.keep.append(t)
            out = []
            for p in self.pieces_(t):
                if out and p[0] is not None and out[-1][0] is not None and out[-1][0].eq(p[0]) and out[-1][2] == p[1] + 1:
                    out[-1] = (p[0], out[-1][1], p[2])
                elif out and p[0] is None and out[-1][0] is None:
                    out[-1] = (None, out[-1][1] << p[2] | p[1], out[-1][2] + p[2])
                else:
                    out.append(p)
            self.pc[i] = out
        return self.pc[i]

    def pieces_(self, t):
        c = const_bv(t)
        if c is not None:
            return [(None, c, t.size())]
        k = t.decl().kind()
        if k == O.CONCAT:
            return [p for a in t.children() for p in self.pieces(a)]
        if k == O.ZERO_EXT:
            return [(None, 0, t.size() - t.arg(0).size())] + self.pieces(t.arg(0))
        if k == O.SIGN_EXT:
            ps = self.pieces(t.arg(0))
            n = t.size() - t.arg(0).size()
            x, h, l = ps[0]
            if x is None:
                b = h >> (l - 1) & 1
                return [(None, MASK(n) if b else 0, n)] + ps
            return [(x, h, h)] * n + ps
        if k == O.BSHL and const_bv(t.arg(1)) is not None:
            n, s = t.size(), const_bv(t.arg(1))
            return self.cut(self.pieces(t.arg(0)), n - s - 1, 0) + [(None, 0, s)] if 0 < s < n else [(None, 0, n)] if s else self.pieces(t.arg(0))
        if k == O.BLSHR and const_bv(t.arg(1)) is not None:
            n, s = t.size(), const_bv(t.arg(1))
            return [(None, 0, s)] + self.cut(self.pieces(t.arg(0)), n - 1, s) if 0 < s < n else [(None, 0, n)] if s else self.pieces(t.arg(0))
        if k == O.EXTRACT:
            h, l = t.params()
            return self.cut(self.pieces(t.arg(0)), h, l)
        return [(t, t.size() - 1, 0)]

    def cut(self, ps, h, l):
        out = []
        off = sum(self.pw(p) for p in ps)
        for p in ps:
            off -= self.pw(p)
            a, b = max(l, off), min(h, off + self.pw(p) - 1)
            if a > b:
                continue
            if p[0] is None:
                out.append((None, p[1] >> (a - off) & MASK(b - a + 1), b - a + 1))
            else:
                x, hh, ll = p[0], p[2] + b - off, p[2] + a - off
                if x.decl().kind() == O.ITE and (ll or hh < x.size() - 1):
                    y = z3.If(x.arg(0), z3.Extract(hh, ll, x.arg(1)), z3.Extract(hh, ll, x.arg(2)))
                    self.keep.append(y)
                    out.append((y, hh - ll, 0))
                else:
                    out.append((x, hh, ll))
        return out

    @staticmethod
    def pw(p):
        return p[2] if p[0] is None else p[1] - p[2] + 1

    def groups(self, t, signed):
        """[(piece, offset, signed?)]; copies of the sign bit of a piece below them are dropped"""
        ps = self.pieces(t)
        k = 0
        while k + 1 < len(ps) and ps[k][0] is not None and ps[k][1] == ps[k][2] and ps[k + 1][0] is not None \
                and ps[k + 1][0].eq(ps[k][0]) and ps[k + 1][1] == ps[k][1]:
            k += 1
        sg = signed or k > 0
        if not signed and k > 0:
            # an unsigned reading of a sign-extended value: no integer form without the sign bit
            sg = None
        out, off = [], 0
        for q in reversed(ps[k:]):
            out.append((q, off, False))
            off += self.pw(q)
        q, o, _ = out[-1]
        out[-1] = (q, o, sg)
        return out

    # ---- where variables are cut
    def scan(self, fs):
        seen = set()
        st = [(f, None) for f in fs]

        def use(x, lo, hi, how):
            """bits lo..hi of the variable x are used, as a signed ('s') or unsigned ('u') number or modulo 2^n (None)"""
            w = x.size()
            c = self.cuts.setdefault(x.get_id(), set())
            f = self.flags.setdefault(x.get_id(), set())
            if lo:
                c.add(lo)
            if hi < w - 1:
                c.add(hi + 1)
                if how == 's':
                    c.add(hi)
            elif how:
                f.add(how)
            elif lo:
                f.add('u')

        while st:
            x, how = st.pop()
            if (x.get_id(), how) in seen:
                continue
            seen.add((x.get_id(), how))
            self.keep.append(x)
            if z3.is_bv(x):
                if const_bv(x) is not None:
                    continue
                ps = self.groups(x, how == 's')
                if len(ps) > 1 or ps[0][0][0] is None or not ps[0][0][0].eq(x) or z3.is_const(x):
                    for (y, h, l), off, sg in ps:
                        if y is None:
                            continue
                        top = off == ps[-1][1]
                        m = ('s' if sg else 'u' if sg is None or how else None) if top else 'u'
                        if z3.is_const(y):
                            use(y, l, h, m)
                        else:
                            st.append((y, m))
                    continue
            k = x.decl().kind() if z3.is_app(x) else None
            h = 's' if k in (O.SLT, O.SLEQ, O.SGT, O.SGEQ) else 'u' if k in (O.ULT, O.ULEQ, O.UGT, O.UGEQ) else None
            st.extend((a, h) for a in x.children())

    # ---- polynomials
    def atom(self, t, signed):
        k = (t.get_id(), signed)
        if k not in self.atoms:
            n = t.size()
            if signed:
                lo, hi = srange(t, n)
            else:
                lo, hi = srange(t, n)
                if lo < 0:
                    lo, hi = 0, MASK(n)
            self.atoms[k] = (t, signed, lo, hi)
        return {(k,): 1}

    def leaf(self, x):
        w = x.size()
        i = x.get_id()
        fl = self.flags.get(i, set())
        cs = set(self.cuts.get(i, ())) - {0, w}
        if len(fl) == 2 and w > 1:
            cs.add(w - 1)
        cs = [0] + sorted(cs) + [w]
        out = []
        for l, h in zip(cs, cs[1:]):
            t = x if (l, h) == (0, w) else z3.Extract(h - 1, l, x)
            out.append((l, h, self.atom(t, h == w and fl == {'s'})))
        return out

    def slice(self, x, lo, hi, signed):
        """bits lo..hi of a variable as an integer"""
        r = {}
        for l, h, a in self.leaf(x):
            if h <= lo or l > hi:
                continue
            if l < lo or h > hi + 1:
                return None
            top = h == hi + 1
            asg = next(iter(a))[0][1]
            neg = signed and top and h - l == 1 and not asg
            if top and signed != asg and not neg:
                return None
            r = self.addp(r, self.scale(a, (-1 if neg else 1) << (l - lo)))
        return r

    @staticmethod
    def addp(a, b, s=1):
        r = dict(a)
        for m, c in b.items():
            v = r.get(m, 0) + s * c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return r

    @staticmethod
    def scale(a, k):
        return {m: c * k for m, c in a.items()} if k else {}

    def mulp(self, a, b):
        r = {}
        if len(a) * len(b) > 4 * MAXMONO:
            raise TooBig
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = tuple(sorted(m1 + m2))
                v = r.get(m, 0) + c1 * c2
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
        if len(r) > MAXMONO:
            raise TooBig
        return r

    def rng(self, p):
        lo = hi = 0
        for m, c in p.items():
            l = h = c
            for k in m:
                _, _, al, ah = self.atoms[k]
                q = (l * al, l * ah, h * al, h * ah)
                l, h = min(q), max(q)
            if len(m) >= 2 and len(m) % 2 == 0 and all(m[i] == m[i + 1] for i in range(0, len(m), 2)):
                if c > 0:
                    l = max(l, 0)
                else:
                    h = min(h, 0)
            lo += l
            hi += h
        return lo, hi

    def red(self, p, n):
        r = {}
        for m, c in p.items():
            c &= MASK(n)
            if c >> (n - 1):
                c -= 1 << n
            if c:
                r[m] = c
        return r

    def poly(self, t):
        i = t.get_id()
        if i not in self.cp:
            self.keep.append(t)
            self.cp[i] = self.poly_(t)
        return self.cp[i]

    def poly_(self, t):
        n = t.size()
        c = const_bv(t)
        if c is not None:
            return {(): c} if c else {}
        k = t.decl().kind()
        if z3.is_const(t):
            r = {}
            for l, h, a in self.leaf(t):
                r = self.addp(r, self.scale(a, 1 << l))
            return r
        a = t.children()
        if k == O.BADD:
            r = {}
            for x in a:
                r = self.addp(r, self.poly(x))
            return r
        if k == O.BSUB:
            r = self.poly(a[0])
            for x in a[1:]:
                r = self.addp(r, self.poly(x), -1)
            return r
        if k == O.BNEG:
            return self.scale(self.poly(a[0]), -1)
        if k == O.BNOT:
            return self.addp({(): -1}, self.poly(a[0]), -1)
        if k == O.BMUL:
            r = {(): 1}
            for x in a:
                r = self.mulp(r, self.poly(x))
            lo, hi = self.rng(r)
            return r if -(1 << (n - 1)) <= lo and hi <= MASK(n) else self.red(r, n)
        if k in STRUCT or k in SHIFT and const_bv(a[1]) is not None:
            return self.structural(t, None)
        if k == O.ITE:
            b = self.bit(a[0])
            if b is not None:
                x, y = self.poly(a[1]), self.poly(a[2])
                r = self.addp(y, self.mulp(b, self.addp(x, y, -1)))
                return self.red(r, n) if self.wide(r, n) else r
        return self.atom(self.opaque(t), True)

    def bit(self, c):
        """the condition as a polynomial with the value 0 or 1, when it tests one bit of a variable"""
        k = c.decl().kind()
        if k == z3.Z3_OP_NOT:
            b = self.bit(c.arg(0))
            return None if b is None else self.addp({(): 1}, b, -1)
        if k not in (O.EQ, O.DISTINCT) or c.num_args() != 2 or not z3.is_bv(c.arg(0)):
            return None
        x, y = c.children()
        if const_bv(x) is not None:
            x, y = y, x
        v = const_bv(y)
        if v is None or const_bv(x) is not None:
            return None
        q, off, at = None, 0, 0
        for p in reversed(self.pieces(x)):
            w = self.pw(p)
            if p[0] is None:
                if p[1] != v >> off & MASK(w):
                    return None
            elif q is not None or w != 1 or not z3.is_const(p[0]):
                return None
            else:
                q, at = p, off
            off += w
        r = self.slice(q[0], q[2], q[1], False) if q else None
        if r is None:
            return None
        if (k == O.EQ) != (v >> at & 1 == 1):
            r = self.addp({(): 1}, r, -1)
        return r

    def wide(self, p, n):
        lo, hi = self.rng(p)
        return not (-(1 << (n - 1)) <= lo and hi <= MASK(n))

    def structural(self, t, signed):
        """the polynomial of a concatenation of slices: its signed or unsigned value, or any number congruent to it (None)"""
        gs = self.groups(t, signed is True)
        r = {}
        for q, off, sg in gs:
            top = off == gs[-1][1]
            either = top and sg is False and signed is None
            if top and sg is None and signed is None:
                sg = True
            if sg is None:
                return self.atom(self.flat(t), False)
            r = self.addp(r, self.scale(self.piece(q, bool(sg), either), 1 << off))
        return r

    def flat(self, t):
        """a structural term written from its canonical pieces"""
        out = []
        for x, h, l in self.pieces(t):
            if x is None:
                out.append(z3.BitVecVal(h, l))
            elif l == 0 and h == x.size() - 1:
                out.append(self.canon(x))
            else:
                y = norm_bv(z3.simplify(z3.Extract(h, l, self.canon(x))), h - l + 1) if not z3.is_const(x) else z3.Extract(h, l, x)
                out.append(y)
        return out[0] if len(out) == 1 else z3.Concat(*out)

    def piece(self, q, signed, either=False):
        x, h, l = q
        if x is None:
            v = h - (1 << l) if signed and h >> (l - 1) & 1 else h
            return {(): v} if v else {}
        w = x.size()
        if z3.is_const(x):
            r = self.slice(x, l, h, signed)
            if r is None and either:
                r = self.slice(x, l, h, not signed)
            if r is not None:
                return r
            return self.atom(x if (h, l) == (w - 1, 0) else z3.Extract(h, l, x), signed)
        n = h - l + 1
        a, b = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if signed else (0, MASK(n))
        p = self.poly(x)
        if l and p and all(c % (1 << l) == 0 for c in p.values()):
            p = {m: c >> l for m, c in p.items()}
            l = 0
        if l == 0:
            for p in (p, self.red(p, n)):
                lo, hi = self.rng(p)
                if a <= lo and hi <= b:
                    return p
            return self.atom(norm_bv(self.build(p, n), n), signed)
        return self.atom(norm_bv(z3.Extract(h, l, self.canon(x)), n), signed)

    def val(self, t, signed):
        """the signed/unsigned value of t"""
        n = t.size()
        c = const_bv(t)
        if c is not None:
            c = c - (1 << n) if signed and c >> (n - 1) else c
            return {(): c} if c else {}
        if t.decl().kind() in STRUCT or z3.is_const(t) or t.decl().kind() in SHIFT and const_bv(t.arg(1)) is not None:
            return self.structural(t, signed)
        return self.piece((t, n - 1, 0), signed)

    # ---- back to terms
    def at(self, k, m):
        t, signed, lo, hi = self.atoms[k]
        n = t.size()
        if n >= m:
            return trunc(norm(t), m)
        return (sext if signed else zext)(norm(t), n, m)

    def build(self, p, n):
        lo, hi = self.rng(p)
        m = swidth(lo, hi)
        if m > n:
            p = self.red(p, n)
            lo, hi = self.rng(p)
            m = swidth(lo, hi)
        w = min(m, n)
        if not p:
            return z3.BitVecVal(0, n)
        r = None
        for mono in sorted(p):
            c = p[mono] & MASK(w)
            if not c:
                continue
            e = None
            for k in mono:
                x = bv(self.at(k, w), w)
                e = x if e is None else e * x
            if e is None:
                e = z3.BitVecVal(c, w)
            elif c != 1:
                e = -e if c == MASK(w) else e * z3.BitVecVal(c, w)
            r = e if r is None else r + e
        if r is None:
            r = z3.BitVecVal(0, w)
        return z3.SignExt(n - w, r) if w < n else r

    def opaque(self, t):
        a = [self.canon(x) for x in t.children()]
        return rebuild(t, a)

    def canon(self, t):
        i = t.get_id()
        if i in self.cc:
            return self.cc[i]
        self.keep.append(t)
        r = self.canon_(t)
        self.keep.append(r)
        self.cc[i] = r
        return r

    def canon_(self, t):
        if z3.is_const(t) or not z3.is_app(t):
            return t
        k = t.decl().kind()
        if z3.is_bv(t):
            if k in (O.BADD, O.BSUB, O.BMUL, O.BNEG, O.BNOT) or k in STRUCT or k in SHIFT and const_bv(t.arg(1)) is not None:
                p = self.poly(t)
                if nonlin(p):
                    return self.build(p, t.size())
                if k in STRUCT:
                    return self.flat(t)
            return self.opaque(t)
        a = t.children()
        if k in (O.EQ, O.DISTINCT) and len(a) == 2 and z3.is_bv(a[0]):
            n = a[0].size()
            p, q = self.poly(a[0]), self.poly(a[1])
            d = self.red(self.addp(p, q, -1), n)
            if not d:
                return z3.BoolVal(k == O.EQ)
            if set(d) == {()}:
                return z3.BoolVal(k != O.EQ)
            if not nonlin(d):
                x, y = self.canon(a[0]), self.canon(a[1])
            else:
                x, y = self.build(p, n), self.build(q, n)
            return x == y if k == O.EQ else x != y
        if k in (O.SLT, O.SLEQ, O.SGT, O.SGEQ, O.ULT, O.ULEQ, O.UGT, O.UGEQ):
            s = k in (O.SLT, O.SLEQ, O.SGT, O.SGEQ)
            p, q = self.val(a[0], s), self.val(a[1], s)
            if k in (O.SGT, O.SGEQ, O.UGT, O.UGEQ):
                p, q = q, p
            strict = k in (O.SLT, O.SGT, O.ULT, O.UGT)
            d = self.addp(p, q, -1)
            if d and not nonlin(d):
                return rebuild(t, [self.canon(x) for x in a])
            return self.le0(d, -1 if strict else 0)
        return rebuild(t, [self.canon(x) for x in a])

    def le0(self, d, k):
        """d <= k"""
        c = d.get((), 0)
        d = {m: v for m, v in d.items() if m}
        k -= c
        if not d:
            return z3.BoolVal(0 <= k)
        g = 0
        for v in d.values():
            g = math.gcd(g, v)
        d = {m: v // g for m, v in d.items()}
        k //= g
        neg = d[min(d)] < 0
        if neg:
            d = self.scale(d, -1)
            k = -k - 1                # -Q <= k  <=>  not (Q <= -k-1)
        lo, hi = self.rng(d)
        if k >= hi:
            r = z3.BoolVal(True)
        elif k < lo:
            r = z3.BoolVal(False)
        else:
            m = swidth(lo, hi)
            r = self.build(d, m) <= z3.BitVecVal(k, m)
        return z3.Not(r) if neg else r


def norm_bv(x, n):
    return bv(norm(x), n)


def rebuild(t, a):
    o = t.children()
    if all(x.eq(y) for x, y in zip(a, o)):
        return t
    return t.decl()(*a) if t.decl().kind() not in (z3.Z3_OP_AND, z3.Z3_OP_OR) else (z3.And(*a) if t.decl().kind() == z3.Z3_OP_AND else z3.Or(*a))


def canonical(fs):
    """fs -> an equivalent list of formulas"""
    r = Ring()
    r.scan(fs)
    return [r.canon(f) for f in fs]
