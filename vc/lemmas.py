"""Relational properties over programs built from several library functions.

A lemma is a small C++ program over the public API with a contract of its own; the verifier runs
the real code of every function it calls.  rel=True: the program computes two values that the
property says are equal for every argument.
"""
import re
from contracts import ALL as FN, T, V, sc, each, br, lanes
from spec import P, Contract, vt

ALL = {}
# inverse pairs: laws of C24 that the statement of C03 names too
INVERSE = re.compile(r'_involution$|_inverts_|^combine_of_halves|_of_combine_|_roundtrip$|reassembles$')


def lemma(name, ret, params, body, post=None, prop='C24', uses=()):
    assert name not in ALL, name
    c = Contract(name, ret, params, post, prop)
    c.body = body
    c.rel = post is None
    c.lemma = True
    ALL[name] = c


def eq(name, ty, params, lhs, rhs, pre='', prop='C24'):
    lemma(name, ty, params, '%s out_[0] = %s; out_[1] = %s;' % (pre, lhs, rhs), None, prop)


# ------------------------------------------------- C03 load/store round trips
for r in (1, 2, 3, 4):
    for k, w, n, s, q in each('u8 s8 u16 s16 u32 s32 u64 s64 f32'):
        ld, st = 'vld%d%s_%s' % (r, q, s), 'vst%d%s_%s' % (r, q, s)
        if ld not in FN or st not in FN:
            continue
        e, t = sc(k, w), T(k, w, n, r)
        lemma('rt_%s_%s' % (st, ld), 'void', [P('in', e, 'src', count=n * r), P('out', e, 'dst', count=n * r)],
              '%s(dst, %s(src));' % (st, ld),
              lambda v, m=n * r, w=w: {'dst': br([v['src'].b(i) for i in range(m)], w)}, 'C03')
        lemma('rt_%s_%s' % (ld, st), t, [V(t, 'v')],
              '%s buf_[%d]; %s(buf_, *v); *out_ = %s(buf_);' % (e, n * r, st, ld),
              lambda v, w=w: {'ret': br(v['v'].t, w)}, 'C03')
for s in ('u8', 's8'):
    k = s[0]
    e, d, d2 = sc(k, 8), T(k, 8, 8), T(k, 8, 8, 2)
    eq('ld2_is_uzp_' + s, d2, [P('in', e, 'p', count=16)], 'vld2_%s(p)' % s, 'vuzp_%s(vld1_%s(p), vld1_%s(p + 8))' % (s, s, s), prop='C03')
    lemma('st2_is_zip_' + s, 'void', [V(d2, 'v'), P('out', e, 'p', count=16)],
          '%s z_ = vzip_%s(v->val[0], v->val[1]); vst1_%s(p, z_.val[0]); vst1_%s(p + 8, z_.val[1]);' % (d2, s, s, s),
          lambda v: {'p': br([v['v'].b(j * 8 + i) for i in range(8) for j in range(2)], 8)}, 'C03')
    lemma('ld1_lanes_' + s, d, [P('in', e, 'p', count=8), V(d, 'v')],
          '%s x_ = *v; %s *out_ = x_;' % (d, ' '.join('x_ = vld1_lane_%s(p + %d, x_, %d);' % (s, i, i) for i in range(8))),
          lambda v: {'ret': br(v['p'].t, 8)}, 'C03')
for r in (2, 3, 4):
    t = T('u', 8, 8, r)
    lemma('ld%d_lanes_u8' % r, t, [P('in', 'uint8_t', 'p', count=8 * r), V(t, 'v')],
          '%s x_ = *v; %s *out_ = x_;' % (t, ' '.join('x_ = vld%d_lane_u8(p + %d, x_, %d);' % (r, i * r, i) for i in range(8))),
          lambda v, r=r: {'ret': br([v['p'].b(i * r + j) for j in range(r) for i in range(8)], 8)}, 'C03')
eq('ld1_dup_is_dup', 'float32x4_t', [P('in', 'float32_t', 'p', count=1)], 'vld1q_dup_f32(p)', 'vdupq_n_f32(p[0])', prop='C03')

# ------------------------------------------------------ C24 permutations invert
ident2 = lambda v, w: {'ret': br(v['a'].t + v['b'].t, w)}
for nm, inv in (('vzip', 'vuzp'), ('vuzp', 'vzip')):
    for s in ('s8', 'u8'):
        k = s[0]
        lemma('%s_inverts_%s_%s' % (inv, nm, s), T(k, 8, 8, 2), [V(T(k, 8, 8), 'a'), V(T(k, 8, 8), 'b')],
              '%s z_ = %s_%s(*a, *b); *out_ = %s_%s(z_.val[0], z_.val[1]);' % (T(k, 8, 8, 2), nm, s, inv, s),
              lambda v: ident2(v, 8))
for nm, k, w, n in [('vtrn_' + s, k, w, n) for k, w, n, s, q in each('s8 u8 s16 u16 s32 u32', (0,))] + \
        [('vtrnq_u16', 'u', 16, 8), ('vtrnq_u32', 'u', 32, 4), ('vtrnq_s16', 's', 16, 8)]:
    lemma('%s_involution' % nm, T(k, w, n, 2), [V(T(k, w, n), 'a'), V(T(k, w, n), 'b')],
          '%s z_ = %s(*a, *b); *out_ = %s(z_.val[0], z_.val[1]);' % (T(k, w, n, 2), nm, nm), lambda v, w=w: ident2(v, w))
for nm in FN:
    m = re.match(r'v(zip|uzp|trn)(q?)_([su])(\d+)$', nm)
    if m:
        w = int(m.group(4))
        n = (128 if m.group(2) else 64) // w
        t = T(m.group(3), w, n)
        # where lane i of the first and of the second operand went
        at = {'zip': lambda i, o: (2 * i + o) // n * n + (2 * i + o) % n,
              'uzp': lambda i, o: (i % 2) * n + o * (n // 2) + i // 2,
              'trn': lambda i, o: (i % 2) * n + i // 2 * 2 + o}[m.group(1)]
        lemma(nm + '_reassembles', T(m.group(3), w, n, 2), [V(t, 'a'), V(t, 'b')],
              '%s z_ = %s(*a, *b); %s' % (T(m.group(3), w, n, 2), nm, ' '.join(
                  'out_->val[%d].val[%d] = z_.val[%d].val[%d];' % (o, i, at(i, o) // n, at(i, o) % n) for o in (0, 1) for i in range(n))),
              lambda v, w=w: ident2(v, w), 'C03')
for c, kinds in ((16, 's8 u8'), (32, 's8 s16 u8 u16'), (64, 's8 s16 s32 u8 u16 u32 f32')):
    for k, w, n, s, q in each(kinds):
        nm = 'vrev%d%s_%s' % (c, q, s)
        lemma(nm + '_involution', T(k, w, n), [V(T(k, w, n), 'a')], '*out_ = %s(%s(*a));' % (nm, nm),
              lambda v, w=w: {'ret': br(v['a'].t, w)})
for k, w, n, s, q in each('s8 s16 s32 u8 u16 u32', (1,)):
    t, h = T(k, w, n), T(k, w, n // 2)
    lemma('combine_of_halves_' + s, t, [V(t, 'a')], '*out_ = vcombine_%s(vget_low_%s(*a), vget_high_%s(*a));' % (s, s, s),
          lambda v, w=w: {'ret': br(v['a'].t, w)})
    lemma('low_of_combine_' + s, h, [V(h, 'a'), V(h, 'b')], '*out_ = vget_low_%s(vcombine_%s(*a, *b));' % (s, s),
          lambda v, w=w: {'ret': br(v['a'].t, w)})
    lemma('high_of_combine_' + s, h, [V(h, 'a'), V(h, 'b')], '*out_ = vget_high_%s(vcombine_%s(*a, *b));' % (s, s),
          lambda v, w=w: {'ret': br(v['b'].t, w)})
    # ---- 128-bit forms agree with the 64-bit forms on each half
    lo = lambda f, s=s: 'vcombine_%s(%s_%s(vget_low_%s(*a), vget_low_%s(*b)), %s_%s(vget_high_%s(*a), vget_high_%s(*b)))' % (s, f, s, s, s, f, s, s, s)
    for f in ('vadd', 'vsub', 'vqsub', 'vhsub', 'vmul', 'vand', 'vorr', 'veor'):
        eq('%sq_by_halves_%s' % (f, s), t, [V(t, 'a'), V(t, 'b')], '%sq_%s(*a, *b)' % (f, s), lo(f))
    eq('vmvnq_by_halves_%s' % s, t, [V(t, 'a')], 'vmvnq_%s(*a)' % s,
       'vcombine_%s(vmvn_%s(vget_low_%s(*a)), vmvn_%s(vget_high_%s(*a)))' % (s, s, s, s, s))
for to in ('u8 s8', 'u32 u8', 's32 s16', 'qs16 u16'):
    q = 'q' if to[0] == 'q' else ''
    x, y = to.lstrip('q').split()
    bits = 128 if q else 64
    for p, r in ((x, y), (y, x)):
        t = T(p[0], int(p[1:]), bits // int(p[1:]))
        lemma('reinterpret%s_%s_%s_roundtrip' % (q, p, r), t, [V(t, 'a')],
              '*out_ = vreinterpret%s_%s_%s(vreinterpret%s_%s_%s(*a));' % (q, p, r, q, r, p),
              lambda v, w=int(p[1:]): {'ret': br(v['a'].t, w)})

# ------------------------------------------------------------- C24 algebra
for k, w, n, s, q in each('s8 s16 s32 s64 u8 u16 u32 u64'):
    t = T(k, w, n)
    A, AB = [V(t, 'a')], [V(t, 'a'), V(t, 'b')]
    x = q + '_' + s
    same = lambda v, w=w: {'ret': br(v['a'].t, w)}
    lemma('sub_undoes_add' + x, t, AB, '*out_ = vsub%s(vadd%s(*a, *b), *b);' % (x, x), same)
    lemma('add_undoes_sub' + x, t, AB, '*out_ = vadd%s(vsub%s(*a, *b), *b);' % (x, x), same)
    lemma('eor_twice' + x, t, AB, '*out_ = veor%s(veor%s(*a, *b), *b);' % (x, x), same)
    lemma('absorption' + x, t, AB, '*out_ = vand%s(*a, vorr%s(*a, *b));' % (x, x), same)
    for f in ('vadd', 'vand', 'vorr', 'veor'):
        eq('%s%s_commutes' % (f, x), t, AB, '%s%s(*a, *b)' % (f, x), '%s%s(*b, *a)' % (f, x))
    eq('add_is_or_plus_and' + x, t, AB, 'vadd%s(*a, *b)' % x, 'vadd%s(vorr%s(*a, *b), vand%s(*a, *b))' % (x, x, x))
for k, w, n, s, q in each('s8 s16 s32 u8 u16 u32'):
    t = T(k, w, n)
    A, AB = [V(t, 'a')], [V(t, 'a'), V(t, 'b')]
    x = q + '_' + s
    same = lambda v, w=w: {'ret': br(v['a'].t, w)}
    lemma('mvn_twice' + x, t, A, '*out_ = vmvn%s(vmvn%s(*a));' % (x, x), same)
    eq('de_morgan' + x, t, AB, 'vmvn%s(vand%s(*a, *b))' % (x, x), 'vorr%s(vmvn%s(*a), vmvn%s(*b))' % (x, x, x))
    eq('sub_by_mvn' + x, t, AB, 'vsub%s(*a, *b)' % x, 'vmvn%s(vadd%s(vmvn%s(*a), *b))' % (x, x, x))
    eq('vmul%s_commutes' % x, t, AB, 'vmul%s(*a, *b)' % x, 'vmul%s(*b, *a)' % x)
    if q:
        AB3 = AB + [V(t, 'c')]
        eq('mla_is_add_mul' + x, t, AB3, 'vmlaq_%s(*a, *b, *c)' % s, 'vaddq_%s(*a, vmulq_%s(*b, *c))' % (s, s))
        lemma('min_max_absorb' + x, t, AB, '*out_ = vminq_%s(vmaxq_%s(*a, *b), *a);' % (s, s), same)
        eq('min_plus_max' + x, t, AB, 'vaddq_%s(vminq_%s(*a, *b), vmaxq_%s(*a, *b))' % (s, s, s), 'vaddq_%s(*a, *b)' % s)
        eq('max_by_mvn_min' + x, t, AB, 'vmaxq_%s(*a, *b)' % s, 'vmvnq_%s(vminq_%s(vmvnq_%s(*a), vmvnq_%s(*b)))' % (s, s, s, s))
    if s not in ('s8', 'u8'):
        eq('mul_n_is_mul_dup' + x, t, [V(t, 'a'), P('sc', sc(k, w), 'b')], 'vmul%s_n_%s(*a, b)' % (q, s),
           'vmul%s(*a, vdup%s_n_%s(b))' % (x, q, s))
# --------------------------------------------------- C24 widening and narrowing
for k, w, n, s, q in each('s8 s16 s32 u8 u16 u32', (0,)):
    d, dd, wd = T(k, w, n), T(k, w, 2 * n), T(k, 2 * w, n)
    ws = '%s%d' % (k, 2 * w)
    D2 = [V(d, 'a'), V(d, 'b')]
    WD = [V(wd, 'a'), V(d, 'b')]
    eq('subl_' + s, wd, D2, 'vsubl_%s(*a, *b)' % s, 'vsubq_%s(vmovl_%s(*a), vmovl_%s(*b))' % (ws, s, s))
    eq('addw_' + s, wd, WD, 'vaddw_%s(*a, *b)' % s, 'vaddq_%s(*a, vmovl_%s(*b))' % (ws, s))
    eq('subw_' + s, wd, WD, 'vsubw_%s(*a, *b)' % s, 'vsubq_%s(*a, vmovl_%s(*b))' % (ws, s))
    eq('addw_high_' + s, wd, [V(wd, 'a'), V(dd, 'b')], 'vaddw_high_%s(*a, *b)' % s, 'vaddw_%s(*a, vget_high_%s(*b))' % (s, s))
    eq('addl_high_' + s, wd, [V(dd, 'a'), V(dd, 'b')], 'vaddl_high_%s(*a, *b)' % s,
       'vaddq_%s(vmovl_%s(vget_high_%s(*a)), vmovl_%s(vget_high_%s(*b)))' % (ws, s, s, s, s))
    if s == 'u8':
        eq('addl_' + s, wd, D2, 'vaddl_%s(*a, *b)' % s, 'vaddq_%s(vmovl_%s(*a), vmovl_%s(*b))' % (ws, s, s))
    eq('mull_commutes_' + s, wd, D2, 'vmull_%s(*a, *b)' % s, 'vmull_%s(*b, *a)' % s)
    if 2 * w <= 32:
        eq('mull_is_mul_movl_' + s, wd, D2, 'vmull_%s(*a, *b)' % s, 'vmulq_%s(vmovl_%s(*a), vmovl_%s(*b))' % (ws, s, s))
    eq('mlal_' + s, wd, [V(wd, 'a'), V(d, 'b'), V(d, 'c')], 'vmlal_%s(*a, *b, *c)' % s, 'vaddq_%s(*a, vmull_%s(*b, *c))' % (ws, s))
    eq('mlsl_' + s, wd, [V(wd, 'a'), V(d, 'b'), V(d, 'c')], 'vmlsl_%s(*a, *b, *c)' % s, 'vsubq_%s(*a, vmull_%s(*b, *c))' % (ws, s))
    if w > 8:
        eq('mull_n_' + s, wd, [V(d, 'a'), P('sc', sc(k, w), 'b')], 'vmull_n_%s(*a, b)' % s, 'vmull_%s(*a, vdup_n_%s(b))' % (s, s))
    # narrowing of the wide type wd back to d
    W2 = [V(wd, 'a'), V(wd, 'b')]
    eq('subhn_' + ws, d, W2, 'vsubhn_%s(*a, *b)' % ws, 'vshrn_n_%s(vsubq_%s(*a, *b), %d)' % (ws, ws, w))
    eq('addhn_high_' + ws, dd, [V(d, 'r')] + W2, 'vaddhn_high_%s(*r, *a, *b)' % ws,
       'vcombine_%s(*r, vshrn_n_%s(vaddq_%s(*a, *b), %d))' % (s, ws, ws, w))
    if w < 32:
        eq('rsubhn_' + ws, d, W2, 'vrsubhn_%s(*a, *b)' % ws,
           'vshrn_n_%s(vaddq_%s(vsubq_%s(*a, *b), vdupq_n_%s(%d)), %d)' % (ws, ws, ws, ws, 1 << (w - 1), w))
for s, ws, k, w, n in (('s16', 's32', 's', 16, 4), ('u16', 'u32', 'u', 16, 4), ('u8', 'u16', 'u', 8, 8)):
    d = T(k, w, n)
    lemma('movn_of_movl_' + s, d, [V(d, 'a')], '*out_ = vmovn_%s(vmovl_%s(*a));' % (ws, s), lambda v, w=w: {'ret': br(v['a'].t, w)})
lemma('qmovn_of_movl_u8', 'uint8x8_t', [V('uint8x8_t', 'a')], '*out_ = vqmovn_u16(vmovl_u8(*a));', lambda v: {'ret': br(v['a'].t, 8)})
eq('vpaddl_u8_by_uzp', 'uint16x4_t', [V('uint8x8_t', 'a')], 'vpaddl_u8(*a)',
   'vget_low_u16(vaddl_u8(z_.val[0], z_.val[1]))', 'uint8x8x2_t z_ = vuzp_u8(*a, *a);')
# ------------------------------------------------------------ C24 shifts, tables
for nn in range(1, 9):
    lemma('shrn_of_shll_u8_%d' % nn, 'uint8x8_t', [V('uint8x8_t', 'a')], '*out_ = vshrn_n_u16(vshll_n_u8(*a, %d), %d);' % (nn, nn),
          lambda v: {'ret': br(v['a'].t, 8)})
    lemma('qshrn_of_shll_u8_%d' % nn, 'uint8x8_t', [V('uint8x8_t', 'a')], '*out_ = vqshrn_n_u16(vshll_n_u8(*a, %d), %d);' % (nn, nn),
          lambda v: {'ret': br(v['a'].t, 8)})
    lemma('rshrn_of_shll_u8_%d' % nn, 'uint8x8_t', [V('uint8x8_t', 'a')], '*out_ = vrshrn_n_u16(vshll_n_u8(*a, %d), %d);' % (nn, nn),
          lambda v: {'ret': br(v['a'].t, 8)})
for nn in range(1, 8):
    eq('ext_u8_splice_%d' % nn, 'uint8x8_t', [V('uint8x8_t', 'a'), V('uint8x8_t', 'b')], 'vext_u8(*a, *b, %d)' % nn,
       'vtbl2_u8(t_, vadd_u8(i_, vdup_n_u8(%d)))' % nn,
       'uint8x8x2_t t_; t_.val[0] = *a; t_.val[1] = *b; uint8x8_t i_; for (int k_ = 0; k_ < 8; k_++) i_.val[k_] = k_;')
eq('tbl2_by_tbl1', 'uint8x8_t', [V('uint8x8x2_t', 't'), V('uint8x8_t', 'i')], 'vtbl2_u8(*t, *i)',
   'vorr_u8(vtbl1_u8(t->val[0], *i), vtbl1_u8(t->val[1], vsub_u8(*i, vdup_n_u8(8))))')
eq('tbl4_by_tbl2', 'uint8x8_t', [V('uint8x8x4_t', 't'), V('uint8x8_t', 'i')], 'vtbl4_u8(*t, *i)',
   'vorr_u8(vtbl2_u8(l_, *i), vtbl2_u8(h_, vsub_u8(*i, vdup_n_u8(16))))',
   'uint8x8x2_t l_, h_; l_.val[0] = t->val[0]; l_.val[1] = t->val[1]; h_.val[0] = t->val[2]; h_.val[1] = t->val[3];')
eq('qtbl1_is_tbl2', 'uint8x8_t', [V('uint8x16_t', 't'), V('uint8x8_t', 'i')], 'vqtbl1_u8(*t, *i)', 'vtbl2_u8(z_, *i)',
   'uint8x8x2_t z_; z_.val[0] = vget_low_u8(*t); z_.val[1] = vget_high_u8(*t);')
# --------------------------------------------------------------- C24 select
for s, mt in (('u8', 'uint8x16_t'), ('f32', 'uint32x4_t')):
    t = 'uint8x16_t' if s == 'u8' else 'float32x4_t'
    ms = 'u8' if s == 'u8' else 'u32'
    w = vt(t).w
    lemma('bsl_same_' + s, t, [V(mt, 'm'), V(t, 'a')], '*out_ = vbslq_%s(*m, *a, *a);' % s, lambda v, w=w: {'ret': br(v['a'].t, w)})
    eq('bsl_swap_' + s, t, [V(mt, 'm'), V(t, 'a'), V(t, 'b')], 'vbslq_%s(vmvnq_%s(*m), *a, *b)' % (s, ms), 'vbslq_%s(*m, *b, *a)' % s)
eq('max_by_cgt_bsl_u8', 'uint8x16_t', [V('uint8x16_t', 'a'), V('uint8x16_t', 'b')], 'vmaxq_u8(*a, *b)', 'vbslq_u8(vcgtq_u8(*a, *b), *a, *b)')
eq('qadd_by_halves_u8', 'uint8x16_t', [V('uint8x16_t', 'a'), V('uint8x16_t', 'b')], 'vqaddq_u8(*a, *b)',
   'vcombine_u8(vqadd_u8(vget_low_u8(*a), vget_low_u8(*b)), vqadd_u8(vget_high_u8(*a), vget_high_u8(*b)))')
eq('qadd_by_widen_u8', 'uint8x8_t', [V('uint8x8_t', 'a'), V('uint8x8_t', 'b')], 'vqadd_u8(*a, *b)', 'vqmovn_u16(vaddl_u8(*a, *b))')
eq('qsub_is_max_sub_u8', 'uint8x16_t', [V('uint8x16_t', 'a'), V('uint8x16_t', 'b')], 'vqsubq_u8(*a, *b)', 'vsubq_u8(vmaxq_u8(*a, *b), *b)')
eq('qmovun_of_sub', 'uint8x8_t', [V('uint8x8_t', 'a'), V('uint8x8_t', 'b')], 'vqmovun_s16(vreinterpretq_s16_u16(vsubl_u8(*a, *b)))', 'vqsub_u8(*a, *b)')
for k, w, n, s, q in each('s8 s16 s32 s64 u8 u16 u32 f32', (1,)):
    if 'vdupq_n_' + s in FN and 'vgetq_lane_' + s in FN:
        lemma('lane_of_dup_' + s, sc(k, w), [P('sc', sc(k, w), 'a'), P('imm', 'int', 'lane', 0, n - 1)],
              '*out_ = vgetq_lane_%s(vdupq_n_%s(a), lane);' % (s, s), lambda v, w=w: {'ret': br(v['a'].t, w)})

# ------------------------------------------------------------ C23 the layout of the vector types
import re as _re


def _types():
    out = []
    for k, ws in (('s', (8, 16, 32, 64)), ('u', (8, 16, 32, 64)), ('f', (32, 64))):
        for w in ws:
            for bits in (64, 128):
                out.append((k, w, bits // w))
    return out


def layout_lemmas(have):
    """have: names of the vector types the header defines"""
    for name in have:
        t = vt(name)
        e = sc(t.k, t.w)
        n = t.total
        lane = (lambda i, t=t: 'val[%d]' % i) if t.r == 1 else (lambda i, t=t: 'val[%d].val[%d]' % (i // t.n, i % t.n))
        # element i of the object, read through the member and written through it, is element i of memory
        lemma('layout_read_' + name, 'void', [V(name, 'v'), P('out', e, 'dst', count=n)],
              ' '.join('dst[%d] = v->%s;' % (i, lane(i)) for i in range(n)),
              lambda v, w=t.w: {'dst': br(v['v'].t, w)}, 'C23')
        lemma('layout_write_' + name, name, [P('in', e, 'src', count=n)],
              '%s r_; %s *out_ = r_;' % (name, ' '.join('r_.%s = src[%d];' % (lane(i), i) for i in range(n))),
              lambda v, w=t.w: {'ret': br(v['src'].t, w)}, 'C23')
        lemma('layout_size_' + name, 'uint32_t', [V(name, 'v')], '*out_ = (uint32_t)sizeof(*v);',
              lambda v, s=t.size: {'ret': br([s], 32)}, 'C23')
        lemma('layout_array_' + name, name, [V(name, 'a'), V(name, 'b')],
              '%s arr_[2]; arr_[0] = *a; arr_[1] = *b; __builtin_memcpy((void*)out_, (const char*)arr_ + %d, %d);' % (name, t.size, t.size),
              lambda v, w=t.w: {'ret': br(v['b'].t, w)}, 'C23')


def _have():
    import itertools
    return [T(k, w, n, r) for k, w, n in _types() for r in (1, 2, 3, 4)]


layout_lemmas(_have())
