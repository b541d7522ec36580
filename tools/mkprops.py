"""Writes properties.jsonl and MANIFEST.json (python3 tools/mkprops.py)"""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CPP, H = 'neon_sim.cpp', 'neon_sim.h'
P = []


def p(id, title, statement, over, qtext, why, mech, files=(CPP, H), observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=list(files), state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))


SMALL = 'The tests call %s on one or two hand-picked vectors each; %s'
p('C01', 'Loads put exactly the right memory elements into every lane',
  'Every vld1/vld1q/vld1q_dup/vld1_lane/vld2/vld3/vld4 (and q and _lane) load returns, bit for bit, the elements the Arm manual assigns: '
  'lane i of register j of an N-way structure load holds element N*i+j of the memory the pointer refers to, a dup load fills every lane with '
  'element 0, and a lane load replaces only the chosen lane of the chosen register(s) and keeps every other lane of the source.',
  ['inputs'], 'all memory contents (NaN payloads included), all source vectors, all valid lane indices, for each of the 64 load functions',
  SMALL % ('about twenty of the 64 loads', 'most widths, the 3- and 4-way forms and the lane forms are never called, and a single vector does not pin every lane.'),
  [('vld1*, vld1q*, vld1_lane*, vld1q_dup*', 'neon_sim.cpp: Load section'), ('vld2*/vld3*/vld4* de-interleaving loops', 'neon_sim.cpp: Load section')],
  observe=['returned vector lanes'])
p('C02', 'Stores write exactly the right elements to memory',
  'Every vst1/vst1q/vst2/vst3/vst4 (and q and _lane) store leaves in memory, bit for bit, what the Arm manual assigns: after an N-way structure '
  'store element N*i+j is lane i of register j, for every lane and register, and a lane store writes that lane of each register.',
  ['inputs'], 'all vectors (NaN payloads included), all prior memory contents, all valid lane indices, for each of the 54 store functions',
  SMALL % ('a handful of the 54 stores', 'vst3/vst4 and most widths are never called.'),
  [('vst1*..vst4* interleaving loops', 'neon_sim.cpp: Store section')], observe=['memory behind the pointer after the call'])
p('C03', 'Structured loads and stores are inverse to each other',
  'Storing a vector or an array of vectors with vstN and loading it back with the vldN of the same type gives the same vectors, and loading '
  'memory with vldN and storing it with vstN reproduces the same memory, bit for bit; zip, unzip and transpose results re-assemble to their '
  'operands, combine/get_low/get_high are inverse, reversing twice is the identity and reinterpreting there and back is the identity.',
  ['inputs', 'programs'], 'all vectors and memory contents, for every load/store pair and every permutation pair the library defines',
  'The tests never compose a load with a store; a pair of functions can each look right on its sample and disagree elsewhere.',
  [('vldN*/vstN* index arithmetic', 'neon_sim.cpp: Load and Store sections'), ('vzip/vuzp/vtrn/vrev/vcombine/vget_low/vget_high/vreinterpret', 'neon_sim.cpp')],
  observe=['memory and vectors before and after the round trip'])
p('C04', 'No function touches memory outside its documented footprint',
  'Every function reads through its pointer argument exactly elements the instruction accesses, writes through it only the elements the '
  'instruction stores, and changes no other caller-visible memory (its argument vectors and the bytes before and after the buffer keep their '
  'values); no lane index ever leaves the vector it indexes.',
  ['inputs'], 'all argument values, all valid immediates, for each of the 537 functions; the buffer may be exactly as long as the instruction needs and may be the end of a mapped page',
  'The tests pass buffers with slack and never look at neighbouring bytes, so one element too many in a loop bound passes.',
  [('loop bounds and index arithmetic of every function', 'neon_sim.cpp')], observe=['every byte read or written during a call'])
p('C05', 'No call with valid arguments has undefined behaviour or an unset lane',
  'For every argument value, including extreme integers, NaN and infinities, a call with an in-range immediate executes no signed overflow, no '
  'out-of-range shift, no division by zero, no out-of-range float-to-integer conversion, no misaligned access or access through an incompatible type, and never reads an '
  'uninitialised value; and every lane of the result is set on every path.',
  ['inputs'], 'all lane values and all valid immediates for each of the 537 functions',
  'The tests use small operands and are not run under a sanitizer; undefined behaviour shows only for particular extreme operands or optimisation levels.',
  [('integer promotions and shifts in each lane computation', 'neon_sim.cpp'), ('local result vectors, not initialised at declaration', 'neon_sim.cpp')],
  observe=['sanitizer-observable behaviour; result lanes'])
p('C06', 'Wrapping, widening and pairwise add/subtract are exact',
  'vadd/vsub (and q) of integer lanes give the sum or difference modulo 2^width lane by lane; vaddl/vsubl/vaddw/vsubw and their high forms extend each '
  'operand by its own signedness, use the right half, and lose nothing modulo the wide width; vpaddl adds adjacent lanes exactly into the wide lane.',
  ['inputs'], 'all lane values of all 66 functions, wrap-around and sign boundaries included',
  SMALL % ('most of these once', 'with values far from the width boundary, where sign extension, wrap-around or the wrong half are not visible.'),
  [('vadd*, vsub*, vaddl*, vsubl*, vaddw*, vsubw*, vpaddl*', 'neon_sim.cpp')], observe=['result lanes'])
p('C07', 'Saturating add and subtract clamp at the exact limits',
  'vqadd and vqsub (and q) give in every lane the mathematically exact sum or difference clamped to the limits of the lane type, for signed and unsigned lanes of every width up to 64 bits.',
  ['inputs'], 'all pairs of lane values for each of the 18 functions',
  SMALL % ('vqsub', 'no test reaches the 64-bit limits or both saturation directions of each width.'),
  [('vqadd*, vqsub*', 'neon_sim.cpp')], observe=['result lanes'])
p('C08', 'Halving and high-half narrowing arithmetic is exact',
  'vhsub gives floor((a-b)/2) of the exact difference; vaddhn_high, vsubhn and vrsubhn give the most significant half of the wrapped sum or '
  'difference (with 2^(half-1) added first for the rounding form), and vaddhn_high keeps its first argument as the low half of the result.',
  ['inputs'], 'all lane values for each of the 30 functions',
  SMALL % ('each form once or twice', 'rounding, borrow and sign behaviour at the extremes are not sampled.'),
  [('vhsub*, vaddhn_high*, vsubhn*, vrsubhn*', 'neon_sim.cpp')], observe=['result lanes'])
p('C09', 'Integer multiplication and multiply-accumulate are exact',
  'vmul/vmul_n/vmla give products (and sums) modulo 2^width; vmull/vmull_n/vmlal/vmlsl form the full double-width product with the operands\' signedness before '
  'accumulating modulo the wide width; vqdmull doubles the product and saturates only at the one overflowing operand pair.',
  ['inputs'], 'all lane values for each of the 49 functions',
  SMALL % ('these', 'small factors never exercise truncation, sign or the doubling overflow.'),
  [('vmul*, vmull*, vmla*, vmlal*, vmlsl*, vqdmull*', 'neon_sim.cpp')], observe=['result lanes'])
p('C10', 'Shifts by an immediate are exact for every shift count',
  'For every valid shift count, vshr_n/vshrn_n/vshll_n/vshlq_n/vsraq_n shift every lane with the type\'s signedness (accumulating modulo 2^width for vsra), '
  'vrshrn adds the rounding constant first, and vqshrn/vqshrun/vqrshrun saturate the exact shifted value to the destination type.',
  ['inputs'], 'all lane values times all valid shift counts for each of the 21 functions',
  'There is no test for any of these functions.',
  [('vshr_n, vshrn_n, vrshrn_n, vqshrn_n, vqshrun_n, vqrshrun_n, vshll_n, vshlq_n, vsraq_n', 'neon_sim.cpp')], observe=['result lanes'])
p('C11', 'Bitwise operations, compares and bit-select work on every bit',
  'vand/vorr/veor/vmvn (and q) are the bitwise operation on every bit of every lane; vcgtq/vcltq give all-ones or all-zeros per lane by the type\'s order (false when an operand is NaN); '
  'vbsl takes each bit from the first operand where the mask bit is 1 and from the second where it is 0.',
  ['inputs'], 'all lane values, NaN and partial masks included, for each of the 64 functions',
  SMALL % ('a few of these', 'bit-select is only tried with all-ones and all-zeros masks and compares never with NaN or the sign boundary.'),
  [('vand*, vorr*, veor*, vmvn*, vcgtq*, vcltq*, vbslq*', 'neon_sim.cpp')], observe=['result lanes'])
p('C12', 'Minimum and maximum follow the lane type, NaN and signed zero included',
  'vmaxq/vminq give per lane the larger or smaller operand in the order of the lane type; vpmax/vpmin reduce adjacent pairs of the first and then the second operand; '
  'for floats a NaN operand gives NaN, and +0 counts as greater than -0.',
  ['inputs'], 'all lane values for each of the 16 functions',
  SMALL % ('these', 'sign boundaries, NaN and signed zeros are not tried.'),
  [('vmaxq*, vminq*, vpmax_f32, vpmin_f32', 'neon_sim.cpp')], observe=['result lanes'])
p('C13', 'Moves, broadcasts, lane reads and permutations place every lane correctly',
  'vdup/vmov, vcombine, vget_low/high, vget(q)_lane, vext, vrev16/32/64, vtrn, vuzp and vzip (and q) put exactly the lane the Arm manual names into every '
  'result position, bit for bit, for every valid lane index or offset.',
  ['inputs'], 'all lane values (NaN payloads included) times all valid immediates for each of the 91 functions',
  SMALL % ('most of these on one vector', 'immediates are sampled at one or two values and untested widths have their own copies of the index arithmetic.'),
  [('vdup*, vmov*, vcombine*, vget_low*, vget_high*, vget*_lane*, vext*, vrev*, vtrn*, vuzp*, vzip*', 'neon_sim.cpp')], observe=['result lanes'])
p('C14', 'Table lookups select the indexed byte and give 0 out of range',
  'vtbl1, vtbl2, vtbl4 and vqtbl1 give, for every index byte, the table byte at that index counted across the table registers in order, and 0 for every index beyond the table.',
  ['inputs'], 'all table contents and all 256 values of every index byte',
  'The tests try a few indices; the boundary and the large out-of-range indices are not all tried.',
  [('vtbl1_u8, vtbl2_u8, vtbl4_u8, vqtbl1_u8', 'neon_sim.cpp')], observe=['result lanes'])
p('C15', 'Reinterpretation preserves every bit in little-endian lane order',
  'Every vreinterpret(q) function returns a vector whose in-memory bytes are the in-memory bytes of its operand, in the same order, for every pair of types and every bit pattern, signalling NaN included.',
  ['inputs'], 'all bit patterns for each of the 28 functions',
  'No test covers vreinterpret; a lane-order or truncation slip in one of the copies is invisible.',
  [('vreinterpret*, vreinterpretq*', 'neon_sim.cpp')], observe=['bytes of the result'])
p('C16', 'Lane width conversions extend, truncate and saturate exactly',
  'vmovl extends every lane by its signedness, vmovn keeps the low half of every lane, and vqmovn/vqmovun clamp the exact value to the destination type.',
  ['inputs'], 'all lane values for each of the 11 functions',
  SMALL % ('a few', 'negative lanes and both saturation limits are not covered.'),
  [('vmovl*, vmovn*, vqmovn_u16, vqmovun_s16', 'neon_sim.cpp')], observe=['result lanes'])
p('C17', 'Float-integer conversions round and saturate as the architecture says',
  'vcvtq_s32_f32 and vcvtq_u32_f32 truncate toward zero, vcvtnq_s32_f32 rounds to nearest with ties to even, all saturate at the limits of the destination and turn NaN into 0; vcvtq_f32_s32 rounds to nearest even.',
  ['inputs'], 'all 2^32 bit patterns of every lane of the 4 functions',
  'There is no test for any conversion.',
  [('vcvtq_s32_f32, vcvtq_u32_f32, vcvtnq_s32_f32, vcvtq_f32_s32', 'neon_sim.cpp')], observe=['result lanes'])
p('C18', 'Floating-point arithmetic is IEEE-754 correctly rounded, lane by lane',
  'Float add, subtract, multiply, divide (vector and by-scalar) give per lane the IEEE-754 correctly rounded result of the lane\'s own width, with subnormals, infinities and signed zeros; vmla rounds the product and then the sum.',
  ['inputs'], 'all bit patterns of the operands for each of the 15 functions (any NaN accepted where the result is NaN), round-to-nearest, no FMA contraction',
  SMALL % ('these with small exact values and a tolerance', 'so a wrong precision, operand order or special case passes.'),
  [('vaddq_f32, vsub*_f32/f64, vmul*, vdiv*, vmlaq*_f32', 'neon_sim.cpp')], observe=['result lanes'])
p('C19', 'Reciprocal estimate and step match the architecture bit for bit',
  'vrecpeq_f32 gives the 8-bit table estimate the Arm pseudocode defines for every float, including zeros, subnormals, infinities, NaN and subnormal results; vrecpsq_f32 gives 2-a*b (product rounded or fused) and exactly 2 for infinity times zero.',
  ['inputs'], 'all bit patterns of every lane',
  'Two tests with the operands 1 to 4 and a tolerance.',
  [('FPRecipEstimate, RecipEstimate, float_parts', 'neon_sim.cpp'), ('vrecpeq_f32, vrecpsq_f32', 'neon_sim.cpp')], observe=['result lanes'])
p('C20', 'Out-of-range immediates abort, in-range immediates never do',
  'Every function with a lane index, offset or shift count accepts every value in the range the instruction allows, and for every other value - negative and '
  'huge ones included - terminates the process with abort before it computes with the value, reads or writes anything with it, or returns.',
  ['inputs'], 'all 2^32 values of every immediate argument and all lane values, for each of the 42 functions with an immediate',
  'No test passes an invalid immediate, and few pass more than one valid value.',
  [('range checks followed by abort()', 'neon_sim.cpp: functions with a lane or n parameter')], observe=['abort versus return; accesses before the abort'])
p('C21', 'Calls are pure: no hidden state, no dependence on history, no I/O',
  'The result of a call depends only on its arguments and the memory its pointer arguments name, never on earlier calls, other threads, the '
  'environment, the clock, the floating-point control state it leaves behind or uninitialised storage; a call with valid arguments keeps no state, prints nothing and has no '
  'effect besides its result and its documented stores, so calls may run concurrently.',
  ['histories', 'schedules'], 'all sequences and interleavings of calls of the 537 functions',
  'Each test makes a few calls in one order on one thread; state that builds up or is shared shows only in particular histories.',
  [('absence of mutable static storage and of calls with outside effects', 'neon_sim.cpp')], observe=['results of repeated and interleaved calls; process output'])
p('C22', 'The whole documented API links and has the ACLE signatures, from C and C++',
  'Each of the 537 implemented functions is declared in the header with the parameter and result types of the ACLE intrinsic, compiles from C and from C++, is exported with C linkage, and '
  'receives and returns its arguments exactly as a C or C++ caller passes them.',
  ['programs', 'configurations'], 'all client programs, in C or C++, built with gcc or clang, that call any of the functions at its documented type',
  'The tests are C++ only and never call most functions, so a missing definition or a definition that disagrees with its declaration is not noticed.',
  [('prototypes inside extern "C"', 'neon_sim.h'), ('definitions that must match them', 'neon_sim.cpp')], observe=['compiling, linking and running client programs'])
p('C23', 'Vector types have the Arm layout',
  'Each vector type intN/uintN/floatN x lanes (and its x2, x3, x4 array types) has exactly the size of its lanes, no padding, lane i at byte offset i*element size, the element type its name says, and can be copied, '
  'put in arrays and read or written through .val from C and C++ with that layout.',
  ['programs', 'configurations'], 'all 80 vector types, both languages, gcc and clang, all contents',
  'The tests use a few of the types and never look at sizes, offsets or element types.',
  [('struct { T val[N]; } definitions', 'neon_sim.h')], files=(H,), observe=['sizeof, offsets, lane access'])
p('C24', 'The operations satisfy the algebraic laws users combine them by',
  'For all vectors the composed calls agree: add and sub undo each other, add/and/or/eor/mul commute, De Morgan and absorption hold, min/max are dual and sum to a+b; '
  'each q form agrees with its 64-bit form on both halves, and widening, high-half, by-scalar and accumulate forms equal the compositions of extend, plain operation, broadcast and add that define them; '
  'narrowing undoes widening, saturating forms agree with max/min and widen-then-narrow forms, and table, extract, select and lane/broadcast operations agree with each other.',
  ['inputs', 'programs'], 'all argument values of 468 two-sided programs composed of the API functions',
  'The tests check single functions against constants; agreement between sibling functions that have separate code is never checked.',
  [('separately written code of sibling functions', 'neon_sim.cpp')], observe=['results of both sides of each law'])

NOTE = {
    'C03': 'Proved over composed programs that call the real functions; each callee is executed from its source, so the lemma holds of the code itself.',
    'C04': 'Every byte access of every function is an obligation against the footprint the contract names.',
    'C05': 'Every overflow, shift, conversion, alignment, effective-type and initialisation side condition clang emits or the IR implies is an obligation.',
    'C20': 'Out-of-range immediates are one symbolic case (all 2^32 values outside the range), in-range ones are enumerated.',
    'C21': 'Purity is an effect system over the IR: no access to mutable static storage, no impure external call. Concurrency follows from it; it is not explored.',
    'C22': 'Signatures and linkage are decided by four compilers and the linker over generated assertions, argument passing by the verifier on C and C++ callers.',
    'C23': 'Static assertions under four compilers plus verified access programs per type.',
    'C24': 'Proved over composed programs that call the real functions.',
}
TECH = 'contract-based deductive verification: weakest-precondition style obligations from the LLVM IR of the real sources against hand-written contracts, discharged by z3'
json.dump  # noqa
with open(os.path.join(R, 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x) + '\n')
checks = []
for x in P:
    i = x['id']
    checks.append(dict(property=i, quick_cmd='python3-vt vc/check.py ' + i, thorough_cmd='VERIF_TIER=thorough python3-vt vc/check.py ' + i,
                       evidence_file='evidence/%s.json' % i, technique=TECH, level='proof',
                       level_note=(NOTE.get(i, 'For all inputs: loops have constant trip counts and are executed completely, lane values are unconstrained symbols.') +
                                   ' Trusts the clang front end, the vc/ symbolic executor, z3 and the contracts; a function the verifier cannot take is sampled, labelled a bounded stand-in and counted as undischarged.')))
json.dump(dict(version=1, setup_cmd='python3-vt vc/selftest.py', checks=checks, not_applicable=[],
               notes='No hooks: the checks read /repo\'s sources as they are. See DESIGN.md.'), open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
