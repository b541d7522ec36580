"""Decide one property of neon_sim: python3-vt vc/check.py C06

Regenerates every obligation from the current sources of /repo and discharges them.
exit 0  every obligation of the property discharged (or: decided by a labelled bounded stand-in)
exit 1  an obligation fails: VIOLATION property=<id> replay=<path> [no-failing-input-found]
exit 2  no answer (the sources do not compile, internal error)
"""
import json
import multiprocessing as mp
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from collections import Counter

sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import contracts
import engine as E
import irparse
import lemmas
import native as N
import props as PR
import statics
from symex import Unsupported

SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'
JOBS = int(os.environ.get('VC_JOBS', '8'))
T0 = time.time()
QUERY_MS = 60000 if THOROUGH else 20000
FN_LIMIT = 400 if THOROUGH else 100        # seconds per function
TOTAL_LIMIT = 100000 if THOROUGH else 480  # seconds for the whole verification phase
VARIANT = os.environ.get('VC_VARIANT')     # this run looks at the project compiled in another way (engine.VARIANTS)
SUB = '' if VARIANT is None else re.sub(r'\W+', '_', VARIANT).strip('_')

_B = None
_K = None
_C = None


class Timeout(BaseException):
    pass


def _alarm(*a):
    raise Timeout()


def work(name):
    """verify one function (in a worker process)"""
    c = _C[name]
    signal.signal(signal.SIGALRM, _alarm)
    left = TOTAL_LIMIT - (time.time() - T0)
    if left < 5:
        return dict(name=name, error='time limit of the check', obs=[], counts={}, funcs=[], ext=[], dyninit=[], hints=[], q=0, t=0, cases=0, covers=0, cross=None)
    signal.alarm(int(min(FN_LIMIT, left)))
    v = E.Verifier(_B.modules, QUERY_MS, cross=CROSS.run if CROSS else None)
    v.promises = _B.promises
    if CROSS:
        CROSS.reset()
    try:
        r = v.verify(c, _K)
    except Timeout:
        r = v.res
        r.error = 'time limit'
        r.hints += v.hints()
    except (AssertionError, KeyError, IndexError, AttributeError, TypeError, ValueError) as e:
        r = v.res
        r.error = 'internal: %s' % traceback.format_exc()[-600:]
    except Exception as e:          # z3 errors (sort mismatch on malformed input and the like)
        r = v.res
        r.error = 'internal: %r' % e
    finally:
        signal.alarm(0)
    counts = Counter()
    bad = []
    for o in r.obs:
        t = o.tup()
        if o.status == 'proved':
            counts[(o.kind, o.how)] += 1
        else:
            bad.append(t)
    return dict(name=name, error=r.error, obs=bad, counts=dict(counts), funcs=sorted(r.funcs), ext=sorted(r.ext), dyninit=sorted(r.dyninit), hints=r.hints[:40], q=r.stats.q,
                t=r.stats.t, cases=r.cases, covers=r.covers, cross=CROSS.take() if CROSS else None)


class Cross:
    """thorough tier: every query z3 answered is put to cvc5 as well"""

    def __init__(self):
        self.reset()

    def reset(self):
        self.n = Counter()
        self.bad = []

    def take(self):
        return dict(self.n), self.bad

    def run(self, solver, r):
        try:
            txt = solver.to_smt2()
            txt = txt.replace('(check-sat)', '')
            logic = 'QF_BVFP'
            p = subprocess.run(['cvc5', '--lang', 'smt2', '--tlimit=20000', '-'], input='(set-logic %s)\n%s\n(check-sat)\n' % (logic, txt),
                               capture_output=True, text=True, timeout=40)
            a = p.stdout.strip().split('\n')[-1]
        except subprocess.TimeoutExpired:
            a = 'timeout'
        if a not in ('sat', 'unsat'):
            self.n['cvc5 no answer'] += 1
        elif a == str(r):
            self.n['cvc5 agrees'] += 1
        elif str(r) == 'unknown':
            self.n['cvc5 answers where z3 does not'] += 1
        else:
            self.n['disagreement'] += 1
            self.bad.append('z3 %s, cvc5 %s' % (r, a))


CROSS = Cross() if THOROUGH and shutil.which('cvc5') else None


def known_findings(pid):
    """{(function, kind)} of the open findings of the property"""
    out = {}
    f = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(f):
        for ln in open(f):
            m = re.match(r'finding: property=(\S+) fn=(\S+) kind=(\S+) (.*)', ln)
            if m and m.group(1) == pid:
                out[(m.group(2), m.group(3))] = m.group(4).strip()
    return out


def ob_name(o):
    kind, fn, where, case, detail = o[:5]
    return '%s/%s%s: %s [at %s]' % (fn, kind, '(%s)' % case if case else '', detail, where)


def save_replay(pid, fn, data, driver):
    d = os.path.join(ROOT, 'replay', pid, SUB)
    if VARIANT:
        data['compiled_with'] = VARIANT
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, fn + '.json')
    if driver:
        with open(os.path.join(d, fn + '.cpp'), 'w') as f:
            f.write(driver)
        data['replay_program'] = '%s.cpp (reads the input record from argv[1], writes the outcome to argv[2])' % os.path.relpath(os.path.join(d, fn), ROOT)
    with open(p, 'w') as f:
        json.dump(data, f, indent=1)
    return os.path.relpath(p, ROOT)


def main():
    global _B, _K, _C
    pid = sys.argv[1]
    prop = PR.PROPS[pid]
    shutil.rmtree(os.path.join(ROOT, 'replay', pid, SUB), ignore_errors=True)
    base = os.environ.get('TMPDIR', '/tmp')
    wk = tempfile.mkdtemp(prefix='vc_%s_' % pid, dir=base)
    try:
        return decide(pid, prop, wk)
    finally:
        shutil.rmtree(wk, ignore_errors=True)


def decide(pid, prop, wk):
    global _B, _K, _C
    cs = PR.select(pid)
    if os.environ.get('VC_ONLY'):
        cs = [c for c in cs if re.search(os.environ['VC_ONLY'], c.name)]
    _C = {c.name: c for c in cs}
    _K = prop.kinds
    static = statics.run(pid, wk) if prop.static else None
    fails = {}           # function -> {'obs': [...], 'static': [...]}
    undecided = {}
    nothing = []          # neither decided nor sampled
    results = []
    link_bad = {}
    t_build = time.time()
    if cs:
        _B = E.Build(cs, wk, both=pid != 'C22')
        for c in _B.extra:          # what a caller in C gets differs from what a caller in C++ gets
            cs.append(c)
            _C[c.name] = c
        for n, msg in _B.bad.items():
            link_bad[n] = 'a program using the specified declaration does not compile: ' + msg
    t_build = time.time() - t_build
    todo = [c.name for c in cs if c.name not in link_bad]
    todo.sort(key=lambda n: (-PR.cost(n), n))
    if todo:
        ctx = mp.get_context('fork')
        with ctx.Pool(min(JOBS, len(todo)), maxtasksperchild=40) as pool:
            for r in pool.imap_unordered(work, todo, 1):
                results.append(r)
    t_ver = time.time() - T0
    nat = N.Native(wk)
    total = Counter()
    be = Counter()
    kinds = Counter()
    ext, funcs = set(), set()
    cross, cross_bad = Counter(), []
    for n, msg in sorted(link_bad.items()):
        total['obligations'] += 1
        fails[n] = [('link', n, n, '', msg, 'failed', 'compiler', None, 0)]
    for r in results:
        ext |= set(r['ext'])
        funcs |= set(r['funcs'])
        for (k, how), m in r['counts'].items():
            total['obligations'] += m
            total['discharged'] += m
            be[how] += m
            kinds[k] += m
        if r['cross']:
            cross.update(r['cross'][0])
            cross_bad += ['%s: %s' % (r['name'], x) for x in r['cross'][1]]
        bad = [o for o in r['obs'] if o[5] == 'failed']
        unk = [o for o in r['obs'] if o[5] == 'unknown']
        total['obligations'] += len(bad) + len(unk)
        if bad:
            fails[r['name']] = bad
        m = re.match(r'external function without a contract: (\w+)$', r['error'] or '')
        if m and m.group(1) == 'vc_rejected':
            total['obligations'] += 1
            undecided[r['name']] = 'clang does not accept the body'
        elif m and (m.group(1) in contracts.ALL or m.group(1) == r['name']):
            total['obligations'] += 1
            fails.setdefault(r['name'], []).append(('link', r['name'], r['name'], '', '%s has no definition in the library' % m.group(1),
                                                    'failed', 'symbol table', None, 0))
        elif r['error']:
            total['obligations'] += 1
            undecided[r['name']] = r['error']
        elif unk and not bad:
            undecided[r['name']] = 'solver gave no answer: ' + ob_name(unk[0])
    if static:
        for name, ok, detail in static['obs']:
            total['obligations'] += 1
            if ok:
                total['discharged'] += 1
                be['type checker (g++, clang++, gcc, clang)'] += 1
                kinds[static['kind'](name)] += 1
            else:
                fails.setdefault(name.split('/')[0], []).append(('static', name.split('/')[0], name, '', detail, 'failed', 'compiler', None, 0))

    # ---------------------------------------------------------------- failures
    known = known_findings(pid)
    viol, known_hit = [], []
    jobs, rests = [], {}
    for n in sorted(fails, key=lambda n: (len(fails[n]), n)):
        rest = [o for o in fails[n] if (n, o[0]) not in known]
        for o in fails[n]:
            if (n, o[0]) in known and (n, o[0]) not in known_hit:
                known_hit.append((n, o[0]))
        if not rest:
            continue
        rests[n] = rest
        if n in _C:
            models, seen = [], set()
            for o in rest:
                if o[7] is not None:
                    k = tuple(sorted(o[7].items()))
                    if k not in seen and len(models) < 12:
                        seen.add(k)
                        models.append(o[7])
            jobs.append((n, sorted({o[0] for o in rest}), models))
    if jobs:
        nat.build_all()
    N.Native.shared = nat
    found = dict(pool_map(_confirm_job, jobs, 900 - 150))
    for n, rest in rests.items():
        f = found.get(n)
        static_only = all(o[0] in ('static', 'link', 'abi') for o in rest)
        data = {'property': pid, 'function': n, 'failed_obligations': [ob_name(o) for o in rest[:20]],
                'failed_count': len(rest), 'verifier': [{'obligation': ob_name(o), 'back_end': o[6], 'counterexample': o[7]} for o in rest[:5]]}
        if f:
            data['confirmed_on_real_code'] = {'how': f['how'], 'what': f['what'],
                                              'input': {k: ('0x%x' % v if v >= 0 else str(v)) for k, v in (f['input'] or {}).items()}}
        elif static_only:
            data['confirmed_on_real_code'] = {'how': 'the compiler or the linker rejects a program that relies on it', 'what': rest[0][4]}
        p = save_replay(pid, re.sub(r'\W', '_', n), data, f['driver'] if f else None)
        viol.append((n, p, rest, bool(f) or static_only))

    # --------------------------------------------------------------- undecided
    stand = {}
    n_s = 400000 if THOROUGH else 80000
    todo = [n for n in sorted(undecided) if n not in fails]
    if todo:
        nat.build_all()
    N.Native.shared = nat
    hints = {r['name']: r['hints'] for r in results}
    per = max(400, min(n_s // len(todo), n_s // 4)) if todo else 0
    got = {n: (t, f) for n, t, f in pool_map(_sample_job, [(n, SEED, per, hints.get(n, ()), irparse.constants(_B.modules, 'vc__' + n)) for n in todo], 900 - 60)}
    for n in todo:
        tried, f = got.get(n, (0, None))
        stand[n] = dict(reason=undecided[n], inputs=tried)
        if f:
            data = {'property': pid, 'function': n, 'failed_obligations': ['%s/bounded stand-in (the verifier could not decide: %s)' % (n, undecided[n])],
                    'confirmed_on_real_code': {'how': f['how'], 'what': f['what'], 'input': {k: '0x%x' % v if v >= 0 else str(v) for k, v in (f['input'] or {}).items()}}}
            p = save_replay(pid, re.sub(r'\W', '_', n), data, f['driver'])
            viol.append((n, p, [('standin', n, n, '', f['what'], 'failed', 'sampling', None, 0)], True))
        elif not tried:
            nothing.append(n)

    # ---------------------------------------------------- what the library does before main
    extra = {}
    sdone, effects, sunknown = E.startup(_B.modules) if cs and pid != 'C22' else ([], [], [])
    if sdone or effects or sunknown:
        extra['startup_functions'] = {'executed': sdone, 'effects': effects, 'unknown': sunknown}
    if pid == 'C21':
        total['obligations'] += len(sdone) + len(sunknown)
        if sdone and not effects:
            total['discharged'] += len(sdone)
            kinds['pure'] += len(sdone)
            be['symbolic execution'] += len(sdone)
        if effects or sunknown:
            nat.build_all()
            f = N.startup(nat)
            if effects or f:
                p = save_replay(pid, 'start_up', {
                    'property': pid, 'function': '(start-up)', 'failed_obligations': ['(start-up)/pure: start-up code only fills static objects of the library'],
                    'verifier': effects + sunknown, 'confirmed_on_real_code': f}, N.STARTUP if f else None)
                viol.append(('(start-up)', p, [('pure', '(start-up)', '(start-up)', '', f or effects[0], 'failed', 'symbolic execution', None, 0)], bool(f)))
            else:
                stand['(start-up)'] = dict(reason=sunknown[0], inputs=1)

    # ---------------------------------------------------- thorough: sampling the same contracts
    if cs and _B and (THOROUGH or any('clang sees' in x for x in _B.notes) or effects or sunknown):
        extra = thorough_sampling(pid, nat, [c for c in cs if c.name not in fails and c.name not in undecided], viol, wk)

    # ---------------------------------------------------- what dynamic initialisation computes is not there during it
    dyn = {r['name']: r['dyninit'] for r in results if r['dyninit'] and r['name'] not in fails}
    if pid == 'C21' and dyn:
        nat.build_all()
        N.Native.shared = nat
        for name, t, f in pool_map(_early_job, [(n, SEED) for n in sorted(dyn)], 900 - 60):
            if f:
                p = save_replay(pid, re.sub(r'\W', '_', name), {
                    'property': pid, 'function': name,
                    'failed_obligations': ['%s/pure: the result does not depend on when the call is made (reads %s)' % (name, ', '.join(dyn[name]))],
                    'confirmed_on_real_code': {'how': f['how'], 'what': f['what'], 'input': {k: '0x%x' % v for k, v in (f['input'] or {}).items()}}}, f['driver'])
                viol.append((name, p, [('pure', name, name, '', f['what'] + ' when ' + f['how'], 'failed', 'replay', None, 0)], True))
        extra['called_during_static_initialisation'] = sorted(dyn)[:40]

    more = []
    if not viol:
        extra['other_configurations'], more = configurations(pid, wk)

    if THOROUGH and cs:
        import oracle
        extra['contracts_against_clang_arm_neon_h'], spec_bad = oracle.summary({c.name for c in cs} & set(contracts.ALL))
        for x in spec_bad:
            print('NOTE a contract differs from arm_neon.h: ' + x)
    if cross_bad:
        print('NOTE solver disagreement: ' + '; '.join(cross_bad[:5]))
    for n, k in known_hit:
        print('KNOWN-FINDING: property=%s %s/%s %s' % (pid, n, k, known[(n, k)]))
    for n, p, obs, conf in viol:
        print('failed obligation: ' + ob_name(obs[0]) + (' (and %d more)' % (len(obs) - 1) if len(obs) > 1 else ''))
    for n, p, obs, conf in viol:
        print('VIOLATION property=%s replay=%s%s' % (pid, p, '' if conf else ' no-failing-input-found'))
    for ln in more:
        print(ln)
    viol += [(ln, '', [], False) for ln in more if ln.startswith('VIOLATION')]
    wall = time.time() - T0
    write_evidence(pid, prop, cs, results, total, be, kinds, ext, funcs, cross, cross_bad, stand, viol, known_hit, static, extra, t_build, wall)
    print('%s: %d of %d obligations discharged over %d functions/programs, %d bounded stand-in(s), %d violation(s), %.1f s'
          % (pid, total['discharged'], total['obligations'], len(cs), len(stand), len(viol), wall))
    if nothing and not viol:
        print('no answer for: ' + ' '.join(nothing[:20]))
        return 2
    return 1 if viol else 0


def configurations(pid, wk):
    """the same check for the other ways to compile the project in which its text is different (normally none)
    -> ({configuration: what the run covered}, lines to print)"""
    out, lines = {}, []
    vs = E.variants(wk)
    for k, (name, flags) in enumerate(vs):
        left = (100000 if THOROUGH else 870) - (time.time() - T0)
        ev = os.path.join(wk, 'evidence_%d.json' % k)
        try:
            r = subprocess.run([sys.executable, os.path.abspath(__file__), pid], env=dict(os.environ, VC_VARIANT=flags, VC_EVIDENCE=ev),
                               capture_output=True, text=True, timeout=max(5, left / (len(vs) - k)))
        except subprocess.TimeoutExpired:
            out[name] = 'not finished in time'
            continue
        if r.returncode == 1 and 'VIOLATION' in r.stdout:
            lines += [x + (' [%s]' % name if x.startswith('failed') else '') for x in r.stdout.split('\n') if x.startswith(('failed obligation', 'VIOLATION'))]
        try:
            e = json.load(open(ev))
            out[name] = dict(flags=flags, violations=e['violations'],
                             **{x: e['coverage'][x] for x in ('obligations', 'discharged', 'bounded_standins')})
        except (OSError, ValueError, KeyError):
            out[name] = 'no answer: ' + r.stdout[-300:]
    return out, lines


def pool_map(f, jobs, until):
    """results of f over jobs in worker processes; what is not done at `until` seconds is dropped"""
    out = []
    if not jobs:
        return out
    until = until if not THOROUGH else 10 ** 6
    pool = mp.get_context('fork').Pool(min(JOBS, len(jobs)))
    try:
        it = pool.imap_unordered(f, jobs, 1)
        for _ in jobs:
            try:
                out.append(it.next(max(1, until - (time.time() - T0))))
            except mp.TimeoutError:
                break
    finally:
        pool.terminate()
        pool.join()
    return out


def _confirm_job(a):
    n, kinds, models = a
    try:
        return n, N.confirm(N.Native.shared, _C[n], set(kinds), models, SEED, pre=PR.history(_B, _C[n], contracts.ALL))
    except E.BuildError as e:
        return n, {'how': 'g++', 'what': str(e), 'input': {}, 'driver': None}
    except Exception:
        traceback.print_exc()
        return n, None


def _sample_job(a):
    name, seed, n, *hints = a
    c = _C[name]
    try:
        return (name,) + N.standin(N.Native.shared, c, PR.kinds_or_all(_K), n, seed, *hints)
    except Exception as e:
        print('NOTE sampling of %s failed: %r' % (name, e), flush=True)
        return name, 0, None


def _early_job(a):
    name, seed = a
    try:
        return (name,) + N.early(N.Native.shared, _C[name], 40, seed)
    except Exception:
        return name, 0, None


def thorough_sampling(pid, nat, cs, viol, wk):
    """an independent look at the same contracts: the compiled library (g++ -O2 and sanitized) against the specification"""
    nat.build_all()
    N.Native.shared = nat
    n = 500 if THOROUGH else 200
    tried = fn = 0
    for name, t, f in pool_map(_sample_job, [(c.name, SEED, n) for c in cs], 0 if THOROUGH else 700):
            tried += t
            fn += 1
            if f:
                p = save_replay(pid, re.sub(r'\W', '_', name), {
                    'property': pid, 'function': name, 'failed_obligations': ['%s/sampled call of the compiled library' % name],
                    'confirmed_on_real_code': {'how': f['how'], 'what': f['what'], 'input': {k: '0x%x' % v for k, v in (f['input'] or {}).items()}}}, f['driver'])
                viol.append((name, p, [('sampled', name, name, '', f['what'], 'failed', 'sampling', None, 0)], True))
    return {'sampled_functions': fn, 'sampled_calls': tried}


ASSUME = [
    'the unoptimised LLVM IR that clang++ emits for the sources means what the C++ sources mean (front end trusted); the obligations are about that '
    'IR, generated by the vc/ symbolic executor, whose encoding of IR semantics is trusted (cross-checked by native replay and sampling)',
    'z3 answers unsat only for unsatisfiable formulas',
    'the target is little-endian x86-64 with IEEE-754 binary32/binary64, round-to-nearest-even, no flush-to-zero, no FMA contraction (-ffp-contract=off)',
    'vector arguments passed by pointer are distinct objects; pointer arguments are valid for exactly the elements the contract names',
    'machine integers are modelled exactly (bit-vectors); nothing is treated as unbounded except inside the contract language, where integers are exact',
]


def write_evidence(pid, prop, cs, results, total, be, kinds, ext, funcs, cross, cross_bad, stand, viol, known_hit, static, extra, t_build, wall):
    trusted = ['clang++ front end', 'vc/ IR parser and symbolic executor', 'z3 %s' % E.z3.get_version_string(),
               'vc/contracts.py (Arm-manual semantics, written by hand; proved equal to the meaning clang gives the same intrinsics in arm_neon.h by vc/oracle.py, at setup and in the thorough tier)'] + ['assumed contract of external function ' + x for x in sorted(ext)]
    samples = []
    for r in sorted(results, key=lambda r: r['name'])[:3]:
        samples.append({'function': r['name'], 'contract': _C[r['name']].sig(), 'cases': r['cases'],
                        'discharged': {'%s by %s' % k: v for k, v in r['counts'].items()}})
    cov = {
        'obligations': total['obligations'], 'discharged': total['discharged'],
        'checker_cmd': 'python3-vt vc/check.py ' + pid,
        'trusted_base': trusted,
        'functions_under_contract': len([c for c in cs if not getattr(c, 'lemma', False)]),
        'lemma_programs': len([c for c in cs if getattr(c, 'lemma', False)]),
        'library_functions_executed': len([f for f in funcs if f in contracts.ALL]),
        'helper_functions_executed': sorted(f for f in funcs if f not in contracts.ALL and not f.startswith('_ZNSt') and not f.startswith('_ZNKSt')
                                            and not f.startswith('_ZSt') and not f.startswith('_ZN9__gnu'))[:40],
        'obligation_kinds': dict(kinds), 'discharged_by': dict(be),
        'immediate_cases': sum(r['cases'] for r in results),
        'reachability_covers': sum(r['covers'] for r in results),
        'solver_queries': sum(r['q'] for r in results), 'solver_seconds': round(sum(r['t'] for r in results), 2),
        'bounded_standins': stand, 'build_seconds': round(t_build, 2),
        'samples': samples,
    }
    if _B and _B.notes:
        cov['compiler_conditional_text'] = _B.notes
    if cross:
        cov['cvc5_cross_check'] = dict(cross)
        cov['solver_disagreements'] = cross_bad
    if static:
        cov['static_obligations'] = len(static['obs'])
        cov['static_compilers'] = static['compilers']
    cov.update(extra)
    ev = {'property': pid, 'tier': 'thorough' if THOROUGH else 'quick', 'seed': SEED, 'level': 'proof', 'coverage': cov,
          'assumptions': ASSUME + prop.assume, 'wall_s': round(wall, 2), 'violations': len(viol)}
    if known_hit:
        cov['known_findings'] = ['%s/%s' % k for k in known_hit]
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.environ.get('VC_EVIDENCE') or os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


if __name__ == '__main__':
    try:
        rc = main()
    except E.BuildError as e:
        print('no answer: ' + str(e))
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
