#!/usr/bin/env python3-vt
"""Decide one property of rdftk_iri on /repo's current source.

  python3-vt check.py PROP [--tier quick|thorough]

1. rustc compiles /repo and prints the MIR of every function of the crate (the text verified is
   what the compiler generates code from).
2. rv/ discharges the property's goals: contracts of functions (body against specification) and
   lemmas over contracts, for all inputs.
3. Goals that fail are replayed: the counterexample, and a search around it, run on the real
   code (harness/).  Goals the verifier cannot decide get that search as a bounded stand-in.

Exit 0: property held.  Exit 1: VIOLATION line.  Exit 2: the check itself could not run."""
import argparse
import concurrent.futures
import fcntl
import json
import os
import re
import shutil
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'rv'))
sys.setrecursionlimit(20000)
REPO = '/repo'
CRATE = os.path.join(REPO, 'rdftk_iri')
BUILD = os.path.join(HERE, 'build')
MIRDIR, HDIR, REPLAY = (os.path.join(BUILD, n) for n in ('mir', 'harness', 'replay'))
T0 = time.time()


def env():
    e = dict(os.environ)
    e.update(PATH='/root/.cargo/bin:' + e.get('PATH', ''), RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true',
             CARGO_TERM_COLOR='never', RUSTC_WRAPPER='', CARGO_INCREMENTAL='0')
    e.pop('RUSTFLAGS', None)
    return e


def die(msg):
    print('ERROR: ' + msg, flush=True)
    os._exit(2)


def touch_times(d):
    """cargo decides by modification time; a fresh fingerprint removes that dependence"""
    for n in os.listdir(d) if os.path.isdir(d) else ():
        if n.startswith('rdftk_iri-'):
            shutil.rmtree(os.path.join(d, n), ignore_errors=True)


def build_mir():
    touch_times(os.path.join(MIRDIR, 'debug', '.fingerprint'))
    deps = os.path.join(MIRDIR, 'debug', 'deps')
    for n in os.listdir(deps) if os.path.isdir(deps) else ():
        if n.startswith('rdftk_iri-') and n.endswith('.mir'):
            os.remove(os.path.join(deps, n))
    r = subprocess.run(['cargo', 'rustc', '-p', 'rdftk_iri', '--lib', '--offline', '--target-dir', MIRDIR, '--',
                        '--emit=mir'], cwd=REPO, env=env(), capture_output=True, text=True, timeout=600)
    if r.returncode:
        return None, r.stderr[-3000:]
    ms = [n for n in os.listdir(deps) if n.startswith('rdftk_iri-') and n.endswith('.mir')]
    return (os.path.join(deps, ms[0]), '') if len(ms) == 1 else (None, 'no MIR file')


class Harness(threading.Thread):
    """builds the replay harness in the background"""
    def __init__(self):
        threading.Thread.__init__(self, daemon=True)
        self.bin, self.err = None, ''
        self.start()

    def run(self):
        touch_times(os.path.join(HDIR, 'debug', '.fingerprint'))
        try:
            r = subprocess.run(['cargo', 'build', '--offline', '--locked', '--target-dir', HDIR],
                               cwd=os.path.join(HERE, 'harness'), env=env(), capture_output=True, text=True, timeout=600)
        except Exception as e:
            self.err = str(e)
            return
        if r.returncode:
            self.err = r.stderr[-2000:]
        else:
            self.bin = os.path.join(HDIR, 'debug', 'rvh')

    def search(self, prop, secs, inputs, words, seed, jobs=8):
        """-> (violation or None, cases run)"""
        self.join()
        if self.bin is None:
            return None, None
        spec = os.path.join(BUILD, 'spec-%s-%d.json' % (prop, os.getpid()))
        with open(spec, 'w') as f:
            json.dump({'inputs': inputs, 'dict': words}, f)
        ps = [subprocess.Popen([self.bin, 'search', prop, str(seed * 1000 + i), str(secs), '1000000000000', spec],
                               stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True) for i in range(jobs)]
        cases, hit, dead = 0, None, 0
        end = time.time() + secs + 60
        left = list(ps)
        while left and time.time() < end:
            for p in list(left):
                if p.poll() is None:
                    continue
                left.remove(p)
                out = p.stdout.read()
                try:
                    j = json.loads(out.strip().splitlines()[-1])
                except Exception:
                    dead += 1
                    continue
                cases += j.get('cases', 0)
                if j['status'] == 'violation' and hit is None:
                    hit = j
            if hit:
                break
            time.sleep(0.05)
        for p in left:
            p.kill()
            dead += not hit
        os.remove(spec)
        if hit and not self.confirm(prop, hit):
            hit = None
        return hit, (cases, dead)

    def confirm(self, prop, hit):
        """the case must fail again when replayed from its file"""
        os.makedirs(REPLAY, exist_ok=True)
        p = os.path.join(REPLAY, '%s-case.json' % prop)
        with open(p, 'w') as f:
            json.dump(hit, f)
        try:
            r = subprocess.run([self.bin, 'replay', prop, p], capture_output=True, text=True, timeout=60)
        except Exception:
            return False
        return r.returncode == 1 and '"violation"' in r.stdout


STR = re.compile(r'"((?:[^"\\]|\\.)*)"')
CHR = re.compile(r"'([^'\\]|\\[^u]|\\u\{[0-9A-Fa-f]+\})'")
INT = re.compile(r'(?<![\w.])(0x[0-9A-Fa-f_]+|\d[\d_]*)(?:usize|u8|u16|u32|u64|i32|i64)?(?![\w.])')


def unescape(s):
    s = re.sub(r'\\u\{([0-9A-Fa-f]+)\}', lambda m: chr(int(m.group(1), 16)), s)
    for a, b in (('\\n', '\n'), ('\\t', '\t'), ('\\r', '\r'), ('\\"', '"'), ("\\'", "'"), ('\\0', '\0'), ('\\\\', '\\')):
        s = s.replace(a, b)
    return s


def dictionary():
    """literals of the source: search hints only"""
    out, ints = [], set()
    for d, _, fs in os.walk(os.path.join(CRATE, 'src')):
        for n in sorted(fs):
            if not n.endswith('.rs'):
                continue
            with open(os.path.join(d, n), encoding='utf-8') as f:
                for line in f:
                    if line.lstrip().startswith('//'):
                        continue
                    out += [unescape(m) for m in STR.findall(line)] + [unescape(m) for m in CHR.findall(line)]
                    for m in INT.findall(line):
                        try:
                            ints.add(int(m.replace('_', ''), 0))
                        except ValueError:
                            pass
    for i in sorted(ints):
        if 1 < i <= 5000:
            out += ['a' * k for k in (i - 1, i, i + 1)]
    seen, res = set(), []
    for s in out:
        if s not in seen and len(s) <= 5100:
            seen.add(s)
            res.append(s)
    return res


def known(prop):
    p = os.path.join(HERE, 'known-findings.txt')
    out = []
    if os.path.exists(p):
        with open(p) as f:
            for l in f:
                if l.startswith('open: property=%s ' % prop):
                    out.append(l.split(' ', 2)[2].strip())
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    a = ap.parse_args()
    prop, tier = a.prop, a.tier
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.makedirs(REPLAY, exist_ok=True)
    lock = open(os.path.join(BUILD, 'lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    shutil.rmtree(os.path.join(REPLAY, prop), ignore_errors=True)
    h = Harness() if tier == 'thorough' else None     # otherwise built when first needed
    mirf, err = build_mir()
    if mirf is None:
        die('/repo does not build: ' + err)
    import mir
    from prove import Verifier, watch
    from goals import GOALS
    limit, total = (90, 420) if tier == 'quick' else (300, 480)
    ps = []
    try:
        prog = mir.load(mirf, REPO)
        V = Verifier(prog, limit=limit)
    except Exception as e:
        die('MIR not understood: %r' % e)
    watch()
    V.end = time.time() + total
    if tier == 'thorough':
        V.stats.refuted = []
    res = []
    for g in GOALS[prop]:
        try:
            res.append(V.goal(g))
        except Exception as e:                       # never an alarm
            from prove import Result
            r = Result(g.name)
            r.status, r.msg = 'unsupported', 'verifier: %r' % e
            res.append(r)
        if res[-1].status != 'ok' and h is None:
            h = Harness()
    st = V.stats
    if prop == 'P12':                                    # the contract of the map crate, on its own code
        res += bimap(st, mirf)
        if res[-1].status != 'ok' and h is None:
            h = Harness()
    failed = [r for r in res if r.status == 'failed']
    unsup = [r for r in res if r.status == 'unsupported']
    for r in res:
        if r.status != 'ok':
            print('%s: %s: %s %s' % (prop, r.name, r.status, r.msg or [f[:2] for f in r.failures]))
    words = dictionary()
    inputs = [i for r in failed for f in r.failures for i in (f[2] or [])]
    hit, ran, extra = None, None, {}
    if failed or unsup or tier == 'thorough':
        secs = (300 if tier == 'thorough' else 45 if failed else 90)
        secs = max(5, min(secs, 800 - (time.time() - T0)))
        hit, ran = h.search(prop, secs, inputs, words, seed)
        if hit is None and (ran is None or (ran[1] and not ran[0])):
            print('replay harness not available: ' + h.err[-300:])
    if tier == 'thorough' and hit is None and h.bin:
        left = max(5, min(60, 850 - (time.time() - T0)))
        uhit, uran = h.search('url', left, [], words, seed)
        if uhit:
            die('an assumption about the url crate does not hold: %s' % json.dumps(uhit))
        extra['assumed_url_contracts_cross_checked_cases'] = uran[0]
    if tier == 'thorough':
        extra['second_back_end'] = second_solver(V.stats)
    if tier == 'thorough' and hit is None and time.time() - T0 < 500:
        extra['std_contract_self_test'] = selftest('--json', '10')
    if tier == 'thorough' and hit is None and time.time() - T0 < 600:
        extra['loop_summary_self_test'] = selftest('--random', str(seed), '60')
    exact = [(r.name, f[0]) for r in failed for f in r.failures if f[1]]
    viol = bool(hit or exact)
    replay = os.path.join(REPLAY, prop + '.json')
    if viol:
        with open(replay, 'w') as f:
            json.dump({'property': prop, 'case': hit and hit['case'], 'what': hit and hit['what'],
                       'replay_with': '%s replay %s %s' % (os.path.join(HDIR, 'debug', 'rvh'), prop, replay),
                       'failed_obligations': [{'goal': r.name, 'obligation': f[0], 'exact': f[1], 'model': f[2]}
                                              for r in failed for f in r.failures],
                       'undecided_goals': [{'goal': r.name, 'reason': r.msg} for r in unsup]},
                      f, indent=1, ensure_ascii=False)
    nob = sum(v[0] for v in st.obligations.values())
    ndis = sum(v[1] for v in st.obligations.values())
    fns = sorted(k for k, r in V.results.items() if r.status == 'ok')
    undecided = len(failed) + len(unsup)
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof', 'violations': int(viol),
        'wall_s': round(time.time() - T0, 2),
        'coverage': {
            'obligations': nob, 'discharged': ndis,
            'checker_cmd': 'python3-vt check.py %s --tier %s' % (prop, tier),
            'trusted_base': ['rustc: MIR printed by --emit=mir is the program compiled',
                             'rv/: MIR semantics and word-decomposition of strings', 'z3 %s (back end)' % z3_version(),
                             'rv/std.py: contracts of std functions (listed under assumed_std_contracts)',
                             'rv/urlm.py: contract of the url crate (U1-U6)',
                             'rv/mapm.py: contract of bimap::BiBTreeMap (discharged by P12 on the MIR of that crate, from the std '
                             'contracts of BTreeMap and Rc in rv/bimapm.py) and uuid v4 freshness (U7)'],
            'goals': len(res), 'goals_proved': len([r for r in res if r.status == 'ok']),
            'goals_undecided': [{'goal': r.name, 'reason': (r.msg or str([f[0] for f in r.failures]))[:200]}
                                for r in failed + unsup],
            'functions_under_contract': fns, 'contracts_used_by_callers': sorted(st.contracts_used),
            'functions_verified_inline': sorted(st.inlined),
            'assumed_std_contracts': sorted(st.assumptions), 'paths': st.paths,
            'obligations_by_back_end': st.backend, 'solver_queries': st.queries,
            'solver_s': round(st.solver_s, 2), 'solver_unknown': st.unknown,
            'bounded_stand_in': None if ran is None else {
                'label': 'bounded: random and counterexample-guided runs of the real code, never counted as proved',
                'cases': ran[0], 'for_goals': [r.name for r in failed + unsup]},
            'per_goal_s': {r.name: round(r.wall, 2) for r in res}, **extra},
        'assumptions': ASSUMPTIONS}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    print('%s: %d/%d goals proved, %d/%d obligations discharged, %d paths, %d solver queries (%.1f s), %.1f s' % (
        prop, len(res) - undecided, len(res), ndis, nob, st.paths, st.queries, st.solver_s, time.time() - T0))
    for k in known(prop):
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    if viol:
        print('VIOLATION property=%s replay=%s%s' % (prop, replay, '' if hit else ' no-failing-input-found'), flush=True)
        os._exit(1)
    if not nob and not ran:
        die('no obligation was generated')
    if undecided and (ran is None or not ran[0]):
        die('%d goals undecided and no bounded run possible' % undecided)
    if undecided:
        print('%s: %d goals undecided by the verifier; bounded stand-in ran %d cases without a violation' % (
            prop, undecided, ran[0]))
    sys.stdout.flush()
    os._exit(0)


def bimap(st, mirf):
    """Discharge the contract assumed of bimap::BiBTreeMap; a dependency's failure is never an alarm."""
    import bimapm
    from prove import Result
    try:
        f, d = bimapm.build(os.path.join(REPO, 'Cargo.lock'), os.path.dirname(mirf), os.path.join(BUILD, 'bimap'), env())
        if f is None:
            raise RuntimeError(d)
        res, s2 = bimapm.prove(f, d)
        bad = [r for r in res if r.status != 'ok']
    except Exception as e:
        bad, res, s2 = [None], [], None
        msg = repr(e)[:200]
    if bad:
        r = Result('contract of bimap::BiBTreeMap')
        r.status, r.msg = 'unsupported', msg if bad[0] is None else '%s %s' % (bad[0].name, bad[0].msg or bad[0].failures[0][0])
        return [x for x in res if x.status == 'ok'] + [r]
    for n, v in s2.obligations.items():
        st.obligations[n] = v
    for n, v in s2.backend.items():
        st.backend[n] = st.backend.get(n, 0) + v
    for n in ('queries', 'solver_s', 'solver_unknown', 'unknown', 'paths'):
        if hasattr(s2, n):
            setattr(st, n, getattr(st, n) + getattr(s2, n))
    st.inlined |= {'bimap: ' + n for n in s2.inlined}
    st.assumptions |= {'bimap: ' + n for n in s2.assumptions}
    return res


def second_solver(st):
    """a sample of the queries z3 refuted (infeasible paths, discharged obligations), put to cvc5"""
    def ask(q):
        if time.time() - T0 > 820:
            return 'not asked'
        try:
            r = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=20000'], input='(set-logic ALL)\n' + q,
                               capture_output=True, text=True, timeout=30)
            return (r.stdout.split() or ['no answer'])[0]
        except (OSError, subprocess.TimeoutExpired):
            return 'no answer'
    with concurrent.futures.ThreadPoolExecutor(8) as p:
        got = list(p.map(ask, st.refuted))
    if 'sat' in got:
        die('z3 and cvc5 disagree: ' + st.refuted[got.index('sat')][:2000])
    return {'solver': 'cvc5', 'sampled': len(got), 'of_refuted_queries': st.nrefuted, 'agree': got.count('unsat'),
            'no_answer': len(got) - got.count('unsat')}


def selftest(*args):
    """Test the contracts of rv/std.py against compiled code; a wrong one makes every proof worthless."""
    try:
        r = subprocess.run([sys.executable, os.path.join(HERE, 'rv', 'selftest.py'), *args],
                           capture_output=True, text=True, timeout=max(10, 850 - (time.time() - T0)))
        o = json.loads(r.stdout.splitlines()[-1])
    except (subprocess.TimeoutExpired, ValueError, IndexError):
        return {'label': 'not finished'}
    if o['wrong']:
        die('an assumed std contract or a loop summary does not hold: %s' % o['wrong'][:3])
    return {'label': 'bounded: ' + ('functions over std operations' if args[0] == '--json' else 'random loops over a text') + ', derived paths compared with the compiled result on fixed texts',
            **{k: len(v) for k, v in o.items()}}


def z3_version():
    import z3
    return z3.get_version_string()


ASSUMPTIONS = [
    'U1-U6: behaviour of url::Url (parse, components, setters, join, equality, order) as in rv/urlm.py; the crate is a dependency and is not verified; cross-checked on random inputs by the thorough tier',
    'U7: Uuid::new_v4 returns a value never returned before (probabilistic in reality)',
    'BiBTreeMap behaves as a finite bijection ordered by Ord: discharged by the check of P12 on the source of the dependency; assumed there: std BTreeMap and Rc behave as specified in rv/bimapm.py, #[repr(transparent)] casts, key clones equal their originals; owned into_iter, range views and Debug are not covered and not used',
    'std functions behave as specified in rv/std.py; allocation never fails; text lengths are below 2^32',
    'formatting sinks given to Display are infallible Strings (to_string, format!)',
    'the debug-profile MIR with default features is the program (std, genid, serde)',
]

if __name__ == '__main__':
    main()
