#!/usr/bin/env python3-vt
"""Tests the assumed contracts on std: every function of /verif/selftest (a use of one or a few
std operations) is executed symbolically on unconstrained texts, as the verifier does with the
code under verification; the paths derived are then compared, for a list of texts, with what
the compiled function returns.

  wrong      no derived path that admits the text gives the real result (unsound contract)
  imprecise  the real result is derived, and another one besides it
  unsupported / gap  the verifier does not decide the function (its users become bounded stand-ins)"""
import glob
import json
import multiprocessing
import os
import shutil
import subprocess
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import loopgen
import mir
from prove import *

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TEXTS = ['', 'a', ':', '.', '9', 'A', 'é', '𐀀', ' ', '<', 'ab', 'Ab', 'aB', 'a:', ':a', ':b', '::', 'a.', '.a', 'a/', '//',
         '..', 'é:', ':é', ':.', '<>', '12', 'a:b', '::b', 'a::', ':::', 'a::b', ':a:', '<a>', '_:b', 'a#b', 'a/b#', '/a/',
         'a/../', ' a ', '\ta\n', 'a9', '9a', 'a:9', 'éa:b', 'x:y:z', ':a:b:', 'ab:cd:ef', 'a.b.', 'a:b::c', 'Z:b', '\u3000x\u3000',
         'İx', '1:', '12:', ':12', 'a12', 'aé', 'aéb:', '𐀀:𐀀', '.#/', 'aa', 'aba', 'abab', 'abc', 'zzzzz']
WORDS2 = ['', 'a', ':', 'b', 'ab', 'a:', ':b', 'a:b', 'AB', 'é', 'aé', 'b:a', '::', 'a9']


def random_crate(seed, n, tgt):
    """a copy of the self-test crate whose functions are `n` random loops"""
    d, src = os.path.join(tgt, 'crate'), os.path.join(HERE, 'selftest')
    os.makedirs(os.path.join(d, 'src'), exist_ok=True)
    for f in ('Cargo.toml', 'Cargo.lock', 'src/main.rs'):
        shutil.copy(os.path.join(src, f), os.path.join(d, f))
    with open(os.path.join(src, 'src', 'lib.rs')) as f:
        text = loopgen.source(f.read(), seed, n)
    with open(os.path.join(d, 'src', 'lib.rs'), 'w') as f:
        f.write(text)
    return d


def build(tgt, d=None):
    e = dict(os.environ)
    e.update(PATH='/root/.cargo/bin:' + e.get('PATH', ''), RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true',
             RUSTC_WRAPPER='', CARGO_INCREMENTAL='0')
    d = d or os.path.join(HERE, 'selftest')
    for n in glob.glob(tgt + '/debug/deps/selftest*.mir'):
        os.remove(n)
    for n in glob.glob(tgt + '/debug/.fingerprint/selftest-*/*'):
        os.remove(n)
    for cmd in (['rustc', '--lib', '--offline', '--locked', '--target-dir', tgt, '--', '--emit=mir'],
                ['build', '--offline', '--locked', '--target-dir', tgt]):
        r = subprocess.run(['cargo'] + cmd, cwd=d, env=e, capture_output=True, text=True)
        if r.returncode:
            sys.exit('ERROR: ' + r.stderr[-2000:])
    return glob.glob(tgt + '/debug/deps/selftest*.mir')[0], os.path.join(tgt, 'debug', 'selftest')


def real(binary, texts):
    inp = '\n'.join(','.join(str(ord(c)) for c in t) for t in texts) + '\n'
    out = subprocess.run([binary], input=inp, capture_output=True, text=True, timeout=120).stdout
    res = {}
    for l in out.splitlines():
        j = json.loads(l)
        res.setdefault(j['f'], {})[j['i'], j['j']] = j['r']
    return res


def value(j):
    """the verifier's value for a result printed by the compiled function"""
    if isinstance(j, bool) or isinstance(j, int):
        return j
    if j is None:
        return NONE
    if isinstance(j, list):
        return Own(tuple(j))
    k, x = next(iter(j.items()))
    return {'c': lambda: Ch(x), 'o': lambda: ordering(x), 'some': lambda: some(value(x)), 'ok': lambda: ok(value(x)),
            'err': lambda: err(value(x)), 't': lambda: tup(*map(value, x))}[k]()


def test(prog, f, cases, texts, limit):
    """-> (status, detail)"""
    st = Stats()
    st.deadline = time.time() + limit
    two = f.startswith('b::')
    ver = Verifier(prog)
    got = {c: set() for c in cases}
    npaths = [0]

    def go(ctx):
        ex = Executor(prog, ctx, {}, frozenset(), ver.shared)
        args = [Str(any_text(ex)) for _ in range(2 if two else 1)]
        try:
            r = ex.call_body(f if f in prog.by_key else f[3:], *args)
        except RustPanic:
            r = None
        npaths[0] += 1
        approx = bool(ctx.side.get('approx'))
        for c, want in cases.items():
            def sub(ctx2):
                ex2 = ex.sub(ctx2)
                for a, i in zip(args, c):
                    if not text_eq(ex2, a.w, lit(texts[i])):
                        raise Infeasible()
                if ctx2.check() == z3.unsat:
                    raise Infeasible()
                if (r is None) or want == 'panic':
                    got[c].add((r is None) == (want == 'panic'))
                else:
                    same = bool(seq(ex2, r, value(want)))
                    if not same and ctx2.check() == z3.unsat:
                        raise Infeasible()
                    got[c].add(same)
                if approx:
                    got[c].add('approx')
            explore(sub, st, ctx)

    try:
        RUNNING.append(st)
        watch(memory=3 << 30)
        explore(go, st)
    except (Unsupported, TimeUp) as u:
        return 'unsupported', str(u)[:150]
    except (AttributeError, TypeError, KeyError, IndexError, ValueError, AssertionError, RecursionError) as e:
        return 'unsupported', 'verifier: %s %s' % (type(e).__name__, str(e)[:150])
    finally:
        RUNNING.pop()
    wrong = [c for c in cases if True not in got[c]]
    if wrong:
        return 'wrong', '%d texts, e.g. %r -> %r (%s)' % (len(wrong), [texts[i] for i in wrong[0]][:1 + two], cases[wrong[0]],
                                                      'no path' if not got[wrong[0]] else 'another result')
    imp = [c for c in cases if False in got[c]]
    if imp:
        return 'imprecise', '%d texts, e.g. %r' % (len(imp), [texts[i] for i in imp[0]][:1 + two])
    return 'ok', '%d paths' % npaths[0]


def job(a):
    mf, f, cases, texts, limit = a
    t = time.time()
    s, m = test(mir.load(mf, os.path.join(HERE, 'selftest')), f, cases, texts, limit)
    return f, s, m, time.time() - t


def main(pat='', tgt=None, limit=60, jobs=8, rand=None):
    tgt = tgt or os.path.join(HERE, 'build', 'selftest-random' if rand else 'selftest')
    mf, binary = build(tgt, random_crate(*rand, tgt) if rand else None)
    r1, r2 = real(binary, TEXTS), real(binary, WORDS2)
    work = []
    for f, cs_ in r1.items():
        if pat in f:
            work.append((mf, f, r2[f] if f.startswith('b::') else cs_, WORDS2 if f.startswith('b::') else TEXTS, limit))
    out = {}
    with multiprocessing.Pool(jobs, maxtasksperchild=1) as p:
        for f, s, m, w in p.imap_unordered(job, work):
            out.setdefault(s, []).append((f, m, w))
    return out


if __name__ == '__main__':
    if sys.argv[1:2] == ['--json']:
        o = main(limit=float(sys.argv[2]))
        print(json.dumps({s: [x[:2] for x in o.get(s, ())] for s in ('ok', 'wrong', 'imprecise', 'unsupported')}))
        sys.exit(0)
    if sys.argv[1:2] == ['--random']:
        o = main(limit=10, rand=(int(sys.argv[2]), int(sys.argv[3])))
        print(json.dumps({s: [x[:2] for x in o.get(s, ())] for s in ('ok', 'wrong', 'imprecise', 'unsupported')}))
        sys.exit(0)
    o = main(*sys.argv[1:2], tgt=sys.argv[2] if len(sys.argv) > 2 else None)
    for s in ('wrong', 'imprecise', 'unsupported'):
        for f, m, w in sorted(o.get(s, ())):
            print('%-12s %-18s %s  (%.1fs)' % (s, f, m, w))
    print({s: len(x) for s, x in o.items()}, 'slowest', sorted(((round(w, 1), f) for x in o.values() for f, m, w in x), reverse=True)[:5])
