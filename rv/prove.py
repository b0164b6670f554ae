"""Driver of the deductive verifier: discharges contracts and goals over a MIR program."""
import time
from specs import *


class Result:
    def __init__(self, name):
        self.name = name
        self.status = 'ok'        # ok | failed | unsupported
        self.failures = []        # (label, exact, inputs)
        self.msg = ''
        self.paths = 0
        self.wall = 0.0


def snapshot(args):
    memo = {}
    return [clone_val(a, memo, 0) for a in args]


def describe(v):
    return repr(v)[:300]


def check_contract(ex, c, key=None):
    """body of c.key meets its contract on this path"""
    args = c.args(ex)
    pre = snapshot(args)
    try:
        r = ex.call_body(key or c.key, *args)
        panic = None
    except RustPanic as p:
        panic = p.msg
    try:
        want = c.spec(ex, *pre)
    except RustPanic:
        raise Infeasible()                # outside the documented precondition
    if panic is not None:
        ex.ctx.prove(False, 'no panic (%s)' % panic[:80])
    ex.ctx.stats.ob('no panic', True, 'symbolic-execution')
    ex.ctx.prove(seq(ex, r, want), 'ensures result = specified result')
    for i, (a, b) in enumerate(zip(args, pre)):
        if isinstance(a, Ref):
            ex.ctx.prove(seq(ex, a, b), 'ensures argument %d has its specified final value' % (i + 1))


def concretise(ctx):
    """concrete inputs for a failing path"""
    out = []
    ctx2 = ctx
    m = None
    # prefer short strings
    for bound in (1, 2, 4, 8, 40, 300, None):
        ctx.solver.push()
        try:
            if bound is not None:
                for i in list(ctx.sets):
                    ctx.solver.add(z3.Int('cl!%d' % i) <= bound)
            ctx.solver.set('timeout', 3000)
            if ctx.solver.check() == z3.sat:
                m = ctx.solver.model()
                break
        finally:
            ctx.solver.pop()
    if m is None:
        return None

    def conc(w):
        return ctx.concretise(w, m)

    def url(u):
        def get(x):
            if isinstance(x, Lazy):
                return ctx.lazy.get(lazy_key(ctx, x.key), 'unset')
            return x
        c, p, q, f = get(u.cbb), get(u.path), get(u.query), get(u.frag)
        A = conc(u.A)
        if c == 'unset':
            c = False
        if not c:
            sch = 'http' if p != () else 'foo'
            A = sch + '://h.example'
            p = '/a/b' if p == 'unset' else conc(p)
        else:
            A = 'urn:'
            p = 'a:b' if p == 'unset' else conc(p)
        s = A + p
        if q not in (None, 'unset'):
            s += '?' + conc(q)
        if f not in (None, 'unset'):
            s += '#' + conc(f)
        return s

    def val(kind, v):
        if isinstance(v, (Str, Own)):
            return conc(v.w)
        if isinstance(v, Struct) and v.name in ('Name', 'Namespace'):
            return conc(v.fs[0].w)
        if isinstance(v, Struct) and v.name == 'Iri':
            return url(v.fs[0])
        if isinstance(v, MapV):
            if v.base is None:
                return []
            b = ctx.mapinfo[v.base]
            return [[val('ns', p[0]), val('iri', p[1])] for p in b.pairs]
        return None

    for kind, v in ctx.inputs:
        try:
            out.append([kind, val(kind, v)])
        except Exception:
            pass
    return out


class Verifier:
    """Verifies contracts on demand: a call to a function with a contract first discharges
    that contract (once); when it cannot, callers see the body."""

    def __init__(self, prog, limit=60, max_fail=3):
        self.prog, self.limit, self.max_fail = prog, limit, max_fail
        self.stats = Stats()
        self.shared = {'pred': {}, 'loops': {}, 'live': {}, 'consts': {}, 'stateless': {}}
        self.results = {}
        self.active = set()
        self.specs = {k: c.spec for k, c in CONTRACTS.items()}
        self.end = None

    def __contains__(self, key):
        if key not in CONTRACTS:
            return False
        if key in self.results:
            return self.results[key].status == 'ok'
        if key in self.active:
            return False
        return self.contract(key).status == 'ok'

    def contract(self, key):
        if key in self.results:
            return self.results[key]
        self.active.add(key)
        try:
            r = self.run('contract ' + key, lambda ex: check_contract(ex, CONTRACTS[key]))
        finally:
            self.active.discard(key)
        self.results[key] = r
        return r

    def goal(self, g):
        if g.key is not None:
            return self.contract(g.key)
        return self.run(g.name, g.fn)

    def run(self, name, fn):
        st = self.stats
        saved = (st.goal, st.deadline)
        try:
            return self._run(name, fn)
        finally:
            st.goal, st.deadline = saved

    def _run(self, name, fn):
        """fn(ex) raises ObligationFailed when an obligation fails"""
        res = Result(name)
        st = self.stats
        st.goal = name
        t0 = time.time()
        st.deadline = t0 + self.limit
        if self.end is not None:
            st.deadline = min(st.deadline, self.end)

        class Enough(Exception):
            pass

        def go(ctx):
            ex = Executor(self.prog, ctx, self.specs, self, self.shared)
            try:
                try:
                    fn(ex)
                    res.paths += 1
                except RustPanic as p:
                    ctx.prove(False, 'no panic (%s)' % p.msg[:80])
            except ObligationFailed as o:
                exact = not ctx.side.get('approx') and not ctx.diseqs
                try:
                    inputs = concretise(ctx)
                except Exception:
                    inputs = None
                res.failures.append((o.label, exact, inputs))
                if len(res.failures) >= self.max_fail:
                    raise Enough()

        try:
            RUNNING.append(st)
            try:
                explore(go, st)
            finally:
                RUNNING.pop()
        except Enough:
            pass
        except TimeUp as t:
            res.status, res.msg = 'unsupported', str(t)
        except Unsupported as u:
            res.status, res.msg = 'unsupported', str(u)[:300]
        except RecursionError:
            res.status, res.msg = 'unsupported', 'recursion limit'
        except z3.Z3Exception as e:
            res.status, res.msg = 'unsupported', 'z3: ' + str(e)[:200]
        except (AttributeError, TypeError, KeyError, IndexError, ValueError, AssertionError) as e:
            res.status, res.msg = 'unsupported', 'verifier: %s %s' % (type(e).__name__, str(e)[:200])
        if res.failures:
            res.status = 'failed'
        elif res.status == 'ok' and not res.paths:
            res.status, res.msg = 'unsupported', 'vacuous: no feasible path'
        res.wall = time.time() - t0
        return res
