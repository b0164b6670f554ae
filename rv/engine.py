"""Symbolic states, strings and path exploration.

A path condition is a set of z3 assertions over integers (characters are their
scalar values, lengths are byte / char counts).  Strings are *words*: tuples of
atoms, an atom being a literal scalar value (int), a symbolic character (CV) or
a string variable (SV).  String variables stand for arbitrary, unboundedly long
strings; facts about them are
  * the set of characters every one of their characters belongs to (CharSet),
  * z3 integers for their byte length and char count,
and everything else is expressed by decomposing a variable (v = v1 ++ c ++ v2)
with an exhaustive case split.  No string is ever bounded.
"""
import random
import resource
import signal

import z3
from functools import lru_cache

MAXCP = 0x10FFFF
SCALAR = ((0, 0xD7FF), (0xE000, MAXCP))


class Infeasible(Exception):
    pass


class Unsupported(Exception):
    pass


class RustPanic(Exception):
    def __init__(self, msg):
        Exception.__init__(self, msg)
        self.msg = msg


class ObligationFailed(Exception):
    def __init__(self, label, detail=''):
        Exception.__init__(self, label)
        self.label = label
        self.detail = detail


# ------------------------------------------------------------------ char sets
def _norm_iv(iv):
    iv = sorted((lo, hi) for lo, hi in iv if lo <= hi)
    out = []
    for lo, hi in iv:
        if out and lo <= out[-1][1] + 1:
            if hi > out[-1][1]:
                out[-1] = (out[-1][0], hi)
        else:
            out.append((lo, hi))
    return tuple(out)


_AT = {}


def _tree(t, iv):
    return z3.Or(*[(z3.And(t >= a, t <= b) if a != b else t == a) for a, b in iv])


class CharSet:
    """A set of Unicode scalar values as disjoint sorted intervals."""
    __slots__ = ('iv', '_n')

    def __init__(self, iv):
        self.iv = _norm_iv(iv)
        self._n = None

    def __eq__(self, o):
        return isinstance(o, CharSet) and self.iv == o.iv

    def __hash__(self):
        return hash(self.iv)

    def __and__(self, o):
        out = []
        for a, b in self.iv:
            for c, d in o.iv:
                lo, hi = max(a, c), min(b, d)
                if lo <= hi:
                    out.append((lo, hi))
        return CharSet(out)

    def __or__(self, o):
        return CharSet(self.iv + o.iv)

    def neg(self):
        if self._n is not None:
            return self._n
        out = []
        for lo0, hi0 in SCALAR:
            cur = lo0
            for a, b in self.iv:
                if b < lo0 or a > hi0:
                    continue
                if a > cur:
                    out.append((cur, min(a - 1, hi0)))
                cur = max(cur, b + 1)
            if cur <= hi0:
                out.append((cur, hi0))
        r = self._n = CharSet(out)
        r._n = self
        return r

    def __sub__(self, o):
        return self & o.neg()

    def empty(self):
        return not self.iv

    def size(self):
        return sum(b - a + 1 for a, b in self.iv)

    def has(self, c):
        return any(a <= c <= b for a, b in self.iv)

    def subset(self, o):
        return (self & o.neg()).empty()

    def ascii(self):
        return all(b < 0x80 for a, b in self.iv)

    def at(self, t):
        if isinstance(t, int):
            return self.has(t)
        if isinstance(t, CV):
            t = t.z
        if not self.iv:
            return z3.BoolVal(False)
        if self is ANY:
            return z3.And(t >= 0, t <= MAXCP, z3.Or(t <= 0xD7FF, t >= 0xE000))
        key = (self.iv, t.get_id())
        r = _AT.get(key)
        if r is None:
            n = self.neg()
            if len(n.iv) < len(self.iv):
                f = z3.Not(_tree(t, n.iv))
            else:
                f = _tree(t, self.iv)
            if len(_AT) > 20000:
                _AT.clear()
            r = _AT[key] = (f, t)
        return r[0]

    def sample(self, prefer=b"ab1xAZ_-.09:/#?<> "):
        for c in prefer:
            if self.has(c):
                return c
        return self.iv[0][0] if self.iv else None

    def __repr__(self):
        return 'CharSet(' + ','.join('%X-%X' % x for x in self.iv[:6]) + ('..' if len(self.iv) > 6 else '') + ')'


ANY = CharSet(SCALAR)
NOCHARS = CharSet(())


def cs(*xs):
    out = []
    for x in xs:
        if isinstance(x, str):
            out += [(ord(c), ord(c)) for c in x]
        elif isinstance(x, int):
            out.append((x, x))
        else:
            out.append(x)
    return CharSet(out)


ASCII = cs((0, 0x7F))


class OpenPred:
    """Character predicate whose formula mentions other symbolic values."""
    def __init__(self, var, formula, neg=None):
        self.var, self.formula = var, formula
        self._neg = neg

    def at(self, t):
        if isinstance(t, CV):
            t = t.z
        if isinstance(t, int):
            t = z3.IntVal(t)
        return z3.substitute(self.formula, (self.var, t))

    def neg(self):
        if self._neg is None:
            self._neg = OpenPred(self.var, z3.Not(self.formula), self)
        return self._neg


class _NotSet(Exception):
    pass


def to_charset(var, formula):
    """Convert a formula over the single integer `var` to a CharSet when its atoms only
    compare var with numerals; otherwise an OpenPred."""
    K = z3
    memo = {}
    vid = var.get_id()

    def conv(e):
        i = e.get_id()
        r = memo.get(i)
        if r is None:
            r = memo[i] = conv1(e)
        return r

    def conv1(e):
        k = e.decl().kind()
        if k == K.Z3_OP_TRUE:
            return ANY
        if k == K.Z3_OP_FALSE:
            return NOCHARS
        if k == K.Z3_OP_NOT:
            return conv(e.arg(0)).neg()
        if k == K.Z3_OP_AND:
            r = ANY
            for x in e.children():
                r = r & conv(x)
            return r
        if k == K.Z3_OP_OR:
            iv = ()
            for x in e.children():
                iv = iv + conv(x).iv
            return CharSet(iv)
        if k == K.Z3_OP_IMPLIES:
            return conv(e.arg(0)).neg() | conv(e.arg(1))
        if k == K.Z3_OP_ITE:
            c = conv(e.arg(0))
            return (c & conv(e.arg(1))) | (c.neg() & conv(e.arg(2)))
        if k in (K.Z3_OP_EQ, K.Z3_OP_DISTINCT, K.Z3_OP_LE, K.Z3_OP_GE, K.Z3_OP_LT, K.Z3_OP_GT):
            ch = e.children()
            if len(ch) != 2:
                raise _NotSet()
            a, b = ch
            if a.sort_kind() == K.Z3_BOOL_SORT:
                x, y = conv(a), conv(b)
                r = (x & y) | (x.neg() & y.neg())
                return r if k == K.Z3_OP_EQ else r.neg()
            if a.get_id() == vid and z3.is_int_value(b):
                n = b.as_long()
            elif b.get_id() == vid and z3.is_int_value(a):
                n = a.as_long()
                k = {K.Z3_OP_LE: K.Z3_OP_GE, K.Z3_OP_GE: K.Z3_OP_LE, K.Z3_OP_LT: K.Z3_OP_GT,
                     K.Z3_OP_GT: K.Z3_OP_LT}.get(k, k)
            elif z3.is_int_value(a) and z3.is_int_value(b):
                p, q = a.as_long(), b.as_long()
                t = {K.Z3_OP_EQ: p == q, K.Z3_OP_DISTINCT: p != q, K.Z3_OP_LE: p <= q, K.Z3_OP_GE: p >= q,
                     K.Z3_OP_LT: p < q, K.Z3_OP_GT: p > q}[k]
                return ANY if t else NOCHARS
            else:
                raise _NotSet()
            lo, hi = {K.Z3_OP_EQ: (n, n), K.Z3_OP_DISTINCT: (n, n), K.Z3_OP_LE: (0, n), K.Z3_OP_GE: (n, MAXCP),
                      K.Z3_OP_LT: (0, n - 1), K.Z3_OP_GT: (n + 1, MAXCP)}[k]
            r = CharSet([(max(lo, 0), min(hi, MAXCP))]) & ANY
            return r.neg() if k == K.Z3_OP_DISTINCT else r
        raise _NotSet()

    try:
        return conv(formula)
    except _NotSet:
        return OpenPred(var, formula)


# ------------------------------------------------------------------ words
class SV:
    __slots__ = ('id', 'name', 'bl', 'cl')

    def __init__(self, id, name):
        self.id, self.name = id, name
        self.bl = z3.Int('bl!%d' % id)
        self.cl = z3.Int('cl!%d' % id)

    def __repr__(self):
        return '$' + self.name + str(self.id)


class CV:
    __slots__ = ('z', 'id')

    def __init__(self, z, id):
        self.z, self.id = z, id

    def __repr__(self):
        return "'" + str(self.z)


def lit(s):
    return tuple(ord(c) for c in s)


def cz(c):
    """z3/int view of a character atom"""
    return c.z if isinstance(c, CV) else c


def ch_atom(v):
    """character value -> atom"""
    if isinstance(v, (int, CV)) and not isinstance(v, bool):
        return v
    v = z3.simplify(v)
    if z3.is_int_value(v):
        return v.as_long()
    return CV(v, v.get_id())


def u8len(c):
    if isinstance(c, int):
        return 1 if c < 0x80 else 2 if c < 0x800 else 3 if c < 0x10000 else 4
    z = c.z
    return z3.If(z < 0x80, 1, z3.If(z < 0x800, 2, z3.If(z < 0x10000, 3, z3.IntVal(4))))


# ------------------------------------------------------------------ statistics
class TimeUp(BaseException):
    """raised by `watch` in the middle of a goal; no handler of a failed attempt may catch it"""


RUNNING = []      # the Stats of the goal being decided, if any


def watch(grace=5, memory=12 << 30):
    """Ends a goal that is past its deadline, or this process's share of memory, without reaching a place that
    looks at the clock (a single path that never ends)."""
    def tick(signum, frame):
        if not RUNNING:
            return
        with open('/proc/self/statm') as f:
            rss = int(f.read().split()[1]) * resource.getpagesize()
        if rss > memory:
            raise TimeUp('memory limit')
        st = RUNNING[-1]
        if st.deadline and _time.time() > st.deadline + grace:
            raise TimeUp('time limit')
    signal.signal(signal.SIGALRM, tick)
    signal.setitimer(signal.ITIMER_REAL, 3, 3)


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.paths = 0
        self.obligations = {}     # label -> [count, discharged]
        self.backend = {}
        self.assumptions = set()
        self.inlined = set()
        self.contracts_used = set()
        self.goal = ''
        self.lits = set()
        self.deadline = None
        self.sites = {}
        self.refuted = None       # a sample of the refuted queries, for a second solver
        self.nrefuted = 0
        self.rnd = random.Random(1)

    def keep(self, solver, extra, size=5000):
        """reservoir sample of the queries the solver refuted"""
        self.nrefuted += 1
        k = self.nrefuted - 1 if self.nrefuted <= size else self.rnd.randrange(self.nrefuted)
        if k >= size:
            return
        s = z3.Solver()
        s.add(*solver.assertions(), *extra)
        self.refuted[k:k + 1] = [s.to_smt2()]

    def ob(self, label, ok, how='structural'):
        if self.goal:
            label = self.goal + ': ' + label
        e = self.obligations.setdefault(label, [0, 0])
        e[0] += 1
        if ok:
            e[1] += 1
            self.backend[how] = self.backend.get(how, 0) + 1


import time as _time
TIMEOUT_MS = 10000


class Ctx:
    """One path."""
    def __init__(self, prefix, stats, base=None):
        self.prefix = prefix
        self.pos = 0
        self.decisions = []
        self.stats = stats
        self.solver = z3.Solver()
        self.solver.set('timeout', TIMEOUT_MS)
        self.asserted = []
        self.memo = {}
        self.replays, self.nreplay = {}, 0
        self.fuel = 40000
        if base is None:
            self.next_id = 1
            self.subst = {}
            self.sets = {}
            self.opens = {}
            self.diseqs = []
            self.inputs = []
            self.lazy = {}
            self.mapinfo = {}
            self.urls = []
            self.side = {}
            self.depth = 0
        else:
            self.next_id = base.next_id + 100000
            self.subst = dict(base.subst)
            self.sets = dict(base.sets)
            self.opens = dict(base.opens)
            self.diseqs = list(base.diseqs)
            self.inputs = base.inputs
            self.lazy = dict(base.lazy)
            self.mapinfo = {k: v.copy() for k, v in base.mapinfo.items()}
            self.urls = list(base.urls)
            self.side = dict(base.side)
            self.depth = base.depth + 1
            for a in base.asserted:
                self.solver.add(a)
            self.asserted = list(base.asserted)
            self.base_len = len(self.asserted)

    # -- solver
    def check(self, *extra):
        self.stats.queries += 1
        t = _time.time()
        r = self.solver.check(*extra)
        self.stats.solver_s += _time.time() - t
        if r == z3.unknown:
            self.stats.unknown += 1
        elif r == z3.unsat and self.stats.refuted is not None:
            self.stats.keep(self.solver, extra)
        return r

    def add(self, cond):
        if cond is True:
            return
        if cond is False:
            raise Infeasible()
        self.solver.add(cond)
        self.asserted.append(cond)

    def once(self, f):
        """f(), where paths with the same decisions so far give the same value (explored in
        contexts of their own): computed on the first of them"""
        self.nreplay += 1
        key = len(self.decisions), self.nreplay
        if key not in self.replays:
            self.replays[key] = f()
        return self.replays[key]

    @property
    def replaying(self):
        return self.pos < len(self.prefix)

    def assume(self, cond):
        if cond is True:
            return
        if cond is False:
            raise Infeasible()
        self.add(cond)
        if not self.replaying and self.check() == z3.unsat:
            raise Infeasible()

    def burn(self, n=1):
        self.fuel -= n
        if self.fuel < 0:
            raise Unsupported('path too long')

    def _take(self, options):
        if self.pos < len(self.prefix):
            idx, n = self.prefix[self.pos]
        else:
            idx, n = 0, len(options)
        self.pos += 1
        self.decisions.append((idx, n))
        if len(self.decisions) > 3000:
            raise Unsupported('too many decisions')
        return idx

    def choose(self, n):
        return self._take(range(n))

    def branch(self, cond):
        """Fork on a condition; returns a Python bool."""
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.pos < len(self.prefix):
            idx, n = self.prefix[self.pos]
            self.pos += 1
            self.decisions.append((idx, n))
            # n: 2 = both, 11 = forced true, 10 = forced false
            val = (idx == 0) if n == 2 else (n == 11)
        else:
            t = self.check(cond) != z3.unsat
            f = self.check(z3.Not(cond)) != z3.unsat
            if t and f:
                d = (0, 2)
                val = True
            elif t:
                d = (0, 11); val = True
            elif f:
                d = (0, 10); val = False
            else:
                raise Infeasible()
            self.pos += 1
            self.decisions.append(d)
        self.add(cond if val else z3.Not(cond))
        return val

    def entails(self, cond):
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        return self.check(z3.Not(cond)) == z3.unsat

    # -- fresh
    def fresh_id(self):
        self.next_id += 1
        return self.next_id

    def fresh_int(self, name, lo=None, hi=None):
        z = z3.Int('%s!%d' % (name, self.fresh_id()))
        if lo is not None:
            self.add(z >= lo)
        if hi is not None:
            self.add(z <= hi)
        return z

    def fresh_char(self, cset=ANY, name='c'):
        i = self.fresh_id()
        z = z3.Int('%s!%d' % (name, i))
        c = CV(z, i)
        self.add(ANY.at(z))
        if cset is not ANY:
            self.add(cset.at(z))
        return c

    def fresh_sv(self, name='s', cset=ANY):
        v = SV(self.fresh_id(), name)
        self.add(z3.And(v.cl >= 0, v.bl >= v.cl, v.bl <= 4 * v.cl))
        self.sets[v.id] = ANY
        self.opens[v.id] = ()
        if cset is not ANY:
            self.add_pred(v, cset)
        return v

    def fresh_word(self, name='s', cset=ANY):
        return (self.fresh_sv(name, cset),)

    def input_word(self, name='s', cset=ANY):
        v = self.fresh_sv(name, cset)
        self.add(v.bl <= 2 ** 63 - 1)
        return (v,)

    # -- words
    def norm(self, w):
        for a in w:
            if isinstance(a, SV) and a.id in self.subst:
                break
        else:
            return w
        out = []
        for a in w:
            if isinstance(a, SV) and a.id in self.subst:
                out.extend(self.norm(self.subst[a.id]))
            else:
                out.append(a)
        return tuple(out)

    def add_pred(self, v, p):
        if isinstance(p, CharSet):
            s = self.sets[v.id] & p
            self.sets[v.id] = s
            if s.empty():
                self.add(v.cl == 0)
            elif s.ascii():
                self.add(v.bl == v.cl)
        else:
            self.opens[v.id] = self.opens[v.id] + (p,)

    def constrain_all(self, w, p):
        for a in self.norm(w):
            if isinstance(a, SV):
                self.add_pred(a, p)
            elif isinstance(a, int):
                c = p.at(a)
                if c is False:
                    raise Infeasible()
                self.add(c)
            else:
                self.add(p.at(a))

    def assign(self, v, w):
        """v := w (w does not contain v)"""
        w = self.norm(w)
        assert v not in w
        self.subst[v.id] = w
        self.add(v.bl == self.blen(w))
        self.add(v.cl == self.clen(w))
        if self.sets[v.id] is not ANY:
            self.constrain_all(w, self.sets[v.id])
        for p in self.opens[v.id]:
            self.constrain_all(w, p)
        for a, b in self.diseqs:
            if self.norm(a) == self.norm(b):
                raise Infeasible()
        if not self.replaying and self.check() == z3.unsat:
            raise Infeasible()

    def blen(self, w):
        t = 0
        z = []
        for a in self.norm(w):
            if isinstance(a, SV):
                z.append(a.bl)
            elif isinstance(a, int):
                t += u8len(a)
            else:
                z.append(u8len(a))
        if not z:
            return t
        return z3.Sum(*z, z3.IntVal(t)) if t or len(z) > 1 else z[0]

    def clen(self, w):
        t = 0
        z = []
        for a in self.norm(w):
            if isinstance(a, SV):
                z.append(a.cl)
            else:
                t += 1
        if not z:
            return t
        return z3.Sum(*z, z3.IntVal(t)) if t or len(z) > 1 else z[0]

    def sv_empty(self, v):
        if self.branch(v.cl == 0):
            self.assign(v, ())
            return True
        return False

    def is_empty(self, w):
        w = self.norm(w)
        for a in w:
            if not isinstance(a, SV):
                return False
        for a in w:
            if isinstance(a, SV) and a.id not in self.subst and not self.sv_empty(a):
                return False
        return True

    def _sub(self, v, name):
        n = SV(self.fresh_id(), name)
        self.add(z3.And(n.cl >= 0, n.bl >= n.cl, n.bl <= 4 * n.cl))
        self.sets[n.id] = ANY
        self.opens[n.id] = ()
        return n

    def head(self, w):
        """None if empty, else (char, rest)"""
        while True:
            w = self.norm(w)
            if not w:
                return None
            a = w[0]
            if not isinstance(a, SV):
                return a, w[1:]
            if self.sv_empty(a):
                continue
            c = self.fresh_char()
            r = self._sub(a, a.name)
            self.assign(a, (c, r))
            return c, (r,) + w[1:]

    def last(self, w):
        """None if empty, else (init, char)"""
        while True:
            w = self.norm(w)
            if not w:
                return None
            a = w[-1]
            if not isinstance(a, SV):
                return w[:-1], a
            if self.sv_empty(a):
                continue
            c = self.fresh_char()
            r = self._sub(a, a.name)
            self.assign(a, (r, c))
            return w[:-1] + (r,), c

    def char_sat(self, c, p):
        r = p.at(c)
        return self.branch(r)

    def sv_first(self, v, p):
        """Decompose SV v at its first char satisfying p.
        Returns None (no char satisfies p; fact recorded) or (v1, c, v2)."""
        if isinstance(p, CharSet):
            s = self.sets[v.id]
            inter = s & p
            if inter.empty():
                return None
            if s.subset(p) and not self.opens[v.id]:
                h = self.head((v,))
                if h is None:
                    return None
                return (), h[0], h[1]
        np = p.neg()
        if self.choose(2) == 0:
            self.add_pred(v, np)
            if not self.replaying and self.check() == z3.unsat:
                raise Infeasible()
            return None
        v1 = self._sub(v, v.name)
        self.add_pred(v1, np)
        c = self.fresh_char()
        self.add(p.at(c))
        v2 = self._sub(v, v.name)
        self.assign(v, (v1, c, v2))
        return (v1,), c, (v2,)

    def sv_lastp(self, v, p):
        if isinstance(p, CharSet):
            s = self.sets[v.id]
            if (s & p).empty():
                return None
            if s.subset(p) and not self.opens[v.id]:
                h = self.last((v,))
                if h is None:
                    return None
                return h[0], h[1], ()
        np = p.neg()
        if self.choose(2) == 0:
            self.add_pred(v, np)
            if not self.replaying and self.check() == z3.unsat:
                raise Infeasible()
            return None
        v2 = self._sub(v, v.name)
        self.add_pred(v2, np)
        c = self.fresh_char()
        self.add(p.at(c))
        v1 = self._sub(v, v.name)
        self.assign(v, (v1, c, v2))
        return (v1,), c, (v2,)

    def split_first(self, w, p):
        """Split at the first char satisfying p: None or (pre, c, post)."""
        pre = ()
        w = self.norm(w)
        while w:
            self.burn()
            a, rest = w[0], w[1:]
            if isinstance(a, SV):
                r = self.sv_first(a, p)
                if r is not None:
                    return self.norm(pre + r[0]), r[1], self.norm(r[2] + rest)
            elif self.char_sat(a, p):
                return self.norm(pre), a, self.norm(rest)
            pre = pre + (a,)
            w = self.norm(rest)
        return None

    def split_last(self, w, p):
        post = ()
        w = self.norm(w)
        while w:
            self.burn()
            a, rest = w[-1], w[:-1]
            if isinstance(a, SV):
                r = self.sv_lastp(a, p)
                if r is not None:
                    return self.norm(rest + r[0]), r[1], self.norm(r[2] + post)
            elif self.char_sat(a, p):
                return self.norm(rest), a, self.norm(post)
            post = (a,) + post
            w = self.norm(rest)
        return None

    def all_chars(self, w, p):
        return self.split_first(w, p.neg()) is None

    def surely_all(self, w, p):
        """True when every char of w is known to satisfy the CharSet p (no forking)."""
        for a in self.norm(w):
            if isinstance(a, SV):
                if not self.sets[a.id].subset(p):
                    return False
            elif not self.entails(p.at(a)):
                return False
        return True

    def word_eq(self, a, b, depth=0):
        """Decide a == b, forking as needed; exhaustive."""
        for _ in range(400):
            self.burn()
            a, b = self.norm(a), self.norm(b)
            # strip syntactically equal ends
            i = 0
            while i < len(a) and i < len(b) and same_atom(a[i], b[i]):
                i += 1
            a, b = a[i:], b[i:]
            while a and b and same_atom(a[-1], b[-1]):
                a, b = a[:-1], b[:-1]
            if not a and not b:
                return True
            if not a:
                return self.is_empty(b)
            if not b:
                return self.is_empty(a)
            x, y = a[0], b[0]
            xs_, ys_ = isinstance(x, SV), isinstance(y, SV)
            if not xs_ and not ys_:
                if not self.branch(_ceq(x, y)):
                    return False
                a, b = a[1:], b[1:]
                continue
            x, y = a[-1], b[-1]
            if not isinstance(x, SV) and not isinstance(y, SV):
                if not self.branch(_ceq(x, y)):
                    return False
                a, b = a[:-1], b[:-1]
                continue
            # arithmetic refutation
            if not self.branch(z3.And(_z(self.blen(a)) == self.blen(b), _z(self.clen(a)) == self.clen(b))):
                return False
            # quick class refutation: char on one side not allowed in the other anywhere
            if self._class_refute(a, b) or self._class_refute(b, a):
                return False
            if len(a) == 1 and isinstance(a[0], SV):
                return self._sv_eq(a[0], b)
            if len(b) == 1 and isinstance(b[0], SV):
                return self._sv_eq(b[0], a)
            x, y = a[0], b[0]
            if isinstance(x, SV) and not isinstance(y, SV):
                if self.sv_empty(x):
                    continue
                self.head((x,))
                continue
            if isinstance(y, SV) and not isinstance(x, SV):
                if self.sv_empty(y):
                    continue
                self.head((y,))
                continue
            # both variables
            if self.sv_empty(x) or self.sv_empty(y):
                continue
            k = self.choose(4)
            if k == 0:
                self.assign(x, (y,))
            elif k == 1:
                r = self._sub(x, x.name)
                self.add(r.cl >= 1)
                self.assign(x, (y, r))
            elif k == 2:
                r = self._sub(y, y.name)
                self.add(r.cl >= 1)
                self.assign(y, (x, r))
            else:
                self.diseqs.append((a, b))
                return False
        raise Unsupported('word equation too hard')

    def _class_refute(self, a, b):
        allowed = CharSet(())
        for y in b:
            if isinstance(y, SV):
                allowed = allowed | self.sets[y.id]
            elif isinstance(y, int):
                allowed = allowed | CharSet([(y, y)])
            else:
                return False
        for x in a:
            if isinstance(x, int) and not allowed.has(x):
                return True
        return False

    def _sv_eq(self, v, w):
        if v in w:
            rest = list(w)
            rest.remove(v)
            return self.is_empty(tuple(rest))
        if self.choose(2) == 0:
            self.assign(v, w)
            return True
        self.diseqs.append(((v,), w))
        return False

    def at_offset(self, w, off):
        """Split w at byte offset `off` -> (pre, post); raises RustPanic when out of range
        or not on a char boundary (exactly the str slicing panic)."""
        w = self.norm(w)
        # entailed boundary?
        acc = 0
        for i in range(len(w) + 1):
            c = _eq(acc, off)
            if c is True or (c is not False and self.entails(c)):
                return w[:i], w[i:]
            if i < len(w):
                acc = _add(acc, self.blen((w[i],)))
        if not self.branch(_le(off, acc)):
            raise RustPanic('byte index out of range of str')
        acc = 0
        for i, a in enumerate(w):
            if self.branch(_eq(acc, off)):
                return self.norm(w[:i]), self.norm(w[i:])
            nxt = _add(acc, self.blen((a,)))
            if self.branch(_lt(off, nxt)):
                if not isinstance(a, SV):
                    raise RustPanic('byte index is not a char boundary')
                if self.sets[a.id].ascii():
                    k = 0
                else:
                    k = self.choose(2)
                if k == 0:
                    v1, v2 = self._sub(a, a.name), self._sub(a, a.name)
                    self.add(_eq(v1.bl, _sub_(off, acc)))
                    self.assign(a, (v1, v2))
                    return self.norm(w[:i] + (v1,)), self.norm((v2,) + w[i + 1:])
                v1, c, v2 = self._sub(a, a.name), self.fresh_char(), self._sub(a, a.name)
                self.add(z3.And(_z(v1.bl) < _z(_sub_(off, acc)), _z(_sub_(off, acc)) < v1.bl + u8len(c)))
                self.assign(a, (v1, c, v2))
                raise RustPanic('byte index is not a char boundary')
            acc = nxt
        return w, ()

    def at_char(self, w, n):
        """Split w after its first n characters -> (pre, post); post is empty when w is shorter."""
        w = self.norm(w)
        if not isinstance(n, int):
            pos = 0
            for i in range(len(w) + 1):
                if self.entails(_eq(pos, n)):
                    return w[:i], w[i:]
                if i < len(w):
                    pos = _add(pos, self.clen((w[i],)))
        for i, a in enumerate(w):
            if n == 0 if isinstance(n, int) else self.branch(_le(n, 0)):
                return w[:i], w[i:]
            if not isinstance(a, SV):
                n = _sub_(n, 1)
                continue
            if self.branch(_le(a.cl, n)):
                n = _sub_(n, a.cl)
                continue
            v1, v2 = self._sub(a, a.name), self._sub(a, a.name)
            self.add(_eq(v1.cl, n))
            self.assign(a, (v1, v2))
            return self.norm(w[:i] + (v1,)), self.norm((v2,) + w[i + 1:])
        return w, ()

    # -- proving
    def prove(self, cond, label):
        """Obligation: cond holds on this path."""
        if not isinstance(cond, bool):
            cond = z3.simplify(cond)
            if z3.is_true(cond):
                self.stats.ob(label, True, 'structural')
                return
            r = self.check(z3.Not(cond))
            if r == z3.unsat:
                self.stats.ob(label, True, 'z3')
                return
            if r == z3.unknown:
                self.stats.ob(label, False)
                raise Unsupported('solver gave no answer for: ' + label)
            if 'settle' in self.side:
                cond = self.branch(cond)
            else:
                self.add(z3.Not(cond))
                cond = False
        if cond:
            self.stats.ob(label, True, 'path-split+z3')
            return
        if 'settle' in self.side:
            self.side['settle'](self)      # facts whose case analysis was put off
        r = self.check()
        if r == z3.unsat:
            raise Infeasible()
        self.stats.ob(label, False)
        if r == z3.unknown:
            raise Unsupported('solver gave no answer for: ' + label)
        raise ObligationFailed(label)

    # -- concretisation
    def model(self):
        # prefer short strings
        if self.check() != z3.sat:
            return None
        return self.solver.model()

    def concretise(self, w, m):
        out = []
        for a in self.norm(w):
            if isinstance(a, int):
                out.append(a)
            elif isinstance(a, CV):
                out.append(m.eval(a.z, model_completion=True).as_long())
            else:
                out.extend(self._conc_sv(a, m))
        return ''.join(chr(c) for c in out)

    def _conc_sv(self, v, m):
        memo = self.memo.setdefault(('conc', id(m)), {})
        if v.id in memo:
            return memo[v.id]
        cl = m.eval(v.cl, model_completion=True).as_long()
        bl = m.eval(v.bl, model_completion=True).as_long()
        cl = min(cl, 5000)
        s = self.sets[v.id]
        buckets = {1: s & cs((0, 0x7F)), 2: s & cs((0x80, 0x7FF)), 3: s & cs((0x800, 0xFFFF)), 4: s & cs((0x10000, MAXCP))}
        out = []
        for i in range(cl):
            rem = cl - i
            per = bl - sum(u8len(c) for c in out)
            pick = None
            for n in (1, 2, 3, 4):
                if not buckets[n].empty() and per - n >= 0 and per - n <= 4 * (rem - 1) and per - n >= (rem - 1):
                    pick = buckets[n]
                    break
            if pick is None:
                pick = s
            c = pick.sample()
            if c is None:
                break
            out.append(c)
        memo[v.id] = out
        return out


def same_atom(x, y):
    if x is y:
        return True
    if isinstance(x, int) and isinstance(y, int):
        return x == y
    if isinstance(x, CV) and isinstance(y, CV):
        return x.z.eq(y.z)
    return False


def _ceq(x, y):
    x, y = cz(x), cz(y)
    if isinstance(x, int) and isinstance(y, int):
        return x == y
    return x == y


def _z(x):
    return z3.IntVal(x) if isinstance(x, int) else x


def _eq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    r = z3.simplify(_z(a) == _z(b))
    return True if z3.is_true(r) else False if z3.is_false(r) else r


def _le(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a <= b
    return _z(a) <= _z(b)


def _lt(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a < b
    return _z(a) < _z(b)


def _add(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    return z3.simplify(_z(a) + _z(b))


def _sub_(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    return z3.simplify(_z(a) - _z(b))


def explore(fn, stats, base=None, max_paths=6000, on_path=None):
    """Run fn(ctx) over every feasible decision sequence."""
    prefix = []
    replays = {}
    n = 0
    while True:
        ctx = Ctx(prefix, stats, base)
        for k in [k for k in replays if k[0] >= len(prefix)]:
            del replays[k]
        ctx.replays = replays
        n += 1
        stats.paths += 1
        if stats.deadline and _time.time() > stats.deadline:
            raise Unsupported('time limit')
        try:
            res = fn(ctx)
            if on_path:
                on_path(ctx, res)
        except Infeasible:
            pass
        d = ctx.decisions
        while d:
            idx, k = d[-1]
            if k < 10 and idx + 1 < k:
                d = d[:-1] + [(idx + 1, k)]
                break
            d = d[:-1]
        if not d:
            return n
        if n >= max_paths:
            raise Unsupported('too many paths')
        prefix = d

__all__ = [n for n in globals() if not n.startswith('__')]
