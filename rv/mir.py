"""Parser for the textual MIR that rustc emits (--emit=mir) for rdftk_iri.

The MIR is produced from /repo's current sources by the same compiler that
builds the crate; this module only reads it.  It never edits or simplifies the
program: every basic block, statement and terminator of a parsed item is kept,
and anything it cannot read becomes an explicit Unparsed node which the
executor reports as "unsupported" if it is ever reached.
"""
import collections
import re, os
from functools import lru_cache


class ParseError(Exception):
    pass


OPEN = {'(': ')', '[': ']', '{': '}', '<': '>'}
CLOSE = {v: k for k, v in OPEN.items()}


def skip_lit(s, i):
    """If a string/char/byte literal starts at i return the index after it, else None."""
    c = s[i]
    if c == '"':
        j = i + 1
        while s[j] != '"':
            if s[j] == '\\':
                j += 1
            j += 1
        return j + 1
    if c == "'":
        # char literal or lifetime
        if i + 1 < len(s) and s[i + 1] == '\\':
            j = i + 2
            if s[j] == 'u':
                j = s.index('}', j) + 1
            elif s[j] == 'x':
                j += 3
            else:
                j += 1
            if j < len(s) and s[j] == "'":
                return j + 1
            return None
        if i + 2 < len(s) and s[i + 2] == "'":
            return i + 3
        return None
    return None


def scan(s, start=0):
    """Yield (index, char, depth) for structural characters, skipping literals."""
    i = start
    depth = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c in '"\'':
            j = skip_lit(s, i)
            if j is not None:
                i = j
                continue
            i += 1
            continue
        if c == '-' and s[i:i + 2] == '->' or c == '=' and s[i:i + 2] == '=>':
            yield i, s[i:i + 2], depth
            i += 2
            continue
        if c in OPEN:
            yield i, c, depth
            depth += 1
        elif c in CLOSE:
            depth -= 1
            yield i, c, depth
        else:
            yield i, c, depth
        i += 1


def split_top(s, sep=','):
    out = []
    last = 0
    for i, c, d in scan(s):
        if c == sep and d == 0:
            out.append(s[last:i].strip())
            last = i + 1
    tail = s[last:].strip()
    if tail:
        out.append(tail)
    return out


def find_top(s, pat, start=0):
    """index of pat at depth 0, or -1"""
    for i, c, d in scan(s, start):
        if d == 0 and s.startswith(pat, i):
            return i
    return -1


def match_close(s, i):
    """s[i] is an opening bracket; index of its closing partner."""
    for j, c, d in scan(s, i):
        if d == 0 and j > i and c in CLOSE:
            return j
    raise ParseError('unbalanced: ' + s[i:i + 60])


def unescape(body, is_bytes):
    out = []
    i = 0
    while i < len(body):
        c = body[i]
        if c != '\\':
            out.append(c)
            i += 1
            continue
        d = body[i + 1]
        if d == 'n':
            out.append('\n'); i += 2
        elif d == 't':
            out.append('\t'); i += 2
        elif d == 'r':
            out.append('\r'); i += 2
        elif d == '0':
            out.append('\0'); i += 2
        elif d in '\\\'"':
            out.append(d); i += 2
        elif d == 'x':
            out.append(chr(int(body[i + 2:i + 4], 16))); i += 4
        elif d == 'u':
            j = body.index('}', i)
            out.append(chr(int(body[i + 3:j], 16))); i = j + 1
        else:
            raise ParseError('escape ' + body[i:i + 4])
    return ''.join(out)


# ---------------------------------------------------------------- type names
def strip_lifetimes(t):
    # a lifetime is a quote not starting a char literal
    out = []
    i = 0
    while i < len(t):
        if t[i] == "'" and skip_lit(t, i) is None:
            m = re.match(r"'[A-Za-z_][A-Za-z0-9_]*", t[i:])
            if m:
                out.append('\x01')
                i += m.end()
                continue
        out.append(t[i])
        i += 1
    s = ''.join(out)
    s = s.replace('\x01, ', '').replace('<\x01>', '').replace('\x01 ', '').replace(', \x01', '').replace('\x01', '')
    return s


@lru_cache(maxsize=None)
def norm_type(t):
    """Canonical short text of a type: lifetimes and module paths dropped."""
    t = strip_lifetimes(t.strip())
    t = t.replace('::<', '<')
    # drop module path prefixes: (lower_ident::)+Ident
    t = re.sub(r'\b(?:[a-z_][A-Za-z0-9_]*::)+(?=[A-Za-z_{<])', '', t)
    t = re.sub(r'\s+', ' ', t)
    return t.strip()


def split_path(p):
    """Split a path at top-level '::' into segments; generic segments '<..>' stay separate."""
    segs = []
    last = 0
    i = 0
    for i, c, d in scan(p):
        if d == 0 and c == ':' and p[i:i + 2] == '::':
            segs.append(p[last:i])
            last = i + 2
    segs.append(p[last:])
    return [s for s in segs if s != '']


class Callee:
    """Resolved-by-text description of a called path."""
    __slots__ = ('text', 'selfty', 'trait', 'name', 'generics', 'owner', 'owner_generics', 'key')

    def __repr__(self):
        return 'Callee(%s)' % self.key


@lru_cache(maxsize=None)
def parse_callee(text):
    c = Callee()
    c.text = text
    c.selfty = c.trait = None
    c.generics = []
    c.owner_generics = []
    c.owner = None
    t = text.strip()
    if t.startswith('<') and not t.startswith('<impl'):
        j = match_close(t, 0)
        inner = t[1:j]
        k = find_top(inner, ' as ')
        rest = split_path(t[j + 1:].lstrip(':'))
        if k >= 0:
            c.selfty = norm_type(inner[:k])
            c.trait = norm_type(inner[k + 4:])
        else:
            c.selfty = norm_type(inner)
            c.owner = c.selfty
        c.name = '::'.join(x for x in rest if not x.startswith('<'))
        gs = [x for x in rest if x.startswith('<')]
        if gs:
            c.generics = [norm_type(x) for x in split_top(gs[-1][1:-1])]
        if c.trait:
            tb = c.trait.split('<')[0].strip()
            c.key = '%s::%s' % (tb, c.name)
        else:
            c.key = '%s::%s' % (c.selfty.split('<')[0], c.name)
        return c
    segs = split_path(t)
    # fold generics
    folded = []
    for s in segs:
        if s.startswith('<') and not s.startswith('<impl'):
            if folded:
                folded[-1][1].extend(split_top(s[1:-1]))
            continue
        g = []
        m = re.match(r'^([A-Za-z_][A-Za-z0-9_]*)<(.*)>$', s)
        if m:
            s = m.group(1)
            g = split_top(m.group(2))
        folded.append([s, g])
    c.name = folded[-1][0]
    c.generics = [norm_type(x) for x in folded[-1][1]]
    if len(folded) > 1:
        o = folded[-2][0]
        if o.startswith('<impl '):
            o = norm_type(o[6:-1])
            o = re.sub(r'^.* for ', '', o)
        c.owner = o
        c.owner_generics = [norm_type(x) for x in folded[-2][1]]
    if c.owner and c.owner.startswith('[') and not c.owner.startswith('[u8'):
        c.owner = 'slice'
    c.key = (c.owner + '::' if c.owner else '') + c.name
    return c


# ---------------------------------------------------------------- nodes
# Places: ('local', n, [proj...]) with proj: ('deref',), ('field', i, ty), ('as', variant),
#         ('index', local), ('cindex', i, fromend)
# Operands: ('use', place) | ('const', parsed)
class Fn:
    def __init__(self, name):
        self.name = self.uid = name
        self.params = []      # [(local, type)]
        self.ret = ''
        self.locals = {}
        self.blocks = {}      # n -> (stmts, term)
        self.cleanup = set()
        self.kind = 'fn'
        self.dup = 0
        self.text = ''

    def __repr__(self):
        return 'Fn(%s)' % self.name


def parse_place(s):
    s = s.strip()
    p, rest = _place(s)
    if rest.strip():
        raise ParseError('place rest %r in %r' % (rest, s))
    return p


def _place(s):
    s = s.lstrip()
    if s.startswith('('):
        j = match_close(s, 0)
        inner = s[1:j]
        rest = s[j + 1:]
        if inner.startswith('*'):
            b, r = _place(inner[1:])
            if r.strip():
                raise ParseError('deref rest ' + r)
            p = (b[0], b[1] + (('deref',),))
        else:
            b, r = _place(inner)
            r = r.lstrip()
            if r.startswith('.'):
                m = re.match(r'\.(\d+): (.*)$', r, re.S)
                if not m:
                    raise ParseError('field ' + r)
                p = (b[0], b[1] + (('field', int(m.group(1)), m.group(2)),))
            elif r.startswith('as '):
                p = (b[0], b[1] + (('as', r[3:].strip()),))
            else:
                raise ParseError('paren place ' + s)
    else:
        m = re.match(r'_(\d+)', s)
        if not m:
            raise ParseError('place ' + s[:60])
        p = (int(m.group(1)), ())
        rest = s[m.end():]
    while rest.startswith('['):
        j = match_close(rest, 0)
        idx = rest[1:j]
        m = re.match(r'_(\d+)$', idx)
        if m:
            p = (p[0], p[1] + (('index', int(m.group(1))),))
        else:
            m = re.match(r'(-?\d+) of (\d+)$', idx)
            if m:
                i = int(m.group(1))
                p = (p[0], p[1] + (('cindex', i, int(m.group(2))),))
            else:
                m = re.match(r'(\d*):(-?\d*)$', idx)
                if not m:
                    raise ParseError('index ' + idx)
                p = (p[0], p[1] + (('subslice', int(m.group(1) or 0), int(m.group(2) or 0)),))
        rest = rest[j + 1:]
    return p, rest


INT_RE = re.compile(r'^(-?\d+)_([iu](?:8|16|32|64|128|size))$')


REIFY = re.compile(r'^(.*?) as (?:unsafe )?fn\(.*\(PointerCoercion\(ReifyFnPointer.*\)$')


def parse_const(s):
    """s without leading 'const '."""
    s = s.strip()
    s = REIFY.sub(r'\1', s)
    if s == '()':
        return ('unit',)
    if s in ('true', 'false'):
        return ('bool', s == 'true')
    m = INT_RE.match(s)
    if m:
        return ('int', int(m.group(1)), m.group(2))
    if s.startswith('b"'):
        return ('bytes', tuple(ord(c) for c in unescape(s[2:-1], True)))
    if s.startswith('"'):
        return ('str', unescape(s[1:-1], False))
    if s.startswith("'") and skip_lit(s, 0) == len(s):
        return ('char', ord(unescape(s[1:-1], False)))
    if s.startswith('ZeroSized: '):
        t = s[len('ZeroSized: '):]
        if t.startswith('{closure@'):
            return ('closure', t)
        m = re.match(r'^(?:unsafe |extern "[^"]*" )*(?:for<[^>]*> )?fn\(.*\{(.*)\}$', t)
        if m:
            return ('fn', m.group(1))
        return ('zst', t)
    if s.startswith('{') and s.endswith('}'):
        return ('other', s)
    # enum/struct constants: X::<..>::None   or named const / fn path
    return ('path', s)


def parse_operand(s):
    s = s.strip()
    if s.startswith('no_retag '):
        s = s[9:]
    if s.startswith('copy '):
        return ('use', parse_place(s[5:]))
    if s.startswith('move '):
        return ('use', parse_place(s[5:]))
    if s.startswith('const '):
        return ('const', parse_const(s[6:]))
    if re.match(r'^[A-Za-z_<]', s):
        return ('const', ('path', REIFY.sub(r'\1', s)))
    raise ParseError('operand ' + s)


BINOPS = {'Add', 'Sub', 'Mul', 'Div', 'Rem', 'BitXor', 'BitAnd', 'BitOr', 'Shl', 'Shr', 'Eq', 'Lt', 'Le', 'Ne', 'Ge',
          'Gt', 'Cmp', 'Offset', 'AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow', 'AddUnchecked',
          'SubUnchecked', 'MulUnchecked', 'ShlUnchecked', 'ShrUnchecked'}
UNOPS = {'Not', 'Neg', 'PtrMetadata'}


def parse_rvalue(s):
    s = s.strip()
    if s.startswith('no_retag '):
        s = s[9:]
    if s.startswith('&raw '):
        m = re.match(r'&raw (?:const|mut) (.*)$', s)
        return ('ref', parse_place(m.group(1)), 'raw')
    if s.startswith('&'):
        m = re.match(r'&(mut |fake shallow |fake deep |two_phase )?(.*)$', s, re.S)
        return ('ref', parse_place(m.group(2)), (m.group(1) or '').strip())
    if s.startswith('discriminant('):
        return ('discr', parse_place(s[len('discriminant('):-1]))
    if s.startswith('Len('):
        return ('len', parse_place(s[4:-1]))
    if s.startswith('CopyForDeref('):
        return ('op', ('use', parse_place(s[len('CopyForDeref('):-1])))
    if not s.startswith(('const ', 'copy ', 'move ')) and REIFY.match(s):
        return ('op', ('const', ('path', REIFY.sub(r'\1', s))))
    if s.startswith('deref_copy '):
        return ('op', ('use', parse_place(s[len('deref_copy '):])))
    m = re.match(r'^([A-Z][A-Za-z]*)\(', s)
    if m and m.group(1) in BINOPS and s.endswith(')'):
        a = split_top(s[m.end():-1])
        if len(a) == 2:
            return ('bin', m.group(1), parse_operand(a[0]), parse_operand(a[1]))
    if m and m.group(1) in UNOPS and s.endswith(')'):
        a = split_top(s[m.end():-1])
        if len(a) == 1:
            return ('un', m.group(1), parse_operand(a[0]))
    if re.match(r'^(copy|move|const) ', s):
        k = find_top(s, ' as ')
        # casts end with " (Kind...)"
        if k >= 0 and s.endswith(')'):
            op = parse_operand(s[:k])
            m2 = re.match(r'^(.*) \(([A-Za-z]+.*)\)$', s[k + 4:])
            if m2:
                return ('cast', op, m2.group(1), m2.group(2))
        return ('op', parse_operand(s))
    if s.startswith('('):
        return ('tuple', [parse_operand(x) for x in split_top(s[1:-1])])
    if s.startswith('['):
        inner = s[1:-1]
        k = find_top(inner, '; ')
        if k >= 0:
            return ('repeat', parse_operand(inner[:k]), inner[k + 2:])
        return ('array', [parse_operand(x) for x in split_top(inner)])
    if s.startswith('{closure@'):
        j = match_close(s, 0)
        head = s[:j + 1]
        rest = s[j + 1:].strip()
        caps = []
        if rest.startswith('{'):
            for f in split_top(rest[1:-1]):
                k = f.index(': ')
                caps.append(parse_operand(f[k + 2:]))
        return ('closure', head, caps)
    # aggregates
    if s.endswith('}'):
        # Name { f: op, .. }
        i = find_top(s, ' {')
        if i >= 0:
            body = s[i + 2:-1].strip()
            fs = []
            for f in split_top(body):
                k = f.index(': ')
                fs.append(parse_operand(f[k + 2:]))
            return ('adt', s[:i], fs)
    if s.endswith(')'):
        # Name(op, op)
        depth0 = None
        for i, c, d in scan(s):
            if c == '(' and d == 0:
                depth0 = i
                break
        if depth0 is not None:
            name = s[:depth0]
            return ('adt', name, [parse_operand(x) for x in split_top(s[depth0 + 1:-1])])
    if re.match(r'^[A-Za-z_<]', s):
        if re.search(r'\s', s) is None or '::' in s:
            return ('adt', s, [])
    raise ParseError('rvalue ' + s)


def parse_targets(s):
    """'[return: bb1, unwind continue]' or '[0: bb1, otherwise: bb2]' or 'bb3'"""
    s = s.strip()
    d = {}
    if s.startswith('['):
        for part in split_top(s[1:-1]):
            m = re.match(r'^([A-Za-z_0-9-]+):? ?(.*)$', part)
            d[m.group(1)] = m.group(2)
    elif s.startswith('bb'):
        d['goto'] = s
    else:
        d['none'] = s
    return d


def bbnum(s):
    m = re.match(r'^bb(\d+)$', s.strip())
    return int(m.group(1)) if m else None


def parse_line(line):
    """Return ('stmt', node) or ('term', node)"""
    s = line.strip()
    if s.endswith(';'):
        s = s[:-1]
    if s == 'return':
        return 'term', ('return',)
    if s == 'unreachable':
        return 'term', ('unreachable',)
    if s in ('resume', 'abort') or s.startswith('terminate'):
        return 'term', ('resume',)
    if s.startswith('goto -> '):
        return 'term', ('goto', bbnum(s[8:]))
    if s.startswith('falseEdge -> ') or s.startswith('falseUnwind -> '):
        t = parse_targets(s.split(' -> ', 1)[1])
        return 'term', ('goto', bbnum(t.get('real') or t.get('return')))
    if s.startswith('switchInt('):
        j = match_close(s, len('switchInt'))
        op = parse_operand(s[len('switchInt('):j])
        t = parse_targets(s[s.index('->', j) + 2:])
        tg = []
        other = None
        for k, v in t.items():
            if k == 'otherwise':
                other = bbnum(v)
            else:
                tg.append((int(k), bbnum(v)))
        return 'term', ('switch', op, tg, other)
    if s.startswith('drop('):
        j = match_close(s, 4)
        t = parse_targets(s[s.index('->', j) + 2:])
        return 'term', ('drop', parse_place(s[5:j]), bbnum(t.get('return', t.get('goto', ''))))
    if s.startswith('assert('):
        j = match_close(s, 6)
        args = split_top(s[7:j])
        cond = args[0]
        neg = cond.startswith('!')
        t = parse_targets(s[s.index('->', j) + 2:])
        msg = args[1] if len(args) > 1 else ''
        return 'term', ('assert', parse_operand(cond.lstrip('!')), neg, msg, bbnum(t.get('success', t.get('goto', ''))))
    if re.match(r'^(StorageLive|StorageDead|ConstEvalCounter|nop|FakeRead|PlaceMention|AscribeUserType|Retag|Coverage|BackwardIncompatibleDropHint)\b', s):
        return 'stmt', ('nop',)
    k = find_top(s, ' = ')
    if k >= 0:
        lhs, rhs = s[:k], s[k + 3:]
        if lhs.startswith('discriminant('):
            return 'stmt', ('setdiscr', parse_place(lhs[13:-1]), rhs)
        arrow = rfind_arrow(rhs)
        if arrow >= 0:
            call = rhs[:arrow].strip()
            t = parse_targets(rhs[arrow + 2:])
            return 'term', ('call', parse_place(lhs), *parse_call(call), bbnum(t.get('return', t.get('goto', ''))))
        return 'stmt', ('assign', parse_place(lhs), parse_rvalue(rhs))
    raise ParseError('line ' + s)


def rfind_arrow(s):
    last = -1
    for i, c, d in scan(s):
        if c == '->' and d == 0:
            last = i
    if last >= 0:
        t = s[last + 2:].strip()
        if t.startswith('[') or t.startswith('unwind') or t.startswith('bb'):
            return last
    return -1


def parse_call(call):
    """'callee(args)' -> (callee, args)"""
    last = None
    for i, c, d in scan(call):
        if c == '(' and d == 0:
            last = i
    if last is None or not call.endswith(')'):
        raise ParseError('call ' + call)
    cal = call[:last].strip()
    args = [parse_operand(x) for x in split_top(call[last + 1:-1])]
    if re.match(r'^(move|copy) ', cal):
        return ('dyn', parse_operand(cal)), args
    return ('path', cal), args


DUP = '\x00'


POINTER_CHECKS = ('misaligned pointer dereference', 'null pointer dereference occurred')


def drop_pointer_checks(f):
    """The compiler's own checks of the pointers it derives from boxes (there is no unsafe code in
    the crate, so no others) always pass: remove them with the computation of their conditions."""
    bad = [b for b, (_, t) in f.blocks.items() if t[0] == 'assert' and any(x in t[3] for x in POINTER_CHECKS)]
    if not bad:
        return

    def locs(x, out):
        if isinstance(x, tuple):
            if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], tuple):
                out.add(x[0])
            for y in x:
                locs(y, out)
        elif isinstance(x, list):
            for y in x:
                locs(y, out)
        return out
    for b in bad:
        st, t = f.blocks[b]
        f.blocks[b] = (st, ('goto', t[4]))
    again = True
    while again:
        again = False
        for b in bad:
            st = f.blocks[b][0]
            for k in range(len(st) - 1, -1, -1):
                d = st[k][1] if st[k][0] == 'assign' else None
                if d is None or d[1]:
                    continue
                uses = set()
                for c, (ss, t) in f.blocks.items():
                    for i, s in enumerate(ss):
                        if not (c == b and i == k):
                            locs(s[1:], uses)
                    locs(t, uses)
                if d[0] not in uses and d[0] != 0:
                    f.blocks[b] = (st[:k] + st[k + 1:], f.blocks[b][1])
                    again = True
                    break


class Program:
    def __init__(self, text, srcroot):
        self.srcroot = srcroot
        self.fns = {}            # raw name -> Fn
        self.unparsed = []
        self._src = {}
        self.lazy = {}
        self.lastdup = {}
        self._parse_items(text)
        self._enums()
        self._index()

    # -- items
    def _parse_items(self, text):
        lines = text.split('\n')
        self.statics = {}           # allocation number -> immutable static
        self.static_uses = collections.Counter(re.findall(r'\{alloc(\d+): &', text))
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            m = re.match(r'^alloc(\d+) \(static: ([^,]*), ', ln)
            if m:
                self.statics[m.group(1)] = m.group(2)
            if ln.startswith(('fn ', 'const ', 'static ', 'promoted', 'unsafe fn ', 'extern ')):
                if ln.rstrip().endswith('{'):
                    j = i + 1
                    while lines[j] != '}':
                        j += 1
                    self._item(ln, lines[i + 1:j])
                    i = j + 1
                    continue
                elif ln.rstrip().endswith(';'):
                    self._simple_const(ln)
            i += 1

    def _simple_const(self, ln):
        s = re.sub(r'^(const|static( mut)?) ', '', ln.rstrip()[:-1])
        k = find_top(s, ' = ')
        if k < 0:
            return
        head, val = s[:k], s[k + 3:]
        name = self._const_name(head)[0]
        f = Fn(name)
        f.kind = 'const'
        try:
            f.blocks = {0: ([('assign', (0, ()), parse_rvalue(val))], ('return',))}
        except ParseError:
            return
        self.fns[name] = f

    def _const_name(self, head):
        # 'path: type'  -- ': ' at depth 0 that is not part of '::' and not inside <impl at ..>
        for i, c, d in scan(head):
            if c == ':' and d == 0 and head[i:i + 2] == ': ':
                return head[:i], head[i + 2:]
        return head, ''

    def _item(self, head, body):
        head = head.rstrip()[:-1].rstrip()
        if head.startswith(('fn ', 'unsafe fn ', 'extern ')):
            h = head[head.index('fn ') + 3:]
            # the parameter list: first depth-0 '(' (impl spans live inside <>)
            pi = None
            for i, c, d in scan(h):
                if c == '(' and d == 0:
                    pi = i
                    break
            pj = match_close(h, pi)
            f = Fn(h[:pi])
            for p in split_top(h[pi + 1:pj]):
                m = re.match(r'^_(\d+): (.*)$', p, re.S)
                f.params.append((int(m.group(1)), m.group(2)))
            r = h[pj + 1:].strip()
            f.ret = r[2:].strip() if r.startswith('->') else '()'
        else:
            h = re.sub(r'^(const|static( mut)?) ', '', head)
            if h.endswith(' ='):
                h = h[:-2]
            name, ty = self._const_name(h)
            f = Fn(name)
            f.kind = 'const'
            f.ret = ty
        f.body_lines = body
        key = f.name
        if f.kind == 'fn':
            # a later copy with the same signature (the runtime MIR) replaces the CTFE copy; one with
            # another signature is the same macro text expanded for another type
            n = 0
            while key in self.fns and (self.fns[key].params, self.fns[key].ret) != (f.params, f.ret):
                n += 1
                key = f.name + DUP + str(n)
            self.lastdup[f.name] = n
        elif '::promoted[' in key:
            n = self.lastdup.get(key[:key.rindex('::promoted[')], 0)
            if n:
                key += DUP + str(n)
        f.uid = key
        self.fns[key] = f

    def ensure(self, f):
        """Parse the body of f on first use."""
        if f.blocks:
            return f
        cur = None
        stmts = []
        for ln in f.body_lines:
            s = ln.strip()
            if not s:
                continue
            m = re.match(r'^let (?:mut )?_(\d+): (.*);$', s)
            if m and cur is None:
                f.locals[int(m.group(1))] = m.group(2)
                continue
            m = re.match(r'^bb(\d+)( \(cleanup\))?: \{$', s)
            if m:
                cur = int(m.group(1))
                stmts = []
                if m.group(2):
                    f.cleanup.add(cur)
                continue
            if cur is None:
                continue
            if s == '}':
                if cur not in f.blocks:
                    f.blocks[cur] = (stmts, ('unparsed', 'no terminator'))
                cur = None
                continue
            try:
                kind, node = parse_line(s)
            except (ParseError, ValueError, IndexError, AttributeError) as e:
                kind, node = 'stmt', ('unparsed', s)
                if '->' in s:
                    kind = 'term'
            if kind == 'stmt':
                if node[0] != 'nop':
                    stmts.append(node)
            else:
                f.blocks[cur] = (stmts, node)
        for l, t in f.params:
            f.locals[l] = t
        drop_pointer_checks(f)
        return f

    # -- source
    def src(self, path):
        if path not in self._src:
            p = os.path.join(self.srcroot, path)
            try:
                self._src[path] = open(p, encoding='utf-8').read().split('\n')
            except OSError:
                self._src[path] = []
        return self._src[path]

    def span_text(self, path, l1, c1, l2, c2):
        L = self.src(path)
        if l1 == l2:
            return L[l1 - 1][c1 - 1:c2 - 1] if l1 <= len(L) else ''
        parts = [L[l1 - 1][c1 - 1:]] + L[l1:l2 - 1] + [L[l2 - 1][:c2 - 1]]
        return ' '.join(x.strip() for x in parts)

    # -- enums of the crate
    def _enums(self):
        self.enums = {
            'Option': ['None', 'Some'], 'Result': ['Ok', 'Err'], 'ControlFlow': ['Continue', 'Break'],
            'Ordering': ['Less', 'Equal', 'Greater'], 'Cow': ['Borrowed', 'Owned'],
            'Bound': ['Included', 'Excluded', 'Unbounded'],
        }
        self.structs = {}
        files = set()
        for nm in self.fns:
            for m in re.finditer(r'(?:impl at |closure@)([^\s:]+\.rs):', nm):
                files.add(m.group(1))
        srcdir = os.path.join(self.srcroot, 'rdftk_iri/src')
        for root, _, fs in os.walk(srcdir):
            for x in fs:
                if x.endswith('.rs'):
                    files.add(os.path.relpath(os.path.join(root, x), self.srcroot))
        for fpath in sorted(files):
            txt = '\n'.join(self.src(fpath))
            txt = strip_comments(txt)
            for m in re.finditer(r'\benum\s+([A-Za-z_]\w*)\s*(?:<[^{]*>)?\s*\{', txt):
                j = match_close_plain(txt, m.end() - 1)
                body = txt[m.end():j]
                vs = []
                for part in split_top(body):
                    part = strip_attrs(part).strip()
                    mm = re.match(r'^([A-Za-z_]\w*)', part)
                    if mm:
                        vs.append(mm.group(1))
                self.enums.setdefault(m.group(1), vs)
        # serde-derived __Field enums: highest __fieldN per owner
        self.fieldmax = {}
        for nm, f in self.fns.items():
            if '__FieldVisitor' in nm or 'visit_' in nm:
                t = '\n'.join(getattr(f, 'body_lines', []))
                for m in re.finditer(r'for (\w+)>::deserialize::__Field::__field(\d+)', t):
                    k = m.group(1)
                    self.fieldmax[k] = max(self.fieldmax.get(k, -1), int(m.group(2)))
        for k, n in self.fieldmax.items():
            self.enums['__Field:' + k] = ['__field%d' % i for i in range(n + 1)] + ['__ignore']

    # -- index of functions
    def _index(self):
        self.aliases = {}
        ambiguous = set()    # closures of macro text expanded more than once
        self.by_key = {}     # canonical key -> Fn
        self.closures = {}   # closure span text -> Fn
        for nm, f in list(self.fns.items()):
            if f.kind != 'fn':
                continue
            nm0, nm = nm, nm.split(DUP)[0]
            if nm.rstrip().endswith('}') and '{closure#' in nm:
                # closure body: param 1 has type {closure@span} or &{closure@span}
                if f.params:
                    mm = re.search(r'\{closure@[^}]*\}', f.params[0][1])
                    if mm and (nm0 == nm or f.body_lines == self.closures[mm.group(0)].body_lines):
                        self.closures[mm.group(0)] = f
                    elif mm:
                        ambiguous.add(mm.group(0))
                continue
            for key in self.keys_of(nm, f):
                self.by_key.setdefault(key, f)
        for c in ambiguous:
            del self.closures[c]

    def const_owner(self, name):
        """the type whose associated constant this is (or in a method of whose it is)"""
        m = re.search(r'<(impl at [^>]*)>', name)
        if m:
            h = self.impl_header(m.group(1))
        else:
            m = re.search(r'<impl (?:[^<>]|<[^<>]*>)*? for ((?:[^<>]|<[^<>]*>)*)>::', name)
            h = (None, norm_type(m.group(1))) if m else None
        return h[1] if h else name.split('::')[-2] if '::' in name else None

    def impl_header(self, spec):
        """spec: 'impl at path:l:c: l:c' -> (trait or None, selftype or None, is_derive)"""
        m = re.match(r'^impl at ([^\s:]+):(\d+):(\d+): (\d+):(\d+)$', spec)
        if not m:
            return None
        path, l1, c1, l2, c2 = m.group(1), *map(int, m.groups()[1:])
        t = self.span_text(path, l1, c1, l2, c2).strip()
        t = strip_comments(t)
        if t.startswith(('impl', 'unsafe impl')):
            t = t[t.index('impl') + 4:].strip()
            if t.startswith('<'):
                t = t[match_close(t, 0) + 1:].strip()
            w = find_top(t, ' where ')
            if w >= 0:
                t = t[:w]
            t = self.unalias(path, t)
            k = find_top(t, ' for ')
            if k >= 0:
                return norm_type(t[:k]), norm_type(t[k + 5:]), False
            return None, norm_type(t), False
        # derive: find the item that follows
        L = self.src(path)
        for ln in L[l1 - 1:l1 + 60]:
            m = re.match(r'^\s*(?:pub(?:\([^)]*\))?\s+)?(?:struct|enum|union)\s+([A-Za-z_]\w*)', ln)
            if m:
                return norm_type(t.split('(')[0]), m.group(1), True
        # attribute derived impl inside an item (thiserror #[from]): search backwards
        for ln in reversed(L[:l1]):
            m = re.match(r'^\s*(?:pub(?:\([^)]*\))?\s+)?(?:struct|enum|union)\s+([A-Za-z_]\w*)', ln)
            if m:
                return norm_type(t.split('(')[0]), m.group(1), True
        return norm_type(t), None, True

    def unalias(self, path, t):
        """`use a::X as Y` and `type Y = X` of the file, applied to an impl header"""
        if path not in self.aliases:
            src = strip_comments('\n'.join(self.src(path)))
            al = {}
            for m in re.finditer(r'\b(\w+)\s+as\s+(\w+)\s*[,;}]', src):
                if m.group(1)[:1].isupper() and m.group(2)[:1].isupper():
                    al[m.group(2)] = m.group(1)
            for m in re.finditer(r'\btype\s+(\w+)\s*=\s*([\w:]+)\s*;', src):
                if m.group(1) not in ('Err', 'Error', 'Item', 'Target', 'Output', 'Value', 'IntoIter', 'Owned'):
                    al[m.group(1)] = m.group(2)
            self.aliases[path] = al
        al = self.aliases[path]
        if al:
            t = re.sub(r"\b(\w+)\b", lambda m: al.get(m.group(1), m.group(1)), t)
        return t

    @staticmethod
    def macro_header(trait, ty, f):
        """an impl written by a macro names its types by metavariables: read them off the signature"""
        ps = [norm_type(p[1]) for p in f.params]
        ret = norm_type(f.ret or '()')
        m = re.match(r'^(?:Result|Option)<(.*)>$', ret)
        inner = split_top(m.group(1))[0].strip() if m else ret
        tn = (trait or '').split('<')[0]
        recv = tn not in ('From', 'TryFrom', 'FromStr', 'Default', 'FromIterator', 'Deserialize')
        if '$' in ty:
            if recv:
                if not ps:
                    return trait, ty
                ty = re.sub(r'^&(?:mut )?', '', ps[0])
            else:
                ty = inner
        if trait and '$' in trait:
            if tn in ('From', 'TryFrom', 'FromIterator') and ps:
                trait = '%s<%s>' % (tn, ps[0])
            elif tn in ('AsRef', 'Borrow', 'AsMut', 'BorrowMut'):
                trait = '%s<%s>' % (tn, re.sub(r'^&(?:mut )?', '', ret))
            elif tn in ('Into',):
                trait = '%s<%s>' % (tn, ret)
            elif tn in ('TryInto',):
                trait = '%s<%s>' % (tn, inner)
            elif tn in ('PartialEq', 'PartialOrd', 'Extend') and len(ps) > 1:
                trait = '%s<%s>' % (tn, re.sub(r'^&(?:mut )?', '', ps[1]))
            else:
                trait = tn
        return trait, ty

    def keys_of(self, nm, f):
        nm = nm.split(DUP)[0]
        segs = split_path(nm)
        keys = []
        name = segs[-1]
        impls = [s for s in segs if s.startswith('<impl at ')]
        if impls:
            h = self.impl_header(impls[-1][1:-1])
            if h is None:
                return keys
            k = max(i for i, x in enumerate(segs) if x.startswith('<impl at '))
            if len(segs) - k > 2:
                keys.append('::'.join(segs[-2:]))     # fn nested in a method
                name = '::'.join(segs[k + 1:])
            trait, ty, derive = h
            if ty and not derive and '$' in ty + (trait or ''):
                trait, ty = self.macro_header(trait, ty, f)
            if derive and name == 'from':
                ty = norm_type(f.ret)
            f.impl_trait, f.impl_self, f.derived = trait, ty, derive
            if ty is None:
                return keys
            if trait is None or (derive and trait in ('EnumIs', 'EnumTryAs')):
                f.impl_trait = None
                keys.append('%s::%s' % (base(ty), name))
            elif derive and len(impls) == 2:
                # serde visitors inside deserialize
                self_t = norm_type(f.params[0][1]) if f.params else ''
                keys.append('<%s/%s>::%s/%d' % (ty, trait, name, len(self.by_key)))
                f.serde_owner = ty
                return keys
            else:
                # trait with its generic arguments; derive macros name only the trait
                tr = {'Error': 'Display' if name == 'fmt' else 'Error', 'from': 'From'}.get(trait, trait) if derive else trait
                if derive and name == 'fmt' and trait == 'Debug':
                    tr = 'Debug'
                if derive and name == 'from' and tr == 'From':
                    tr = 'From<%s>' % norm_type(f.params[0][1])
                keys.append('<%s as %s>::%s' % (ty, tr, name))
        else:
            keys.append(name)
            if len(segs) > 1:
                keys.append('::'.join(segs[-2:]))
        return keys


def base(ty):
    return ty.split('<')[0].strip()


def strip_comments(t):
    out = []
    i = 0
    n = len(t)
    while i < n:
        c = t[i]
        if c == '/' and t[i:i + 2] == '//':
            j = t.find('\n', i)
            i = n if j < 0 else j
            continue
        if c == '/' and t[i:i + 2] == '/*':
            j = t.find('*/', i)
            i = n if j < 0 else j + 2
            continue
        if c in '"\'':
            j = None
            try:
                j = skip_lit(t, i)
            except IndexError:
                j = None
            if j is not None:
                out.append(t[i:j])
                i = j
                continue
        out.append(c)
        i += 1
    return ''.join(out)


def strip_attrs(p):
    p = p.strip()
    while p.startswith('#'):
        k = p.index('[')
        j = match_close_plain(p, k)
        p = p[j + 1:].strip()
    return p


def match_close_plain(s, i):
    o = s[i]
    c = OPEN[o]
    d = 0
    j = i
    while j < len(s):
        ch = s[j]
        if ch in '"\'':
            k = skip_lit(s, j)
            if k is not None:
                j = k
                continue
        if ch == o:
            d += 1
        elif ch == c:
            d -= 1
            if d == 0:
                return j
        j += 1
    raise ParseError('unbalanced source')


def shim_text():
    """MIR of shim.rs, compiled once per text"""
    import hashlib
    import os
    import subprocess
    here = os.path.dirname(os.path.abspath(__file__))
    src = os.path.join(here, 'shim.rs')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    d = os.path.join(os.path.dirname(here), 'build')
    out = os.path.join(d, 'shim-%s.mir' % h)
    if not os.path.exists(out):
        os.makedirs(d, exist_ok=True)
        tmp = '%s.%d' % (out, os.getpid())
        e = dict(os.environ, PATH='/root/.cargo/bin:' + os.environ.get('PATH', ''), RUSTUP_TOOLCHAIN='stable')
        e.pop('RUSTFLAGS', None)
        subprocess.run(['rustc', '--edition', '2021', '--crate-type', 'lib', '--emit', 'mir', '-o', tmp, src],
                       check=True, env=e, capture_output=True, timeout=120)
        os.replace(tmp, out)
    return open(out, encoding='utf-8').read()


def load(mir_path, srcroot):
    return Program(open(mir_path, encoding='utf-8').read() + '\n' + shim_text(), srcroot)


if __name__ == '__main__':
    import sys
    p = load(sys.argv[1], sys.argv[2])
    for k in sorted(p.by_key):
        print(k)
    bad = 0
    for f in p.fns.values():
        p.ensure(f)
        for b, (st, t) in f.blocks.items():
            for s in list(st) + [t]:
                if s[0] == 'unparsed':
                    bad += 1
                    print('UNPARSED', f.name, b, s)
    print(len(p.fns), 'items', bad, 'unparsed', p.enums, p.fieldmax)
