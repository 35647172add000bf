"""Textual-MIR front end: parses `rustc --emit=mir` output into functions, blocks,
statements and terminators, with every path fully qualified by the compiler."""
import re, functools

# ---------------------------------------------------------------- types
# ('adt', path, args) ('ref', mut, t) ('ptr', mut, t) ('tuple', ts) ('slice', t)
# ('array', t, n) ('never',) ('closure', span) ('raw', text) ('proj', text) ('fndef', text)

_tok = re.compile(r"""\{[^{}]*\}|'[a-zA-Z_]\w*|[A-Za-z_]\w*|->|::|\d+(?:_\w+)?|[<>\[\](),;&*+=!:?]|\S""")


class _P:
    def __init__(self, s):
        self.t = _tok.findall(s)
        self.i = 0

    def pk(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def nx(self):
        x = self.pk()
        self.i += 1
        return x

    def eat(self, x):
        if self.pk() == x:
            self.i += 1
            return True
        return False


def _ty(p):
    x = p.pk()
    if x is None:
        return ('raw', '')
    if x == '&':
        p.nx()
        if p.pk() and p.pk().startswith("'"):
            p.nx()
        m = p.eat('mut')
        return ('ref', bool(m), _ty(p))
    if x == '*':
        p.nx()
        m = p.nx() == 'mut'
        return ('ptr', m, _ty(p))
    if x == '(':
        p.nx()
        ts = []
        while not p.eat(')'):
            ts.append(_ty(p))
            p.eat(',')
            if p.pk() is None:
                break
        return ('tuple', tuple(ts))
    if x == '[':
        p.nx()
        t = _ty(p)
        if p.eat(';'):
            n = ''
            while p.pk() not in (']', None):
                n += p.nx()
            p.eat(']')
            return ('array', t, n)
        p.eat(']')
        return ('slice', t)
    if x == '!':
        p.nx()
        return ('never',)
    if x.startswith('{'):
        p.nx()
        return ('closure', x)
    if x == '<':
        d = 0
        s = ''
        while p.pk() is not None:
            y = p.nx()
            if y == '<':
                d += 1
            elif y == '>':
                d -= 1
            s += y if y != 'as' else ' as '
            if d == 0:
                break
        while p.pk() == '::':
            s += p.nx()
            s += p.nx() or ''
        return ('proj', s)
    if x in ('dyn', 'impl', 'for', 'fn', 'unsafe', 'extern'):
        s = ''
        d = 0
        while p.pk() is not None:
            y = p.pk()
            if d == 0 and y in (',', '>', ')', ']', ';'):
                break
            if y in '<([':
                d += 1
            if y in '>)]':
                d -= 1
            s += y + ' '
            p.nx()
        return ('raw', s.strip())
    path = p.nx()
    args = ()
    while True:
        if p.pk() == '::':
            p.nx()
            if p.pk() == '<':
                args = _args(p)
            else:
                path += '::' + (p.nx() or '')
        elif p.pk() == '<':
            args = _args(p)
        else:
            break
    return ('adt', path, args)


def _args(p):
    p.eat('<')
    out = []
    while not p.eat('>'):
        x = p.pk()
        if x is None:
            break
        if x.startswith("'"):
            p.nx()
        elif x == ',':
            p.nx()
        elif p.pk(1) == '=':
            p.nx(); p.nx()
            out.append(_ty(p))
        else:
            out.append(_ty(p))
    return tuple(out)


@functools.lru_cache(maxsize=None)
def parse_type(s):
    return _ty(_P(s))


@functools.lru_cache(maxsize=None)
def show(t):
    k = t[0]
    if k == 'adt':
        return t[1] + ('<' + ', '.join(show(a) for a in t[2]) + '>' if t[2] else '')
    if k == 'ref':
        return '&' + ('mut ' if t[1] else '') + show(t[2])
    if k == 'ptr':
        return '*' + ('mut ' if t[1] else 'const ') + show(t[2])
    if k == 'tuple':
        return '(' + ', '.join(show(a) for a in t[1]) + ')'
    if k == 'slice':
        return '[' + show(t[1]) + ']'
    if k == 'array':
        return '[' + show(t[1]) + '; ' + t[2] + ']'
    if k == 'never':
        return '!'
    return t[1]


def subst(t, env):
    if not env:
        return t
    k = t[0]
    if k == 'adt':
        if not t[2] and t[1] in env:
            return env[t[1]]
        return ('adt', t[1], tuple(subst(a, env) for a in t[2]))
    if k in ('ref', 'ptr'):
        return (k, t[1], subst(t[2], env))
    if k == 'tuple':
        return ('tuple', tuple(subst(a, env) for a in t[1]))
    if k == 'slice':
        return ('slice', subst(t[1], env))
    if k == 'array':
        return ('array', subst(t[1], env), t[2])
    return t


def last(path):
    return path.rsplit('::', 1)[-1]


def same_head(a, b):
    """paths equal, or one of them unqualified and the last segments equal"""
    if a == b:
        return True
    if '::' not in a or '::' not in b or a.startswith('marker::') or b.startswith('marker::'):
        return last(a) == last(b)
    if last(a) == last(b):
        # items declared inside a function
        a, b = a[:a.rindex('::') + 2], b[:b.rindex('::') + 2]
        return a.startswith(b) or b.startswith(a)
    return False


def unify(pat, ty, params, env):
    """one-way match of an impl/fn pattern against a concrete type"""
    k = pat[0]
    if k == 'adt' and not pat[2] and pat[1] in params:
        if pat[1] in env:
            return env[pat[1]] == ty or loose_eq(env[pat[1]], ty)
        env[pat[1]] = ty
        return True
    if k != ty[0]:
        return k in ('raw', 'proj') or ty[0] in ('raw', 'proj')
    if k == 'adt':
        if not same_head(pat[1], ty[1]):
            return False
        if len(pat[2]) != len(ty[2]):
            return not pat[2] or not ty[2] or len(pat[2]) < len(ty[2]) and all(
                unify(a, b, params, env) for a, b in zip(pat[2], ty[2]))
        return all(unify(a, b, params, env) for a, b in zip(pat[2], ty[2]))
    if k in ('ref', 'ptr'):
        return pat[1] == ty[1] and unify(pat[2], ty[2], params, env)
    if k == 'tuple':
        return len(pat[1]) == len(ty[1]) and all(unify(a, b, params, env) for a, b in zip(pat[1], ty[1]))
    if k in ('slice', 'array'):
        return unify(pat[1], ty[1], params, env)
    return True


def loose_eq(a, b):
    return unify(a, b, (), {}) 


# ---------------------------------------------------------------- places / operands / rvalues

def find_close(s, i):
    """index of the bracket matching s[i] (one of ([{< ), ignoring '->' """
    op = s[i]
    d = 0
    n = len(s)
    j = i
    while j < n:
        c = s[j]
        if c in '([{<':
            d += 1
        elif c in ')]}':
            d -= 1
            if d == 0:
                return j
        elif c == '>' and s[j - 1] not in '-=':
            d -= 1
            if d == 0:
                return j
        j += 1
    raise ValueError('unbalanced ' + s)


def split_top(s, sep=','):
    out = []
    d = 0
    cur = ''
    for j, c in enumerate(s):
        if c in '([{<':
            d += 1
        elif c in ')]}' or (c == '>' and s[j - 1] not in '-='):
            d -= 1
        if c == sep and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


@functools.lru_cache(maxsize=None)
def parse_place(s):
    """-> (local, (proj...))  proj: ('deref',) ('field', n, type) ('as', variant) ('idx', local) ('cidx', n, fromend)"""
    s = s.strip()
    m = re.fullmatch(r'_\d+', s)
    if m:
        return (s, ())
    if s.endswith(']'):
        d = 0
        j = len(s) - 1
        while j >= 0:
            if s[j] == ']':
                d += 1
            elif s[j] == '[':
                d -= 1
                if d == 0:
                    break
            j -= 1
        b, pr = parse_place(s[:j])
        ix = s[j + 1:-1].strip()
        if re.fullmatch(r'_\d+', ix):
            return (b, pr + (('idx', ix),))
        m = re.fullmatch(r'(-?\d+) of \d+', ix)
        if m:
            return (b, pr + (('cidx', int(m.group(1))),))
        return (b, pr + (('subslice', ix),))
    if s.startswith('('):
        e = find_close(s, 0)
        assert e == len(s) - 1, s
        inner = s[1:-1]
        if inner.startswith('*'):
            b, pr = parse_place(inner[1:])
            return (b, pr + (('deref',),))
        # (P.N: T)  or (P as Variant)
        # find base end
        if inner.startswith('('):
            be = find_close(inner, 0) + 1
            while be < len(inner) and inner[be] == '[':
                be = find_close(inner, be) + 1
        else:
            be = re.match(r'_\d+', inner).end()
            while be < len(inner) and inner[be] == '[':
                be = find_close(inner, be) + 1
        b, pr = parse_place(inner[:be])
        rest = inner[be:]
        m = re.match(r'\.(\d+): (.*)$', rest, re.S)
        if m:
            return (b, pr + (('field', int(m.group(1)), parse_type(m.group(2))),))
        m = re.match(r' as (?:variant#)?(\w+)$', rest)
        if m:
            return (b, pr + (('as', m.group(1)),))
        raise ValueError('place ' + s)
    raise ValueError('place ' + s)


class Fn:
    __slots__ = ('name', 'params', 'ret', 'locals', 'blocks', 'header', 'raw', 'parsed', 'kind',
                 'impl', 'method', 'module', 'strs', 'spans', 'cfg', 'debug')

    def __init__(self):
        self.parsed = False

    def __repr__(self):
        return '<fn %s>' % self.name


_strre = re.compile(r'b?"(?:[^"\\]|\\.)*"')


def load(text, cfgname):
    """split a MIR dump into Fn objects (bodies parsed lazily)"""
    fns = []
    lines = text.split('\n')
    i = 0
    n = len(lines)
    while i < n:
        l = lines[i]
        m = re.match(r'(fn|const|static(?: mut)?) (.*)$', l)
        if m and l.rstrip().endswith('{'):
            j = i + 1
            while j < n and lines[j] != '}':
                j += 1
            f = Fn()
            f.cfg = cfgname
            f.kind = m.group(1)
            f.header = m.group(2).rstrip()[:-1].strip()
            f.raw = lines[i + 1:j]
            _head(f)
            fns.append(f)
            i = j + 1
        else:
            i += 1
    return fns


def _head(f):
    h = f.header
    if f.kind == 'fn':
        # name up to the parameter list: the first '(' at depth 0
        d = 0
        j = 0
        while j < len(h):
            c = h[j]
            if c in '<{[':
                d += 1
            elif c in '}]' or (c == '>' and h[j - 1] not in '-='):
                d -= 1
            elif c == '(' and d == 0:
                break
            j += 1
        f.name = h[:j]
        e = find_close(h, j)
        f.params = []
        for a in split_top(h[j + 1:e]):
            nm, ty = a.split(':', 1)
            f.params.append((nm.strip(), parse_type(ty.strip())))
        r = h[e + 1:].strip()
        f.ret = parse_type(r[2:].strip()) if r.startswith('->') else ('tuple', ())
    else:
        m = re.match(r'(.*?): (.*?) =$', h)
        # name may contain ': ' inside <impl at ..>
        d = 0
        for j, c in enumerate(h):
            if c in '<{':
                d += 1
            elif c in '}' or (c == '>' and h[j - 1] not in '-='):
                d -= 1
            elif c == ':' and d == 0 and h[j + 1] == ' ':
                f.name = h[:j]
                f.ret = parse_type(h[j + 2:].rstrip('= '))
                break
        f.params = []


def parse_body(f):
    if f.parsed:
        return f
    f.parsed = True
    f.locals = {}
    f.blocks = {}
    f.strs = []
    f.spans = {}
    f.debug = {}
    for nm, ty in f.params:
        f.locals[nm] = ty

    def mask(m):
        f.strs.append(m.group(0))
        return '"S%d"' % (len(f.strs) - 1)
    cur = None
    for l in f.raw:
        span = ''
        k = l.find(' // ')
        s = _strre.sub(mask, l)
        k = s.find('//')
        if k >= 0:
            span = s[k + 2:].strip()
            s = s[:k]
        s = s.strip()
        if not s:
            continue
        m = re.match(r'let (?:mut )?(_\d+): (.*);$', s)
        if m:
            f.locals[m.group(1)] = parse_type(m.group(2))
            continue
        m = re.match(r'debug (.+?) => (.*);$', s)
        if m:
            f.debug.setdefault(m.group(2), m.group(1))
            continue
        m = re.match(r'(bb\d+)(?: \(cleanup\))?: \{$', s)
        if m:
            cur = []
            f.blocks[m.group(1)] = cur
            continue
        if s.startswith('scope ') or s == '}':
            continue
        if cur is None:
            continue
        st = parse_stmt(s)
        if st is not None:
            cur.append(st + (span,))
    return f


_NOP = ('StorageLive', 'StorageDead', 'nop', 'FakeRead', 'AscribeUserType', 'PlaceMention', 'Coverage',
        'ConstEvalCounter', 'Retag', 'BackwardIncompatibleDropHint', 'Deinit')


def parse_unw(s):
    if re.match(r'bb\d+$', s):
        return None, s          # a diverging call with a cleanup block
    m = re.search(r'return: (bb\d+)', s)
    ret = m.group(1) if m else None
    m = re.search(r'unwind: (bb\d+)', s)
    unw = m.group(1) if m else ('terminate' if 'terminate' in s else
                                'unreachable' if 'unwind unreachable' in s else 'continue')
    return ret, unw


def parse_stmt(s):
    if s.endswith(';'):
        s = s[:-1]
    m = re.match(r'StorageDead\((_\d+)\)$', s)
    if m:
        return ('dead', m.group(1))
    if s.startswith(_NOP) or s.startswith('Storage'):
        return None
    if s == 'return':
        return ('return',)
    if s in ('resume', 'unwind resume'):
        return ('resume',)
    if s == 'unreachable':
        return ('unreachable',)
    if s.startswith('unwind terminate') or s.startswith('terminate'):
        return ('terminate',)
    m = re.match(r'goto -> (bb\d+)$', s)
    if m:
        return ('goto', m.group(1))
    m = re.match(r'(falseEdge|falseUnwind) -> \[real: (bb\d+).*$', s)
    if m:
        return ('goto', m.group(2))
    m = re.match(r'switchInt\((.*)\) -> \[(.*)\]$', s)
    if m:
        tg = []
        for a in split_top(m.group(2)):
            k, b = a.split(':')
            tg.append((k.strip(), b.strip()))
        return ('switch', parse_operand(m.group(1)), tg)
    m = re.match(r'drop\((.*)\) -> (.*)$', s)
    if m and find_close(s, 4) == s.index(' -> ', find_close(s, 4)) - 1:
        ret, unw = parse_unw(m.group(2))
        return ('drop', parse_place(m.group(1)), ret, unw)
    m = re.match(r'assert\((.*)\) -> (.*)$', s)
    if m:
        parts = split_top(m.group(1))
        c = parts[0]
        neg = c.startswith('!')
        ret, unw = parse_unw(m.group(2).replace('success:', 'return:'))
        return ('assert', parse_operand(c.lstrip('!')), neg, ret, unw)
    m = re.match(r'discriminant\((.*)\) = (\d+)$', s)
    if m:
        return ('setdisc', parse_place(m.group(1)), int(m.group(2)))
    m = re.match(r'(?:assume)\((.*)\)$', s)
    if m:
        return ('assume', parse_operand(m.group(1)))
    # assignment; place is everything up to first top-level ' = '
    j = _find_eq(s)
    if j is None:
        if ' -> ' in s:
            return ('unknown', s)
        return ('unknown', s)
    dest, rhs = s[:j], s[j + 3:]
    k = rhs.rfind(') -> ')
    if k >= 0 and re.match(r'\) -> (\[|unwind|bb\d+$)', rhs[k:]):
        callpart, tail = rhs[:k + 1], rhs[k + 5:]
        # matching open paren of the last ')'
        d = 0
        q = len(callpart) - 1
        while q >= 0:
            c = callpart[q]
            if c == ')':
                d += 1
            elif c == '(':
                d -= 1
                if d == 0:
                    break
            q -= 1
        callee = callpart[:q].strip()
        args = [parse_operand(a) for a in split_top(callpart[q + 1:-1])]
        ret, unw = parse_unw(tail)
        return ('call', parse_place(dest), callee, args, ret, unw)
    return ('assign', parse_place(dest), parse_rvalue(rhs))


def _find_eq(s):
    d = 0
    for j, c in enumerate(s):
        if c in '([{<':
            d += 1
        elif c in ')]}' or (c == '>' and s[j - 1] not in '-='):
            d -= 1
        elif c == ' ' and d == 0 and s[j:j + 3] == ' = ':
            return j
    return None


_place_re = re.compile(r'^(_\d+|\()')


def parse_operand(s):
    s = s.strip()
    if s.startswith('copy '):
        return ('copy', parse_place(s[5:]))
    if s.startswith('move '):
        return ('move', parse_place(s[5:]))
    if s.startswith('const '):
        return ('const', s[6:])
    if re.match(r'^(_\d+$|\()', s):
        try:
            return ('copy', parse_place(s))
        except Exception:
            pass
    return ('const', s)


_BIN = ('Add', 'Sub', 'Mul', 'Div', 'Rem', 'BitXor', 'BitAnd', 'BitOr', 'Shl', 'Shr', 'Eq', 'Lt', 'Le', 'Ne', 'Ge',
        'Gt', 'Offset', 'Cmp', 'AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow', 'AddUnchecked',
        'SubUnchecked', 'MulUnchecked', 'ShlUnchecked', 'ShrUnchecked')
_UN = ('Not', 'Neg', 'PtrMetadata')


def parse_rvalue(s):
    s = s.strip()
    m = re.match(r'^(\w+)\(', s)
    if m and find_close(s, m.end() - 1) == len(s) - 1:
        nm = m.group(1)
        inner = s[m.end():-1]
        if nm in _BIN:
            a, b = split_top(inner)
            return ('bin', nm, parse_operand(a), parse_operand(b))
        if nm in _UN:
            return ('un', nm, parse_operand(inner))
        if nm == 'discriminant':
            return ('disc', parse_place(inner))
        if nm == 'Len':
            return ('len', parse_place(inner))
        if nm in ('SizeOf', 'AlignOf', 'UbChecks', 'ContractChecks', 'OffsetOf'):
            return ('nullary', nm, inner)
    if s.startswith('deref_copy '):
        return ('use', ('copy', parse_place(s[11:])))
    m = re.match(r'^&raw (const|mut) (.*)$', s)
    if m:
        return ('ref', 'raw' + m.group(1), parse_place(m.group(2)))
    m = re.match(r'^&(?:\'\w+ )?(?:fake (?:shallow )?|shallow )?(mut )?((?:\(|_\d).*)$', s)
    if m:
        return ('ref', 'mut' if m.group(1) else 'shared', parse_place(m.group(2)))
    # casts:  OPERAND as TYPE (Kind)
    m = re.match(r'^((?:copy|move|const) .*?) as (.*) \((\w+(?:\(.*\))?)\)$', s)
    if m and not s.startswith('const "') and _cast_ok(m.group(1)):
        # operand may itself contain ' as ' inside parentheses; pick the split at depth 0
        d = 0
        for j, c in enumerate(s):
            if c in '([{<':
                d += 1
            elif c in ')]}' or (c == '>' and s[j - 1] not in '-='):
                d -= 1
            elif c == ' ' and d == 0 and s[j:j + 4] == ' as ':
                q = s.rfind(' (')
                # kind may contain nested parens
                q = _kind_start(s)
                return ('cast', parse_operand(s[:j]), parse_type(s[j + 4:q].strip()), s[q:].strip(' ()'))
    if s.startswith(('copy ', 'move ', 'const ')):
        return ('use', parse_operand(s))
    if s.startswith('(') and find_close(s, 0) == len(s) - 1:
        return ('agg', 'tuple', None, [parse_operand(a) for a in split_top(s[1:-1])], None)
    if s.startswith('['):
        inner = s[1:-1]
        p = split_top(inner, ';')
        if len(p) == 2:
            return ('repeat', parse_operand(p[0]), p[1])
        return ('agg', 'array', None, [parse_operand(a) for a in split_top(inner)], None)
    if s.startswith('{'):
        e = find_close(s, 0)
        rest = s[e + 1:].strip()
        names, ops = [], []
        if rest.startswith('{'):
            for a in split_top(rest[1:-1]):
                k, v = a.split(':', 1)
                names.append(k.strip())
                ops.append(parse_operand(v))
        return ('agg', 'closure', s[:e + 1], ops, names)
    # ADT aggregates
    if s.endswith('}'):
        d = 0
        for j, c in enumerate(s):
            if c == '{' and d == 0:
                break
            if c in '([<{':
                d += 1
            elif c in ')]}' or (c == '>' and s[j - 1] not in '-='):
                d -= 1
        names, ops = [], []
        for a in split_top(s[j + 1:-1]):
            k, v = a.split(':', 1)
            names.append(k.strip())
            ops.append(parse_operand(v))
        return ('agg', 'adt', s[:j].strip(), ops, names)
    if s.endswith(')'):
        d = 0
        q = len(s) - 1
        while q >= 0:
            c = s[q]
            if c == ')':
                d += 1
            elif c == '(':
                d -= 1
                if d == 0:
                    break
            q -= 1
        return ('agg', 'adt', s[:q].strip(), [parse_operand(a) for a in split_top(s[q + 1:-1])], None)
    return ('agg', 'adt', s, [], None)


def _cast_ok(s):
    return True


def _kind_start(s):
    d = 0
    q = len(s) - 1
    while q >= 0:
        c = s[q]
        if c == ')':
            d += 1
        elif c == '(':
            d -= 1
            if d == 0:
                return q
        q -= 1
    return q
