"""Source-side facts: struct/enum definitions, impl headers, and the MIR dumps of every
supported feature configuration (rebuilt from the current tree on every run)."""
import os, re, subprocess, tempfile, shutil, hashlib
from . import mir

REPO = os.environ.get('FC_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NIGHTLY = 'nightly-2024-11-07'

# name -> (features, needs hashbrown dependency)
DBG = '_debug'
CONFIGS = {
    'unstable': (['unstable'], False),
    'unstable_io': (['unstable', 'std', 'std_io'], False),
    'none': ([], False),
    'std': (['std'], False),
    'std_io': (['std', 'std_io'], False),
    'hash': (['default', 'hashmap'], True),
    'hash_io': (['default', 'hashmap', 'std', 'std_io'], True),
}
# the same features, built with debug assertions and overflow checks
CONFIGS.update([(c + DBG, v) for c, v in CONFIGS.items()])


class BuildError(Exception):
    pass


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='fcsa_')
        import atexit
        atexit.register(shutil.rmtree, _scratch, True)
    return _scratch


def clean_env():
    e = dict(os.environ)
    for k in list(e):
        if k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER',
                 'CARGO_BUILD_RUSTFLAGS', 'CARGO_TARGET_DIR'):
            e.pop(k)
    e['CARGO_NET_OFFLINE'] = 'true'
    return e


_hb = None


def hashbrown_rlib():
    """compile the hashbrown dependency once, through cargo, into scratch space"""
    global _hb
    if _hb:
        return _hb
    d = os.path.join(scratch(), 'hb')
    td = os.path.join(scratch(), 'hbt')
    os.makedirs(d + '/src')
    open(d + '/src/lib.rs', 'w').write('#![no_std]\npub use hashbrown;\n')
    open(d + '/Cargo.toml', 'w').write(
        '[package]\nname="hbw"\nversion="0.1.0"\nedition="2021"\n[dependencies]\n%s\n[workspace]\n' % _hb_dep())
    lock = os.path.join(REPO, 'Cargo.lock')
    r = subprocess.run(['cargo', '+' + NIGHTLY, 'build', '--offline', '--target-dir', td], cwd=d,
                       env=clean_env(), capture_output=True, text=True)
    if r.returncode:
        raise BuildError('hashbrown: ' + r.stderr[-2000:])
    dep = os.path.join(td, 'debug', 'deps')
    rl = [f for f in os.listdir(dep) if f.startswith('libhashbrown') and f.endswith('.rlib')]
    _hb = (dep, os.path.join(dep, rl[0]))
    return _hb


def _hb_dep():
    t = open(os.path.join(REPO, 'Cargo.toml')).read()
    m = re.search(r'^hashbrown\s*=\s*(.*)$', t, re.M)
    if not m:
        raise BuildError('no hashbrown dependency in Cargo.toml')
    v = re.sub(r',?\s*optional\s*=\s*true', '', m.group(1))
    return 'hashbrown = ' + v


def build_mir(cfg, spans=False):
    feats, hb = CONFIGS[cfg]
    on = 'on' if cfg.endswith(DBG) else 'off'
    out = os.path.join(scratch(), 'mir_%s_%d.mir' % (cfg, spans))
    # a copy of the current sources plus instantiations of the exported macros
    tree = os.path.join(scratch(), 'tree_%s_%d' % (cfg, spans))
    shutil.copytree(os.path.join(REPO, 'src'), tree)
    probe = open(os.path.join(VERIF, 'sa', 'probe.rs')).read()
    with open(os.path.join(tree, 'lib.rs'), 'a') as f:
        f.write('\n' + probe)
    cmd = ['rustc', '+' + NIGHTLY, '--edition', '2021', '--crate-name', 'fallible_collections',
           '--remap-path-prefix', tree + '=' + os.path.join(REPO, 'src'),
           '--crate-type', 'lib', os.path.join(tree, 'lib.rs'), '--emit=mir', '-Zmir-opt-level=0',
           '-A', 'warnings', '-C', 'debug-assertions=' + on, '-C', 'overflow-checks=' + on,
           '-Ztrim-diagnostic-paths=no', '-Zmir-include-spans=' + ('true' if spans else 'false'), '-o', out]
    for f in feats:
        cmd += ['--cfg', 'feature="%s"' % f]
    if hb:
        dep, rl = hashbrown_rlib()
        cmd += ['-L', 'dependency=' + dep, '--extern', 'hashbrown=' + rl]
    r = subprocess.run(cmd, cwd=scratch(), env=clean_env(), capture_output=True, text=True)
    if r.returncode:
        raise BuildError('%s: %s' % (cfg, r.stderr[-3000:]))
    return open(out).read()


# ------------------------------------------------------------------ source text helpers

def strip_comments(s):
    """blank out comments and string contents, keeping offsets"""
    out = []
    i = 0
    n = len(s)
    while i < n:
        c = s[i]
        if s.startswith('//', i):
            j = s.find('\n', i)
            j = n if j < 0 else j
            out.append(' ' * (j - i))
            i = j
        elif s.startswith('/*', i):
            d = 1
            j = i + 2
            while j < n and d:
                if s.startswith('/*', j):
                    d += 1; j += 2
                elif s.startswith('*/', j):
                    d -= 1; j += 2
                else:
                    j += 1
            out.append(re.sub(r'[^\n]', ' ', s[i:j]))
            i = j
        elif c == '"':
            j = i + 1
            while j < n and s[j] != '"':
                j += 2 if s[j] == '\\' else 1
            out.append('"' + re.sub(r'[^\n]', ' ', s[i + 1:j]) + '"')
            i = j + 1
        elif c == "'":
            m = re.match(r"'(\\.[^']*|[^\\'])'", s[i:])
            if m:
                out.append("'" + ' ' * (m.end() - 2) + "'")
                i += m.end()
            else:
                out.append(c)
                i += 1
        else:
            out.append(c)
            i += 1
    return ''.join(out)


class Source:
    def __init__(self, single=None):
        self.files = {}
        self.single = single
        if single:
            self.files[single] = open(single).read()
        root = os.path.join(REPO, 'src')
        for dp, dn, fn in os.walk(root) if not single else ():
            for f in fn:
                if f.endswith('.rs'):
                    p = os.path.join(dp, f)
                    self.files[p] = open(p).read()
        self.clean = {p: strip_comments(t) for p, t in self.files.items()}
        self.structs = {}    # path -> [(field, type text)]
        self.reprs = {}      # path -> text of the repr attributes
        self.enums = {}      # path -> [(variant, [(field|None, type text)])]
        self.generics = {}   # path -> [type parameter]
        self.aliases = {}    # path -> ([type parameter], type text)
        self.defs = {}       # module -> set of type names defined there
        self.lines = {p: t.split('\n') for p, t in self.clean.items()}
        for p, t in self.clean.items():
            self._defs(p, t)

    def module_of(self, path, off=None):
        rel = os.path.relpath(path, os.path.join(REPO, 'src'))[:-3]
        m = rel.replace('/', '::')
        if m == 'lib' or self.single:
            m = ''
        if m.endswith('::mod'):
            m = m[:-5]
        if off is not None:
            t = self.clean[path]
            for mm in re.finditer(r'\bmod\s+(\w+)\s*\{', t):
                e = _brace(t, mm.end() - 1)
                if mm.end() <= off < e:
                    m = (m + '::' if m else '') + mm.group(1)
        return m

    def _defs(self, p, t):
        for m in re.finditer(r'\b(struct|enum|union)\s+(\w+)', t):
            mod = self.module_of(p, m.start())
            full = (mod + '::' if mod else '') + m.group(2)
            self.defs.setdefault(mod, set()).add(m.group(2))
            pre = re.search(r'((?:#\[[^\]]*\]\s*)*)(?:pub\s*(?:\([^)]*\))?\s+)?$', t[:m.start()])
            self.reprs[full] = ' '.join(re.findall(r'\brepr\s*\(([^)]*)', pre.group(1))) if pre else ''
            i = m.end()
            d = 0
            # skip generics
            while i < len(t) and t[i].isspace():
                i += 1
            self.generics[full] = []
            if i < len(t) and t[i] == '<':
                e = _angle(t, i)
                self.generics[full] = generics_of(t[i + 1:e - 1])
                i = e
            j = i
            while j < len(t) and t[j] not in '{;(':
                j += 1
            if j >= len(t):
                continue
            if t[j] == ';':
                self.structs[full] = []
                continue
            e = _brace(t, j)
            body = t[j + 1:e - 1]
            items = [x for x in _split(body) if x.strip()]
            if m.group(1) == 'enum':
                vs = []
                for it in items:
                    it = re.sub(r'#\[[^\]]*\]', '', it).strip()
                    mm = re.match(r'(\w+)\s*([({].*)?', it, re.S)
                    fl = []
                    if mm.group(2) and mm.group(2)[0] in '({':
                        inner = mm.group(2).strip()[1:-1]
                        for f in _split(inner):
                            if f.strip():
                                if mm.group(2)[0] == '{':
                                    k, v = f.split(':', 1)
                                    fl.append((k.strip(), v.strip()))
                                else:
                                    fl.append((None, f.strip()))
                    vs.append((mm.group(1), fl))
                self.enums[full] = vs
            else:
                fl = []
                for it in items:
                    it = re.sub(r'#\[[^\]]*\]', '', it).strip()
                    it = re.sub(r'^pub(\s*\([^)]*\))?\s+', '', it)
                    if t[j] == '(':
                        fl.append((None, it))
                    else:
                        k, v = it.split(':', 1)
                        fl.append((k.strip(), ' '.join(v.split())))
                self.structs[full] = fl

    def impl_header(self, path, line, col):
        """text of the impl header (or derive) that starts at path:line:col"""
        ls = self.lines.get(path)
        if ls is None:
            return None
        text = '\n'.join(ls[line - 1:])[col - 1:]
        return text


def _brace(t, i):
    op = t[i]
    cl = {'{': '}', '(': ')', '[': ']'}[op]
    d = 0
    while i < len(t):
        if t[i] == op:
            d += 1
        elif t[i] == cl:
            d -= 1
            if d == 0:
                return i + 1
        i += 1
    return i


def _angle(t, i):
    d = 0
    while i < len(t):
        if t[i] == '<':
            d += 1
        elif t[i] == '>' and t[i - 1] not in '-=':
            d -= 1
            if d == 0:
                return i + 1
        i += 1
    return i


def _split(s):
    return mir.split_top(s)


def generics_of(text):
    """('<...>' text) -> list of type parameter names"""
    out = []
    for a in mir.split_top(text):
        a = re.sub(r'#\[[^\]]*\]', '', a).strip()
        if a.startswith("'") or not a:
            continue
        if a.startswith('const '):
            out.append(a[6:].split(':')[0].strip())
            continue
        out.append(a.split(':')[0].split('=')[0].strip())
    return out


class ImplInfo:
    __slots__ = ('trait', 'trait_args', 'self_ty', 'params', 'module', 'derive')


def parse_impl(src, path, line, col, l2, c2):
    text = src.impl_header(path, line, col)
    if text is None:
        return None
    info = ImplInfo()
    off = sum(len(x) + 1 for x in src.lines[path][:line - 1]) + col - 1
    info.module = src.module_of(path, off)
    info.derive = False
    m = re.match(r'(unsafe\s+)?impl\b', text)
    if not m:
        # derive: the span is the trait name inside #[derive(..)]
        tm = re.match(r'[\w:]+', text)
        sm = re.search(r'\b(struct|enum)\s+(\w+)', text)
        if not tm or not sm:
            return None
        info.derive = True
        info.trait = tm.group(0)
        info.trait_args = ()
        i = sm.end()
        info.params = []
        if text[i:i + 1] == '<':
            e = _angle(text, i)
            info.params = generics_of(text[i + 1:e - 1])
        full = (info.module + '::' if info.module else '') + sm.group(2)
        info.self_ty = ('adt', full, tuple(('adt', p, ()) for p in info.params))
        return info
    i = m.end()
    info.params = []
    if text[i:i + 1] == '<':
        e = _angle(text, i)
        info.params = generics_of(text[i + 1:e - 1])
        i = e
    # header up to `{` or `where`
    d = 0
    j = i
    while j < len(text):
        c = text[j]
        if c in '<([':
            d += 1
        elif c in ')]' or (c == '>' and text[j - 1] not in '-='):
            d -= 1
        elif d == 0 and (c == '{' or re.match(r'\bwhere\b', text[j:j + 6]) and not text[j - 1].isalnum()):
            break
        j += 1
    h = ' '.join(text[i:j].split())
    h = re.sub(r'#\[may_dangle\]', '', h)
    d = 0
    pos = None
    for k, c in enumerate(h):
        if c in '<([':
            d += 1
        elif c in ')]' or (c == '>' and h[k - 1] not in '-='):
            d -= 1
        elif d == 0 and h[k:k + 5] == ' for ':
            pos = k
            break
    if pos is None:
        info.trait, info.trait_args = None, ()
        st = h
    else:
        tr = mir.parse_type(h[:pos].strip())
        info.trait = tr[1]
        info.trait_args = tr[2] if tr[0] == 'adt' else ()
        st = h[pos + 5:]
    info.self_ty = qualify(src, mir.parse_type(st.strip()), info.module)
    info.trait_args = tuple(qualify(src, a, info.module) for a in info.trait_args)
    info.params = [re.sub(r'#\[may_dangle\]\s*', '', p) for p in info.params]
    return info


def qualify(src, t, module):
    """give locally defined type names their module path"""
    k = t[0]
    if k == 'adt':
        p = t[1]
        nm = mir.last(p)
        if '::' not in p and nm in src.defs.get(module, ()):
            p = (module + '::' if module else '') + nm
        return ('adt', p, tuple(qualify(src, a, module) for a in t[2]))
    if k in ('ref', 'ptr'):
        return (k, t[1], qualify(src, t[2], module))
    if k == 'tuple':
        return ('tuple', tuple(qualify(src, a, module) for a in t[1]))
    if k == 'slice':
        return ('slice', qualify(src, t[1], module))
    if k == 'array':
        return ('array', qualify(src, t[1], module), t[2])
    return t


class Program:
    """one configuration's functions with impl information and a callee resolver"""

    def __init__(self, cfg, src=None, text=None):
        self.cfg = cfg
        self.src = src or Source()
        self.fns = mir.load(text if text is not None else build_mir(cfg), cfg)
        self.fnset = set(self.fns)
        self.by_name = {}
        self.by_trait = {}     # (trait last, method) -> [fn]
        self.by_inh = {}       # (type last, method) -> [fn]
        self.closures = {}
        self.consts = {}
        self.free = {}
        for f in self.fns:
            self._index(f)

    def _index(self, f):
        f.impl = None
        f.method = None
        nm = f.name
        if f.kind != 'fn':
            self.consts[re.sub(r'<impl at [^>]*>', '<impl>', nm)] = f
            self.consts[nm] = f
        self.by_name.setdefault(nm, []).append(f)
        m = None
        for m in re.finditer(r'<impl at ([^<>]*?):(\d+):(\d+): (\d+):(\d+)>', nm):
            pass          # the innermost impl
        if m:
            f.impl = parse_impl(self.src, m.group(1), *[int(m.group(i)) for i in (2, 3, 4, 5)])
        if f.kind == 'fn' and nm.endswith('}') and '{closure' in nm:
            t = f.params[0][1]
            while t[0] in ('ref', 'ptr'):
                t = t[2]
            if t[0] == 'closure':
                self.closures[t[1]] = f
            f.method = None
            return
        if f.kind != 'fn':
            return
        if m:
            tail = nm[m.end():]
            if tail.count('::') == 1:
                f.method = tail[2:]
                info = f.impl
                if info is None:
                    return
                if not info.derive and info.self_ty[0] == 'adt' and info.self_ty[1].startswith('$'):
                    # macro-generated impl: take Self from the receiver
                    t = f.params[0][1] if f.params else f.ret
                    import copy
                    info = copy.copy(info)
                    info.self_ty = t[2] if t[0] == 'ref' else t
                    f.impl = info
                if info.trait:
                    self.by_trait.setdefault((mir.last(info.trait), f.method), []).append(f)
                else:
                    st = info.self_ty
                    key = mir.last(st[1]) if st[0] == 'adt' else st[0]
                    self.by_inh.setdefault((key, f.method), []).append(f)
            else:
                # nested fn inside a method, e.g. try_clone::clone_subtree
                f.method = nm.rsplit('::', 1)[-1]
                self.free.setdefault(f.method, []).append(f)
        else:
            f.method = nm.rsplit('::', 1)[-1]
            self.free.setdefault(f.method, []).append(f)

    # ---- helpers for checks
    def find(self, selfty=None, trait=None, method=None, module=None, selfcont=None):
        out = []
        for f in self.fns:
            if f.kind != 'fn' or f.method != method:
                continue
            if selfty is not None or trait is not None:
                if f.impl is None:
                    continue
            if trait is not None and (f.impl.trait is None or mir.last(f.impl.trait) != trait):
                continue
            if trait is None and selfty is not None and f.impl.trait is not None:
                continue
            if selfty is not None:
                st = f.impl.self_ty
                if isinstance(selfty, str):
                    if mir.show(st) != selfty and (st[0] != 'adt' or (st[1] != selfty and mir.last(st[1]) != selfty)):
                        continue
                else:
                    if not mir.unify(selfty, st, (), {}):
                        continue
            if module is not None:
                md = f.impl.module if f.impl else f.name.rsplit('::', 1)[0]
                if md != module:
                    continue
            if selfcont is not None and selfcont not in mir.show(f.impl.self_ty):
                continue
            out.append(f)
        return out


def build_prelude():
    pth = os.path.join(VERIF, 'sa', 'prelude.rs')
    out = os.path.join(scratch(), 'prelude.mir')
    r = subprocess.run(['rustc', '+' + NIGHTLY, '--edition', '2021', '--crate-name', 'prelude', '--crate-type', 'lib',
                        pth, '--emit=mir', '-Zmir-opt-level=0', '-A', 'warnings', '-C', 'debug-assertions=off',
                        '-C', 'overflow-checks=off', '-Ztrim-diagnostic-paths=no', '-Zmir-include-spans=false',
                        '-o', out], cwd=scratch(), env=clean_env(), capture_output=True, text=True)
    if r.returncode:
        raise BuildError('prelude: ' + r.stderr[-3000:])
    return Program('prelude', Source(pth), open(out).read())


def fn_key(f):
    """line-number free identification of a function"""
    nm = f.name
    if f.impl is not None:
        m = list(re.finditer(r'<impl at [^<>]*?>', nm))[-1]
        h = ('<%s as %s>' % (mir.show(f.impl.self_ty), f.impl.trait)) if f.impl.trait else mir.show(f.impl.self_ty)
        nm = re.sub(r'<impl at [^<>]*?>', '<impl>', nm[:m.start()]) + h + nm[m.end():]
    return nm
