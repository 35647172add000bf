"""Type-level witnesses: client programs that must, or must not, type-check against the current crate."""
import os, re, json, subprocess
from .. import src
from .registry import extra

W = os.path.join(src.VERIF, 'sa', 'witness')
UN = ('unstable', 'std', 'std_io')
HASH = ('default', 'hashmap', 'std')
_lib = {}


def lib(feats):
    """metadata of the crate built with the given features"""
    if feats in _lib:
        return _lib[feats]
    d = os.path.join(src.scratch(), 'lib_' + '_'.join(feats))
    os.makedirs(d)
    cmd = ['rustc', '+' + src.NIGHTLY, '--edition', '2021', '--crate-name', 'fallible_collections', '--crate-type', 'lib',
           os.path.join(src.REPO, 'src/lib.rs'), '--emit=metadata', '-A', 'warnings', '--out-dir', d]
    for f in feats:
        cmd += ['--cfg', 'feature="%s"' % f]
    r = subprocess.run(cmd, cwd=d, env=src.clean_env(), capture_output=True, text=True)
    if r.returncode:
        raise src.BuildError('%s: %s' % (feats, r.stderr[-3000:]))
    _lib[feats] = d
    return d


def compile_witness(name, feats):
    """[(line of the witness, code, message)] of the errors of one witness file"""
    d = lib(feats)
    cmd = ['rustc', '+' + src.NIGHTLY, '--edition', '2021', '--crate-type', 'lib', os.path.join(W, name), '--emit=metadata',
           '--extern', 'fallible_collections=' + os.path.join(d, 'libfallible_collections.rmeta'), '-L', d,
           '--out-dir', d, '--error-format=json', '-A', 'warnings']
    for f in feats:
        cmd += ['--cfg', 'feature="%s"' % f]
    r = subprocess.run(cmd, cwd=d, env=src.clean_env(), capture_output=True, text=True)
    errs = []
    for l in r.stderr.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get('level') != 'error' or not m.get('spans'):
            continue
        lines = []
        for s in m['spans']:
            e = s
            while e.get('expansion'):
                e = e['expansion']['span']
            if e['file_name'].endswith(name):
                lines.append((not s['is_primary'], e['line_start']))
        errs.append((sorted(lines)[0][1] if lines else None, (m.get('code') or {}).get('code'), m['message']))
    return r.returncode, errs


def witnesses(name, feats):
    """{witness name: (first line, last line)} of the functions enabled by the features"""
    txt = src.strip_comments(open(os.path.join(W, name)).read())
    off = []
    for m in re.finditer(r'#\[cfg\(feature = "[^"]*"\)\]\s*mod\s+(\w+)\s*\{', txt):
        off.append((m.start(), src._brace(txt, m.end() - 1), {'hm': 'hashmap', 'bt': 'unstable'}[m.group(1)]))
    out = {}
    for m in re.finditer(r'\bpub fn (\w+)|\bnot_impl!\((\w+)', txt):
        nm = m.group(1) or m.group(2)
        if any(a <= m.start() < b and f not in feats for a, b, f in off):
            continue
        e = src._brace(txt, txt.index('(' if m.group(2) else '{', m.start()))
        out[nm] = (txt.count('\n', 0, m.start()) + 1, txt.count('\n', 0, e) + 1)
    return out


def must_pass(res, feats, pat):
    ws = {k: v for k, v in witnesses('must_pass.rs', feats).items()}
    rc, errs = compile_witness('must_pass.rs', feats)
    tag = '+'.join(feats)
    sel = [w for w in ws if re.match(pat, w)]
    bad = {}
    for ln, code, msg in errs:
        if ln is None:
            continue
        w = next((w for w, (a, b) in ws.items() if a <= ln <= b), None)
        bad.setdefault(w, (code, msg))
    # the borrow checker only runs once everything type-checks
    for w in sel:
        ok = w not in bad
        res.obligations.append(('%s [%s]' % (w, tag), 1, 'discharged' if ok else 'violated'))
        if ok:
            res.decided += 1
        else:
            res.violate('witness|' + w, 'witness ' + w,
                        'the guarantee `%s` does not type-check: %s %s' % (w.replace('__', ': '), bad[w][0], bad[w][1]),
                        'client program that must be accepted')
    if None in bad:
        raise src.BuildError('witness program broken: %s' % (bad[None],))


CODES = {'E0499', 'E0502', 'E0505', 'E0506', 'E0597', 'E0716', 'E0515', 'E0521', None}


def must_fail(res, feats, pat):
    ws = witnesses('must_fail.rs', feats)
    rc, errs = compile_witness('must_fail.rs', feats)
    tag = '+'.join(feats)
    hit = {}
    for ln, code, msg in errs:
        w = next((w for w, (a, b) in ws.items() if ln is not None and a <= ln <= b), None)
        if code not in CODES:
            raise src.BuildError('witness program broken: %s %s (line %s)' % (code, msg, ln))
        hit.setdefault(w, (code, msg))
    for w in ws:
        if not re.match(pat, w):
            continue
        ok = w in hit
        res.obligations.append(('%s [%s]' % (w, tag), 1, 'discharged' if ok else 'violated'))
        if ok:
            res.decided += 1
        else:
            res.violate('witness|' + w, 'witness ' + w,
                        'a client program that lets a reference dangle or alias is accepted: %s' % w,
                        'client program that must be rejected')


WRAPPERS = ('TryVec', 'TryBox', 'TryHashMap')


@extra('C09', ('unstable_io', 'hash_io'))
def exclusions(res, tier):
    """no wrapper type implements a trait whose methods allocate without being able to fail"""
    from ..spec import prog
    from .. import mir
    for cfg in ('unstable_io', 'hash_io'):
        p = prog(cfg)
        n = 0
        bad = 0
        text = '\n'.join(p.src.clean.values())
        for f in p.fns:
            if f.kind != 'fn' or '{closure' in f.name or f.impl is None:
                continue
            st = f.impl.self_ty
            if st[0] != 'adt' or mir.last(st[1]) not in WRAPPERS:
                continue
            if not f.impl.trait and not re.search(r'\bpub\s+(unsafe\s+)?fn\s+%s\b' % f.method, text):
                continue
            n += 1
            res.functions.add(src.fn_key(f))
            if f.ret is not None and escapes(f.ret):
                bad += 1
                res.violate('escape|' + src.fn_key(f), src.fn_key(f),
                            'hands out mutable access to the infallible collection it wraps (returns %s)' % mir.show(f.ret),
                            'Try* types never expose `&mut` to the collection inside')
        res.obligations.append(('return types of the public methods of TryVec, TryBox and TryHashMap [%s]' % cfg, n,
                                'violated' if bad else 'discharged'))
    must_pass(res, UN, 'exclude__')
    must_pass(res, HASH, 'exclude__')


def escapes(t):
    from .. import mir
    if t[0] in ('ref', 'ptr'):
        u = t[2]
        if t[1] and u[0] == 'adt' and mir.last(u[1]) in ('Vec', 'HashMap', 'Box', 'String'):
            return True
        return escapes(u)
    if t[0] == 'adt':
        return any(escapes(x) for x in t[2])
    if t[0] == 'tuple':
        return any(escapes(x) for x in t[1])
    return False


@extra('C37')
def auto(res, tier):
    for f in (UN, HASH):
        must_pass(res, f, r'(auto|alias|variance|dropck|tryvec)__')
        must_fail(res, f, r'')
