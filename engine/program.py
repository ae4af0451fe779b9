"""Build the MIR of /repo's current tree and index it: canonical names, callee resolution, constants."""
import hashlib
import os
import re
import subprocess
import sys

import mir
from mir import split_top, match_close, strip_generics, type_head, type_args

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get('VERIF_BUILD') or os.path.join(VERIF, 'build')

CONFIGS = {
    # name: (cargo flags, rustc flags)
    'host': ([], []),
    'host-debug': ([], ['-Cdebug-assertions=on', '-Coverflow-checks=on']),
    'host-assert': ([], ['-Cdebug-assertions=on', '-Coverflow-checks=off', '-Zub-checks=no']),
    'wasm': (['--target', 'wasm32-unknown-unknown', '--features', 'wasm nodejs'], []),
    'nodefault': (['--no-default-features'], []),
    'serde': (['--no-default-features', '--features', 'serde'], []),
    'rkyv': (['--no-default-features', '--features', 'rkyv'], []),
}


class BuildError(Exception):
    pass


def cargo_env(target):
    env = dict(os.environ)
    env['HOME'] = '/root'
    env['PATH'] = '/root/.cargo/bin:/usr/local/cargo/bin:' + env.get('PATH', '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin')
    env['RUSTUP_TOOLCHAIN'] = 'nightly-2025-12-01'
    env['CARGO_NET_OFFLINE'] = 'true'
    env['CARGO_INCREMENTAL'] = '0'
    env['CARGO_PROFILE_DEV_DEBUG'] = '0'
    env['CARGO_TERM_COLOR'] = 'never'
    env['RUSTC_WRAPPER'] = ''
    env['CARGO_TARGET_DIR'] = target
    for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS'):
        env.pop(k, None)
    return env


def tree_hash():
    """hash of everything the build reads from /repo"""
    h = hashlib.sha256()
    for base, dirs, files in os.walk(REPO):
        rel = os.path.relpath(base, REPO)
        if rel == '.':
            dirs[:] = [d for d in dirs if d in ('src',)]
            files = [f for f in files if f in ('Cargo.toml', 'Cargo.lock', 'build.rs', 'rust-toolchain', 'rust-toolchain.toml')]
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(base, f)
            h.update(os.path.relpath(p, REPO).encode() + b'\0')
            with open(p, 'rb') as fh:
                h.update(fh.read())
            h.update(b'\0')
    return h.hexdigest()[:24]


def mir_text(config):
    """The MIR text of /repo's current working tree. Recompiled whenever any source byte differs."""
    flags, rflags = CONFIGS[config]
    os.makedirs(BUILD, exist_ok=True)
    key = tree_hash() + '-' + hashlib.sha256(repr((flags, rflags)).encode()).hexdigest()[:8]
    out = os.path.join(BUILD, 'mir-%s.txt' % config)
    stamp = out + '.key'
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == key:
        return open(out).read()
    import fcntl
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == key:
            return open(out).read()
        target = os.path.join(BUILD, 'target')
        base = ['-Zunpretty=mir', '-Zmir-opt-level=0', '-Ztrim-diagnostic-paths=no', '-Zmir-include-spans=no',
                '--cfg', 'verif_key="%s"' % key, '-Aunexpected_cfgs']
        if 'host-' not in config:
            base += ['-Cdebug-assertions=off', '-Coverflow-checks=off']
        cmd = ['cargo', 'rustc', '--lib', '--offline', '--manifest-path', os.path.join(REPO, 'Cargo.toml')] + flags + \
              ['--'] + base + rflags
        p = subprocess.run(cmd, cwd=REPO, env=cargo_env(target), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if p.returncode != 0 or not p.stdout.strip():
            raise BuildError('cannot compile %s (%s): %s' % (REPO, config, p.stderr[-3000:]))
        tmp = out + '.tmp%d' % os.getpid()
        with open(tmp, 'w') as fh:
            fh.write(p.stdout)
        os.replace(tmp, out)
        with open(stamp, 'w') as fh:
            fh.write(key)
        return p.stdout


# ------------------------------------------------------------------ impl headers

_src_cache = {}


def _src(path):
    if path not in _src_cache:
        with open(os.path.join(REPO, path)) as fh:
            _src_cache[path] = fh.read().split('\n')
    return _src_cache[path]


def impl_header(file, l1, c1, l2, c2):
    """-> dict(trait=, self=, text=) of the impl at this span, from the source text"""
    lines = _src(file)
    if l1 == l2:
        text = lines[l1 - 1][c1 - 1:c2 - 1]
    else:
        text = '\n'.join([lines[l1 - 1][c1 - 1:]] + lines[l1:l2 - 1] + [lines[l2 - 1][:c2 - 1]])
    if re.match(r'(unsafe )?impl\b', text):
        t = re.sub(r'\s+', ' ', text)
        t = re.sub(r'^(unsafe )?impl\s*', '', t)
        if t.startswith('<'):
            e = match_close(t, 0)
            t = t[e + 1:].strip()
        t = t.split(' where ')[0].strip()
        if t.endswith('{'):
            t = t[:-1].strip()
        k = _find_for(t)
        if k >= 0:
            return {'trait': t[:k].strip(), 'self': t[k + 5:].strip(), 'text': text}
        return {'trait': None, 'self': t, 'text': text}
    # derive attribute: the deriving item follows
    if re.match(r'^[\w:]+$', text.strip()):
        for j in range(l2 - 1, min(l2 + 40, len(lines))):
            m = re.match(r'\s*(?:pub(?:\([^)]*\))? )?(?:struct|enum|union) (\w+)', lines[j])
            if m:
                return {'trait': text.strip(), 'self': m.group(1), 'text': text, 'derive': True}
    return {'trait': None, 'self': None, 'text': text}


def _find_for(t):
    d = 0
    for i, c in enumerate(t):
        if c in '<([{':
            d += 1
        elif c in ')]}' or (c == '>' and t[i - 1] not in '-='):
            d -= 1
        elif d == 0 and t.startswith(' for ', i):
            return i
    return -1


_IMPL_AT = re.compile(r'<impl at ([^:>]+):(\d+):(\d+): (\d+):(\d+)>')


def canon_def(fn):
    """canonical key of a function definition"""
    path = fn.path
    m = None
    for m in _IMPL_AT.finditer(path):
        pass
    if not m:
        return strip_generics(path)
    if m.group(1).startswith('/'):
        return path
    if path[:m.start()].rstrip(':').endswith('_') or '::_::' in path[:m.start()]:
        pass
    h = impl_header(m.group(1), int(m.group(2)), int(m.group(3)), int(m.group(4)), int(m.group(5)))
    tail = path[m.end():].lstrip(':')
    self = h['self']
    trait = h['trait']
    pre = path[:m.start()]
    if self is None or '$' in self or (trait and '$' in trait):
        # inside a macro: take self type from the signature
        st = None
        if fn.argtys:
            st = fn.argtys[0]
        if trait and type_head(trait) == 'ArchiveRead':
            a = type_args(fn.ret)
            st = a[0] if a else None
        elif trait is None and self is None:
            # macro body or derive helper
            st = st or fn.ret
        self = st or '?'
    fn.impl = h
    sh = type_head(self)
    th = type_head(trait) if trait else None
    if th:
        return '<%s as %s>::%s' % (sh, th, tail)
    return '%s::%s' % (sh, tail)


class Program:
    def __init__(self, config='host', text=None):
        self.config = config
        self.text = text if text is not None else mir_text(config)
        self.fns, self.allocs, self.simple = mir.parse_mir(self.text)
        self.by_key = {}
        self.by_path = {}
        self.closures = {}
        self.consts = {}
        for f in self.fns:
            if f.kind == 'fn':
                f.key = canon_def(f)
                self.by_key.setdefault(f.key, []).append(f)
                self.by_path.setdefault(f.path, []).append(f)
                m = re.match(r"^&?(?:mut )?(\{closure@.*\})$", f.argtys[0]) if f.argtys else None
                if m:
                    self.closures[m.group(1)] = f
            else:
                f.key = canon_def(f)
                self.consts.setdefault(f.key, []).append(f)
                self.by_path.setdefault(f.path, []).append(f)
        self._name_swizzles()
        # methods by (self head, name) for trait lookups
        self.methods = {}
        for k, v in self.by_key.items():
            m = re.match(r'^<(.*) as ([^>]*)>::(\w+)$', k)
            if m:
                for f in v:
                    self.methods.setdefault((m.group(2), m.group(3)), []).append((m.group(1), f))
        self._unify_cache = {}
        self._rcache = {}

    def _name_swizzles(self):
        """simd_swizzle! makes an anonymous `Impl` per use, printed alike: the k-th use in a function has the k-th INDEX;
        the call is renamed to carry the lane numbers"""
        idx = {}
        for f in self.fns:
            if f.kind != 'fn' and f.path.endswith('>::INDEX') and 'swizzle.rs' in f.path:
                idx.setdefault(f.path.split('::<impl at /rustc')[0], []).append(self._lanes(f))
        for f in self.fns:
            if f.kind != 'fn' or f.path not in idx:
                continue
            calls = [b for b in sorted(f.blocks) if f.blocks[b][1] and f.blocks[b][1][0] == 'call' and 'Impl as std::simd::Swizzle' in str(f.blocks[b][1][2])]
            want = idx[f.path]
            if len(calls) != len(want) or None in want:
                continue
            for b, w in zip(calls, want):
                st, t = f.blocks[b]
                t = (t[0], t[1], t[2].replace('Impl as std::simd::Swizzle', 'Impl_%s as std::simd::Swizzle' % '_'.join(map(str, w)))) + tuple(t[3:])
                f.blocks[b] = (st, t)

    def _lanes(self, f, depth=0):
        for b, (st, t) in f.blocks.items():
            for s in st:
                if s[0] == 'assign' and s[1] == (0, ()):
                    r = s[2]
                    if r[0] == 'agg' and r[1] == '[]':
                        v = [re.match(r'^(\d+)_usize$', x[1]) if x[0] == 'const' else None for x in r[3]]
                        return [int(x.group(1)) for x in v] if all(v) else None
                    if r[0] == 'repeat':
                        m, n = re.match(r'^(\d+)_usize$', str(r[1][1])), re.search(r'(\d+)', str(r[2]))
                        return [int(m.group(1))] * int(n.group(1)) if m and n else None
                    if r[0] == 'use' and r[1][0] == 'const' and depth < 3:
                        k = r[1][1].split('::')
                        for i in range(len(k)):
                            c = self.consts.get('::'.join(k[i:]))
                            if c:
                                return self._lanes(c[0], depth + 1)
        return None

    def fn(self, key):
        v = self.by_key.get(key)
        return v[0] if v else None

    # -------------------------------------------------------------- callee resolution
    def callee_name(self, func):
        """canonical name of a callee path as printed at a call site"""
        f = func.strip()
        if f.startswith(('move ', 'copy ')):
            return f
        if f.startswith('<'):
            e = match_close(f, 0)
            inner = f[1:e]
            rest = strip_generics('x' + f[e + 1:])[1:]
            k = _find_as(inner)
            if k >= 0:
                return '<%s as %s>%s' % (type_head(inner[:k]), type_head(inner[k + 4:]), rest)
            return '<%s>%s' % (inner, rest)
        return strip_generics(f)

    def resolve(self, func, argtys=None, retty=None):
        """crate-local Fn for a call path, or None when the callee is outside the crate / a generic method"""
        k = (func, tuple(argtys) if argtys is not None else None, retty)
        if k not in self._rcache:
            self._rcache[k] = self._resolve(func, argtys, retty)
        return self._rcache[k]

    def _resolve(self, func, argtys=None, retty=None):
        name = self.callee_name(func)
        m = re.match(r'^<(.*) as (?:std::convert::)?Into<(.*)>>::into$', func.strip())
        if m:
            # the blanket Into goes through a crate-local From
            src, dst = m.group(1), type_head(m.group(2))
            c = [f for (s, f) in self.methods.get(('From', 'from'), []) if s == dst and f.argtys and type_head(f.argtys[0]) == type_head(src)]
            return c[0] if len(c) == 1 else None
        if name.startswith('<'):
            m = re.match(r'^<(.*) as ([^>]*)>::(\w+)$', name)
            if m:
                if m.group(1).startswith('{closure@') and m.group(3) in ('call', 'call_mut', 'call_once'):
                    return self.closures.get(_closure_ty(func))
                cands = [f for (s, f) in self.methods.get((m.group(2), m.group(3)), []) if s == m.group(1)]
                if len(cands) > 1:
                    cands = self._pick(cands, argtys, retty)
                if len(cands) == 1:
                    return cands[0]
                if not cands:
                    # default method of a crate trait, e.g. ArchiveRead::read_vec
                    for k, v in self.by_key.items():
                        if k.endswith('%s::%s' % (m.group(2), m.group(3))) and not k.startswith('<'):
                            if len(v) == 1 and not v[0].impl:
                                return v[0]
                return None
            if name not in self.by_key:
                return None
        if name in self.by_key:
            c = self.by_key[name]
            if len(c) > 1:
                c = self._pick(c, argtys, retty)
            return c[0] if len(c) == 1 else None
        parts = name.split('::')
        if len(parts) >= 2 and parts[0] in ('std', 'core', 'alloc', 'glam', 'rkyv', 'serde', 'bimap'):
            return None
        for i in range(1, len(parts) - 1):
            c = self.by_key.get('::'.join(parts[i:]))
            if c:
                c = [f for f in c]
                if len(c) > 1:
                    c = self._pick(c, argtys, retty)
                return c[0] if len(c) == 1 else None
        return None

    def _pick(self, cands, argtys, retty):
        # `const fn`s are printed twice (CTFE and runtime): same path => take the last (runtime) one
        seen = {}
        for f in cands:
            seen[(f.path, tuple(f.argtys), f.ret)] = f
        c = list(seen.values())
        if len(c) == 1:
            return c
        if argtys is not None:
            d = [f for f in c if len(f.argtys) == len(argtys) and all(
                unify(a, b, {}) is not None for a, b in zip(f.argtys, argtys))]
            if retty is not None:
                d = [f for f in d if unify(f.ret, retty, {}) is not None] or d
            return d
        return c


def _find_as(t):
    d = 0
    for i, c in enumerate(t):
        if c in '<([{':
            d += 1
        elif c in ')]}' or (c == '>' and t[i - 1] not in '-='):
            d -= 1
        elif d == 0 and t.startswith(' as ', i):
            return i
    return -1


def _closure_ty(func):
    i = func.find('{closure@')
    e = match_close(func, i)
    return func[i:e + 1]


def clean_type(t):
    """drop lifetimes and 'mut'-insensitive noise"""
    t = re.sub(r"'(?:\w+|_)\s?(, )?", '', t)
    t = t.replace('<>', '')
    return t


def unify(pat, t, sub):
    """match callee type `pat` (may contain generic names) against caller type `t`; returns sub or None"""
    pat, t = clean_type(pat).strip(), clean_type(t).strip()
    if pat == t:
        return sub
    if re.match(r'^[A-Z]\w{0,3}$', pat) or pat.startswith('impl '):
        if pat in sub and sub[pat] != t:
            return None
        sub[pat] = t
        return sub
    if pat.startswith('<') and ' as ' in pat:
        return sub      # projection: cannot decide
    if t.startswith('<') and ' as ' in t:
        return sub
    for p in ('&mut ', '&', '*const ', '*mut '):
        if pat.startswith(p):
            if not t.startswith(p) or (p == '&' and t.startswith('&mut ')):
                return None
            return unify(pat[len(p):], t[len(p):], sub)
    if pat.startswith('[') and t.startswith('['):
        a, b = split_top(pat[1:-1], ';'), split_top(t[1:-1], ';')
        if len(a) != len(b):
            return None
        return unify(a[0], b[0], sub)
    if pat.startswith('(') and t.startswith('('):
        a, b = split_top(pat[1:-1]), split_top(t[1:-1])
    else:
        i, j = pat.find('<'), t.find('<')
        if i < 0 or j < 0 or pat[:i] != t[:j]:
            return None
        a, b = type_args(pat), type_args(t)
    if len(a) != len(b):
        return None
    for x, y in zip(a, b):
        if unify(x, y, sub) is None:
            return None
    return sub
