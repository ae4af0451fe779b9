"""Compile-time witnesses: small programs handed to the type checker (never run) against the crate as it is now."""
import hashlib
import json
import os
import subprocess

from program import REPO, BUILD, BuildError, cargo_env, tree_hash, CONFIGS

_libs = {}


def lib(config='host'):
    """externs of the crate built in this configuration"""
    if config in _libs:
        return _libs[config]
    flags, _ = CONFIGS[config]
    os.makedirs(BUILD, exist_ok=True)
    import fcntl
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        cmd = ['cargo', 'rustc', '--lib', '--offline', '--message-format=json', '--manifest-path', os.path.join(REPO, 'Cargo.toml')] + flags + \
              ['--', '--cfg', 'verif_key="%s"' % tree_hash(), '-Aunexpected_cfgs']
        p = subprocess.run(cmd, cwd=REPO, env=cargo_env(os.path.join(BUILD, 'target')), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode != 0:
        msgs = [json.loads(l)['message']['rendered'] for l in p.stdout.split('\n') if l.startswith('{') and json.loads(l).get('reason') == 'compiler-message']
        raise BuildError('cannot compile %s (%s): %s' % (REPO, config, '\n'.join(msgs)[-2500:] or p.stderr[-2500:]))
    ext = {}
    deps = set()
    for l in p.stdout.split('\n'):
        if not l.startswith('{'):
            continue
        m = json.loads(l)
        if m.get('reason') != 'compiler-artifact':
            continue
        kinds = m['target']['kind']
        if not any(k in ('lib', 'rlib', 'proc-macro') for k in kinds):
            continue
        for f in m['filenames']:
            if f.endswith(('.rmeta', '.rlib', '.so')):
                ext[m['target']['name'].replace('-', '_')] = f
                deps.add(os.path.dirname(f))
                deps.add(os.path.join(os.path.dirname(f), 'deps'))
    _libs[config] = (ext, deps)
    return _libs[config]


def compile(code, config='host', use=('ozz_animation_rs', 'glam')):
    """-> (accepted, sorted error codes, text)"""
    ext, deps = lib(config)
    flags, _ = CONFIGS[config]
    d = os.path.join(BUILD, 'witness')
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256((code + config).encode()).hexdigest()[:16]
    src = os.path.join(d, 'w%s-%d.rs' % (h, os.getpid()))
    with open(src, 'w') as fh:
        fh.write(code)
    cmd = ['rustc', '--edition', '2021', '--crate-type', 'lib', '--emit=metadata', '--out-dir', d, '--error-format=json', '-Awarnings', '--crate-name', 'w' + h, src]
    if '--target' in flags:
        cmd += ['--target', flags[flags.index('--target') + 1]]
    for x in sorted(deps):
        cmd += ['-L', x]
    for u in use:
        if u in ext:
            cmd += ['--extern', '%s=%s' % (u, ext[u])]
    p = subprocess.run(cmd, env=cargo_env(os.path.join(BUILD, 'target')), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    for f in (src, os.path.join(d, 'libw%s.rmeta' % h)):
        if os.path.exists(f):
            os.unlink(f)
    codes, text = set(), []
    for l in p.stderr.split('\n'):
        if l.startswith('{'):
            m = json.loads(l)
            if m.get('level') == 'error':
                if m.get('code'):
                    codes.add(m['code']['code'])
                text.append(m.get('message', ''))
    return p.returncode == 0, sorted(codes), '; '.join(text)[:800] or p.stderr[-800:]


def batch(items, config='host', jobs=8):
    """[(name, code)] -> {name: (accepted, codes, text)}"""
    from concurrent.futures import ThreadPoolExecutor
    lib(config)
    with ThreadPoolExecutor(jobs) as ex:
        return dict(zip([n for n, _ in items], ex.map(lambda x: compile(x[1], config), items)))


def soa_layout():
    """The SoA types are plain float lanes in the documented order: loaders and (de)serialisers view them as [f32]."""
    out = []
    for ty, fields, size in (('SoaVec3', ['x', 'y', 'z'], 48), ('SoaQuat', ['x', 'y', 'z', 'w'], 64),
                             ('SoaTransform', ['translation', 'rotation', 'scale'], 160)):
        offs = {'SoaTransform': [0, 48, 112]}.get(ty) or [16 * i for i in range(len(fields))]
        code = '#![feature(portable_simd)]\nuse ozz_animation_rs::math::*;\nuse std::mem::*;\nconst _: () = assert!(size_of::<%s>() == %d && align_of::<%s>() >= 16);\n' % (ty, size, ty)
        for f, o in zip(fields, offs):
            code += 'const _: () = assert!(offset_of!(%s, %s) == %d);\n' % (ty, f, o)
        if ty == 'SoaTransform':
            code += 'pub fn f(t: SoaTransform) -> (SoaVec3, SoaQuat, SoaVec3) { (t.translation, t.rotation, t.scale) }\n'
        else:
            code += 'pub fn f(t: %s) -> [std::simd::f32x4; %d] { [%s] }\n' % (ty, len(fields), ', '.join('t.' + f for f in fields))
        ok, codes, text = compile(code)
        out.append((ok, 'layout of %s' % ty, '%s is not %s at offsets %s: %s' % (ty, fields, offs, text)))
    return out
