"""Self-test of the checks: edits of /repo in scratch copies; refactorings must stay quiet, bugs must be reported.
    python3 selftest/run.py [-p PROP,..] [-k substring] [-j N] [--build]
Not part of any registered check."""
import argparse, concurrent.futures as cf, importlib, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
CASES = []


def bug(id, props, *edits):
    CASES.append((id, 'bug', props.replace(',', ' ').split(), edits))


def ref(id, props, *edits):
    CASES.append((id, 'ref', props.replace(',', ' ').split(), edits))


def slot():
    # a few build directories, kept between runs
    import multiprocessing
    i = multiprocessing.current_process()._identity
    return '/tmp/vst/b%d' % (i[0] if i else 0)


def run(case, full):
    id, kind, props, edits = case
    d = slot().replace('/b', '/s')
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    try:
        repo = os.path.join(d, 'repo')
        os.mkdir(repo)
        for x in ('src', 'Cargo.toml', 'Cargo.lock', 'rust-toolchain', 'README.md', 'tests'):
            s = os.path.join('/repo', x)
            (shutil.copytree if os.path.isdir(s) else shutil.copy2)(s, os.path.join(repo, x))
        for f, old, new in edits:
            p = os.path.join(repo, 'src', f)
            t = open(p).read()
            if t.count(old) < 1:
                return id, kind, 'EDIT-FAILED %r' % old[:60]
            t = t.replace(old, new, 1) if not full else t.replace(old, new)
            open(p, 'w').write(t)
        out = []
        for pr in props:
            env = dict(os.environ, VERIF_REPO=repo, VERIF_BUILD=slot(), VERIF_OUT=d)
            r = subprocess.run([sys.executable, os.path.join(HERE, '..', 'check.py'), pr], env=env, capture_output=True, text=True)
            v = 'VIOLATION' in r.stdout
            good = (v and 'cannot compile' not in r.stdout) if kind == 'bug' else (r.returncode == 0)
            msg = '' if good and kind == 'ref' else '\n'.join('      ' + l[:260] for l in [x for x in r.stdout.splitlines() if x.startswith('  ')][:4] + r.stderr.splitlines()[-2:])
            out.append('%s %s%s' % ('ok  ' if good else 'MISS' if kind == 'bug' else 'ALARM', pr, '\n' + msg if msg.strip() else ''))
        return id, kind, '; '.join(out)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('-p'); ap.add_argument('-k'); ap.add_argument('-j', type=int, default=6); ap.add_argument('-v', action='store_true'); ap.add_argument('-r', help='run this check on every ref case')
    a = ap.parse_args()
    sys.modules['run'] = sys.modules['__main__']
    import cases
    sel = []
    for c in CASES:
        if a.k and a.k not in c[0]:
            continue
        pr = [p for p in c[2] if not a.p or p in a.p.split(',')]
        if a.r:
            pr = a.r.split(',') if c[1] == 'ref' else []
        if pr:
            sel.append((c[0], c[1], pr, c[3]))
    bad = 0
    with cf.ProcessPoolExecutor(a.j) as ex:
        for f in cf.as_completed([ex.submit(run, c, False) for c in sel]):
            id, kind, msg = f.result()
            fail = 'MISS' in msg or 'ALARM' in msg or 'EDIT-FAILED' in msg
            bad += fail
            if fail or a.v:
                print(kind, id, msg, flush=True)
    print('%d cases, %d wrong' % (len(sel), bad))
