"""Facts of the current tree: builds the MIR driver and runs it over the real build of /repo."""
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys
import fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.path.join(VERIF, '.cache')
CRATES = ('ratelmq', 'ratelmq-bin', 'ratelmq_passwd-bin')


class BuildError(Exception):
    pass


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise BuildError('%s failed:\n%s' % (' '.join(cmd), r.stdout[-4000:]))
    return r.stdout


def digest(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:24]


def driver():
    src = glob.glob(VERIF + '/driver/src/*.rs') + [VERIF + '/driver/Cargo.toml', VERIF + '/driver/Cargo.lock']
    exe = VERIF + '/driver/target/debug/mirdump'
    mark = VERIF + '/driver/target/mirdump.digest'
    d = digest(src)
    if os.path.exists(exe) and os.path.exists(mark) and open(mark).read() == d:
        return exe, d
    env = dict(os.environ)
    env.pop('RUSTC_WORKSPACE_WRAPPER', None)
    env['CARGO_TARGET_DIR'] = VERIF + '/driver/target'
    run(['cargo', '+nightly', 'build', '--offline'], cwd=VERIF + '/driver', env=env)
    with open(mark, 'w') as f:
        f.write(d)
    return exe, d


def sources(repo):
    out = []
    for dp, dns, fns in os.walk(repo):
        dns[:] = [d for d in dns if d not in ('target', '.git')]
        out += [os.path.join(dp, f) for f in fns if f.endswith('.rs') or f in ('Cargo.toml', 'Cargo.lock')]
    return out


def facts(repo=None):
    """Facts of every crate of the workspace, as parsed JSON by crate name."""
    repo = repo or REPO
    os.makedirs(CACHE, exist_ok=True)
    with open(CACHE + '/lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe, dd = driver()
        lock = repo + '/Cargo.lock'
        if not os.path.exists(lock):
            for c in ('/opt/vp/Cargo.lock', VERIF + '/tools/Cargo.lock'):
                if os.path.exists(c):
                    shutil.copy(c, lock)
                    break
        key = digest(sources(repo)) + dd
        out = CACHE + '/facts/' + hashlib.sha256(key.encode()).hexdigest()[:24]
        if not os.path.exists(out + '/done'):
            for old in sorted(glob.glob(CACHE + '/facts/*'), key=os.path.getmtime)[:-12]:
                shutil.rmtree(old)
            tgt = CACHE + '/target'
            os.makedirs(out, exist_ok=True)
            env = dict(os.environ)
            for v in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC_WRAPPER', 'CARGO_BUILD_TARGET'):
                env.pop(v, None)
            root = run(['rustc', '+nightly', '--print', 'sysroot']).strip()
            env.update(RUSTC_WORKSPACE_WRAPPER=exe, LD_LIBRARY_PATH=root + '/lib', MIRDUMP_OUT=out, CARGO_TARGET_DIR=tgt,
                       CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='0')
            # the wrapper is skipped for units cargo believes fresh
            for p in glob.glob(tgt + '/debug/build/ratelmq*') + glob.glob(tgt + '/debug/.fingerprint/ratelmq*'):
                shutil.rmtree(p)
            run(['cargo', '+nightly', 'check', '--offline', '--workspace'], cwd=repo, env=env)
            for c in CRATES:
                if not os.path.exists('%s/%s.json' % (out, c)):
                    raise BuildError('no facts for %s: the build did not run the driver' % c)
            open(out + '/done', 'w').close()
        os.utime(out)
    res = {}
    for p in glob.glob(out + '/*.json'):
        with open(p) as f:
            res[os.path.basename(p)[:-5]] = json.loads(same_maps(f.read()))
    return res


MAPS = (('alloc::collections::btree::map::entry::', 'std::collections::hash::map::'), ('alloc::collections::btree::map::', 'std::collections::hash::map::'),
        ('std::collections::btree_map::', 'std::collections::hash_map::'), ('BTreeMap', 'HashMap'))


def looked_at(d, enum):
    return any(s[0] == '=' and s[2][0] == 'discr' and s[2][1][2] is not None and d['types'][s[2][1][2]].get('def', '').endswith(enum)
               for b in (d['bodies'].values() if isinstance(d['bodies'], dict) else d['bodies']) for x in b['blocks'] for s in x['s'])


def same_maps(text):
    """Ordered maps are maps like any other. Where code looks at the variants of their entries, which are in another order, they are left alone."""
    if 'BTreeMap' in text and not ('btree::map::entry::Entry"' in text and looked_at(json.loads(text), 'btree::map::entry::Entry')):
        for a, b in MAPS:
            text = text.replace(a, b)
    return text


if __name__ == '__main__':
    r = facts()
    print({k: len(v['bodies']) for k, v in r.items()})
