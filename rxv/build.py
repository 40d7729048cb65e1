"""Builds the MIR dumper and the replay harness, and dumps /repo's MIR."""
import os, subprocess, sys, json, fcntl, contextlib

ROOT = os.path.dirname(os.path.abspath(__file__))
WORK = os.environ.get('RXV_WORK', '/verif/work')
REPO = os.environ.get('RXV_REPO', '/repo')


@contextlib.contextmanager
def locked(name):
    os.makedirs(WORK, exist_ok=True)
    with open('%s/%s.lock' % (WORK, name), 'w') as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        yield


def sh(cmd, **k):
    p = subprocess.run(cmd, capture_output=True, text=True, **k)
    if p.returncode:
        raise RuntimeError('%s\n%s' % (' '.join(cmd), (p.stdout + p.stderr)[-4000:]))
    return p.stdout


def driver():
    with locked('driver'):
        env = dict(os.environ, CARGO_TARGET_DIR=WORK + '/d', CARGO_NET_OFFLINE='true')
        sh(['cargo', '+nightly', 'build', '--offline', '-q'], cwd=ROOT + '/driver', env=env)
    return WORK + '/d/debug/rxv-mir'


def dump(features=()):
    """MIR of /repo's current source -> path of the JSON file"""
    exe = driver()
    sysroot = sh(['rustc', '+nightly', '--print', 'sysroot']).strip()
    out = '%s/mir-%d%s.json' % (WORK, os.getpid(), ''.join(features))
    odir = '%s/mir-out-%d' % (WORK, os.getpid())
    os.makedirs(odir, exist_ok=True)
    env = dict(os.environ, RXV_OUT=out, LD_LIBRARY_PATH=sysroot + '/lib')
    feat = []
    for f in features:
        feat += ['--cfg', 'feature="%s"' % f]
    edition = '2021'
    for ln in open(REPO + '/Cargo.toml'):
        if ln.strip().startswith('edition'):
            edition = ln.split('"')[1]
    p = subprocess.run([exe, '--edition', edition, '--crate-type', 'lib', '--crate-name', 'another_rxrust', '--cap-lints', 'allow',
                        'src/lib.rs', '--sysroot', sysroot, '--out-dir', odir] + feat, cwd=REPO, env=env, capture_output=True, text=True)
    if not os.path.exists(out):
        raise RuntimeError('MIR dump failed\n' + p.stderr[-3000:])
    for f in os.listdir(odir):
        os.unlink(os.path.join(odir, f))
    os.rmdir(odir)
    return out


if __name__ == '__main__':
    print(driver())
    from . import replay
    print(replay.build())
