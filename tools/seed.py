"""Makes /verif/seeded/<id>/ from a spec module: SEEDS = {id: dict(property, file, edits=[(old,new)], demo, needs, breaks)}
   python3 tools/seed.py SPEC.py ID...   (writes the folder and checks patch, build, tests and demo in scratch copies)"""
import sys, os, json, subprocess, shutil, runpy, tempfile

DEMO = '''#!/bin/bash
# exit 0: the property holds in this scenario; nonzero: it is broken
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
another-rxrust = { path = "$repo" }
T
CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target" cargo build --offline -q --manifest-path "$d/Cargo.toml" || exit 3
timeout -k 2 60 "$d/target/debug/demo"
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def main():
    seeds = runpy.run_path(sys.argv[1])['SEEDS']
    for sid in sys.argv[2:] or seeds:
        s = seeds[sid]
        out = '/verif/seeded/' + sid
        os.makedirs(out, exist_ok=True)
        w = tempfile.mkdtemp(prefix='seed.', dir='/tmp')
        r = w + '/repo'
        sh('git clone -q /repo %s' % r)
        eds = s['edits']
        for f, old, new in eds:
            t = open(r + '/' + f).read()
            if t.count(old) != 1:
                print(sid, 'EDIT MATCHES', t.count(old), f, old[:50])
                break
            open(r + '/' + f, 'w').write(t.replace(old, new))
        else:
            d = sh('git -C %s diff' % r).stdout
            open(out + '/patch.diff', 'w').write(d)
            open(out + '/demo.sh', 'w').write(DEMO)
            os.chmod(out + '/demo.sh', 0o755)
            open(out + '/demo.rs', 'w').write(s['demo'])
            json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(out + '/meta.json', 'w'), indent=1)
            # changed original lines?
            base = '5ffe2a1'
            a = sh('bash %s/demo.sh' % out, cwd=r)
            sh('git -C %s checkout -q -- .' % r)
            b = sh('bash %s/demo.sh' % out, cwd=r)
            print(sid, 'patched rc', a.returncode, 'clean rc', b.returncode, '' if a.returncode and not b.returncode and a.returncode != 3 else 'BAD ' + (a.stderr + b.stderr)[-1500:])
            if '-t' in os.environ.get('SEED', ''):
                pass
        shutil.rmtree(w)


main()
