"""Copies /repo's crate with std::sync, std::thread, std::time and the hash tables replaced by
the controlled scheduler (vsched.rs).  The rewriting is mechanical: `use` trees are flattened and
path prefixes renamed; nothing else of the source changes."""
import os, re, shutil, subprocess
from . import build

MAP = [
    ('std::sync', 'crate::vsched::sync'), ('core::sync', 'crate::vsched::sync'), ('std::thread', 'crate::vsched::thread'),
    ('std::time', 'crate::vsched::time'), ('std::collections::HashMap', 'crate::vsched::HashMap'), ('std::collections::HashSet', 'crate::vsched::HashSet'),
]


def flatten(tree, pre=''):
    """use tree -> list of (path, alias)"""
    tree = tree.strip()
    i = tree.find('{')
    if i < 0:
        m = re.match(r'^(.*?)\s+as\s+(\w+)$', tree)
        if m:
            return [(pre + m.group(1).strip(), m.group(2))]
        return [(pre + tree, None)]
    head = tree[:i].strip()
    body = tree[i + 1:tree.rindex('}')]
    parts, d, cur = [], 0, ''
    for c in body:
        if c == '{':
            d += 1
        elif c == '}':
            d -= 1
        if c == ',' and d == 0:
            parts.append(cur)
            cur = ''
        else:
            cur += c
    parts.append(cur)
    out = []
    for p in parts:
        if p.strip():
            if p.strip() == 'self':
                out.append(((pre + head).rstrip(':'), None))
            elif p.strip().startswith('self as '):
                out.append(((pre + head).rstrip(':'), p.strip()[8:]))
            else:
                out += flatten(p, pre + head)
    return out


def rename(path):
    for a, b in MAP:
        if path == a or path.startswith(a + '::'):
            return b + path[len(a):]
    return path


def rewrite(src):
    def use(m):
        pub, tree = m.group(1) or '', m.group(2)
        if not re.match(r'\s*(::)?(std|core)\b', tree):
            return m.group(0)
        tree = re.sub(r'//[^\n]*', '', tree)
        tree = re.sub(r'\s+', ' ', tree).strip().lstrip(':')
        out = []
        for p, al in flatten(tree):
            p = re.sub(r'\s', '', p)
            q = rename(p)
            if q.endswith(('vsched::HashMap', 'vsched::HashSet')):
                out.append('use crate::vsched::MapNew as _;')
            last = p.split('::')[-1]
            out.append('%suse %s%s;' % (pub, q, ' as ' + al if al else '' if q.split('::')[-1] == last else ' as ' + last))
        return ' '.join(out)
    src = re.sub(r'((?:pub(?:\([^)]*\))?\s+)?)\buse\s+([^;]*);', use, src)

    def inline(m):
        return rename(m.group(1))
    # paths outside of use items
    src = re.sub(r'(?<![\w:])(?:::)?((?:std|core)::(?:sync|thread|time|collections::HashMap|collections::HashSet)\b)', inline, src)
    return src


def make():
    """-> path of the generated package (crate another_rxrust with vsched inside, and the scenarios)"""
    d = build.WORK + '/vs'
    src = d + '/src'
    if os.path.isdir(src):
        shutil.rmtree(src)
    shutil.copytree(build.REPO + '/src', src)
    for f in os.listdir(build.REPO):
        if os.path.isfile(build.REPO + '/' + f) and f.lower().endswith(('.md', '.txt')):
            shutil.copy(build.REPO + '/' + f, d + '/' + f)      # included as documentation
    tries = False
    for root, _, files in os.walk(src):
        for f in files:
            if f.endswith('.rs'):
                p = os.path.join(root, f)
                t = open(p).read()
                tries |= bool(re.search(r'\btry_(read|write|lock)\b', t))
                # the library's own unit tests are not part of the copy
                t2 = rewrite(t)
                if t2 != t:
                    open(p, 'w').write(t2)
    here = build.ROOT + '/vsched'
    with open(src + '/vsched.rs', 'w') as f:
        t = open(here + '/vsched.rs').read()
        f.write(t.replace('pub const TRIES: bool = false;', 'pub const TRIES: bool = true;') if tries else t)
    with open(src + '/lib.rs', 'a') as f:
        f.write('\npub mod vsched;\n')
    os.makedirs(src + '/bin', exist_ok=True)
    shutil.copy(here + '/scenarios.rs', src + '/bin/vs.rs')
    feats = ''
    for ln in open(build.REPO + '/Cargo.toml'):
        if ln.strip().startswith('[features]'):
            feats = '[features]\nweb = []\n'
    with open(d + '/Cargo.toml', 'w') as f:
        f.write('[package]\nname = "another-rxrust"\nversion = "0.0.0"\nedition = "2021"\n[workspace]\n[[bin]]\nname = "vs"\npath = "src/bin/vs.rs"\n'
                '[profile.dev]\ndebug = false\nopt-level = 1\n' + feats)
    env = dict(os.environ, CARGO_TARGET_DIR=build.WORK + '/vt', CARGO_NET_OFFLINE='true', RUSTFLAGS='-Awarnings')
    p = subprocess.run(['cargo', 'build', '--offline', '-q'], cwd=d, env=env, capture_output=True, text=True)
    if p.returncode:
        raise RuntimeError('controlled-scheduler copy does not build\n' + p.stderr[:6000])
    return build.WORK + '/vt/debug/vs'
