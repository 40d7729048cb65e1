"""Mutation run over the verifier: python3-vt tools/mutate.py OUT.jsonl JOBS [FILE_SUBSTR...]
Every mutant of /repo/src (one changed place) is dumped and the proof tasks that execute a
function of the changed file are run; survivors are those without a failed obligation that
counts for some property.  Works in scratch copies, never in /repo."""
import sys, os, re, json, time, subprocess, shutil, multiprocessing as mp, signal, hashlib
sys.path.insert(0, '/verif')
sys.setrecursionlimit(20000)
W = '/tmp/w/mc'


def code(path):
    s = open(path).read().split('\n')
    out, skip = [], False
    for i, l in enumerate(s):
        if re.match(r'\s*#\[cfg\((all\()?test', l):
            break
        out.append((i, l))
    return s, out


SUB = [
    (r'sink_complete\(&serial\)', 'sink_complete_force()'), (r'sink_complete_force\(\)', 'finalize()'), (r'(\w+)\.sink_complete\(&serial\)', r'\1.upstream_abort_observe(&serial)'),
    (r'\.finalize\(\)', '.is_subscribed()'), (r' < ', ' <= '), (r' <= ', ' < '), (r' >= ', ' > '), (r' > ', ' >= '), (r' == ', ' != '), (r' != ', ' == '),
    (r' && ', ' || '), (r' \|\| ', ' && '), (r'if !', 'if '), (r'\bif (?!let|!)([\w.*&()]+) \{', r'if !(\1) {'), (r'\b0\b', '1'), (r'\b1\b', '0'), (r'\b1\b', '2'),
    (r'\+= 1', '+= 2'), (r'\+= 1', '-= 1'), (r' \+ 1', ''), (r' - 1', ''), (r' \+ 1', ' + 2'), (r'pop_front', 'pop_back'), (r'push_back', 'push_front'), (r'\.push\(', '.insert(0, '),
    (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\.take\(\)', '.clone()'), (r'\.write\(\)\.unwrap\(\)\.take\(\)', '.read().unwrap().clone()'),
    (r'Some\((\w+)\)', 'None'), (r'\.is_some\(\)', '.is_none()'), (r'\.is_none\(\)', '.is_some()'), (r'\.is_empty\(\)', '.len() == 1'), (r'\bwhile\b', 'if'),
    (r'break;', 'continue;'), (r'break;', ''), (r'return;', ''), (r'\.exists\(\)', '.empty()'), (r'\.empty\(\)', '.exists()'), (r'(\w+(?:\.\w+)*)\.is_subscribed\(\)', 'true'), (r'!\w+(?:\.\w+)*\.is_subscribed\(\)', 'false'),
    (r'call_and_clear_if_available', 'call_if_available'), (r'call_if_available', 'call_and_clear_if_available'), (r'\.rev\(\)', ''), (r'notify_one', 'notify_all'),
    (r'sink_error\(\w+\)', 'sink_complete_force()'), (r'\.error\(\w+(\.clone\(\))?\)', '.complete()'), (r'\.complete\(\)', '.unsubscribe()'), (r'\.unsubscribe\(\)', '.is_subscribed()'),
    (r'upstream_abort_observe\(&serial\)', 'is_subscribed()'), (r'\.remove\(', '.get('), (r'\.read\(\)\.unwrap\(\)\.clone\(\)', '.write().unwrap().clone()'), (r'\+= ', '= '), (r'\.inner_subscribe\(', '.clone().inner_subscribe('),
    (r'= None;', '= Default::default();'), (r'\.clear\(\)', '.len()'), (r'std::mem::take\(&mut \*(.*?)\)', r'(*\1).clone()'),
]


def mutants(rel):
    path = '/repo/src/' + rel
    s, cl = code(path)
    seen = set()
    body = [(i, l) for i, l in cl if l.strip() and not l.strip().startswith(('//', 'use ', 'pub fn', 'fn ', 'impl', 'pub struct', '#[', 'where'))]

    def out(new, what):
        t = '\n'.join(new)
        h = hashlib.md5(t.encode()).hexdigest()
        if h not in seen:
            seen.add(h)
            return [(rel, what, t)]
        return []
    r = []
    depth_fn = False
    for i, l in body:
        for a, b in SUB:
            for m in re.finditer(a, l):
                try:
                    n = l[:m.start()] + re.sub(a, b, m.group(0), count=1) + l[m.end():]
                except re.error:
                    continue
                # look-behind context of the pattern needs the whole line
                if n == l:
                    continue
                new = list(s)
                new[i] = n
                r += out(new, '%d: %s  =>  %s' % (i + 1, l.strip(), n.strip()))
        st = l.strip()
        if st.endswith(';') and not re.match(r'(let|use|return|break|continue|pub|type|move|mod)\b|[)}\]]|\.', st) and st.count('(') == st.count(')') and st.count('{') == st.count('}'):
            new = list(s)
            new[i] = ''
            r += out(new, '%d: delete %s' % (i + 1, st))
    # swap neighbouring statements
    idx = [i for i, l in cl]
    for i in idx[:-1]:
        a, b = s[i], s[i + 1]
        if a.strip().endswith(';') and b.strip().endswith(';') and not re.match(r'\s*(let|use|pub|return)', a) and not re.match(r'\s*(use|pub|return|\}|\))', b) and not re.match(r'\s*[)}\].]', a):
            new = list(s)
            new[i], new[i + 1] = b, a
            r += out(new, '%d: swap %s <> %s' % (i + 1, a.strip(), b.strip()))
    # delete a guarded block  { ... } on "if ... {" ... "}" without else
    for i in idx:
        m = re.match(r'(\s*)(if .*|\{)$', s[i])
        if m and s[i].rstrip().endswith('{'):
            ind = m.group(1)
            for j in range(i + 1, min(i + 14, len(s))):
                if s[j].startswith(ind) and not s[j].startswith(ind + ' '):
                    if s[j].strip() == '}':
                        new = s[:i] + s[j + 1:]
                        r += out(new, '%d: delete block %s' % (i + 1, s[i].strip()))
                    break
    return r


def block_end(t, i):
    """t[i] == '{' -> index of its '}' """
    d = 0
    for j in range(i, len(t)):
        if t[j] == '{':
            d += 1
        elif t[j] == '}':
            d -= 1
            if d == 0:
                return j
    return None


HELP = """
fn rf_next<'a, T: Clone + Send + Sync>(s: &crate::internals::stream_controller::StreamController<'a, T>, x: T) {
  s.sink_next(x);
}
fn rf_error<'a, T: Clone + Send + Sync>(s: &crate::internals::stream_controller::StreamController<'a, T>, x: RxError) {
  s.sink_error(x);
}
fn rf_done<'a, T: Clone + Send + Sync>(s: &crate::internals::stream_controller::StreamController<'a, T>, k: &i32) {
  s.sink_complete(k);
}
fn rf_force<'a, T: Clone + Send + Sync>(s: &crate::internals::stream_controller::StreamController<'a, T>) {
  s.sink_complete_force();
}
"""


def refactorings(rel):
    """variants of the file that behave the same (REF=1): the checks have to stay quiet"""
    path = '/repo/src/' + rel
    s, cl = code(path)
    n = len(cl)
    head, tail = '\n'.join(s[:n]), '\n'.join(s[n:])
    if tail:
        tail = '\n' + tail
    out = []

    def add(what, t):
        if t != head:
            out.append((rel, what, t + tail))

    m = head.replace('RwLockWriteGuard', 'MutexGuard').replace('RwLock', 'Mutex').replace('.read().unwrap()', '.lock().unwrap()').replace('.write().unwrap()', '.lock().unwrap()')
    add('mutex', m)
    m = re.sub(r'Arc::clone\(&(\w+)\)', r'\1.clone()', head)
    add('arc-clone', m)
    # several sites at once: helpers
    h = head
    h = re.sub(r'\b(\w+)\.sink_next\(', r'rf_next(&\1, ', h)
    h = re.sub(r'\b(\w+)\.sink_error\(', r'rf_error(&\1, ', h)
    h = re.sub(r'\b(\w+)\.sink_complete\(', r'rf_done(&\1, ', h)
    h = re.sub(r'\b(\w+)\.sink_complete_force\(\)', r'rf_force(&\1)', h)
    if h != head and 'stream_controller.rs' not in rel:
        add('helpers', h + HELP)
    for pat, rep in ((r'\.is_empty\(\)', '.len() == 0'), (r'(\S+)\.len\(\) == 0', r'\1.is_empty()'), (r'\*(\w+) \+= (\w+)', r'*\1 = *\1 + \2'), (r'\.is_some\(\)', '.is_none() == false'),
                     (r'\.exists\(\)', '.empty() == false'), (r'(\w+(?:\.\w+)*)\.sink_next\((.*)\);\n', r'let out_value = \2; \1.sink_next(out_value);\n'),
                     (r'\.for_each\((?:move )?\|(\w+)\| \{', r'.for_each(move |\1| {'), (r'(\w+)\.inner_subscribe\(', r'Observable::inner_subscribe(&\1, '),
                     (r'\.read\(\)\.unwrap\(\)', '.write().unwrap()'), (r'std::mem::take\((.*)\);', r'std::mem::replace(\1, Default::default());'),
                     (r'\.take\(\);', '.replace_none();'), (r'\.unwrap\(\)', '.expect("lock")'), (r'if let Some\((\w+)\) = &\*(\w+) \{', r'if let Some(\1) = \2.as_ref() {')):
        if rep == '.replace_none();':
            continue
        add('all %s' % pat, re.sub(pat, rep, head))
    for mm in re.finditer(r'\bif ', head):
        b = head.find('{', mm.end())
        cond = head[mm.end():b].strip()
        if cond.startswith('let ') and re.match(r'let .* = ', cond):
            pass
        elif '|' in cond and '||' not in cond:
            continue
        e = block_end(head, b)
        if e is None or head[:mm.start()].rstrip().endswith('else') or '//' in head[mm.start():e] and False:
            continue
        A = head[b:e + 1]
        rest = head[e + 1:]
        k = re.match(r'\s*else \{', rest)
        B = None
        end = e + 1
        if k:
            b2 = e + 1 + k.end() - 1
            e2 = block_end(head, b2)
            B, end = head[b2:e2 + 1], e2 + 1
        elif re.match(r'\s*else', rest):
            continue
        ln = head.count('\n', 0, mm.start()) + 1
        if cond.startswith('let '):
            pt, ex = re.match(r'let (.*?) = (.*)$', cond, re.S).groups()
            add('%d: match' % ln, head[:mm.start()] + 'match %s { %s => %s, _ => %s }' % (ex, pt, A, B or '{}') + head[end:])
        else:
            add('%d: swap branches' % ln, head[:mm.start()] + 'if !(%s) %s else %s' % (cond, B or '{}', A) + head[end:])
            add('%d: bind condition' % ln, head[:mm.start()] + '{ let cond = %s; if cond %s %s }' % (cond, A, 'else ' + B if B else '') + head[end:])
    ls = head.split('\n')
    for i in range(len(ls) - 1):
        a, b = ls[i], ls[i + 1]
        r1, r2 = re.match(r'\s*let (\w+) = (.*\.clone\(\)|Arc::clone\(.*\));$', a), re.match(r'\s*let (\w+) = (.*\.clone\(\)|Arc::clone\(.*\));$', b)
        if r1 and r2 and r1.group(1) not in r2.group(2):
            add('%d: swap lets' % (i + 1), '\n'.join(ls[:i] + [b, a] + ls[i + 2:]))
            break
    return out


G = {}


def one(job):
    k, (rel, what, text) = job
    me = '%s/p%d' % (W, os.getpid())
    rp = me + '/repo'
    if not os.path.isdir(rp):
        os.makedirs(me, exist_ok=True)
        os.makedirs(rp)
        for f in os.listdir('/repo'):
            if os.path.isfile('/repo/' + f):
                shutil.copy('/repo/' + f, rp)
        shutil.copytree('/repo/src', rp + '/src')
        os.environ['RXV_WORK'] = me
        os.symlink('/verif/work/d', me + '/d')
    res = {'k': k, 'file': rel, 'what': what}
    if os.environ.get('REF') or os.environ.get('MAN'):
        os.environ['REF'] = '1'
        G['all'] = 1
    from rxv import build, props
    from rxv.engine import core
    build.WORK, build.REPO = me, rp
    orig = open('/repo/src/' + rel).read()
    t0 = time.time()
    try:
        open(rp + '/src/' + rel, 'w').write(text)
        try:
            p = build.dump()
        except RuntimeError as e:
            res['r'] = 'nocompile'
            res['e'] = str(e)[-300:]
            return res
        try:
            P = core.load(p)
        finally:
            os.unlink(p)
        from rxv import check
        check.G['P'] = P
        res['fails'], res['unsup'] = [], []
        mod = rel[:-3].replace('/', '::') + '::'
        for tid in G['tasks'].get(mod, []):
            if time.time() - t0 > 240:
                res['unsup'].append('time')
                break
            r = check.run_task((tid, 60))
            if r['unsupported']:
                res['unsup'].append('%s: %s' % (tid, r['unsupported'][:80]))
            for f in r['failures']:
                for pr in G['props']:
                    if tid in G['ptasks'][pr] and props.cat_relevant(pr, tid, f):
                        res['fails'].append('%s %s [%s] %s' % (pr, tid, f['cat'], f['msg'][:80]))
            if os.environ.get('BUG'):
                # the property a bug was written for has to fail
                if any(x.startswith(what[:3]) for x in res['fails']):
                    break
                continue
            if res['fails'] or res['unsup'] and os.environ.get('REF'):
                break
        if os.environ.get('BUG') and res['fails'] and not any(x.startswith(what[:3]) for x in res['fails']):
            res['r'] = 'other'
            res['fails'] = sorted({x[:60] for x in res['fails']})
            return res
        res['r'] = 'killed' if res['fails'] else 'unsup' if res['unsup'] else 'SURVIVED'
        return res
    except Exception as e:
        res['r'] = 'error %r' % e
        return res
    finally:
        open(rp + '/src/' + rel, 'w').write(orig)
        res['t'] = round(time.time() - t0, 1)


def main():
    out, jobs, want = sys.argv[1], int(sys.argv[2]), sys.argv[3:]
    os.makedirs(W, exist_ok=True)
    from rxv import props, check, build
    from rxv.engine import core
    prs = ['C%02d' % i for i in range(1, 20)]
    G['props'] = prs
    G['ptasks'] = {p: set(props.tasks(p, 'quick')) for p in prs}
    al = sorted(set().union(*G['ptasks'].values()))
    base = W + '/base.json'
    P = core.load(os.environ.get('MIR') or build.dump())
    if os.path.exists(base):
        bf = json.load(open(base))
    else:
        bf = {}
    miss = [t for t in al if t not in bf]
    if miss:
        for r in check.run_tasks(P, miss, 300):
            bf[r['id']] = [r['fns'], r['wall']]
        json.dump(bf, open(base, 'w'))
    mods = {}
    for tid, (fns, wall) in bf.items():
        for f in fns:
            m = re.match(r'<?((?:[a-z_]\w*::)+)', f)
            if m:
                p = m.group(1).split('::')[:-1]
                for i in range(1, len(p) + 1):
                    mods.setdefault('::'.join(p[:i]) + '::', set()).add(tid)
    G['tasks'] = {m: sorted(v, key=lambda t: bf[t][1]) for m, v in mods.items()}
    rels = [os.path.relpath(os.path.join(d, f), '/repo/src') for d, _, fs in os.walk('/repo/src') for f in fs if f.endswith('.rs')]
    rels = [r for r in sorted(rels) if not r.startswith(('web', 'tests')) and (not want or any(w in r for w in want))]
    ms = [m for r in rels for m in (refactorings if os.environ.get('REF') else mutants)(r)]
    if os.environ.get('MAN'):
        # hand-written variants that behave the same: CASES = [(file, what, [(from, to)...])]
        ns = {}
        exec(open(os.environ['MAN']).read(), ns)
        ms = []
        for rel, what, reps in ns['CASES']:
            t = open('/repo/src/' + rel).read()
            for a, b in reps:
                # (blank lines do not matter)
                pat = r'\n(?:[ \t]*\n)*'.join(re.escape(l) for l in a.split('\n'))
                assert re.search(pat, t), (rel, what, a)
                t = re.sub(pat, lambda m: b, t, count=0 if a.startswith(('RwLock', '.read()', '.write()')) else 1)
            if re.search(os.environ.get('SEL', ''), rel + ' ' + what):
                ms.append((rel, what, t))
    done = set()
    if os.path.exists(out):
        done = {(json.loads(l)['file'], json.loads(l)['what']) for l in open(out)}
    ms = [m for m in ms if (m[0], m[1]) not in done]
    print(len(rels), 'files', len(ms), 'mutants', flush=True)
    n = {}
    with mp.Pool(jobs) as pool, open(out, 'a') as f:
        for r in pool.imap_unordered(one, list(enumerate(ms)), chunksize=1):
            n[r['r'][:8]] = n.get(r['r'][:8], 0) + 1
            f.write(json.dumps(r) + '\n')
            f.flush()
    print(n)


main()
