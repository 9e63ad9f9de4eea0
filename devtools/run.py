#!/usr/bin/env python3
"""Development aid: apply small edits to a scratch copy of /repo and see which checks react.
usage: run.py [-k name-substring] [-p C05,C06] [-t] variants_file.py ...    (-t: also run the test suite on bugs)
A variants file defines V = [(name, 'ok' or 'bug', 'C05,C06', [(file, old, new), ...]), ...]"""
import re, concurrent.futures as cf, importlib.util, os, shutil, subprocess, sys, json, time
sys.path.insert(0, '/verif/sa')
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
import main as M
os.environ['VQUIET'] = '1'
BASE = os.environ.get('VBASE', '/tmp/actiondb-variants')

def load(f):
    s = importlib.util.spec_from_file_location('v', f); m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
    return m.V

def prepare(slot):
    d = '%s/%d' % (BASE, slot)
    if not os.path.exists(d + '/repo'):
        os.makedirs(d)
    shutil.rmtree(d + '/repo', ignore_errors=True)
    shutil.copytree(os.environ.get('VSRC', '/repo'), d + '/repo', ignore=shutil.ignore_patterns('target', '.git'))
    return d

def one(args):
    slot, name, kind, props, edits, only, test = args
    d = prepare(slot)
    res = {'name': name, 'kind': kind, 'props': props, 'hit': {}, 'und': {}, 'err': None, 'tests': None}
    for ed in edits:
        p = d + '/repo/' + ed[0]
        s = open(p).read()
        if len(ed) == 4:          # (file, function, old, new): inside that function only
            f, fn, old, new = ed
            a = s.index('fn %s<' % fn) if 'fn %s<' % fn in s else s.index('fn %s(' % fn)
            b = s.find('\n}\n', a) + 3
            body = s[a:b]
            if body.count(old) != 1:
                res['err'] = 'edit matches %d times in %s' % (body.count(old), fn); return res
            open(p, 'w').write(s[:a] + body.replace(old, new) + s[b:])
            continue
        f, old, new = ed
        rx = re.compile(r'\n(?:[ \t]*\n)*'.join(re.escape(l) for l in old.split('\n')))
        n = len(rx.findall(s))
        if n != 1:
            res['err'] = 'edit matches %d times in %s: %r' % (n, f, old[:60]); return res
        open(p, 'w').write(rx.sub(lambda m: new, s))
    out = d + '/mir.json'
    if os.path.exists(out): os.remove(out)
    tgt = d + '/target'
    shutil.rmtree(tgt + '/debug/incremental', ignore_errors=True)
    sh = subprocess.run('rm -rf %s/debug/.fingerprint/actiondb-* %s/debug/build/actiondb*' % (tgt, tgt), shell=True)
    try:
        M.dump(d + '/repo', out, tgt)
    except SystemExit as x:
        res['err'] = 'does not compile'; return res
    if test and kind == 'bug':
        env = dict(os.environ, CARGO_TARGET_DIR=d + '/ttarget', RUSTUP_TOOLCHAIN='stable')
        r = subprocess.run(['cargo', 'test', '--offline', '--quiet'], cwd=d + '/repo', env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        res['tests'] = 'pass' if r.returncode == 0 else 'FAIL'
    ch = changed(out)
    for pid in only or sorted(M.CHECKS):
        t = time.time()
        if pid in DEPS and ch is not None and not any(c.lstrip('<&').startswith(DEPS[pid]) for c in ch):
            continue
        try:
            ck = M.decide(pid, out)
        except Exception as x:
            res['hit'][pid] = 'CRASH %r' % x; continue
        bad = [o for o in ck.obs if o[2] == 'violated']
        und = [o for o in ck.obs if o[2] == 'undecided']
        if bad: res['hit'][pid] = '%s: %s: %s' % (bad[0][0], bad[0][1], bad[0][3])
        if und: res['und'][pid] = '%d/%d %s: %s' % (len(und), len(ck.obs), und[0][0], und[0][3])
        if time.time() - t > 60: res['und'][pid + 't'] = '%.0f s' % (time.time() - t)
    return res

G = ('grammar', 'matcher::trie::parser_factory', 'parsers', 'utils')
DEPS = {'C15': G, 'C16': G, 'C17': G,      # slow checks: the modules they look at
        'C20': G + ('matcher::trie', 'matcher::suffix_array', 'matcher::result', 'matcher::pattern::pattern', 'matcher::compiled_pattern')}


def norm(x):
    if isinstance(x, dict):
        return {k: norm(v) for k, v in x.items() if k not in ('span', 'sp')}
    if isinstance(x, list):
        return [norm(v) for v in x]
    return x


def bodies(f):
    d = {}
    for b in json.load(open(f))['bodies']:
        d[b['path'] + ' ' + b['id']] = json.dumps(norm(b), sort_keys=True)
    return d


def changed(f):
    """paths of the functions which differ from the unchanged tree (None if not known)"""
    base = BASE + '/base.json'
    if not os.path.exists(base):
        return None
    a, b = bodies(base), bodies(f)
    return [k for k in set(a) | set(b) if a.get(k) != b.get(k)]


SLOT = None

def init(q):
    global SLOT
    SLOT = q.get()

def go(job):
    try:
        return one((SLOT,) + job)
    except Exception as x:
        return {'name': job[0], 'kind': job[1], 'props': job[2], 'hit': {}, 'und': {}, 'err': repr(x), 'tests': None}

if __name__ == '__main__':
    a = sys.argv[1:]; k = None; only = None; test = False; verbose = False; files = []
    while a:
        x = a.pop(0)
        if x == '-k': k = a.pop(0)
        elif x == '-p': only = a.pop(0).split(',')
        elif x == '-t': test = True
        elif x == '-v': verbose = True
        else: files.append(x)
    vs = [v for f in files for v in load(f) if not k or any(kk in v[0] for kk in k.split(','))]
    M.driver()
    N = int(os.environ.get('VJOBS', 8))
    import multiprocessing as mp
    q = mp.Queue()
    for i in range(N): q.put(i)
    os.makedirs(BASE, exist_ok=True)
    M.dump(os.environ.get('VSRC', '/repo'), BASE + '/base.json', BASE + '/base-target')
    with cf.ProcessPoolExecutor(N, initializer=init, initargs=(q,)) as ex:
        for f in cf.as_completed([ex.submit(go, v + (only, test)) for v in vs]):
            sys.stdout.flush()
            for r in [f.result()]:
                exp = [p for p in r['props'].split(',') if p and (not only or p in only)]
                if r['err']: print('ERR  %s: %s' % (r['name'], r['err'])); continue
                if r['kind'] == 'ok':
                    if r['hit']:
                        for p, m in r['hit'].items(): print('FALSE %-28s %s %s' % (r['name'], p, m[:400 if not verbose else 3000]))
                    else: print('quiet %-28s %s' % (r['name'], ' '.join(r['und'])))
                    if r['und'] and verbose:
                        for p, m in r['und'].items(): print('        und', p, m[:300])
                else:
                    miss = [p for p in exp if p not in r['hit']]
                    print('%s %-28s tests=%s want=%s hit=%s und=%s' % ('MISS ' if miss else 'hit  ', r['name'], r['tests'], ','.join(exp), ','.join(r['hit']), ','.join(r['und'])))
                    if miss or verbose:
                        for p, m in list(r['und'].items())+list(r['hit'].items()): print('          ', p, m[:300 if not verbose else 2000])
