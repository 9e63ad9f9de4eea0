"""C18: matching is read-only and deterministic.

An effect analysis over the call graph from every Matcher::parse and Parser::parse: every reachable function, closure,
trait implementation std code may call back, static and type is inspected for effects other than computing a value
from the arguments."""
import re

from repo import *
from check import *

ROOTS = (('matcher::Matcher', 'parse'), ('parsers::Parser', 'parse'))
# traits whose implementations generic std code calls
CALLBACK = ('std::cmp::', 'std::hash::', 'std::clone::', 'std::ops::', 'std::iter::', 'std::convert::', 'std::default::', 'std::borrow::',
            'std::fmt::', 'std::str::', 'std::string::')
# id prefix -> what it is
EFFECT = [
    (r'(std|core)::time::', 'reads the clock'),
    (r'std::env::', 'reads the environment'),
    (r'std::fs::', 'accesses files'),
    (r'std::path::.*(exists|is_file|is_dir|metadata|canonicalize|read_dir|read_link)$', 'accesses files'),
    (r'std::(net|os)::', 'accesses the system'),
    (r'std::process::', 'depends on the process'),
    (r'std::thread::', 'depends on threads'),
    (r'std::io::', 'does input or output'),
    (r'(core|std|alloc)::sync::.*(atomic|mutex|rwlock|once|lazy_lock|barrier|condvar|mpsc|Mutex|RwLock|Once|LazyLock|OnceLock|poison|reentrant)', 'uses shared mutable state'),
    (r'std::sys(_common)?::', 'uses system state'),
    (r'core::cell::', 'uses interior mutability'),
    (r'std::(collections::)?hash::.*random', 'uses a random hash key'),
    (r'std::hash::random', 'uses a random hash key'),
    (r'std::collections::hash.*RandomState', 'uses a random hash key'),
    (r'std::random', 'uses randomness'),
    (r'uuid::.*(new_v1|new_v4)', 'makes a random id'),
    (r'(rand|getrandom|time|chrono)(_core)?::', None),
]
HARMLESS = re.compile(r'^(core|alloc|std)::')
WRITERAW = re.compile(r'core::ptr::(.*::)?(write|write_unaligned|write_volatile|copy|copy_nonoverlapping|swap|replace)$|core::intrinsics::transmute')
INTERIOR = ('::Cell', '::RefCell', '::UnsafeCell', '::Mutex', '::RwLock', '::OnceCell', '::OnceLock', '::LazyCell', '::LazyLock', '::Once', '::AtomicBool',
            '::AtomicUsize', '::AtomicIsize', '::AtomicU64', '::AtomicU32', '::AtomicI64', '::AtomicI32', '::AtomicU8', '::AtomicPtr', '::Atomic')
HASHED = ('HashMap', 'HashSet')


def interior(ty, adts, seen=None):
    """an interior-mutable type inside ty (through the fields of the crate's own types)"""
    seen = set() if seen is None else seen
    if not isinstance(ty, list):
        return None
    if ty and ty[0] == 'adt':
        if ty[1].startswith(('log::',)):
            return None
        if any(ty[1].endswith(x) for x in INTERIOR):
            return ty[1]
        if ty[1] in adts and ty[1] not in seen:
            seen.add(ty[1])
            for v in adts[ty[1]]['variants']:
                for f in v['fields']:
                    r = interior(f[1], adts, seen)
                    if r:
                        return '%s in %s.%s' % (r, ty[1].split('::')[-1], f[0])
    for x in ty[1:]:
        if isinstance(x, list):
            r = interior(x, adts, seen)
            if r:
                return r
    return None


def walk(x):
    """every dict of a MIR statement or terminator"""
    if isinstance(x, dict):
        yield x
        for v in x.values():
            for y in walk(v):
                yield y
    elif isinstance(x, list):
        for v in x:
            if isinstance(v, (dict, list)):
                for y in walk(v):
                    yield y


class Graph:
    def __init__(self, repo):
        self.p = repo.p
        self.repo = repo
        self.impls_of = {}
        for im in self.p.impls:
            if im['trait']:
                for m, i in im['methods']:
                    self.impls_of.setdefault((im['trait'], m), []).append((im, i))

    def targets(self, fn):
        """bodies of the crate a call may enter; None if it is outside the crate"""
        r = []
        if fn['id'] in self.p.bodies:
            r.append(fn['id'])
        if fn.get('res') in self.p.bodies:
            r.append(fn['res'])
        tr = fn.get('trait')
        if tr and not (fn.get('rkind') == 'item' and fn.get('res') in self.p.bodies):
            sty = fn.get('self') or ['?']
            for im, i in self.impls_of.get((tr, fn['method']), []):
                # dispatch: any implementation for a parameter or trait object, the one of the type otherwise
                if sty[0] in ('dyn', 'param', 'proj', '?', 'opaque') or sty[0] == 'adt' and (im['self'][0] != 'adt' or im['self'][1] == sty[1] or any(isinstance(a, list) and a and a[0] in ('dyn', 'param') for a in sty[2])) or sty[0] == im['self'][0]:
                    if i in self.p.bodies:
                        r.append(i)
        return list(dict.fromkeys(r))

    def reach(self, roots):
        """ids of reachable bodies -> how they are reached"""
        seen = {}
        work = [(i, None) for i in roots]
        for (tr, m), ims in self.impls_of.items():
            if tr.startswith(CALLBACK) or tr.endswith('::Drop'):
                for im, i in ims:
                    if i in self.p.bodies and im['self'][0] == 'adt' and im['self'][1] in self.relevant:
                        work.append((i, None))
        while work:
            i, via = work.pop()
            if i in seen:
                continue
            seen[i] = via
            b = self.p.bodies[i]
            for x in self.parts(b):
                if 'fn' in x and isinstance(x['fn'], dict):
                    for t in self.targets(x['fn']):
                        work.append((t, i))
                if x.get('a') == 'closure' and x.get('id') in self.p.bodies:
                    work.append((x['id'], i))
        return seen

    def parts(self, b):
        for y in walk(b['blocks']):
            yield y
        for y in walk(b.get('promoted') or []):
            yield y

    def types_below(self, tys):
        """types of the crate reachable through fields (and, for trait objects, all implementors)"""
        seen = set()
        work = list(tys)
        while work:
            t = work.pop()
            if t in seen or t not in self.p.adts:
                continue
            seen.add(t)

            def go(x):
                if isinstance(x, list) and x:
                    if x[0] == 'adt':
                        work.append(x[1])
                    if x[0] == 'dyn':
                        for im in self.p.impls:
                            if im['trait'] in x[1:] and im['self'][0] == 'adt':
                                work.append(im['self'][1])
                    for y in x[1:]:
                        go(y)
            for v in self.p.adts[t]['variants']:
                for f in v['fields']:
                    go(f[1])
        return seen


def chain(seen, p, i):
    r = []
    while i is not None and len(r) < 8:
        r.append(p.bodies[i]['path'].split('::', 1)[-1] if False else p.bodies[i]['path'])
        i = seen[i]
    return ' <- '.join(r)


def c18(ck):
    ck.guarded('effects', 'parse', effects, ck)


def effects(ck):
    g = Graph(ck.repo)
    p = ck.repo.p
    roots = []
    owners = []
    for tr, m in ROOTS:
        ims = ck.repo.impl_methods(tr, m)
        if not ims:
            raise Missing('implementations of %s::%s' % (tr, m))
        for owner, b, im in ims:
            roots.append(b['id'])
            owners.append(owner)
            rt = b['locals'][1]
            ck.verdict('receiver-is-shared', '%s::%s' % (owner.split('::')[-1], m), True if rt[0] == 'ref' and rt[1] is False else None, 'the receiver is %s' % rt)
    g.relevant = g.types_below(owners + [MRES, PRES, PATTERN])
    seen = g.reach(roots)
    ck.stats['functions'] = {p.bodies[i]['path'] for i in seen}
    statics = {s['path']: s for s in p.raw['statics']}
    for t in sorted(g.types_below(owners)):
        bad = None
        for v in p.adts[t]['variants']:
            for f in v['fields']:
                r = interior(f[1], {})
                if r:
                    bad = '%s.%s is %s' % (t.split('::')[-1], f[0], r)
        # holding it is allowed by the type system only; using it is what counts
        (ck.unk if bad else ck.holds)('no-interior-mutability', t, bad or '')
    for i in sorted(seen):
        b = p.bodies[i]
        if b['path'].split('::')[-1] == 'fmt' and b.get('impltrait', '') and str(b.get('impltrait')).startswith('std::fmt'):
            continue
        inspect(ck, g, b, seen, statics)


def inspect(ck, g, b, seen, statics):
    p = ck.repo.p
    nm = b['path']
    n = 0
    clean = True
    why = chain(seen, p, b['id'])
    for x in g.parts(b):
        if 'fn' in x and isinstance(x['fn'], dict):
            n += 1
            fn = x['fn']
            ids = [fn['id'], fn.get('res') or '']
            r, what = classify(fn, ids)
            if r is False:
                clean = False
                ck.bad('effect', '%s: %s' % (nm, fn['path']), '%s (reached: %s)' % (what, why))
            elif r is None:
                clean = False
                ck.unk('effect', '%s: %s' % (nm, fn['path']), what)
        if 'static' in x:
            s = statics.get(x['static'])
            if s is not None:
                im = interior(s['ty'], p.adts)
                if s['mut']:
                    clean = False
                    ck.bad('effect', '%s: static %s' % (nm, x['static']), 'uses a mutable static (reached: %s)' % why)
                elif im:
                    clean = False
                    ck.bad('effect', '%s: static %s' % (nm, x['static']), 'uses a static with %s (reached: %s)' % (im, why))
        if x.get('k') == 'tls':
            clean = False
            ck.bad('effect', '%s: thread-local %s' % (nm, x['path']), 'uses thread-local state (reached: %s)' % why)
        if x.get('k') == 'cast':
            f, t = x.get('from'), x.get('ty')
            if f and t and f[0] == 'ptr' and t[0] == 'ptr' and f[1] is False and t[1] is True:
                clean = False
                ck.bad('effect', '%s: cast to a mutable pointer' % nm, 'makes shared data writable (reached: %s)' % why)
            elif f and t and f[0] in ('ptr', 'ref') and t[0] == 'int':
                clean = False
                ck.unk('effect', '%s: address used as a number' % nm, why)
    ck.stats['call_sites'] += n
    if clean:
        ck.holds('effect', nm, '%d calls' % n)


def classify(fn, ids):
    if fn['local'] or fn['id'].startswith('actiondb::'):
        return True, ''
    for i in ids:
        if i.startswith('log::') or i in ('std::io::stdio::_print', 'std::io::stdio::_eprint'):
            return True, ''          # messages: nothing comes back
        if WRITERAW.search(i):
            return False, 'writes through raw pointers or changes types'
        for rx, what in EFFECT:
            if re.match(rx, i) or rx.startswith('std::path') and re.match(rx, i):
                if what is None:
                    return None, 'calls %s' % i
                return False, what
    path = fn['path']
    if any(h in path for h in HASHED) and path.split('::')[-1] in ('iter', 'keys', 'values', 'drain', 'into_iter', 'iter_mut', 'values_mut', 'retain'):
        return None, 'goes through a hash table, whose order is not determined by its content'
    if path.split('::')[-1] == 'into_iter' and any(h in str(fn.get('self')) for h in HASHED):
        return None, 'goes through a hash table, whose order is not determined by its content'
    if any(i and (HARMLESS.match(i) or i.startswith('uuid::')) for i in ids):
        return True, ''
    return None, 'calls %s of another crate' % fn['id']
