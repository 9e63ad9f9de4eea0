"""C20: matching, adding and compiling terminate.

Every loop passed on any path, and every recursive call, of the functions reachable from Matcher::parse, add_pattern,
Parser::parse and the pattern grammar is an obligation: the loop walks a finite sequence, or some place it carries gets
strictly closer to a bound on every round (position in a text, counter, interval, sub-tree); the recursive call works on a
strict part of its own receiver, on strictly less text or on a pattern with fewer tokens.  A round that leaves everything
its own conditions depend on as it was, and a recursive call with its own arguments, are violations."""
from repo import *
from check import *
from c_insert import ISide
from c_match import Side, MATCHER
from c_effect import Graph
from c_grammar import Grammar, PathLang, add_loops, INP, entry_of, ENTRY
import c_grammar
import reglang

FINITE = {'elems', 'range', 'chars', 'charidx', 'bytes', 'lines', 'map', 'filter', 'take', 'skip', 'rev', 'enumerate', 'zip', 'chain', 'take_while', 'skip_while',
          'filter_map', 'flat_map', 'flatten', 'peekable', 'cloned', 'copied', 'inspect', 'step_by', 'mapelems', 'keys', 'values', 'split', 'windows', 'chunks',
          'iter', 'entries', 'char_indices', 'opt', 'options', 'scan', 'map_while', 'once', 'empty', 'by_ref', 'mut', 'elemsmut'}

# iterators of the standard library over a text or a list: as long as that at most
ENDS = {'%s::%s' % (a, b) for a in ('str', 'slice', 'Vec') for b in (
    'split', 'rsplit', 'splitn', 'rsplitn', 'split_terminator', 'rsplit_terminator', 'split_inclusive', 'split_whitespace', 'split_ascii_whitespace', 'lines',
    'matches', 'match_indices', 'rmatches', 'rmatch_indices', 'bytes', 'chars', 'char_indices', 'chunks', 'windows', 'drain', 'escape_default', 'escape_debug')}


def atleast(t):
    """a lower bound of a linear term over lengths, or None"""
    c, d = lin_parts(t)
    for x, k in d.items():
        if k < 0:
            return None
        if x[0] == 'lenutf8':
            c += k
        elif x[0] not in ('len', 'plen', 'cpl', 'choff', 'bpos'):
            return None
    return c


class Term:
    def __init__(self, ck):
        self.ck = ck
        self.g = Grammar(ck)
        self.g.flat = False
        self.nn = {}
        self.side = None
        try:
            self.side = ISide(ck.repo, 'trie')
        except (Undecided, Missing):
            pass

    # ---------------------------------------------------------------- grammar
    def only_first(self):
        """words whose first symbol, and no other, is marked"""
        L = self.g.L
        nm = ('nomark',)
        L.define(nm, L.ZERO)
        L.define(nm, L.disj(L.cls(((reglang.END, reglang.END),), L.ONE, (1, 0)), L.cls(((0, reglang.MAXCP),), L.var(nm), (1, 0))))
        return L.disj(L.cls(((reglang.END, reglang.END),), L.ONE, (1, 1)), L.cls(((0, reglang.MAXCP),), L.var(nm), (1, 1)))

    def empty_round(self, facts, loops, start, end):
        """a text on which this round ends where it started (None: there is none)"""
        L = self.g.L
        pl = PathLang(self.g, facts, loops, start, [(end, L.marked())], ('empty', start, len(L.terms)))
        return L.differ(L.conj(pl.lang(), self.only_first()), L.ZERO)

    def nonempty_rule(self, r):
        """does a match of the rule always consume something?"""
        if r not in self.nn:
            self.nn[r] = None
            try:
                L = self.g.L
                self.nn[r] = L.differ(L.conj(self.g.W(r, L.marked()), self.only_first()), L.ZERO) is None
            except Undecided:
                pass
        return self.nn[r]

    def advances(self, new, lv, f):
        """True: new > lv.  None: not shown"""
        d = sub(new, lv)
        if f.decide(LE(INT(1), d)) is True or (atleast(d) or 0) >= 1:
            return True
        c, parts = lin_parts(new)
        for t, k in parts.items():
            if k != 1 or t == lv:
                continue
            rest = atleast(sub(new, t))
            if rest is None or rest < 0:
                continue
            if t[0] == 'pl' and t[1][0] == 'rule' and t[2] == 'Matched' and t[3] == '0':
                p = t[1][3]
                if lv not in list(subterms(p)):
                    continue
                below = p == lv or self.advances(p, lv, f) or f.decide(LE(lv, p)) is True
                if below and (rest >= 1 or self.nonempty_rule(t[1][1]) or p != lv and self.advances(p, lv, f)):
                    return True
            if t[0] == 'lv' and len(t) > 3 and lv in list(subterms(t[3])):
                # an inner loop that started from there and only grows
                if f.decide(LE(t[3], t)) is True and (rest >= 1 or self.advances(t[3], lv, f)):
                    return True
        return None

    # ---------------------------------------------------------------- loops
    def loop(self, lp):
        """-> (True / False / None, why)"""
        own = lambda t: any(x[0] == 'lv' and x[1] == lp.key for x in subterms(t))
        if not lp.backs:
            return True, 'one round'
        if not lp.exits:
            return False, 'no path leaves this loop'
        for pl, (init, lv) in lp.places.items():
            src = [s for l, s in lp.iterl if l == lv]
            if src and all(self.advances(b['new'][pl], lv, b['state'].facts) for b in lp.backs):
                if all(finite(s) for s in src[:1]):
                    return True, 'walks %s' % pp(src[0])[:80]
                return None, 'whether %s ends is not known' % pp(src[0])[:100]
        todo = list(range(len(lp.backs)))
        notes = []
        # lexicographic: a place that never gets worse and gets better on some rounds settles those
        used = set()
        for _ in range(4):
            n0 = len(todo)
            for pl, (init, lv) in lp.places.items():
                if pl in used:
                    continue
                r = [self.better(lp, pl, init, lv, lp.backs[i], own) for i in todo]
                if any(x is True for x in r) and all(x is True or x == 'same' for x in r):
                    used.add(pl)
                    todo = [i for i, x in zip(todo, r) if x is not True]
                    notes.append(pp(init)[:40] if init[0] != 'mref' else 'node')
            r = [self.interval(lp, lp.backs[i]) for i in todo]
            if any(x is True for x in r) and all(x is True or x == 'same' for x in r):
                todo = [i for i, x in zip(todo, r) if x is not True]
                notes.append('interval')
            if not todo:
                return True, 'progress on %s' % ', '.join(notes)
            if len(todo) == n0:
                break
        for i in todo:
            ok, why = self.stuck(lp, lp.backs[i], own)
            if ok is False:
                return False, why
        return None, 'no progress was recognised in the round %s' % fs(lp.backs[todo[0]]['facts'])

    def better(self, lp, pl, init, lv, b, own):
        new = b['new'][pl]
        f = b['state'].facts
        if new == lv:
            return 'same'
        if lv[0] == 'mref':
            # descends into a part of the node
            if new[0] == 'mref' and new[1] == lv[1] and len(new[2]) > len(lv[2]):
                return True
            return None
        x = lv
        if lv[0] == 'slice' and new[0] == 'slice' and new[1] == lv[1] and new[3] == lv[3]:
            return True if self.advances(new[2], lv[2], f) else None
        if inside(new, lv):
            return True
        if new[0] == 'slice' and new[1] == lv and (self.advances(new[2], INT(0), f) or f.decide(LE(add(new[3], INT(1)), LEN(lv))) is True):
            return True
        # a list that loses an element
        n = new
        lost = 0
        while n[0] in ('front', 'remove', 'tail', 'swap_remove'):
            n = n[1]
            lost += 1
        if lost and n == lv:
            return True
        if new[0] == 'post' and new[1][0] == 'call' and new[1][1] in ('Vec::pop', 'VecDeque::pop_front', 'VecDeque::pop_back', 'Iterator::next'):
            return None
        if lv[0] != 'lv':
            return None
        if init[0] in ('vec', 'push', 'str', 'adt', 'tup', 'bool'):
            return None
        try:
            d = sub(new, lv)
        except Exception:
            return None
        if self.advances(new, lv, f):
            if self.bounded(lp, lv, b, own):
                return True
            return None
        if f.decide(LE(d, INT(-1))) is True and (f.decide(LE(INT(0), new)) is True or f.decide(LE(INT(1), lv)) is True):
            return True
        return None

    def bounded(self, lp, lv, b, own):
        """an upper bound of lv that does not change"""
        f = b['state'].facts
        for a, pol in b['facts']:
            for t in subterms(a):
                if t[0] == 'len' and not own(t) and f.decide(LE(lv, t)) is True:
                    return True
        for a in f.bg:
            if a[0] == 'bnd' and not own(a[1]) and lv in list(subterms(a[2])):
                return True
        for a, pol in b['facts']:
            if a[0] != 'le0':
                continue
            c, d = lin_parts(a[1])
            k = d.get(lv)
            others = [x for x in d if x != lv]
            if k and (k > 0) == pol and not any(own(x) for x in others):
                return True
        return False

    def interval(self, lp, b):
        """low and high come closer"""
        pls = [(pl, i, lv) for pl, (i, lv) in lp.places.items() if lv[0] == 'lv']
        f0 = b['state'].facts
        for p1, i1, lo in pls:
            for p2, i2, hi in pls:
                if lo == hi or f0.decide(LT(lo, hi)) is not True:
                    continue
                n1, n2 = b['new'][p1], b['new'][p2]
                if (n1, n2) == (lo, hi):
                    continue
                mids = [t for t in set(subterms(n1)) | set(subterms(n2)) if t[0] == 'bin' and is_half(t)]
                f = f0.copy()
                for m in mids:
                    s = m[2]
                    if s == add(lo, hi):
                        f.background(LE(lo, m))
                        f.background(LT(m, hi))
                    elif s == sub(hi, lo):
                        f.background(LE(INT(0), m))
                        f.background(LT(m, sub(hi, lo)))
                if f.decide(LE(add(sub(n2, n1), INT(1)), sub(hi, lo))) is True:
                    return True
        return None

    def stuck(self, lp, b, own):
        """does this round leave everything the loop depends on as it was?"""
        facts = b['facts']
        if any(opaque_in(a) is not None for a, p in facts) or any(ev[0] == 'call' and not ev[1].startswith(('String::push', 'Vec::push', 'Vec::extend')) and any(x[0] == 'mref' for x in ev[6]) for ev in b['events']):
            return None, ''
        lvs = {lv: pl for pl, (i, lv) in lp.places.items()}
        mine = lambda t: {x for x in subterms(t) if x in lvs}
        rel = set()
        for bk in lp.backs:
            for a, p in bk['facts']:
                rel |= mine(a)
        for k, fl in lp.exits:
            for a, p in fl:
                rel |= mine(a)
        while True:
            more = set(rel)
            for lv in rel:
                for bk in lp.backs:
                    more |= mine(bk['new'][lvs[lv]])
            if more == rel:
                break
            rel = more
        changed = [lv for lv in rel if b['new'][lvs[lv]] != lv]
        if not changed:
            return False, 'a round changes nothing the loop depends on, it never ends: %s' % fs(facts)
        # changes by an amount that can be zero
        if all(lv[0] == 'lv' or lv[0] == 'slice' and same_but_start(b['new'][lvs[lv]], lv) for lv in changed):
            f = b['state'].facts.copy()
            ok = True
            for lv in changed:
                n = b['new'][lvs[lv]]
                d = sub(n[2], lv[2]) if lv[0] == 'slice' else sub(n, lv)
                c, parts = lin_parts(d)
                if c != 0 or not parts or any(k < 0 or x[0] not in ('plen', 'cpl') and not (x[0] == 'bpos' and x[2][0] == 'find') for x, k in parts.items()):
                    ok = False
                    break
                for x in parts:
                    if f.decide(LE(INT(1), x)) is True or not f.assume(eq0(x), True):
                        ok = False
            if ok:
                return False, 'a round can advance by nothing: %s' % fs(facts)
        # rewrites what is not there
        if len(changed) == 1 and changed[0][0] == 'lv':
            lv = changed[0]
            n = b['new'][lvs[lv]]
            if n[0] == 'replace' and n[1] == lv and n[2][0] == 'str' and facts and all(
                    p and a[0] == 'is' and a[2] == 'Some' and a[1][0] == 'find' and a[1][1] == lv and a[1][2][0] == 'str' and n[2][1] not in a[1][2][1] for a, p in facts):
                return False, 'a round replaces %s, which a text that keeps the loop going need not contain: %s' % (pp(n[2]), fs(facts))
        # low + 1 == high
        r = self.close_interval(lp, b, lvs, changed)
        if r:
            return False, r
        # grammar: the round matches the empty text
        pos = [lv for lv in changed if any(x[0] == 'rule' for x in subterms(b['new'][lvs[lv]]))]
        acc = [lv for lv in changed if lv not in pos]
        if len(pos) == 1 and all(is_acc(b['new'][lvs[lv]], lv) for lv in acc):
            lv = pos[0]
            other = [(a, p) for a, p in facts if any(x in acc for x in subterms(a))]
            if all(a[0] == 'eq0' and not p and a[1][0] == 'len' or a[0] == 'le0' and stays(a, p, acc) for a, p in other):
                d = {}
                add_loops(d, b['state'])
                d[lp.key] = lp
                try:
                    w = self.empty_round([(a, p) for a, p in facts if (a, p) not in other], d, lv, b['new'][lvs[lv]])
                except Undecided:
                    return None, ''
                if w is not None:
                    return False, 'a round can match the empty text (before %r), it never ends: %s' % (reglang.show(w[0]), fs(facts))
        return None, ''

    def close_interval(self, lp, b, lvs, changed):
        for lo in changed:
            for t in subterms(b['new'][lvs[lo]]):
                if not (t[0] == 'bin' and is_half(t)):
                    continue
                for hi in lvs:
                    if hi[0] != 'lv' or hi == lo:
                        continue
                    if t[2] == add(lo, hi):
                        m = {t: lo}
                    elif t[2] == sub(hi, lo):
                        m = {t: INT(0)}
                    else:
                        continue
                    near = lambda x: subst(subst(x, m), {hi: add(lo, INT(1))})
                    if all(near(b['new'][lvs[c]]) == near(c) for c in changed) and all(consistent(near(a), p) for a, p in b['facts']):
                        return 'with the interval one wide a round changes nothing, it never ends: %s' % fs(b['facts'])
        return None


def same_but_start(new, lv):
    return new[0] == 'slice' and new[1] == lv[1] and new[3] == lv[3]


def is_acc(new, lv):
    return new[0] in ('push', 'extend', 'insert', 'opq', 'concat') or new[0] == 'lin'


def stays(a, p, acc):
    """a test of an accumulator's length that stays as it is when it grows"""
    c, d = lin_parts(a[1])
    for x, k in d.items():
        if x[0] == 'len' and x[1] in acc and (k > 0) == p:
            return False
    return True


def is_half(t):
    return t[1] in ('Div', 'Shr') and t[3] == INT(2 if t[1] == 'Div' else 1)


def consistent(a, p):
    if a[0] == 'bool':
        return a[1] == p
    if a[0] == 'le0' and a[1][0] == 'int':
        return (a[1][1] <= 0) == p
    if a[0] == 'eq0' and a[1][0] == 'int':
        return (a[1][1] == 0) == p
    return True


def fs(facts, n=400):
    return '; '.join(('' if p else 'not ') + pp(a) for a, p in facts)[:n] or 'always'


def finite(s):
    """is the source of an iteration finite?"""
    if s[0] == 'range':
        return True
    if s[0] in FINITE:
        return all(finite(x) for x in s[1:2] if isinstance(x, tuple) and x and x[0] in FINITE | {'range', 'repeat', 'cycle', 'rangefrom', 'call', 'opq'})
    if s[0] == 'call' and s[1] in ENDS:
        return True
    if s[0] in ('sym', 'fld', 'idx', 'pl', 'lv', 'vec', 'push', 'slice', 'str', 'collect'):
        return True
    return False


def inside(t, root):
    """t is a strict part of root (owned data: the chain of fields, elements and payloads is finite)"""
    n = 0
    t = strip_dyn(t)
    while True:
        if t == root:
            return n > 0
        if t[0] in ('fld', 'idx', 'pl'):
            if t[0] != 'fld' or True:
                n += 1
            t = strip_dyn(t[1])
        elif t[0] == 'elem' and t[1][0] in ('elems', 'rev', 'elemsmut'):
            n += 1
            t = t[1][1] if t[1][0] != 'rev' else ('elem', t[1][1], t[2])
        elif t[0] in ('first', 'last'):
            n += 1
            t = t[1]
        elif t[0] == 'lv' and len(t) > 3 and t != root:
            t = t[3]
            n += 0
            if t[0] == 'int':
                return False
        else:
            return False


# ---------------------------------------------------------------- recursion
def sccs(edges):
    """functions that can call themselves"""
    reach = {}

    def go(a):
        seen, work = set(), list(edges.get(a, ()))
        while work:
            x = work.pop()
            if x not in seen:
                seen.add(x)
                work.extend(edges.get(x, ()))
        return seen
    return [a for a in edges if a in go(a)]


def recursion(ck, T, reach):
    repo = ck.repo
    p = repo.p
    G = Graph(repo)
    edges = {}
    for i in reach:
        for x in G.parts(p.bodies[i]):
            if 'fn' in x and isinstance(x['fn'], dict):
                edges.setdefault(i, set()).update(G.targets(x['fn']))
            if x.get('a') == 'closure' and x.get('id') in p.bodies:
                edges.setdefault(i, set()).add(x['id'])
    rec = [i for i in sccs(edges) if p.bodies[i]['kind'] != 'Closure']
    for i in sorted(rec, key=lambda i: p.bodies[i]['path']):
        b = p.bodies[i]
        name = b['path']
        ck.guarded('recursion', name, one_recursion, ck, T, b, name)
    return len(rec)


def one_recursion(ck, T, b, name):
    repo = ck.repo
    if b['path'] in T.g.rules:
        # grammar: a rule that reaches itself again at the same position
        ck.unk('recursion', name, 'a grammar rule that calls itself')
        return
    e = T.side.engine() if T.side is not None and 'trie' in b['path'] and (T.side.split is None or b['id'] != T.side.split['id']) else repo.engine()
    subst_ = {}
    if b.get('implself'):
        subst_['Self'] = b['implself']
    outs = ck.run(e, b, subst=subst_)
    key = e.fkey(b)
    n = 0
    seen = set()
    done = set()
    for k, v, st in outs:
        for ev, bk in all_events(st.events, None, done):
            if ev[0] == 'call' and ev[1] == key and ev[3][0] == 'rec' and (ev[2], id(bk or st)) not in seen:
                seen.add((ev[2], id(bk or st)))
                n += 1
                st2 = bk['state'] if bk else st
                ok, why = smaller(T, b, ev, st2)
                ck.verdict('recursion', name, ok, why + ' (path: %s)' % facts_str(st2)[:500])
    if n == 0:
        ck.holds('recursion', name, 'no direct recursive call on its paths')


def all_events(events, bk=None, seen=None):
    """(event, round of a loop it happens in), each loop once"""
    seen = set() if seen is None else seen
    for ev in events:
        yield ev, bk
        if ev[0] == 'loop' and id(ev[1]) not in seen:
            seen.add(id(ev[1]))
            for b in ev[1].backs:
                for x in all_events(b['events'], b, seen):
                    yield x


def smaller(T, b, ev, st):
    args = ev[2]
    syms = []
    for i in range(b['argc']):
        nm = b['names'][i + 1]
        syms.append(('sym', 'self' if nm == 'self' else 'p%d' % i))
    f = st.facts
    for a, s in zip(args, syms):
        a = strip_dyn(a)
        if inside(a, s):
            return True, ''
        if a[0] == 'slice' and a[1] == s and a[3] == LEN(s) and T.advances(a[2], INT(0), f):
            return True, ''
        # fewer elements in one of its lists
        for t in subterms(a):
            if t[0] in ('remove', 'front', 'tail') and inside(t[1], s):
                return True, ''
    opq = any(opaque_in(x) is not None for x, p in f.list)
    if all(strip_dyn(a) == s for a, s in zip(args, syms)) and not opq:
        return False, 'calls itself again with the same arguments'
    # the text is cut by an amount that is, or can be, nothing
    f2 = f.copy()
    for a, s in zip(args, syms):
        a = strip_dyn(a)
        if a == s:
            continue
        if not (a[0] == 'slice' and a[1] == s and a[3] == LEN(s)) or f2.decide(LE(INT(1), a[2])) is True:
            break
        c, parts = lin_parts(a[2])
        if c != 0 or any(x[0] not in ('plen', 'cpl', 'len') for x in parts):
            break
        if not all(f2.assume(eq0(x), True) for x in parts):
            break
    else:
        if not opq:
            return False, 'can call itself again with the same arguments'
    return None, 'calls itself with %s' % ', '.join(pp(a)[:80] for a in args)


# ---------------------------------------------------------------- the check
def c20(ck):
    ck.guarded('terminates', 'analysis', body, ck)


def body(ck):
    repo = ck.repo
    T = Term(ck)
    ck.loops = []
    for kind in ('trie', 'array'):
        ck.guarded('loop', 'add_pattern (%s)' % kind, lambda: ISide(repo, kind).paths(ck))
        ck.guarded('loop', 'parse (%s)' % kind, lambda: Side(repo, kind).paths(ck))
    roots = []
    for tr, m in ((MATCHER, 'parse'), (MATCHER, 'add_pattern'), (PARSER, 'parse')):
        for t, b, im in repo.impl_methods(tr, m):
            roots.append(b['id'])
            if tr == PARSER:
                ck.guarded('loop', t, lambda: ck.run(repo.engine(), b))
    entry = repo.body(ENTRY, must=False) or entry_of(ck)
    if entry is None:
        ck.unk('loop', 'grammar', 'the function that parses a whole pattern text was not recognised')
    else:
        roots.append(entry['id'])
        ck.guarded('loop', entry['path'], lambda: T.g.run(entry))
    for r, b in sorted(T.g.rules.items()):
        ck.guarded('loop', r.split('::')[-1], lambda: T.g.run(b))
    G = Graph(repo)
    G.relevant = set()
    reach = G.reach(roots)
    done = set(ck.stats['functions'])
    big = ('grammar::',)
    for i in sorted(reach, key=lambda i: repo.p.bodies[i]['path']):
        b = repo.p.bodies[i]
        if i in done or b['kind'] == 'Closure' or i in ck.stats['functions']:
            continue
        ck.guarded('loop', b['path'], lambda: ck.run(repo.engine(extra=T.g.hook(b) if b['path'].startswith(big) else None), b))
    loops = ck.loops
    ck.stats['loops'] = len({lp.where for lp in loops})
    verdict = {}
    for lp in loops:
        ok, why = T.loop(lp)
        old = verdict.get(lp.where)
        rank = {False: 2, None: 1, True: 0}
        if old is None or rank[ok] > rank[old[0]]:
            verdict[lp.where] = (ok, why)
    for w in sorted(verdict):
        ok, why = verdict[w]
        name = w.split(' (')[0]
        if ok is True:
            ck.holds('loop', name, why)
        elif ok is False:
            ck.bad('loop', name, '%s: %s' % (w, why))
        else:
            ck.unk('loop', name, '%s: %s' % (w, why))
    recursion(ck, T, reach)
