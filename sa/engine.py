"""Path-sensitive interprocedural value-flow analysis over the MIR dump.

For an entry function it enumerates every acyclic path (each loop summarised by one generic
iteration over havocked loop-carried places), and reports per path: the facts (branch conditions),
the returned value, the final contents of every place reachable through a mutable reference, the
opaque calls made, and the loops passed.  Nothing is executed and no solver is used.
"""
import json
import re
import sys

from terms import *

sys.setrecursionlimit(20000)


class Undecided(Exception):
    pass


class Budget(Undecided):
    pass


class NotAPhase(Exception):
    """a variable taken for one that changes once and for all is set back"""
    def __init__(self, place):
        self.place = place


class State:
    __slots__ = ('store', 'facts', 'events')

    def __init__(self, store=None, facts=None, events=None):
        self.store = store if store is not None else {}
        self.facts = facts if facts is not None else Facts()
        self.events = events if events is not None else []

    def copy(self):
        return State(dict(self.store), self.facts.copy(), list(self.events))

    # ---- places
    def read(self, root, proj=()):
        if root not in self.store:
            if root[0] == '*':
                return getp(root[1], proj)
            return getp(('uninit', root), proj)
        return getp(self.store[root], proj)

    def write(self, root, proj, val):
        base = self.store.get(root)
        if base is None:
            base = root[1] if root[0] == '*' else ('uninit', root)
        if not proj:
            self.store[root] = val
        else:
            self.store[root] = setp(base, proj, val)

    def assume(self, a, pol=True):
        return self.facts.assume(a, pol)


class Loop:
    """one loop passed on a path"""

    def __init__(self, key, where):
        self.key = key
        self.where = where
        self.places = {}      # (root, path) -> (init, lv)
        self.backs = []       # dict(facts=[...], new={(root,path): term}, events=[...])
        self.entry_nfacts = 0
        self.src = None
        self.iters = {}       # lv of an iterator position -> its source
        self.iterl = []       # the same, all of them

    def __repr__(self):
        return '<loop %s>' % (self.where,)


class Frame:
    __slots__ = ('body', 'fid', 'subst', 'stack', 'depth')

    def __init__(self, body, fid, subst, stack):
        self.body = body
        self.fid = fid
        self.subst = subst
        self.stack = stack


CANON = {'std::option::Option': 'Option', 'std::result::Result': 'Result', 'core::option::Option': 'Option',
         'core::result::Result': 'Result', 'std::cmp::Ordering': 'Ordering',
         'std::ops::ControlFlow': 'ControlFlow'}


def canon_adt(p):
    return CANON.get(p, p)


def norm_path(p):
    """'std::option::Option::<T>::map' -> 'Option::map', 'core::str::<impl str>::len' -> 'str::len'"""
    p = re.sub(r"<impl ([^<>]*?(?:<[^<>]*>)?[^<>]*?)>", lambda m: {'[T]': 'slice'}.get(m.group(1), m.group(1)), p)
    prev = None
    while prev != p:
        prev = p
        p = re.sub(r'::<[^<>]*>', '', p)
    parts = [x for x in p.split('::') if x]
    return '::'.join(parts[-2:]) if len(parts) > 1 else p


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.raw = d
        self.bodies = {b['id']: b for b in d['bodies']}
        self.by_path = {}
        for b in d['bodies']:
            self.by_path.setdefault(b['path'], []).append(b)
        self.adts = {a['path']: a for a in d['adts']}
        self.impls = d['impls']
        self.traits = {t['path']: t for t in d['traits']}
        self._loops = {}

    # ---- types
    def subst_ty(self, t, s):
        if not isinstance(t, list) or not t:
            return t
        if t[0] == 'param':
            return s.get(t[1], t)
        if t[0] == 'proj':
            args = [self.subst_ty(x, s) for x in t[3]]
            im, b = self.find_impl(t[1], args[0])
            if im:
                for n, ty in im['types']:
                    if n == t[2]:
                        return self.subst_ty(ty, b)
            return ['proj', t[1], t[2], args]
        return [self.subst_ty(x, s) if isinstance(x, list) else x for x in t]

    def unify(self, pat, t, b):
        if pat[0] == 'param':
            if pat[1] in b:
                return b[pat[1]] == t
            b[pat[1]] = t
            return True
        if pat[0] != t[0]:
            return False
        if len(pat) != len(t):
            return False
        for x, y in zip(pat[1:], t[1:]):
            if isinstance(x, list) and isinstance(y, list):
                if x and isinstance(x[0], list) or not x:
                    if len(x) != len(y):
                        return False
                    for p, q in zip(x, y):
                        if not self.unify(p, q, b):
                            return False
                elif not self.unify(x, y, b):
                    return False
            elif x != y:
                return False
        return True

    def find_impl(self, trait, self_ty, targs=None):
        if self_ty[0] in ('param', 'proj', 'alias'):
            # blanket impls over a type parameter only
            for im in self.impls:
                if im['trait'] == trait and im['self'][0] == 'param':
                    return im, {im['self'][1]: self_ty}
            return None, None
        best = None
        for im in self.impls:
            if im['trait'] != trait:
                continue
            b = {}
            if self.unify(im['self'], self_ty, b):
                if targs is not None and im['targs']:
                    b2 = dict(b)
                    if len(targs) != len(im['targs']) or not all(self.unify(p, q, b2) for p, q in zip(im['targs'], targs)):
                        continue
                    b = b2
                if im['self'][0] != 'param':
                    return im, b
                best = best or (im, b)
        return best or (None, None)

    def trait_method(self, trait, method, self_ty, targs=None):
        """-> (body, subst) or None"""
        im, b = self.find_impl(trait, self_ty, targs)
        if im:
            for n, i in im['methods']:
                if n == method:
                    return (self.bodies.get(i), b) if i in self.bodies else None
        if im or self_ty[0] in ('param', 'adt', 'str', 'proj'):
            tr = self.traits.get(trait)
            if tr and im:
                for n, i, dflt in tr['methods']:
                    if n == method and dflt and i in self.bodies:
                        return self.bodies[i], {'Self': self_ty}
        return None

    # ---- natural loops of a body
    def loops(self, body):
        if body['id'] in self._loops:
            return self._loops[body['id']]
        bl = body['blocks']

        def succ(i):
            return successors(bl[i]['t'])
        order, color = [], {}
        back = []
        stack = [(0, iter(succ(0)))]
        color[0] = 1
        while stack:
            n, it = stack[-1]
            for m in it:
                if m not in color:
                    color[m] = 1
                    stack.append((m, iter(succ(m))))
                    break
                elif color[m] == 1:
                    back.append((n, m))
            else:
                color[n] = 2
                stack.pop()
        preds = {}
        for n in color:
            for m in succ(n):
                preds.setdefault(m, set()).add(n)
        res = {}
        for n, h in back:
            s = res.setdefault(h, {h})
            work = [n]
            while work:
                x = work.pop()
                if x in s:
                    continue
                s.add(x)
                work.extend(preds.get(x, ()))
        self._loops[body['id']] = res
        return res

    def body_named(self, path):
        bs = self.by_path.get(path)
        return bs[0] if bs else None


def used(x, n):
    """the local is read in a part of a statement"""
    if isinstance(x, dict):
        for k, v in x.items():
            if k == 'p' and isinstance(v, list) and v and isinstance(v[0], int):
                if v[0] == n or any(isinstance(e, list) and e[0] == 'i' and e[1] == n for e in v[1:]):
                    return True
            elif used(v, n):
                return True
        return False
    return isinstance(x, list) and any(used(v, n) for v in x)


def successors(t):
    k = t['k']
    if k in ('goto', 'drop', 'assert'):
        return [t['t']]
    if k == 'switch':
        return [x[1] for x in t['ts']] + [t['else']]
    if k == 'call':
        return [t['t']] if t['t'] is not None else []
    return []


def live_local(body, h, n):
    todo, seen = [h], set()
    while todo:
        b = todo.pop()
        if b in seen:
            continue
        seen.add(b)
        blk = body['blocks'][b]
        dead = False
        for x in blk['s']:
            if used({k: v for k, v in x.items() if k != 'p'}, n):
                return True
            if x.get('p') and x['p'][0] == n and x['k'] == 'assign':
                if len(x['p']) == 1:
                    dead = True
                    break
        if dead:
            continue
        t = blk['t']
        if t['k'] != 'drop' and used({k: v for k, v in t.items() if k != 'dest'}, n):
            return True
        if t.get('dest') == [n]:
            continue
        todo += successors(t)
    return False


class Engine:
    MAXPATHS = 30000
    MAXDEPTH = 60
    MAXSTEPS = 400000

    def __init__(self, prog, opaque=None, hooks=None, inline_clone=False):
        self.p = prog
        self.uid = 0
        self.opaque = opaque or (lambda body, path: False)
        self.hooks = hooks or {}
        self.steps = 0
        self.panics = []
        self.stats = {'functions': set(), 'paths': 0, 'calls': 0, 'loops': 0}
        self.undecided = []
        import models
        self.models = models.MODELS
        self.inline_clone = inline_clone
        self.sites = set()
        self.all_loops = []

    def fresh(self):
        self.uid += 1
        return self.uid

    # ------------------------------------------------------------ entry
    def run_fn(self, body, args=None, subst=None, st=None, pre=None):
        """analyse `body` from symbolic arguments; -> list of (kind, value, state)"""
        st = st or State()
        if args is None:
            args = []
            for i in range(body['argc']):
                ty = body['locals'][i + 1]
                nm = body['names'][i + 1] or ('a%d' % i)
                if i == 0 and nm is None:
                    nm = 'self'
                nm = 'self' if nm == 'self' else 'p%d' % i
                if ty[0] == 'ref' and ty[1]:
                    root = ('arg', nm)
                    st.store[root] = ('sym', nm)
                    args.append(('mref', root, ()))
                else:
                    args.append(('sym', nm))
        if pre:
            pre(st, args)
        return self.exec_body(body, args, subst or {}, st, ())

    # ------------------------------------------------------------ bodies
    def exec_body(self, body, args, subst, st, stack):
        self.stats['functions'].add(body['id'])
        if len(stack) > self.MAXDEPTH:
            raise Undecided('call depth')
        fr = Frame(body, self.fresh(), subst, stack + (body['id'],))
        outs = self.run_from_args(fr, args, st)
        tails = [o for o in outs if o[0] == 'tail']
        if tails:
            outs = self.tail_loop(fr, args, st)
        res = []
        for k, v, s in outs:
            self.drop_frame(s, fr.fid)
            res.append((k, v, s))
        return res

    def drop_frame(self, s, fid):
        for r in [r for r in s.store if r[0] == 'l' and r[1] == fid]:
            # keep locals that are still referenced (should not happen: lifetimes)
            del s.store[r]

    def run_from_args(self, fr, args, st):
        s = st.copy()
        for i, a in enumerate(args):
            s.store[('l', fr.fid, i + 1)] = a
        return self.run(fr, 0, s, None)

    def tail_loop(self, fr, args, st0):
        """direct tail recursion == a loop over the parameters"""
        key = self.fresh()
        roots = [('targ', key, i) for i in range(len(args))]
        st = st0.copy()
        for r, a in zip(roots, args):
            st.store[r] = a

        def body(s):
            outs = []
            for k, v, s2 in self.run_from_args(fr, [s.store[r] for r in roots], s):
                if k == 'tail':
                    for r, a in zip(roots, v):
                        s2.store[r] = a
                    self.drop_frame(s2, fr.fid)
                    outs.append(('back', None, s2))
                else:
                    outs.append((k, v, s2))
            return outs
        outs, info = self.fix(st, body, 'recursion of ' + fr.body['path'], roots)
        for k, v, s in outs:
            for r in roots:
                s.store.pop(r, None)
        return outs

    # ------------------------------------------------------------ loops
    def diff(self, a, b):
        if a == b:
            return []
        if a[0] == 'dyn' and b[0] == 'dyn' and a[1] == b[1]:
            return self.diff(a[2], b[2])
        if a[0] == 'adt' and b[0] == 'adt' and a[1:3] == b[1:3] and len(a[3]) == len(b[3]):
            r = []
            for (n, x), (m, y) in zip(a[3], b[3]):
                if n != m:
                    return [()]
                r += [((('f', n) if a[2] is None else ('vf', a[2], n)),) + p for p in self.diff(x, y)]
            return r
        if a[0] == 'tup' and b[0] == 'tup' and len(a[1]) == len(b[1]):
            r = []
            for i, (x, y) in enumerate(zip(a[1], b[1])):
                r += [(('f', str(i)),) + p for p in self.diff(x, y)]
            return r
        if a[0] == 'iter' and b[0] == 'iter' and a[1] == b[1]:
            return [(('k',),)]
        if b[0] == 'upd':
            r = self.diff(a, b[1])
            if () in r:
                return [()]
            if b[2][0] == 'idx':
                return r + [()] if False else r + [(b[2],) + p for p in self.diff(get(a, b[2]), b[3])]
            return r + [(b[2],) + p for p in self.diff(get(a, b[2]), b[3])]
        return [()]

    def fix(self, st0, body, where, tail_roots=(), maxpass=14, live=None):
        """run `body` (one generic iteration) until the set of loop-carried places is stable.
        body(state) -> [(kind, val, state)], kind 'back' = next iteration.
        A flag or result that changes once and for all splits the loop in two: the rounds before and the rounds after the change."""
        bad = set()
        while True:
            nloops = len(self.all_loops)
            try:
                return self.fix_phases(st0.copy(), body, where, tail_roots, maxpass, live, bad, ())
            except NotAPhase as x:
                if x.place in bad:
                    raise Undecided('phases of a loop')
                bad.add(x.place)
                del self.all_loops[nloops:]

    def constant_tag(self, v):
        v = strip_dyn(v)
        if v[0] == 'bool':
            return True
        return v[0] == 'adt' and (v[2] == 'None' and not v[3] or v[2] in ('Ok', 'Err') and len(v[3]) == 1 and v[3][0][1] == UNIT)

    def tag_cases(self, v, st, init):
        """split by whether the value is still the one before the loop: [(still?, state)]"""
        v, init = strip_dyn(v), strip_dyn(init)
        if v == init:
            return [(True, st)]
        if init[0] == 'bool':
            if v[0] == 'bool':
                return [(False, st)]
            return [(b == init[1], s) for b, s in self.fork(st, v)]
        if v[0] == 'adt':
            return [(v[2] == init[2], st)]
        known = st.facts.isv.get(v)
        if known is not None:
            return [(known == init[2], st)]
        s2 = st.copy()
        r = []
        if st.assume(('is', v, init[2]), True):
            r.append((True, st))
        if s2.assume(('is', v, init[2]), False):
            r.append((False, s2))
        return r

    def phases(self, st0, before, backs, live, held, given):
        """-> (backs of the loop while the flags are as before, [(flag, state in which one has changed)])"""
        for pl, init in given:
            for _, _, s in backs:
                v = getp(s.store[pl[0]], pl[1]) if pl[0] in s.store else init
                if any(still for still, _ in self.tag_cases(v, s.copy(), init)):
                    raise NotAPhase(pl)
        left = []
        seen = {pl for pl, _ in given} | held
        changed = []
        for _, _, s in backs:
            for root in st0.store:
                if root in s.store and before[root] != s.store[root] and (live is None or live(root)):
                    for path in self.diff(before[root], s.store[root]):
                        if path == () and (root, path) not in seen:
                            seen.add((root, path))
                            init = getp(before[root], path)
                            if self.constant_tag(init):
                                changed.append(((root, path), init))
        if len(changed) > 3 or len(given) > 1:
            changed = []
        for pl, init in changed:
            stay, gone = [], []
            for k, v, s in backs:
                cur = getp(s.store[pl[0]], pl[1])
                for still, s1 in self.tag_cases(cur, s.copy(), init):
                    if still:
                        if strip_dyn(cur) != strip_dyn(init):
                            s1.write(pl[0], pl[1], init)
                        stay.append((k, v, s1))
                    else:
                        if init[0] == 'bool':
                            s1.write(pl[0], pl[1], ('bool', not init[1]))
                        gone.append(((pl, init), s1))
            if gone and len(gone) <= 24:
                backs = stay
                left += gone
        return backs, left

    def fix_phases(self, st0, body, where, tail_roots, maxpass, live, held, given):
        self.stats['loops'] += 1
        key = self.fresh()
        havoc = {}     # (root, path) -> lv
        dropped = set()
        special = {}   # (root,path) -> 'suffix'
        inv_cand = None
        alias, noalias = {}, set()     # counters that run in lockstep share one variable
        nloops = len(self.all_loops)
        left = []
        for npass in range(maxpass):
            del self.all_loops[nloops:]     # inner loops count once, in the final pass
            st = st0.copy()
            info = Loop(key, where)
            info.entry_nfacts = len(st.facts.list)
            nev = len(st.events)
            self.apply_havoc(st, st0, havoc, special, key, info, alias)
            if inv_cand is not None:
                for f in inv_cand:
                    st.facts.background(f)
            before = dict(st.store)
            outs = body(st)
            backs = [o for o in outs if o[0] == 'back']
            if not tail_roots:
                backs, left = self.phases(st0, before, backs, live, held, given)
            changed = set()
            for _, _, s in backs:
                for root in st0.store:
                    if root not in s.store:
                        continue
                    for path in self.diff(before[root], s.store[root]):
                        changed.add((root, path))
            new = False
            for (root, path) in changed:
                # already covered?
                if any(r == root and path[:len(p)] == p for (r, p) in havoc):
                    continue
                if any(e[0] == 'idx' for e in path):
                    path = path[:[e[0] for e in path].index('idx')]
                    if any(r == root and path[:len(p)] == p for (r, p) in havoc):
                        continue
                if 5 <= npass:
                    path = ()
                for k in [k for k in havoc if k[0] == root and k[1][:len(path)] == path]:
                    del havoc[k]
                    special.pop(k, None)
                havoc[(root, path)] = None
                new = True
            if new:
                inv_cand = None
                continue
            # suffix-shaped strings: re-parametrise by an offset
            resp = False
            for (root, path) in havoc:
                if (root, path) in special:
                    continue
                lv = info.places[(root, path)][1]
                news = [getp(s.store[root], path) for _, _, s in backs]
                if news and all(n[0] == 'slice' and n[1] == lv and n[3] == LEN(lv) for n in news if n != lv) and any(n != lv for n in news):
                    special[(root, path)] = 'suffix'
                    resp = True
            if resp:
                inv_cand = None
                continue
            # counters in lockstep: guessed from one round, verified on all
            broken = [k for k, r in alias.items() if any(getp(s.store[k[0]], k[1]) != getp(s.store[r[0]], r[1]) for _, _, s in backs)]
            if broken:
                for k in broken:
                    del alias[k]
                    noalias.add(k)
                inv_cand = None
                continue
            guess = {}
            reps = []
            for pl in sorted(havoc, key=repr):
                init, lv = info.places[pl]
                if pl in alias or pl in noalias or lv[0] != 'lv' or init[0] != 'int':
                    continue
                for r in reps:
                    i2, lv2 = info.places[r]
                    if i2 == init and any(is_step(getp(s.store[pl[0]], pl[1]), lv) and sub(getp(s.store[pl[0]], pl[1]), lv) == sub(getp(s.store[r[0]], r[1]), lv2)
                                          for _, _, s in backs):
                        guess[pl] = r
                        break
                else:
                    reps.append(pl)
            if guess:
                alias.update(guess)
                inv_cand = None
                continue
            # candidate invariants, then verified by induction
            if inv_cand is None:
                inv_cand = self.candidates(st0, info, backs)
                if inv_cand:
                    continue
                inv_cand = []
            else:
                bad = [f for f in inv_cand if not self.inductive(f, info, backs, inv_cand)]
                if bad:
                    inv_cand = [f for f in inv_cand if f not in bad]
                    continue
            break
        else:
            raise Undecided('loop did not stabilise: %s' % (where,))
        for _, _, s in backs:
            info.backs.append({
                'facts': s.facts.list[info.entry_nfacts:],
                'new': {pl: getp(s.store[pl[0]], pl[1]) for pl in info.places},
                'events': s.events[nev:],
                'state': s,
            })
        self.counters(info)
        info.exits = [(k, s.facts.list[info.entry_nfacts:]) for k, v, s in outs if k != 'back']
        if given and not info.backs:
            return [o for o in outs if o[0] != 'back'], info       # left at once: no loop
        self.all_loops.append(info)
        import models
        res = []
        for flag, s in left:
            s.events.insert(nev, ('loop', info))
            for r in [r for r in s.store if r[0] == 'l' and r not in st0.store]:
                del s.store[r]
            more, _ = self.fix_phases(s, body, where, tail_roots, maxpass, live, held, given + (flag,))
            info.exits += [(k, s1.facts.list[info.entry_nfacts:]) for k, v, s1 in more]
            res += more
        for k, v, s in outs:
            if k == 'back':
                continue
            s.events.insert(nev, ('loop', info))
            if not self.instances(info, s, nev):
                continue
            for lv, src in info.iterl:
                if src[0] == 'chars' and lv[0] == 'lv' and lv[3] == INT(0) and s.facts.decide(models.more(src, lv)) is False:
                    s.facts.background(EQ(lv, ('count', src), True))
            res.append((k, v, s))
        return res, info

    def instances(self, info, s, nev):
        """what every round of a loop over all of a list found out about its element holds for each element the path
        knows, once the loop has gone over all of them; -> False: the path cannot be"""
        import models
        for lv, src in info.iterl:
            if src[0] == 'elemsmut' and info.backs:
                # the same list, lent out for changes
                Xs = {x[1] for a, p in info.backs[0]['facts'] for x in subterms(a) if x[0] == 'idx' and x[2] == lv and LEN(x[1]) == src[3]}
                if len(Xs) == 1 and all(bk['new'][pl] == i_lv or i_lv == lv for bk in info.backs for pl, (i0, i_lv) in info.places.items()):
                    src = ('elems', Xs.pop())
            if src[0] != 'elems' or lv[0] != 'lv' or lv[3] != INT(0) or not info.backs or s.facts.decide(models.more(src, lv)) is not False:
                continue
            X = src[1]
            own = lambda t: {x for x in subterms(t) if x[0] == 'lv' and x[1] == info.key}
            common = [f for f in info.backs[0]['facts'] if own(f[0]) == {lv} and all(f in b['facts'] for b in info.backs)]
            here = [get(X, ('idx', lv))]
            common = [f for f in common if here[0] in list(subterms(f[0]))]
            if not common:
                continue
            Y = X[1] if X[0] == 'push' else X
            at = {x[2] for a, p in s.facts.list for x in subterms(a) if x[0] == 'idx' and x[1] in (X, Y) and not own(x)}
            els = {get(Y, ('idx', j)) for j in sorted(at, key=repr)[:4] if j[0] in ('int', 'lv', 'lin', 'len') and s.facts.decide(LT(j, LEN(Y))) is True}
            if X[0] == 'push':
                els.add(X[2])
            for el in sorted(els, key=repr):
                for a, pol in common:
                    a = subst(a, {here[0]: el})
                    if not own(a) and not s.facts.assume(a, pol, False):
                        return False
        return True

    def counters(self, info):
        """a counter that goes up by one and stays below the length of a list walks that list"""
        own = lambda t: any(x[0] == 'lv' and x[1] == info.key for x in subterms(t))
        for pl, (init, lv) in info.places.items():
            if lv[0] != 'lv' or init[0] != 'int' or not info.backs or not all(b['new'][pl] == add(lv, INT(1)) for b in info.backs):
                continue
            src = [s for l, s in info.iterl if l == lv]
            if src:
                if src[0][0] == 'range' and src[0][1] == INT(0) and src[0][2][0] == 'len' and not own(src[0][2]):
                    info.iterl.insert(0, (lv, ('elems', src[0][2][1])))
                continue
            xs = {x[1] for a, p in info.backs[0]['facts'] if a[0] == 'le0' for x in subterms(a) if x[0] == 'len' and not own(x)}
            for x in sorted(xs, key=repr):
                if x[0] in ('sym', 'fld', 'idx', 'pl', 'lv', 'vec', 'push', 'call', 'post') and \
                        all(b['state'].facts.decide(LT(lv, LEN(x))) is True for b in info.backs) and any((LT(lv, LEN(x)), True) in b['facts'] for b in info.backs):
                    info.iterl.append((lv, ('elems', x)))

    def apply_havoc(self, st, st0, havoc, special, key, info, alias=()):
        import models
        for n, (root, path) in enumerate(sorted(havoc, key=repr)):
            init = getp(st0.store[root], path)
            name = '%s' % n
            if init[0] == 'mref':
                r2 = ('desc', key, n)
                st.store[r2] = ('lv', key, name, st0.read(init[1], init[2]))
                lv = ('mref', r2, ())
            elif special.get((root, path)) == 'suffix':
                off = ('lv', key, name, INT(0))
                base = init
                st.facts.background(LE(off, LEN(base)))
                self.add_bnd(st, base, off)
                lv = SLICE(base, off, LEN(base))
            elif (root, path) in alias:
                lv = info.places[alias[(root, path)]][1]
            else:
                lv = ('lv', key, name, init)
            info.places[(root, path)] = (init, lv)
            if path and path[-1] == ('k',):
                it = getp(st0.store[root], path[:-1])
                if it[0] == 'iter':
                    src = models.walked(it[1])
                    info.iters.setdefault(lv, src)
                    info.iterl.append((lv, src))
                    base = src
                    while base[0] in ('map', 'inspect', 'filter', 'filter_map', 'take_while', 'enumerate', 'rev'):
                        base = base[1]
                    if base[0] == 'elems' and init == INT(0):
                        st.facts.background(LE(lv, LEN(base[1])))
            st.write(root, path, lv)

    def add_bnd(self, st, s, i):
        s = strip_dyn(s)
        if s[0] == 'slice':
            s, i = s[1], add(s[2], i)
        st.facts.background(('bnd', s, i))

    def candidates(self, st0, info, backs):
        import models
        c = []
        strs = set()
        for _, _, s in backs:
            for a, pol in s.facts.list:
                for t in subterms(a):
                    if t[0] == 'len':
                        strs.add(t[1])
                    if t[0] in ('chars', 'slice', 'bytes', 'at'):
                        strs.add(t[1])
                    if t[0] == 'rule':
                        strs.add(t[2])
        for (root, path), (init, lv) in info.places.items():
            if lv[0] != 'lv':
                continue
            if init[0] not in ('int', 'lin', 'len', 'count', 'bool', 'adt', 'iter') and any(x == ('len', lv) for _, _, s in backs for a, p in s.facts.list for x in subterms(a)):
                c.append(EQ(LEN(lv), LEN(init), True))
            for s in strs:
                if s[0] in ('sym', 'fld', 'idx', 'pl', 'slice', 'elem', 'rule') and st0.facts.boundary(s, init):
                    c.append(('bnd', s, lv))
                    c.append(LE(lv, LEN(s)))
            if backs and all(self.grows(getp(s.store[root], path), lv, s) for _, _, s in backs):
                c.append(LE(init, lv))
            # lockstep with an iterator over the characters of a string
            for (r2, p2), (i2, lv2) in info.places.items():
                if p2 and p2[-1] == ('k',):
                    it = getp(st0.store[r2], p2[:-1])
                    text = models.chars_below(it[1]) if it[0] == 'iter' else None
                    if text is not None:
                        e = ('elem', ('chars', text), lv2)
                        if init == INT(0) and i2 == INT(0):
                            ok = all(getp(s.store[root], path) in (add(lv, ('lenutf8', e)), add(('choff', text, lv2), ('lenutf8', e))) and
                                     getp(s.store[r2], p2) == add(lv2, INT(1)) for _, _, s in backs)
                            if ok and backs:
                                c.append(('sync', text, lv, e))
                                c.append(('bnd', text, lv))
                                c.append(LE(lv, LEN(text)))
        return list(dict.fromkeys(c))

    def grows(self, new, lv, s):
        try:
            d = sub(new, lv)
        except Exception:
            return False
        return s.facts.decide(LE(INT(0), d)) is True

    def inductive(self, f, info, backs, cands=()):
        for _, _, s in backs:
            m = {}
            for (root, path), (init, lv) in info.places.items():
                if lv[0] == 'lv':
                    m[lv] = getp(s.store[root], path)
            if f[0] == 'sync':
                continue      # established by the shape test in candidates()
            g = subst(f, m)
            if f[0] == 'le0' and any(b[0] == 'sync' and b[2] in [t for t, _ in (lin_parts(f[1])[1]).items()] for b in s.facts.bg):
                continue
            if s.facts.decide(g) is not True:
                # a character boundary lies inside the text
                if f[0] == 'le0' and any(h[0] == 'bnd' and LE(h[2], LEN(h[1])) == f and s.facts.decide(subst(h, m)) is True for h in cands):
                    continue
                return False
        return True

    # ------------------------------------------------------------ blocks
    def run(self, fr, bb, st, loop):
        outs = []
        work = [(bb, st)]
        blocks = fr.body['blocks']
        loops = self.p.loops(fr.body)
        first = True
        while work:
            bb, st = work.pop()
            while True:
                self.steps += 1
                if self.steps > self.MAXSTEPS:
                    raise Budget('step budget')
                if loop is not None:
                    if bb == loop[0] and not first:
                        outs.append(('back', None, st))
                        break
                    if bb not in loop[1]:
                        outs.append(('exit', bb, st))
                        break
                if bb in loops and not (loop is not None and bb == loop[0]):
                    for k, v, s in self.do_loop(fr, bb, st, loops[bb]):
                        if k == 'exit':
                            work.append((v, s))
                        else:
                            outs.append((k, v, s))
                    first = False
                    break
                first = False
                blk = blocks[bb]
                for x in blk['s']:
                    if x['k'] == 'assign':
                        self.assign(fr, st, x)
                    elif x['k'] == 'setdiscr':
                        raise Undecided('setdiscr')
                nxt = self.term(fr, st, blk['t'], outs)
                if not nxt:
                    break
                bb, st = nxt[0]
                for n in nxt[1:]:
                    work.append(n)
                if len(work) + len(outs) > self.MAXPATHS:
                    raise Budget('too many paths in ' + fr.body['path'])
        self.stats['paths'] += len(outs)
        return outs

    def do_loop(self, fr, h, st, blocks):
        sp = fr.body['blocks'][h]['t']['sp']
        outs, info = self.fix(st, lambda s: self.run(fr, h, s, (h, blocks)),
                              '%s (%s:%s)' % (fr.body['path'], sp[0], sp[1]), live=lambda root: self.live_at(fr, h, blocks, root))
        return outs

    def live_at(self, fr, h, blocks, root):
        """a variable of the program read in the loop, whose value at the head may still be used"""
        if root[0] != 'l' or root[1] != fr.fid:
            return True
        n = root[2]
        if not fr.body['names'][n]:
            return False
        memo = fr.body.setdefault('_live', {})
        if (h, n) not in memo:
            bl = fr.body['blocks']
            memo[(h, n)] = any(used({k: v for k, v in x.items() if k != 'p'}, n) for b in blocks for x in bl[b]['s']) or \
                any(used({k: v for k, v in bl[b]['t'].items() if k != 'dest'}, n) for b in blocks if bl[b]['t']['k'] != 'drop')
            memo[(h, n)] = memo[(h, n)] and live_local(fr.body, h, n)
        return memo[(h, n)]

    # ------------------------------------------------------------ operands, places
    def place(self, fr, st, p):
        """-> ('loc', root, proj) or ('val', term)"""
        root, proj = ('l', fr.fid, p[0]), ()
        val = None
        variant = None
        for e in p[1:]:
            k = e[0]
            if k == 'd':
                t = val if val is not None else st.read(root, proj)
                if t[0] == 'mref':
                    root, proj, val = t[1], t[2], None
                elif t[0] == 'dyn' and t[2][0] == 'mref':
                    root, proj, val = t[2][1], t[2][2], None
                elif e[1] == 'mut':
                    root, proj, val = ('*', t), (), None
                # shared reference / box: transparent
                continue
            if k == 'v':
                variant = e[2]
                continue
            if k == 'f':
                q = ('f', e[2]) if variant is None else ('vf', variant, e[2])
                variant = None
            elif k == 'i':
                q = ('idx', st.read(('l', fr.fid, e[1])))
            elif k == 'ci':
                q = ('idx', INT(e[1])) if not e[2] else ('idx', ('fromend', e[1]))
            else:
                raise Undecided('projection %s' % (e,))
            if val is not None:
                val = get(val, q)
            else:
                proj = proj + (q,)
        if val is not None:
            return ('val', val)
        return ('loc', root, proj)

    def read_place(self, fr, st, p):
        r = self.place(fr, st, p)
        if r[0] == 'val':
            return r[1]
        return st.read(r[1], r[2])

    def operand(self, fr, st, o):
        k = o['k']
        if k in ('copy', 'move'):
            return self.read_place(fr, st, o['p'])
        if k == 'const':
            return self.const(fr, st, o)
        return ('opq', k)

    def const(self, fr, st, o):
        if 'fn' in o:
            return ('fn', FnRef(o['fn']), tuple(sorted((k, json.dumps(v)) for k, v in fr.subst.items())))
        if 'promoted' in o:
            pb = fr.body['promoted'][o['promoted']]
            body = dict(pb)
            body['id'] = fr.body['id'] + '#p%d' % o['promoted']
            body['path'] = fr.body['path']
            body['promoted'] = []
            f2 = Frame(body, self.fresh(), fr.subst, fr.stack)
            outs = self.run(f2, 0, State(), None)
            if len(outs) == 1 and outs[0][0] == 'ret':
                v = outs[0][1]
                if v[0] == 'mref':
                    v = outs[0][2].read(v[1], v[2])
                return v
            return ('opq', 'promoted')
        if 'str' in o:
            return ('str', o['str'])
        if 'bytes' in o:
            return ('bytestr', tuple(o['bytes']))
        if 'int' in o:
            if o['ty'][0] == 'bool':
                return ('bool', bool(o['int']))
            return INT(o['int'])
        if 'static' in o:
            return ('static', o['static'])
        ty = o['ty']
        if ty[0] == 'tuple' and not ty[1]:
            return UNIT
        if ty[0] == 'closure':
            return ('clo', ty[1], (), tuple(sorted((k, json.dumps(v)) for k, v in fr.subst.items())))
        if ty[0] == 'adt' and o.get('zst'):
            return adt(canon_adt(ty[1]), None, ())
        return ('const', o.get('named') or json.dumps(ty))

    # ------------------------------------------------------------ statements
    def assign(self, fr, st, x):
        v = self.rvalue(fr, st, x['r'])
        d = self.place(fr, st, x['p'])
        if d[0] == 'val':
            # assignment through an opaque shared thing: cannot happen in safe code
            raise Undecided('assignment to a value place')
        st.write(d[1], d[2], v)

    def rvalue(self, fr, st, r):
        k = r['k']
        if k == 'use':
            return self.operand(fr, st, r['o'])
        if k in ('ref', 'reborrow'):
            d = self.place(fr, st, r['p'])
            if r['b'] == 'mut':
                if d[0] == 'val':
                    return d[1]
                return ('mref', d[1], d[2])
            if d[0] == 'val':
                return d[1]
            v = st.read(d[1], d[2])
            return v
        if k == 'rawptr':
            d = self.place(fr, st, r['p'])
            return ('mref', d[1], d[2]) if d[0] == 'loc' else d[1]
        if k == 'cast':
            v = self.operand(fr, st, r['o'])
            if 'Unsize' in r['c']:
                f, t = self.p.subst_ty(r['from'], fr.subst), r['ty']
                inner = lambda ty: ty[2] if ty[0] == 'ref' else (ty[2][0] if ty[0] == 'adt' and ty[2] else ty)
                if inner(t)[0] == 'dyn' and inner(f)[0] != 'dyn':
                    return ('dyn', json.dumps(inner(f)), v)
            if r['c'].startswith('IntToInt') and v[0] != 'int':
                fb, tb = bits(r['from']), bits(r['ty'])
                if tb and (fb or 32) > tb:
                    return ('trunc', tb, v)
            return v
        if k == 'bin':
            return self.binop(fr, r['op'], self.operand(fr, st, r['l']), self.operand(fr, st, r['r']), r['ty'])
        if k == 'un':
            v = self.operand(fr, st, r['o'])
            if r['op'] == 'Not':
                return NOT(v)
            if r['op'] == 'PtrMetadata':
                return LEN(self.deref(st, v))
            return ('un', r['op'], v)
        if k == 'discr':
            return ('discr', strip_dyn(self.read_place(fr, st, r['p'])), tuple((a, b) for a, b in r['vars']))
        if k == 'agg':
            ops = [self.operand(fr, st, o) for o in r['ops']]
            a = r['a']
            if a == 'tuple':
                return ('tup', tuple(ops))
            if a == 'array':
                return ('vec', tuple(ops))
            if a == 'adt':
                return adt(canon_adt(r['adt']), r['variant'], zip(r['fields'], ops))
            if a == 'closure':
                return ('clo', r['id'], tuple(ops), tuple(sorted((k, json.dumps(v)) for k, v in fr.subst.items())))
        if k == 'repeat':
            return ('opq', 'repeat', self.operand(fr, st, r['o']))
        return ('opq', k, r.get('dbg', ''))

    def deref(self, st, v):
        if v[0] == 'mref':
            return st.read(v[1], v[2])
        if v[0] == 'dyn':
            return ('dyn', v[1], self.deref(st, v[2])) if v[2][0] == 'mref' else v
        return v

    def binop(self, fr, op, a, b, ty):
        ints = ty[0] in ('int', 'char')
        if op in ('Add', 'AddUnchecked'):
            return add(a, b)
        if op in ('Sub', 'SubUnchecked'):
            return sub(a, b)
        if op in ('AddWithOverflow',):
            return ('tup', (add(a, b), overflow(add(a, b), ty)))
        if op in ('SubWithOverflow',):
            return ('tup', (sub(a, b), LT(a, b)))
        if op == 'MulWithOverflow':
            return ('tup', (self.mul(a, b), overflow(self.mul(a, b), ty)))
        if op == 'Mul':
            return self.mul(a, b)
        if op == 'Eq':
            return EQ(a, b, ints)
        if op == 'Ne':
            return NOT(EQ(a, b, ints))
        if op == 'Lt':
            return LT(a, b)
        if op == 'Le':
            return LE(a, b)
        if op == 'Gt':
            return LT(b, a)
        if op == 'Ge':
            return LE(b, a)
        if op == 'BitAnd' and ty[0] == 'bool':
            return conj([a, b])
        if op == 'BitOr' and ty[0] == 'bool':
            return NOT(conj([NOT(a), NOT(b)]))
        return ('bin', op, a, b)

    def mul(self, a, b):
        if a[0] == 'int':
            return scale(b, a[1])
        if b[0] == 'int':
            return scale(a, b[1])
        return ('bin', 'Mul', a, b)

    # ------------------------------------------------------------ terminators
    def term(self, fr, st, t, outs):
        k = t['k']
        if k in ('goto', 'drop'):
            return [(t['t'], st)]
        if k == 'return':
            outs.append(('ret', st.read(('l', fr.fid, 0)), st))
            return None
        if k == 'switch':
            return self.switch(fr, st, t)
        if k == 'assert':
            c = self.operand(fr, st, t['o'])
            if not t['exp']:
                c = NOT(c)
            self.site(fr, t, 'assert ' + t['msg'])
            d = st.facts.decide(c)
            res = []
            if d is not True:
                s2 = st.copy()
                if s2.assume(c, False):
                    self.panic(outs, s2, fr, t, 'assert:' + t['msg'], c)
            if st.assume(c, True):
                res.append((t['t'], st))
            return res
        if k == 'call':
            return self.call_term(fr, st, t, outs)
        if k == 'unreachable':
            return None
        if k == 'unwind':
            return None
        raise Undecided('terminator ' + k)

    def site(self, fr, t, what):
        self.sites.add((fr.body['path'], t['sp'][0], t['sp'][1], what))

    def panic(self, outs, st, fr, t, kind, detail):
        sp = t['sp']
        outs.append(('panic', {'kind': kind, 'detail': detail, 'file': sp[0], 'line': sp[1], 'fn': fr.body['path'],
                               'stack': fr.stack}, st))

    def fork(self, st, atom):
        """-> [(True/False, state)] feasible"""
        d = st.facts.decide(atom)
        if d is not None:
            return [(d, st)]
        s2 = st.copy()
        r = []
        if st.assume(atom, True):
            r.append((True, st))
        if s2.assume(atom, False):
            r.append((False, s2))
        return r

    def switch(self, fr, st, t):
        v = self.operand(fr, st, t['o'])
        ts, els = t['ts'], t['else']
        if v[0] == 'bool' or t['ty'][0] == 'bool':
            tgt = {}
            for val, b in ts:
                tgt[bool(val)] = b
            return [(tgt.get(b, els), s) for b, s in self.fork(st, v)]
        if v[0] == 'discr':
            vars_ = dict(v[2])
            x = v[1]
            res = []
            seen = set()
            opts = [(val, b) for val, b in ts]
            names = []
            for val, b in opts:
                names.append((vars_.get(val, str(val)), b))
                seen.add(val)
            for val, n in v[2]:
                if val not in seen:
                    names.append((n, els))
            return self.branch_variants(st, x, names)
        # integers / chars
        res = []
        cur = st
        for val, b in ts:
            a = EQ(v, INT(val), True)
            s2 = cur.copy()
            if s2.assume(a, True):
                res.append((b, s2))
            if not cur.assume(a, False):
                return res
        res.append((els, cur))
        return res

    def branch_variants(self, st, x, names):
        if x[0] == 'adt':
            for n, b in names:
                if n == x[2]:
                    return [(b, st)]
            return []
        res = []
        known = st.facts.isv.get(x)
        if known is not None:
            return [(b, st) for n, b in names if n == known]
        cands = [(n, b) for n, b in names if n not in st.facts.isnt.get(x, ())]
        for i, (n, b) in enumerate(cands):
            s2 = st.copy() if i < len(cands) - 1 else st
            if s2.assume(('is', x, n), True):
                self.on_variant(s2, x, n)
                res.append((b, s2))
        return res

    def on_variant(self, st, x, variant):
        """library contracts that become known once a variant is known"""
        h = self.hooks.get('on_variant')
        if h:
            h(self, st, x, variant)
        if x[0] == 'bsearch':
            v = x[1]
            pos = ('pl', x, variant, '0')
            if variant == 'Ok':
                st.facts.background(LT(pos, LEN(v)))
                c = x[2]
                e = subst(c, {('probe', v): get(v, ('idx', pos))})
                if e[0] != 'cases':
                    st.facts.background(IS(e, 'Equal'))
            else:
                st.facts.background(LE(pos, LEN(v)))
        if x[0] == 'find' and variant == 'Some':
            pass

    def split(self, st, t, variants):
        """fork on the variant of an option-like value -> [(variant, state)]"""
        t = strip_dyn(t)
        return self.branch_variants(st, t, [(v, v) for v in variants])

    # ------------------------------------------------------------ calls
    def call_term(self, fr, st, t, outs):
        f = self.operand(fr, st, t['f'])
        args = [self.operand(fr, st, a) for a in t['args']]
        self.stats['calls'] += 1
        dty = self.p.subst_ty(t['dty'], fr.subst)
        ctx = Call(fr, t, dty, self.is_tail(fr, t))
        res = self.call(ctx, f, args, st)
        nxt = []
        for k, v, s in res:
            if k == 'ret':
                if t['t'] is None:
                    continue
                d = self.place(fr, s, t['dest'])
                s.write(d[1], d[2], v)
                nxt.append((t['t'], s))
            elif k == 'panic':
                outs.append((k, v, s))
            elif k == 'tail':
                outs.append((k, v, s))
            elif k == 'skip':
                # the round of the loop this block heads is over
                nxt.append((self.head_of(fr.body, self.p.loops(fr.body), t), s))
            else:
                raise Undecided('call outcome ' + k)
        return nxt

    def head_of(self, body, heads, t):
        """the loop head from which control comes straight to this call"""
        for h in heads:
            i = h
            for _ in range(4):
                bl = body['blocks'][i]
                if bl['t'] is t:
                    return h
                if bl['t']['k'] != 'goto' or bl['s']:
                    break
                i = bl['t']['t']
        return None

    def is_tail(self, fr, t):
        if t['t'] is None or len(t['dest']) != 1:
            return False
        cur, b, n = t['dest'][0], t['t'], 0
        while n < 20:
            n += 1
            blk = fr.body['blocks'][b]
            for x in blk['s']:
                if x['k'] != 'assign':
                    return False
                r = x['r']
                src = None
                if r['k'] == 'use' and r['o']['k'] in ('move', 'copy'):
                    src = r['o']['p']
                elif r['k'] in ('ref', 'reborrow') and len(r['p']) == 2 and r['p'][1][0] == 'd':
                    src = r['p'][:1]
                if src == [cur] and len(x['p']) == 1:
                    cur = x['p'][0]
                elif r['k'] in ('use',) and len(x['p']) == 1 and x['p'][0] not in (0, cur):
                    continue
                else:
                    return False
            tt = blk['t']
            if tt['k'] in ('goto', 'drop'):
                b = tt['t']
            elif tt['k'] == 'return':
                return cur == 0
            else:
                return False
        return False

    def call(self, ctx, f, args, st):
        f = strip_dyn(f)
        if f[0] == 'mref':
            f = st.read(f[1], f[2])
        if f[0] == 'clo':
            return self.call_closure(ctx, f, args, st)
        if f[0] == 'fn':
            return self.call_fn(ctx, f, args, st)
        return self.opaque_call(ctx, 'indirect', [f] + args, st)

    def call_closure(self, ctx, f, args, st, loc=None):
        body = self.p.bodies.get(f[1])
        if body is None:
            return self.opaque_call(ctx, 'closure', args, st)
        sub_ = {k: json.loads(v) for k, v in (f[3] if len(f) > 3 else ())}
        envty = body['locals'][1]
        if body['id'] in ctx.fr.stack and ctx.fr.stack.count(body['id']) > 2:
            raise Undecided('recursive closure')
        if envty[0] == 'ref' and envty[1]:
            if loc is None:
                r = ('cl', self.fresh())
                st.store[r] = f
                env = ('mref', r, ())
            else:
                env = loc
        else:
            env = f
        return self.exec_body(body, [env] + list(args), sub_, st, ctx.fr.stack)

    def call_fn(self, ctx, f, args, st):
        fn = f[1].d
        outer = {k: json.loads(v) for k, v in f[2]}
        path = fn['path']
        # constructor used as a function
        target = None
        fargs = [self.p.subst_ty(a, outer) for a in fn['args']]
        trait = fn.get('trait')
        if trait:
            sty = self.p.subst_ty(fn['self'], outer)
            # closures called through the Fn traits
            if fn['method'] in ('call', 'call_mut', 'call_once') and 'ops::' in trait:
                cl = args[0]
                loc = None
                if cl[0] == 'mref':
                    loc = cl
                    cl = st.read(cl[1], cl[2])
                tup = args[1]
                if tup[0] == 'tup':
                    if cl[0] == 'clo':
                        return self.call_closure(ctx, cl, list(tup[1]), st, loc)
                    return self.call(ctx, cl, list(tup[1]), st)
            recv = args[0] if args else None
            if sty[0] == 'dyn' or (sty[0] == 'adt' and sty[1].endswith('boxed::Box') and sty[2] and sty[2][0][0] == 'dyn'):
                rv = self.deref(st, recv) if recv else None
                ty = None
                for c in (recv, rv):
                    if c is not None and c[0] == 'dyn':
                        ty = json.loads(c[1])
                        break
                    if c is not None and c[0] == 'adt':
                        ty = ['adt', c[1], []]
                        break
                if ty:
                    m = self.p.trait_method(trait, fn['method'], ty)
                    if m and m[0]:
                        a0 = recv
                        if a0[0] == 'dyn':
                            a0 = a0[2]
                        return self.enter(ctx, m[0], [a0] + args[1:], m[1], st, path)
            key0 = trait.split('::')[-1] + '::' + fn['method']
            if key0 == 'Clone::clone' and not self.inline_clone:
                return [('ret', self.deref(st, args[0]), st)]
            targs = fargs[1:]
            m = self.p.trait_method(trait, fn['method'], sty, targs if targs else None)
            if m and m[0]:
                target = m
            elif fn.get('res') in self.p.bodies:
                b = self.p.bodies[fn['res']]
                target = (b, dict(zip(b.get('generics', []), [self.p.subst_ty(a, outer) for a in fn.get('rargs', [])])))
            if target and trait.startswith('std::') and key0 in ('Debug::fmt', 'Display::fmt', 'Clone::clone') and not self.inline_clone:
                target = None
            key = key0
        else:
            key = norm_path(path)
            if fn['id'] in self.p.bodies:
                b = self.p.bodies[fn['id']]
                target = (b, dict(zip(b.get('generics', []), fargs)))
        if target:
            return self.enter(ctx, target[0], args, target[1], st, path)
        c = self.ctor(fn, path, args)
        if c is not None:
            return [('ret', c, st)]
        h = self.hooks.get('call')
        if h:
            r = h(self, ctx, key, fn, args, st)
            if r is not None:
                return r
        m = self.models.get(key)
        if m:
            ctx.key = key
            ctx.fn = fn
            ctx.fargs = fargs
            r = m(self, ctx, args, st)
            if r is not None:
                return r
        return self.opaque_call(ctx, key, args, st)

    def ctor(self, fn, path, args):
        last = path.split('::')[-1]
        pre = '::'.join(path.split('::')[:-1])
        if last in ('Some', 'Ok', 'Err'):
            return adt('Option' if last == 'Some' else 'Result', last, (('0', args[0]),))
        pre = re.sub(r'::<[^<>]*>', '', pre)
        a = self.p.adts.get(pre)
        if a and a['enum']:
            for v in a['variants']:
                if v['name'] == last:
                    return adt(pre, last, [(str(i), x) for i, x in enumerate(args)])
        p2 = re.sub(r'::<[^<>]*>', '', path)
        if p2 in self.p.adts and not self.p.adts[p2]['enum']:
            return adt(p2, None, [(str(i), x) for i, x in enumerate(args)])
        return None

    def enter(self, ctx, body, args, subst_, st, path):
        """call of a function of the crate"""
        h = self.hooks.get('enter')
        if h:
            r = h(self, ctx, body, args, st)
            if r is not None:
                return r
        if self.opaque(body, path):
            return self.opaque_call(ctx, self.fkey(body), args, st)
        if body['id'] in ctx.fr.stack:
            if body['id'] == ctx.fr.body['id'] and ctx.tail:
                return [('tail', args, st)]
            return self.opaque_call(ctx, self.fkey(body), args, st, rec=True)
        return self.exec_body(body, args, subst_, st, ctx.fr.stack)

    def fkey(self, body):
        p = body['path']
        return re.sub(r'::<[^<>]*>', '', p)

    def opaque_call(self, ctx, key, args, st, rec=False):
        vals = []
        for a in args:
            vals.append(self.deref(st, a))
        tag = 'rec' if rec else 'call'
        ret = (tag, key) + tuple(vals)
        muts = [i for i, a in enumerate(args) if a[0] == 'mref' or (a[0] == 'dyn' and a[2][0] == 'mref')]
        if muts:
            # results may depend on hidden state changes: number repeated calls
            n = sum(1 for e in st.events if e[0] == 'call' and e[1] == key and e[2] == tuple(vals))
            if n:
                ret = ret + (('nth', n),)
            for i in muts:
                a = args[i] if args[i][0] == 'mref' else args[i][2]
                st.write(a[1], a[2], ('post', ret, i))
        st.events.append(('call', key, tuple(vals), ret, (ctx.t['sp'][0], ctx.t['sp'][1], ctx.fr.body['path']), ctx.dty, tuple(args)))
        return [('ret', ret, st)]

    # ------------------------------------------------------------ helpers for models
    def apply(self, ctx, f, args, st):
        """call a function value; keeps only ret/panic outcomes"""
        return self.call(Call(ctx.fr, ctx.t, ctx.dty, False), f, args, st)

    def do_panic(self, ctx, st, kind, detail):
        self.site(ctx.fr, ctx.t, kind)
        sp = ctx.t['sp']
        return ('panic', {'kind': kind, 'detail': detail, 'file': sp[0], 'line': sp[1], 'fn': ctx.fr.body['path'],
                          'stack': ctx.fr.stack}, st)


def is_step(new, lv):
    return new[0] == 'lin' and new[1] != 0 and sub(new, lv)[0] == 'int'


def bits(ty):
    if ty[0] == 'int':
        n = ty[1].lstrip('iu')
        return 64 if n == 'size' else int(n)
    return {'char': 32, 'bool': 1}.get(ty[0])


def unbounded(t):
    """a number that comes from outside (a parameter of a parser, a parsed number), not a length or a position"""
    if t[0] == 'lin':
        return any(unbounded(x) for x, _ in t[2])
    if t[0] == 'bin':
        return unbounded(t[2]) or unbounded(t[3])
    return t[0] == 'pl' and (t[1][0] == 'fld' or t[1][0] == 'call' and 'from_str' in str(t[1][1]))


def overflow(t, ty):
    """64-bit lengths and positions are assumed not to overflow; narrower counters and outside numbers may"""
    b = bits(ty) or 64
    if b >= 64 and not unbounded(t):
        return FALSE
    if ty[1].startswith('i'):
        b -= 1
    return LT(INT(2 ** b - 1), t)


class FnRef:
    """hashable wrapper of a function constant"""
    __slots__ = ('d', 'k')

    def __init__(self, d):
        self.d = d
        self.k = d['id'] + json.dumps(d['args'])

    def __eq__(self, o):
        return isinstance(o, FnRef) and self.k == o.k

    def __hash__(self):
        return hash(self.k)

    def __repr__(self):
        return 'fn:' + self.d['path']


class Call:
    __slots__ = ('fr', 't', 'dty', 'tail', 'key', 'fn', 'fargs')

    def __init__(self, fr, t, dty, tail):
        self.fr = fr
        self.t = t
        self.dty = dty
        self.tail = tail
        self.key = None
        self.fn = None
        self.fargs = []
