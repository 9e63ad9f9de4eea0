"""Matching: C01 (no panic), C03 (whole message), C04 (captures), C09 (completeness)."""
from repo import *
from check import *

MATCHER = 'matcher::Matcher'


class Side:
    """one of the two matchers"""

    def __init__(self, repo, kind):
        self.repo = repo
        self.kind = kind
        self.root, self.lit, self.par = (T_TREE, T_LIT, T_PAR) if kind == 'trie' else (A_TAB, A_LIT, A_PAR)
        r = repo.role
        self.f_lits = r(self.root, 'literals')
        self.f_pars = r(self.root, 'parsers')
        self.l_lit = r(self.lit, 'literal')
        self.l_pat = r(self.lit, 'pattern')
        self.l_node = r(self.lit, 'node')
        self.p_parser = r(self.par, 'parser')
        self.p_pat = r(self.par, 'pattern')
        self.p_node = r(self.par, 'node')
        self.entry = repo.impl(MATCHER, 'parse', self.root)
        self.m_pat = r(MRES, 'pattern')
        self.m_val = r(MRES, 'values')
        self.pr_val = r(PRES, 'value')
        self.pr_par = r(PRES, 'parser')

    def lits(self, recv=('sym', 'self')):
        t = get(recv, ('f', self.f_lits))
        ty = dict(self.repo.fields(self.root))[self.f_lits]
        if ty[1].endswith('SortedVec'):
            t = get(t, ('f', self.repo.role(ty[1], 'array')))
        return t

    def pars(self, recv=('sym', 'self')):
        return get(recv, ('f', self.f_pars))

    def full(self):
        """functions that are the complete match of a (node, text) pair: the trait method and what it forwards to"""
        keys = []
        b = self.entry
        for _ in range(5):
            keys.append(self.repo.engine().fkey(b))
            e = self.repo.engine(opaque=lambda bb, p, b=b: bb['id'] != b['id'])
            outs = e.run_fn(b)
            if len(outs) != 1 or outs[0][0] != 'ret':
                break
            v = outs[0][1]
            if v[0] == 'call' and v[2:] == (('sym', 'self'), ('sym', 'p1')):
                nb = [x for x in self.repo.p.raw['bodies'] if e.fkey(x) == v[1]]
                if len(nb) == 1:
                    b = nb[0]
                    continue
            break
        return keys

    def paths(self, ck):
        e = self.repo.engine()
        return ck.run(e, self.entry), e


TEXT = ('sym', 'p1')


def rest_of(text, n):
    return SLICE(text, n, LEN(text))


def variant(facts, t):
    t = strip_dyn(t)
    if t[0] == 'adt':
        return t[2]
    return facts.isv.get(t)


class Explain:
    def __init__(self, side, full):
        self.s = side
        self.full = full

    def sub(self, facts, node, rest):
        """variant of the recursive match of the sub-tree `node` (an Option) on `rest`"""
        n = get(node, ('vf', 'Some', '0'))
        for t, v in facts.isv.items():
            if t[0] in ('rec', 'call') and t[1] in self.full and len(t) == 4 and t[2] == n:
                if t[3] == rest or facts.decide(EQ(LEN(t[3]), LEN(rest))) is True and t[3][0] == rest[0] == 'slice' and t[3][1] == rest[1]:
                    return v, t
        return None, None

    def consumed(self, facts, E, kind, text):
        """(True/False/None, n): the entry accepts a prefix of n bytes"""
        if kind == 'lit':
            l = get(E, ('f', self.s.l_lit))
            return facts.decide(AT(text, INT(0), l)), LEN(l)
        p = get(E, ('f', self.s.p_parser))
        t = ('call', 'Parser::parse', p, text)
        v = facts.isv.get(t)
        return (None if v is None else v == 'Some'), ('plen', text, t)

    def pat(self, E, kind):
        return get(E, ('f', self.s.l_pat if kind == 'lit' else self.s.p_pat))

    def node(self, E, kind):
        return get(E, ('f', self.s.l_node if kind == 'lit' else self.s.p_node))

    def failed(self, facts, E, kind, text):
        """the alternative E of the node cannot match `text` (given these facts)"""
        c, n = self.consumed(facts, E, kind, text)
        if c is False:
            return True
        if c is None:
            return None
        end = facts.decide(eq0(sub(LEN(text), n)))
        p = variant(facts, self.pat(E, kind))
        no_pat = p == 'None' or end is False
        nv = variant(facts, self.node(E, kind))
        sv, _ = self.sub(facts, self.node(E, kind), rest_of(text, n))
        no_sub = nv == 'None' or sv == 'None'
        return True if (no_pat and no_sub) else False


def classify_cmp(c, v, key, l_lit):
    """is the comparator of a binary search over v "first character of the entry vs first character of key"?"""
    probe = ('probe', v)
    lit = get(probe, ('f', l_lit))
    le, ke = eq0(LEN(lit)), eq0(LEN(key))
    first = ('cmp', ('elem', ('chars', lit), INT(0)), ('elem', ('chars', key), INT(0)))
    cases = c[1] if c[0] == 'cases' else (((), c),)
    seen = set()
    for facts, val in cases:
        f = {a: p for a, p in facts}
        l = f.get(le)
        k = ke[1] if ke[0] == 'bool' else f.get(ke)
        if set(f) - {le, ke}:
            return None
        want = None
        if l is True and k is True:
            want = ORD('Equal')
        elif l is True and k is False:
            want = ORD('Less')
        elif l is False and k is True:
            want = ORD('Greater')
        elif l is False and k is False:
            want = first
        if want is None or val != want:
            return False
        seen.add((l, k))
    return True


PASSING = {'rev', 'enumerate', 'inspect', 'peekable', 'map', 'take_while'}
SUBSET = {'rev', 'inspect', 'peekable', 'filter', 'skip_while', 'take_while', 'skip', 'take', 'step_by'}
PICKING = {'filter', 'filter_map', 'skip_while', 'flat_map', 'flatten', 'chain', 'scan', 'map_while'}


def is_entry_of(E, arr):
    """E is an element of the array"""
    if E[0] == 'elem':
        src = E[1]
        while src[0] in SUBSET:
            src = src[1]
        return src in (arr, ('elems', arr))
    return E[0] == 'idx' and E[1] == arr


def opaque(st, *arrs):
    """the path goes over the entries with an adapter whose choice of them is not followed"""
    for L in loops_of(st):
        for lv, src in L.iterl:
            ts = list(subterms(src))
            if any(x == ('elems', a) for x in ts for a in arrs) and any(isinstance(x, tuple) and x and x[0] in PICKING for x in ts):
                return True
    for a, p in st.facts.list:
        for x in subterms(a):
            if x[0] in ('more', 'elem') and any(y == ('elems', z) for y in subterms(x[1]) for z in arrs) and any(y[0] in PICKING for y in subterms(x[1])):
                return True
    return collects(st)


def collects(st, *terms):
    """the path depends on a collection a loop filled"""
    lvs = {lv for L in loops_of(st) for pl, (init, lv) in L.places.items()
           if lv[0] == 'lv' and any(bk['new'][pl] != lv and bk['new'][pl][0] in ('push', 'minsert', 'upd', 'insert', 'sinsert', 'concat', 'sortby', 'sort', 'extend') for bk in L.backs)}
    if not lvs:
        return False
    facts = [x for x, p in st.facts.list] + list(st.facts.isv)
    return any(x in lvs for t in facts + list(terms) for x in subterms(t))


def exhausted_loops(st, arr):
    """loops over all elements of arr that this path left because no element was left"""
    res = []
    for L in loops_of(st):
        for lv, src in L.iterl:
            base = src
            full = True
            while base[0] in PASSING:
                base = base[1]
            if base[0] == 'elems' and base[1] == arr:
                # started at the first element, and this path ended by exhaustion
                init = [i for i, l in L.places.values() if l == lv]
                if init and init[0] == INT(0) and st.facts.decide(LT(lv, LEN(arr))) is False:
                    res.append((L, lv, src))
            if base[0] == 'range' and base[1] == INT(0) and base[2] == LEN(arr):
                if st.facts.decide(LT(lv, LEN(arr))) is False:
                    res.append((L, lv, src))
        # index loops: while i < len { ...; i += 1 }
        for (root, path), (init, lv) in L.places.items():
            if lv[0] == 'lv' and lv not in L.iters and init == INT(0) and st.facts.decide(LT(lv, LEN(arr))) is False \
                    and all(bk['new'][(root, path)] == add(lv, INT(1)) for bk in L.backs):
                res.append((L, lv, ('range', INT(0), LEN(arr))))
            # while i > 0 { i -= 1; ... }
            if lv[0] == 'lv' and lv not in L.iters and init == LEN(arr) and st.facts.decide(LE(lv, INT(0))) is True \
                    and all(bk['new'][(root, path)] == sub(lv, INT(1)) for bk in L.backs):
                res.append((L, lv, ('down', arr)))
    return res


def loop_elem(src, lv, arr):
    k = lv
    base = src
    if src[0] == 'down':
        return get(arr, ('idx', sub(lv, INT(1))))
    rev = False
    while base[0] in PASSING:
        if base[0] == 'rev':
            rev = not rev
        base = base[1]
    if rev:
        k = sub(sub(LEN(arr), INT(1)), lv)
    return get(arr, ('idx', k))


def murky(bk):
    """the round goes over something the analysis has no meaning for"""
    return any(ev[0] == 'loop' and any(opaque_in(src, FREE) for lv, src in ev[1].iterl) for ev in bk['events'])


def all_failed(ex, st, arr, kind, text):
    """every element of arr was tried by an exhausted loop and failed: True/False/None + detail"""
    if st.facts.decide(eq0(LEN(arr))) is True:
        return True, 'no entries'
    det = None
    for L, lv, src in exhausted_loops(st, arr):
        E = loop_elem(src, lv, arr)
        for bk in L.backs:
            rf = round_facts(bk, st, L)
            if rf is not None and ex.failed(rf, E, kind, text) is not True:
                det = 'an iteration of %s goes on although the entry was not shown to fail: %s' % (L.where, '; '.join(
                    ('' if p else 'not ') + pp(f) for f, p in bk['facts']))
                if murky(bk):
                    return None, det
                break
        else:
            return True, L.where
    return (False, det) if det else (None, 'the entries are not all tried')


def lits_failed(side, ex, st, text):
    arr = side.lits()
    f = st.facts
    ok, det = all_failed(ex, st, arr, 'lit', text)
    if ok is not None:
        return ok, det
    if side.kind != 'trie':
        return None, 'the literal entries are not all tried'
    got = {}
    for t, v in f.isv.items():
        if t[0] != 'bsearch' or t[1] != arr:
            continue
        for nm, key in (('text', text), ('empty', ('str', ''))):
            if classify_cmp(t[2], arr, key, side.l_lit):
                if v == 'Err':
                    got[nm] = True
                else:
                    E = get(arr, ('idx', get(t, ('vf', 'Ok', '0'))))
                    r = ex.failed(f, E, 'lit', text)
                    got[nm] = got.get(nm) or r is True
                    if r is not True and not got[nm]:
                        return False, 'the literal child with the same first character is not shown to fail (%s)' % facts_str(st)
    first = get(arr, ('idx', INT(0)))
    lit0 = get(first, ('f', side.l_lit))
    if 'empty' not in got and (f.decide(eq0(LEN(lit0))) is False or ex.failed(f, first, 'lit', text) is True and f.decide(eq0(LEN(lit0))) is True):
        got['empty'] = True
    if got.get('text') and f.decide(eq0(LEN(text))) is True:
        got['empty'] = True
    miss = [n for n in ('text', 'empty') if not got.get(n)]
    if miss:
        return False, {'text': 'the literal child sharing the first character of the message is not tried',
                       'empty': 'the empty literal child is not tried'}[miss[0]] + ' (%s)' % facts_str(st)
    return True, ''


def unwrap_result(v):
    """Some(MatchResult) -> ('some', result term) / ('none',) / ('rec', option term)"""
    v = strip_dyn(v)
    if v[0] == 'adt' and v[2] == 'Some':
        return 'some', v[3][0][1]
    if v[0] == 'adt' and v[2] == 'None':
        return 'none', None
    return 'term', v


def same_value(n, lv, facts):
    """a round hands the variable on unchanged"""
    return n == lv or n[0] == 'adt' and n[2] == 'Some' and facts.isv.get(lv) == 'Some' and strip_dyn(n[3][0][1]) == get(lv, ('vf', 'Some', '0'))


def carried(L):
    """variables of a loop that start as None and hold the first result found, or the last: [(place, variable, first?)]"""
    r = []
    for pl, (init, lv) in L.places.items():
        if lv[0] != 'lv' or strip_dyn(init) != NONE:
            continue
        kept = [same_value(strip_dyn(bk['new'][pl]), lv, bk['state'].facts) for bk in L.backs]
        if all(x or bk['state'].facts.isv.get(lv) == 'None' for x, bk in zip(kept, L.backs)):
            r.append((pl, lv, True))
        elif all(x or variant(bk['state'].facts, strip_dyn(bk['new'][pl])) == 'Some' for x, bk in zip(kept, L.backs)):
            r.append((pl, lv, False))
    return r


def last_wins(st, L):
    """the result taken on this path is the last one the loop found"""
    return any(ev[0] == 'found-in' and ev[1] is L and not ev[2] for ev in st.events)


def round_facts(bk, st, L):
    """what is known of a round that a path goes through without a result found in it; None when there is no such round"""
    f = bk['state'].facts
    for pl, lv, first in carried(L):
        n = strip_dyn(bk['new'][pl])
        if not first and last_wins(st, L):
            # a round behind the one that found the result taken
            if not same_value(n, lv, f):
                return None
        elif st.facts.isv.get(lv) == 'None':
            f = f.copy()
            if not f.assume(('is', lv, 'None'), True):
                return None
            if not same_value(n, lv, f) and (variant(f, n) == 'Some' or n != NONE and variant(f, n) is None and not f.assume(('is', n, 'None'), True)):
                return None
    return f


def found_rounds(st, r):
    """the result is what a loop left in a variable: [(result, state of the round that put it there)]"""
    for L in loops_of(st):
        for pl, lv, first in carried(L):
            if r == get(lv, ('vf', 'Some', '0')):
                r = lv
            if lv != r:
                continue
            res = []
            for bk in L.backs:
                n = strip_dyn(bk['new'][pl])
                s = bk['state'].copy()
                if same_value(n, lv, s.facts) or n == NONE:
                    continue
                if first and not s.facts.assume(('is', lv, 'None'), True):
                    continue
                known = {id(ev[1]) for ev in s.events if ev[0] == 'loop'}
                s.events = [ev for ev in st.events if ev[0] == 'loop' and id(ev[1]) not in known] + s.events + [('found-in', L, first)]
                v = variant(s.facts, n)
                if v == 'None':
                    continue
                if v is None and not s.facts.assume(('is', n, 'Some'), True):
                    continue
                res.append((n[3][0][1] if n[0] == 'adt' else get(n, ('vf', 'Some', '0')), s))
            return res
    return None


def outcomes(side, ck, st_outs, full):
    """normalise return values: an undecided sub-match handed through is split into its two cases"""
    for k, v, st in st_outs:
        if k != 'ret':
            continue
        kind, r = unwrap_result(v)
        if kind == 'term':
            fv = st.facts.isv.get(r)
            rounds = found_rounds(st, r) if fv != 'None' else None
            if rounds is not None:
                for x, s1 in rounds:
                    yield 'some', x, s1
                if fv != 'Some':
                    s2 = st.copy()
                    if s2.facts.assume(('is', r, 'None'), True):
                        yield 'none', None, s2
                continue
            if fv == 'None':
                yield 'none', None, st
            elif fv == 'Some':
                yield 'some', get(r, ('vf', 'Some', '0')), st
            else:
                s1, s2 = st.copy(), st.copy()
                if s1.facts.assume(('is', r, 'Some'), True):
                    yield 'some', get(r, ('vf', 'Some', '0')), s1
                if s2.facts.assume(('is', r, 'None'), True):
                    yield 'none', None, s2
        elif kind == 'some' and found_rounds(st, r) is not None:
            for x, s1 in found_rounds(st, r):
                yield 'some', x, s1
        else:
            yield kind, r, st


def base_of(r, side):
    """strip the values updates of a result -> (base, values term)"""
    vals = get(r, ('f', side.m_val))
    b = r
    while b[0] == 'upd' and b[2] == ('f', side.m_val):
        b = b[1]
    return b, vals


def explain_match(side, ex, r, st, text):
    """-> list of (kind, E, how, base values) explaining a match; how: 'end' or the sub-match term"""
    f = st.facts
    b, vals = base_of(r, side)
    res = []
    if b[0] == 'adt':
        pat = get(b, ('f', side.m_pat))
        if pat[0] == 'pl' and pat[2] == 'Some' and pat[1][0] == 'fld':
            E = pat[1][1]
            for kind, arr in (('lit', side.lits()), ('par', side.pars())):
                if is_entry_of(E, arr) and pat[1] == ex.pat(E, kind):
                    res.append((kind, E, 'end', ('map', ()), vals))
    if b[0] == 'pl' and b[2] == 'Some' and b[1][0] in ('rec', 'call') and b[1][1] in ex.full and len(b[1]) == 4:
        n = b[1][2]
        if n[0] == 'pl' and n[2] == 'Some' and n[1][0] == 'fld':
            E = n[1][1]
            for kind, arr in (('lit', side.lits()), ('par', side.pars())):
                if is_entry_of(E, arr) and n[1] == ex.node(E, kind):
                    res.append((kind, E, b[1], get(b, ('f', side.m_val)), vals))
    return res


def check_sides(ck, rule, fn):
    for kind in ('trie', 'suffix array'):
        def go(kind=kind):
            side = Side(ck.repo, 'trie' if kind == 'trie' else 'array')
            full = side.full()
            ex = Explain(side, full)
            outs, e = side.paths(ck)
            fn(ck, kind, side, ex, outs, e)
        ck.guarded(rule, '%s matcher' % kind, go)


def c03(ck):
    """a match accounts for the whole message"""
    def f(ck, kind, side, ex, outs, e):
        n = 0
        for k, r, st in outcomes(side, ck, outs, ex.full):
            if k != 'some':
                continue
            n += 1
            where_ = '%s: match produced in %s' % (kind, side.entry['path'])
            unk = bool(unknown_calls(st)) or collects(st, r)
            xs = explain_match(side, ex, r, st, TEXT)
            if not xs:
                ck.verdict('match-consumes-all', where_, False, 'the result %s is neither the pattern stored at an entry of this node nor the match of an entry\'s sub-tree (path: %s)' % (pp(r)[:300], facts_str(st)), unk)
                continue
            ok = False
            why = ''
            for knd, E, how, bv, vals in xs:
                c, m = ex.consumed(st.facts, E, knd, TEXT)
                if c is not True:
                    why = 'the entry is not shown to occur at the start of the message'
                    continue
                if how == 'end':
                    if st.facts.decide(eq0(sub(LEN(TEXT), m))) is True:
                        ok = True
                    else:
                        why = 'the pattern is reported although the message is not known to end after the %s' % ('literal' if knd == 'lit' else 'parsed value')
                else:
                    if how[3] == rest_of(TEXT, m) or st.facts.decide(EQ(LEN(how[3]), LEN(rest_of(TEXT, m)))) is True and how[3][0] == 'slice' and how[3][1] == TEXT:
                        ok = True
                    else:
                        why = 'the sub-tree is matched against %s, not against what follows the %s' % (pp(how[3])[:200], 'literal' if knd == 'lit' else 'parsed value')
            ck.verdict('match-consumes-all', where_, ok, why + ' (path: %s)' % facts_str(st), unk)
        ck.verdict('has-matching-paths', kind, n > 0, 'no path returns a match')
    check_sides(ck, 'match-consumes-all', f)
    parser_prefix(ck)


def parser_prefix(ck):
    """every Parser implementation returns a prefix of its input"""
    for s, b, im in ck.repo.impl_methods(PARSER, 'parse'):
        def go(s=s, b=b):
            e = ck.repo.engine()
            pv = ck.repo.role(PRES, 'value')
            for k, v, st in ck.run(e, b):
                if k != 'ret':
                    continue
                kind, r = unwrap_result(v)
                if kind == 'none':
                    continue
                if kind == 'term':
                    if r[0] == 'call' and r[1] == 'Parser::parse' and r[3] == TEXT:
                        ck.holds('parser-returns-prefix', s)
                        continue
                    ck.unk('parser-returns-prefix', s, 'result %s not understood' % pp(r)[:200])
                    continue
                val = get(r, ('f', pv))
                ok = val == TEXT or (val[0] == 'slice' and val[1] == TEXT and (val[2] == INT(0) or st.facts.decide(eq0(val[2])) is True))
                ck.verdict('parser-returns-prefix', s, ok, 'the value %s is not a prefix of the text' % pp(val)[:200], bool(unknown_calls(st)))
        ck.guarded('parser-returns-prefix', s, go)


def c04(ck):
    """captured values"""
    def f(ck, kind, side, ex, outs, e):
        for k, r, st in outcomes(side, ck, outs, ex.full):
            if k != 'some':
                continue
            where_ = '%s: result built in %s' % (kind, side.entry['path'])
            unk = bool(unknown_calls(st))
            xs = explain_match(side, ex, r, st, TEXT)
            if not xs:
                ck.unk('capture', where_, 'result %s not understood' % pp(r)[:200])
                continue
            ok, why = False, ''
            for knd, E, how, bv, vals in xs:
                if knd == 'lit':
                    ok = ok or vals == bv
                    why = 'a literal step changes the captured values to %s' % pp(vals)[:300]
                    continue
                pr = get(('call', 'Parser::parse', get(E, ('f', side.p_parser)), TEXT), ('vf', 'Some', '0'))
                value = get(pr, ('f', side.pr_val))
                names = [('call', 'Parser::name', get(pr, ('f', side.pr_par))), ('call', 'Parser::name', get(E, ('f', side.p_parser)))]
                nm = None
                for x in names:
                    if variant(st.facts, x):
                        nm = x
                if nm is None:
                    why = 'whether the parser is named is never tested'
                    continue
                if variant(st.facts, nm) == 'Some':
                    want = ('minsert', bv, get(nm, ('vf', 'Some', '0')), value)
                    why = 'the value of a named parser must be stored verbatim under its name; stored: %s' % pp(vals)[:400]
                else:
                    want = bv
                    why = 'an unnamed parser must not store a value; stored: %s' % pp(vals)[:400]
                ok = ok or vals == want
            ck.verdict('capture', where_, ok, why, unk)
    check_sides(ck, 'capture', f)


def c09(ck):
    """None only when every alternative failed"""
    def f(ck, kind, side, ex, outs, e):
        n = 0
        for k, r, st in outcomes(side, ck, outs, ex.full):
            if k != 'none':
                continue
            n += 1
            where_ = '%s: no match reported by %s' % (kind, side.entry['path'])
            unk = bool(unknown_calls(st)) or opaque(st, side.lits(), side.pars()) or any(murky(bk) for L in loops_of(st) for bk in L.backs)
            ok, det = lits_failed(side, ex, st, TEXT)
            ck.verdict('literals-exhausted', where_, bool(ok), det or '', unk)
            ok, det = all_failed(ex, st, side.pars(), 'par', TEXT)
            ck.verdict('parsers-exhausted', where_, bool(ok), (det or '') + ' (path: %s)' % facts_str(st, 6), unk)
        ck.verdict('has-non-matching-paths', kind, n > 0, 'no path reports the absence of a match')
    check_sides(ck, 'alternatives-exhausted', f)


def c01(ck):
    """parsing never panics"""
    def f(ck, kind, side, ex, outs, e):
        no_panic(ck, 'no-panic', '%s matcher' % kind, outs)
        for s in e.sites:
            ck.sites.add(s)
    check_sides(ck, 'no-panic', f)
    for s, b, im in ck.repo.impl_methods(PARSER, 'parse'):
        def go(s=s, b=b):
            e = ck.repo.engine()
            no_panic(ck, 'no-panic', s, ck.run(e, b))
            ck.sites |= e.sites
        ck.guarded('no-panic', s, go)
    for s in sorted(ck.sites):
        ck.holds('panic-site', '%s in %s' % (s[3], s[0]))
    parser_prefix(ck)


# ---------------------------------------------------------------- C25: which of several matching patterns is picked
def before_failed(ex, st, arr, kind, text, E, falling):
    """the elements of arr tried before E (in front of it, or behind it when falling) were refuted: True / False / None, detail"""
    f = st.facts
    i = E[2]
    if i[0] == 'int' and not falling:
        # the first ones, tried one by one
        rs = [ex.failed(f, get(arr, ('idx', INT(j))), kind, text) for j in range(i[1])]
        return (True if all(r is True for r in rs) else None), 'an entry in front of it was not refuted'
    if falling and f.decide(EQ(i, sub(LEN(arr), INT(1)))) is True:
        return True, ''
    for L in loops_of(st):
        cands = [(lv, src) for lv, src in L.iterl]
        for (root, path), (init, lv) in L.places.items():
            if lv[0] == 'lv' and all(bk['new'][(root, path)] == add(lv, INT(1)) for bk in L.backs):
                cands.append((lv, ('range', INT(0), LEN(arr))))
            if lv[0] == 'lv' and all(bk['new'][(root, path)] == sub(lv, INT(1)) for bk in L.backs):
                cands.append((lv, ('down', init)))
        for lv, src in cands:
            base = src
            while base[0] in PASSING:
                base = base[1]
            if src[0] == 'down':
                if init_of(L, lv) != LEN(arr):
                    continue
                k, rev = sub(lv, INT(1)), True
            elif base == ('elems', arr) or base[0] == 'range' and base[1] == INT(0) and base[2] == LEN(arr):
                k = loop_elem(src, lv, arr)[2]
                rev = k != lv
                if init_of(L, lv) != INT(0):
                    continue
            else:
                continue
            if i != k:
                continue
            if (rev != falling) != last_wins(st, L):
                return False, 'the entries are tried in the wrong order: %s' % ('the last added first' if rev else 'shorter texts before longer ones')
            for bk in L.backs:
                rf = round_facts(bk, st, L)
                if rf is not None and ex.failed(rf, get(arr, ('idx', k)), kind, text) is not True:
                    return None if murky(bk) else False, 'a round of %s goes on although the entry was not shown to fail (%s)' % (L.where, '; '.join(('' if p else 'not ') + pp(x) for x, p in bk['facts'])[:300])
            return True, ''
    return None, 'how the entry was found is not understood'


def init_of(L, lv):
    for pl, (init, l) in L.places.items():
        if l == lv:
            return init
    return None


def trie_literal(side, st, ex, E):
    """the literal child taken is the one sharing the first character, or that one was refuted: True / False / None, detail"""
    arr, f = side.lits(), st.facts
    text_failed, which = None, None
    for t, v in f.isv.items():
        if t[0] != 'bsearch' or t[1] != arr:
            continue
        for nm, key in (('text', TEXT), ('empty', ('str', ''))):
            if not classify_cmp(t[2], arr, key, side.l_lit):
                continue
            if v == 'Ok' and E[2] == get(t, ('vf', 'Ok', '0')):
                which = nm
            if nm == 'text':
                if v == 'Err':
                    text_failed = True
                else:
                    r = ex.failed(f, get(arr, ('idx', get(t, ('vf', 'Ok', '0')))), 'lit', TEXT)
                    text_failed = text_failed or r is True
    if which == 'text' or f.decide(eq0(LEN(TEXT))) is True or f.decide(eq0(LEN(get(E, ('f', side.l_lit))))) is False:
        return True, ''
    if which is None:
        return None, 'how the child was found is not understood'
    return bool(text_failed), 'the empty literal is taken before the one that shares the first character of the message was tried'


def c25(ck):
    """literals before parsers, longer literals before shorter ones, parsers in the order they were added"""
    def f(ck, kind, side, ex, outs, e):
        n = 0
        for k, r, st in outcomes(side, ck, outs, ex.full):
            if k != 'some':
                continue
            where_ = '%s: match produced in %s' % (kind, side.entry['path'])
            unk = bool(unknown_calls(st)) or opaque(st, side.lits(), side.pars())
            xs = explain_match(side, ex, r, st, TEXT)
            if not xs:
                ck.unk('precedence', where_, 'result %s not understood' % pp(r)[:200])
                continue
            for knd, E, how, bv, vals in xs:
                n += 1
                path = ' (path: %s)' % facts_str(st)
                if knd == 'par':
                    ok, det = lits_failed(side, ex, st, TEXT)
                    ck.verdict('literals-first', where_, bool(ok), 'the match of a parser is taken although a literal may match: %s' % det + path, unk)
                    ok, det = before_failed(ex, st, side.pars(), 'par', TEXT, E, False)
                    ck.verdict('parsers-in-order', where_, ok, (det or '') + path, unk or ok is None)
                else:
                    ok, det = before_failed(ex, st, side.lits(), 'lit', TEXT, E, True)
                    if ok is None and side.kind == 'trie':
                        ok, det = trie_literal(side, st, ex, E)
                    ck.verdict('longer-literal-first', where_, ok, (det or '') + path, unk or ok is None)
        ck.verdict('has-matching-paths', kind, n > 0, 'no path returns a match')
    check_sides(ck, 'precedence', f)
    import c_insert
    for kind in ('trie', 'suffix array'):
        ck.guarded('added-last', '%s matcher' % kind, added_last, ck, c_insert, kind)
    import c_parsers
    for kind, root, par in (('trie', c_parsers.T_TREE, c_parsers.T_PAR), ('suffix array', c_parsers.A_TAB, c_parsers.A_PAR)):
        ck.guarded('identical-share-place', '%s matcher' % kind, shared, ck, c_parsers, kind, root, par)


def added_last(ck, c_insert, kind):
    s = c_insert.ISide(ck.repo, 'trie' if kind == 'trie' else 'array')
    n = 0
    for k, v, st in s.paths(ck):
        if k != 'ret':
            continue
        for root, N, post in c_insert.changed(s, st):
            old, new = s.pars(N), s.pars(post)
            if old == new:
                continue
            unk = bool(unknown_calls(st, crate_ok=('Entry::insert',) + tuple(s.keys)))
            ops = c_insert.unwind(new, old)
            n += 1
            x = new
            while ops is None and x[0] in ('upd', 'push', 'sort', 'sortby', 'reverse'):
                if x[0] in ('sort', 'sortby', 'reverse'):
                    break
                x = x[1]
            if ops is None and x[0] in ('sort', 'sortby', 'reverse') and not (x[0] == 'sortby' and x[2] == 'slice::swap' and st.facts.decide(EQ(x[3], x[4])) is True):
                ck.verdict('added-last', '%s: add_pattern' % kind, False, 'the parsers are put into another order: %s' % pp(new)[:150] + ' (path: %s)' % facts_str(st), unk)
                continue
            if ops is None:
                ck.unk('added-last', '%s: add_pattern' % kind, 'the parsers become %s' % pp(new)[:150])
                continue
            for op in ops:
                ok = op[0] in ('push', 'upd') or op[0] == 'insert' and st.facts.decide(LE(LEN(old), op[1])) is True
                ck.verdict('added-last', '%s: add_pattern' % kind, ok, 'a new parser is put in front of others (%s)' % op[0] + ' (path: %s)' % facts_str(st), unk)
    if not n:
        ck.unk('added-last', '%s: add_pattern' % kind, 'no path changes the parsers')


def shared(ck, cp, kind, root, par):
    """an entry for a parser is only made when it differs from the parser of every entry there"""
    fp, pfield = ck.repo.role(root, 'parsers'), ck.repo.role(par, 'parser')
    arr = get(cp.SELF, ('f', fp))
    h = lambda x: ('call', 'ObjectSafeHash::hash_os', x)
    n = 0
    for k, v, st in cp.merge_paths(ck, root):
        if k != 'ret':
            continue
        post = get(st.store[('arg', 'self')], ('f', fp))
        if post == arr:
            continue
        n += 1
        f = st.facts
        ok, det = f.decide(eq0(LEN(arr))) is True, 'the parsers there are not all compared with the new one'
        for L, lv, src in exhausted_loops(st, arr):
            if ok:
                break
            E = loop_elem(src, lv, arr)
            for bk in L.backs:
                rf = round_facts(bk, st, L)
                if rf is not None and rf.decide(EQ(h(get(E, ('f', pfield))), h(('sym', 'p1')), True)) is not False:
                    det = 'a round of %s goes on although the parser was not shown to differ' % L.where
                    break
            else:
                ok = True
        unk = bool(unknown_calls(st)) or opaque(st, arr)
        ck.verdict('identical-share-place', '%s: insert_parser' % kind, ok, det + ' (path: %s)' % facts_str(st), unk)
    if not n:
        ck.unk('identical-share-place', '%s: insert_parser' % kind, 'no path adds an entry')


# ---------------------------------------------------------------- C26: both matchers give the same answer
ARRAY = ('suffix array', 'SuffixTable', 'suffix_array')


def side_of(pid, rule, construct):
    """the matcher an obligation is about; None when it is about both, or about operations the answer does not depend on"""
    if pid == 'C21' and not (rule in ('order', 'common-prefix') and 'partial_cmp' not in construct or construct.endswith((': add_pattern', ': parse', '::split', '::push'))):
        return None
    if any(x in construct for x in ARRAY):
        return 'suffix array'
    if 'trie' in construct or construct in ('split',) or any(x in construct for x in ('SortedVec', 'LiteralNode', 'SuffixTree', 'common_prefix_len')):
        return 'trie'
    return None


def c26(ck):
    """the rules of matching and of insertion determine the answer; each matcher has to keep them"""
    import c_insert, c_order
    per = {}
    for pid, fn, rules in (('C03', c03, None), ('C04', c04, None), ('C09', c09, None), ('C25', c25, None), ('C07', c_insert.c07, None),
                           ('C21', c_order.c21, None)):
        sub_ck = Check(pid, ck.repo)
        fn(sub_ck)
        for k, v in sub_ck.stats.items():
            ck.stats[k] = ck.stats[k] | v if isinstance(v, set) else ck.stats[k] + v
        ck.loops += sub_ck.loops
        for rule, construct, status, detail in sub_ck.obs:
            d = per.setdefault('%s %s' % (pid, rule), {'trie': [], 'suffix array': []})
            sd = side_of(pid, rule, construct)
            if sd is not None:
                d[sd].append((construct, status, detail))
    for rule, d in sorted(per.items()):
        for sd in d:
            other = 'trie' if sd != 'trie' else 'suffix array'
            same_there = any(x[1] == 'violated' for x in d[other])
            for construct, status, detail in d[sd]:
                if status == 'violated' and same_there:
                    ck.unk(rule, construct, 'both matchers depart from the rule: ' + detail)
                elif status == 'violated':
                    ck.bad(rule, construct, 'the %s departs from the rule the other matcher keeps: %s' % (sd, detail))
                else:
                    ck.add(rule, construct, status, detail)
