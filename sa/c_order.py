"""C21: the literal alternatives of a node stay in the order their look-ups rely on."""
from repo import *
from check import *
from c_insert import ISide, SELF, PAT, unwind, elements, norm, CPFX
from c_match import classify_cmp, ORD
from models import more

SV = 'utils::sortedvec::SortedVec'


def first_char(cases, lit, key):
    """the result is the comparison of the first characters of lit and key (nothing sorts first). True/False/None"""
    le, ke = eq0(LEN(lit)), eq0(LEN(key))
    first = ('cmp', ('elem', ('chars', lit), INT(0)), ('elem', ('chars', key), INT(0)))
    for facts, val in cases:
        f = {a: p for a, p in facts}
        l = le[1] if le[0] == 'bool' else f.get(le)
        k = ke[1] if ke[0] == 'bool' else f.get(ke)
        if set(f) - {le, ke}:
            return None
        want = {(True, True): ORD('Equal'), (True, False): ORD('Less'), (False, True): ORD('Greater'), (False, False): first}.get((l, k))
        if want is None or val != want:
            return None if opaque_in(val) else False
    return True


def orders(ck, s):
    """Ord and PartialOrd of the literal entries compare the first characters"""
    for trait, m in (('std::cmp::Ord', 'cmp'), ('std::cmp::PartialOrd', 'partial_cmp')):
        def go(trait=trait, m=m):
            name = '%s::%s' % (s.lit.split('::')[-1], m)
            b = s.repo.impl(trait, m, s.lit)
            e = s.repo.engine()
            cases = []
            for k, v, st in ck.run(e, b):
                v = strip_dyn(v)
                if k != 'ret':
                    continue
                if m == 'partial_cmp':
                    if v[0] != 'adt' or v[2] != 'Some':
                        ck.verdict('order', name, False if v == NONE else None, 'gives %s' % pp(v)[:150])
                        return
                    v = dict(v[3])['0']
                cases.append((tuple(st.facts.list), strip_dyn(v)))
            ok = first_char(cases, get(SELF, ('f', s.l_lit)), get(PAT, ('f', s.l_lit)))
            ck.verdict('order', name, ok, 'the entries are ordered by %s, not by the first character of their literals' % '; '.join(pp(v)[:120] for _, v in cases[:4]))
        ck.guarded('order', '%s %s' % (s.lit, m), go)
    # sort() goes through lt of PartialOrd
    for m in ('lt', 'le', 'gt', 'ge'):
        bs = [b for q, b, im in s.repo.impl_methods('std::cmp::PartialOrd', m) if q == s.lit and b.get('impltrait') == 'std::cmp::PartialOrd']
        for b in bs:
            ck.unk('order', '%s::%s' % (s.lit.split('::')[-1], m), 'overridden')


def owner(s, arr):
    """the node whose literal list this is"""
    b = arr
    for _ in range(2):
        if b[0] != 'fld':
            return None
        b = b[1]
        if s.lits(b) == arr:
            return b
    return None


def search_ok(s, t):
    """the comparator of a binary search over a literal list agrees with the order of the list"""
    arr, c = t[1], t[2]
    lit = get(('probe', arr), ('f', s.l_lit))
    if s.kind == 'trie':
        keys = {x[1] for x in subterms(c) if x[0] in ('len', 'chars')} - {lit} | {('str', '')}
        rs = [classify_cmp(c, arr, k, s.l_lit) for k in sorted(keys, key=repr)]
        if True in rs:
            return True
        # whole literals compared although the list is ordered by the first character: equal literals are still found, others not
        return None if opaque_in(c) or None in rs and not weird(c) else False
    cases = c[1] if c[0] == 'cases' else (((), c),)
    for fs, v in cases:
        if fs or v[0] != 'cmp' or v[1] != lit:
            return None if opaque_in(c) or fs else False
    return True


def weird(c):
    cases = c[1] if c[0] == 'cases' else (((), c),)
    return all(v[0] in ('cmp', 'adt') for _, v in cases)


def searches(ck, s, kind, outs, name, seen):
    for k, v, st in outs:
        ts = set()
        for a, p in st.facts.list:
            ts |= {x for x in subterms(a) if x[0] == 'bsearch'}
        for t in st.facts.isv:
            ts |= {x for x in subterms(t) if x[0] == 'bsearch'}
        if isinstance(v, tuple):
            ts |= {x for x in subterms(v) if x[0] == 'bsearch'}
        for L in loops_of(st):
            for b in L.backs:
                for a, p in b['facts']:
                    ts |= {x for x in subterms(a) if x[0] == 'bsearch'}
        for t in ts:
            if t in seen or owner(s, t[1]) is None:
                continue
            seen.add(t)
            ck.verdict('search', '%s: %s' % (kind, name), search_ok(s, t), 'the binary search over %s compares by %s, which is not the order the list is kept in' % (pp(t[1])[:80], pp(t[2])[:300]))


def by_walking(f, cur, i=None):
    """the place was found by a loop over the list"""
    has = lambda t: any(x[0] == 'lv' for x in subterms(t))
    if i is not None and has(i):
        return True
    return any(has(a) and any(x == LEN(cur) for x in subterms(a)) for a, p in f.list)


def seq_sorted(s, f, arr, base, unk):
    """arr, made from the ordered list base, is ordered -> (True/False/None, why)"""
    ops = unwind(arr, base)
    if ops is None:
        els = elements(arr)
        if els is not None and base == ('vec', ()):
            ops = []
        elif arr[0] == 'sortby':
            return None, 'sorted by a comparator of its own'
        else:
            return None, 'the list becomes %s' % pp(arr)[:200]
    n = None
    cur = base
    bad = None
    for o in ops:
        if o[0] == 'sort':
            if s.kind == 'trie' or (s.kind != 'trie'):
                bad = None
        elif o[0] == 'push':
            if not (cur == ('vec', ()) or f.decide(eq0(LEN(cur))) is True):
                if by_walking(f, cur):
                    return None, 'a literal is appended at the end of the list'
                bad = bad or 'a literal is appended at the end of the list, whatever its place in the order is'
        elif o[0] == 'insert':
            i = o[1]
            src = None
            for t, v in f.isv.items():
                if t[0] == 'bsearch' and t[1] == cur and i in (get(t, ('vf', 'Err', '0')), get(t, ('vf', 'Ok', '0')), add(get(t, ('vf', 'Ok', '0')), INT(1))):
                    src = t
            if cur == ('vec', ()) or f.decide(eq0(LEN(cur))) is True:
                pass
            elif src is not None:
                key = get(o[2], ('f', s.l_lit))
                if insertion_key(s, src, key, f) is not True:
                    bad = bad or 'a literal is inserted at the place of another key'
            elif by_walking(f, cur, i):
                return None, 'a literal is inserted at %s' % pp(i)[:120]
            elif i[0] == 'int' or i == LEN(cur) or i[0] == 'lin' and not opaque_in(i):
                bad = bad or 'a literal is inserted at %s, whatever its place in the order is' % pp(i)[:80]
            else:
                return None, 'a literal is inserted at %s' % pp(i)[:120]
        elif o[0] == 'upd':
            if o[1][0] == 'idx':
                r = key_kept(s, f, get(cur, ('idx', o[1][1])), o[2])
                if r is not True:
                    if r is False:
                        bad = bad or 'the literal of a stored entry is changed to %s' % pp(get(o[2], ('f', s.l_lit)))[:150]
                    else:
                        return None, 'the entry at %s becomes %s' % (pp(o[1][1])[:60], pp(o[2])[:150])
            else:
                return None, 'the list is changed at %s' % pp(o[1])[:80]
        cur = apply(cur, o)
    return (False, bad) if bad else (True, '')


def apply(cur, o):
    return (o[0], cur) + tuple(o[1:])


def insertion_key(s, t, key, f):
    """the search t looked for the literal that is inserted"""
    arr, c = t[1], t[2]
    if s.kind == 'trie':
        return classify_cmp(c, arr, key, s.l_lit)
    lit = get(('probe', arr), ('f', s.l_lit))
    cases = c[1] if c[0] == 'cases' else (((), c),)
    return all(v == ('cmp', lit, key) for fs, v in cases)


def key_kept(s, f, old, new):
    """the part of the literal that decides the order is the same"""
    a, b = get(old, ('f', s.l_lit)), get(new, ('f', s.l_lit))
    if a == b or new[0] == 'post' and new[1][0] in ('call', 'rec') and new[1][1].endswith('Entry::insert') and new[1][2] == old:
        return True
    if s.kind == 'trie':
        # cut after the common prefix with the new literal: the first character stays
        if b[0] == 'slice':
            n = sub(b[3], b[2])
            common = n[0] == 'cpl' and a in n[1:] and any(x != a and head_of(b, x) for x in n[1:])
            if f.decide(LE(INT(1), n)) is True and (b[1] == a and b[2] == INT(0) or common):
                return True
            if common or b[1] == a:
                return False
    return None if opaque_in(b) else False


def head_of(b, x):
    """the slice b starts where the text x starts"""
    return b[1] == x and b[2] == INT(0) or x[0] == 'slice' and (x[1], x[2]) == (b[1], b[2])


def touched(s, st):
    """(base node, node afterwards) for everything this path wrote to"""
    r = []
    for root, v in st.store.items():
        if root[0] in ('arg', 'desc'):
            b = v
            while b[0] == 'upd':
                b = b[1]
            if b != v and b[0] in ('sym', 'lv', 'fld', 'pl', 'idx'):
                r.append((b, v))
    return r


def kept(ck, s, kind, name, outs):
    for k, v, st in outs:
        if k != 'ret':
            continue
        f = st.facts
        unk = bool(unknown_calls(st, crate_ok=('Entry::insert',) + tuple(s.keys)))
        path = ' (path: %s)' % facts_str(st)
        n = 0
        for base, post in touched(s, st):
            a0, a1 = s.lits(base), s.lits(post)
            if a0 == a1:
                continue
            n += 1
            ok, why = seq_sorted(s, f, a1, a0, unk)
            ck.verdict('kept-in-order', '%s: %s' % (kind, name), ok, why + path, unk)
        if not n:
            ck.holds('kept-in-order', '%s: %s' % (kind, name), 'the literal lists are left alone')


def split_children(ck, s):
    """the children a split makes are in order"""
    if s.split is None:
        ck.unk('kept-in-order', 'LiteralNode::split', 'no split function')
        return
    e = s.repo.engine()

    def pre(st, args):
        for x in (get(SELF, ('f', s.l_lit)), ('sym', 'p2')):
            st.facts.background(LE(PAT, LEN(x)))
            e.add_bnd(st, x, PAT)
    for k, v, st in ck.run(e, s.split, pre=pre):
        if k != 'ret':
            continue
        post = st.store[('arg', 'self')]
        node = get(post, ('f', s.l_node))
        if node[0] != 'adt' or node[2] != 'Some':
            ck.unk('kept-in-order', 'LiteralNode::split', 'sub-tree %s' % pp(node)[:150])
            continue
        arr = s.lits(node[3][0][1])
        base = arr
        while base[0] in ('push', 'insert', 'sort', 'upd'):
            base = base[1]
        if base[0] != 'vec' or len(base[1]) > 1:
            ck.unk('kept-in-order', 'LiteralNode::split', 'children %s' % pp(arr)[:150])
            continue
        ok, why = seq_sorted(s, st.facts, arr, base, False)
        ck.verdict('kept-in-order', 'trie: LiteralNode::split', ok, why)


def container(ck):
    """SortedVec: every operation leaves the list ordered, and its own search is right"""
    p = ck.repo.p
    bs = [b for b in p.raw['bodies'] if b['path'].startswith(SV + '::<T>::')]
    if not bs:
        ck.unk('container', SV, 'not found')
        return
    arrf = ck.repo.role(SV, 'array')
    A = get(SELF, ('f', arrf))
    for b in bs:
        def go(b=b):
            nm = b['path'].split('::')[-1]
            name = 'SortedVec::' + nm
            if not b['argc'] or b['locals'][1][:2] != ['ref', True]:
                return
            e = ck.repo.engine()
            for k, v, st in ck.run(e, b):
                if k != 'ret':
                    continue
                post = st.store.get(('arg', 'self'), SELF)
                arr = get(post, ('f', arrf))
                path = ' (path: %s)' % facts_str(st)
                unk = bool(unknown_calls(st))
                if isinstance(v, tuple) and any(x[0] == 'mref' for x in subterms(v)):
                    ck.holds('container', name, 'hands out an element; what its users do with it is followed from the matchers')
                ops = unwind(arr, A)
                if ops is None:
                    ck.verdict('container', name, True if arr == A or arr == ('vec', ()) else None, 'the list becomes %s' % pp(arr)[:200] + path)
                    continue
                bad = None
                cur = A
                for o in ops:
                    if o[0] == 'sort':
                        bad = None
                    elif o[0] == 'push' and st.facts.decide(eq0(LEN(cur))) is not True and cur != ('vec', ()):
                        if st.facts.decide(eq0(LEN(cur))) is None and ordered_end(st.facts, cur, o[1]):
                            pass
                        elif by_walking(st.facts, cur):
                            ck.unk('container', name, 'a value is appended at the end of the list' + path)
                            return
                        else:
                            bad = 'a value is appended at the end of the list, whatever its place in the order is'
                    elif o[0] == 'insert':
                        src = [t for t, x in st.facts.isv.items() if t[0] == 'bsearch' and t[1] == cur]
                        if not src:
                            bad = 'a value is inserted at %s' % pp(o[1])[:100]
                            if o[1][0] not in ('int', 'lin', 'len') or by_walking(st.facts, cur, o[1]):
                                ck.unk('container', name, bad + path)
                                return
                    elif o[0] == 'upd':
                        ck.unk('container', name, 'an element is overwritten' + path)
                        return
                    cur = apply(cur, o)
                ck.verdict('container', name, not bad, (bad or '') + path, unk)
        ck.guarded('container', b['path'], go)
    ck.guarded('container-search', 'SortedVec', own_search, ck, A)


def ordered_end(f, cur, v):
    """known to be not below the last element"""
    for a, p in f.list:
        if any(x == v for x in subterms(a)) and any(x[0] == 'idx' and x[1] == cur for x in subterms(a)):
            return True
    return False


def own_search(ck, A):
    for nm in ('find_pos', 'find'):
        b = ck.repo.body('%s::<T>::%s' % (SV, nm), False)
        if b is None:
            ck.unk('container-search', 'SortedVec::' + nm, 'not found')
            continue
        ck.guarded('container-search', 'SortedVec::' + nm, one_search, ck, b, nm, A)


def one_search(ck, b, nm, A):
    """a binary search: found only on Equal; not found only when the interval is empty; the interval shrinks to the side that can hold the value"""
    rule, name = 'container-search', 'SortedVec::' + nm
    e = ck.repo.engine()
    outs = [(strip_dyn(v), st) for k, v, st in ck.run(e, b) if k == 'ret']
    loops = []
    for v, st in outs:
        for L in loops_of(st):
            if L not in loops:
                loops.append(L)
    if not loops:
        ok = all(any(x[0] == 'bsearch' for x in list(subterms(v)) + [y for t in st.facts.isv for y in subterms(t)]) for v, st in outs)
        ck.verdict(rule, name, True if ok else None, 'not recognised')
        return
    for L in loops:
        search_loop(ck, rule, name, A, L, [(v, st) for v, st in outs if loops_of(st) == [L]])
    if any(len(loops_of(st)) != 1 for v, st in outs):
        ck.unk(rule, name, 'not one loop on every path')


def search_loop(ck, rule, name, A, L, outs):
    lo = [(p, i, lv) for p, (i, lv) in L.places.items() if i == INT(0)]
    hi = [(p, i, lv) for p, (i, lv) in L.places.items() if i == LEN(A)]
    if len(lo) != 1 or len(hi) != 1:
        bounds = [pp(i) for p, (i, lv) in L.places.items()]
        ints = [i for p, (i, lv) in L.places.items() if i[0] == 'int']
        if len(hi) == 1 and len(L.places) == 2 and ints and ints[0] != INT(0):
            ck.bad(rule, name, 'the search starts at %s and never looks at the elements before it' % pp(ints[0]))
            return
        ck.unk(rule, name, 'the loop does not keep an interval from 0 to the length: %s' % bounds)
        return
    (lp, _, lv), (hp, _, hv) = lo[0], hi[0]
    # kept as start and size, or as start and end
    size = any(bk['new'][lp] != lv and bk['new'][hp] != hv for bk in L.backs)
    if size:
        hv = add(lv, hv)
    for bk in L.backs:
        f = bk['state'].facts
        path = ' (round: %s)' % '; '.join(('' if p else 'not ') + pp(a) for a, p in bk['facts'])[:400]
        nl, nh = bk['new'][lp], bk['new'][hp]
        if size:
            nh = add(nl, nh)
        cmpv = [(t, x) for t, x in f.isv.items() if t[0] == 'cmp']
        if len(cmpv) != 1:
            ck.unk(rule, name, 'comparison not recognised' + path)
            continue
        t, x = cmpv[0]
        elem = [y for y in t[1:] if y[0] == 'idx' and y[1] == A]
        if len(elem) != 1:
            ck.unk(rule, name, 'comparison not recognised' + path)
            continue
        m = elem[0][2]
        less = (x == 'Less') == (t[1] == elem[0])
        if x == 'Equal':
            ck.bad(rule, name, 'goes on although the value was found' + path)
        elif less:
            ck.verdict(rule, name + ': right half', nl == add(m, INT(1)) and nh == hv, 'the element at %s is too small, but the search goes on in %s..%s' % (pp(m)[:60], pp(nl)[:60], pp(nh)[:60]) + path, bool(opaque_in(nl)) or bool(opaque_in(nh)))
        else:
            ck.verdict(rule, name + ': left half', nl == lv and nh == m, 'the element at %s is too big, but the search goes on in %s..%s' % (pp(m)[:60], pp(nl)[:60], pp(nh)[:60]) + path, bool(opaque_in(nl)) or bool(opaque_in(nh)))
    for v, st in outs:
        f = st.facts
        path = ' (path: %s)' % facts_str(st)
        if v == NONE:
            done = f.decide(LT(lv, hv)) is False
            oob = any(a[0] == 'is' for a, p in f.list) and not done
            ck.verdict(rule, name + ': not found', True if done else None if oob else False, 'gives up before the interval is empty' + path)
        else:
            eq = [t for t, x in f.isv.items() if t[0] == 'cmp' and x == 'Equal']
            ck.verdict(rule, name + ': found', True if eq else None, 'found without an equal comparison' + path)


def lookups(ck, s):
    """the public look-up of a literal in the trie finds it iff it is there"""
    for nm in ('lookup_literal', 'lookup_literal_mut'):
        b = ck.repo.body('%s::%s' % (s.root, nm), False)
        if b is not None:
            ck.guarded('lookup', nm, one_lookup, ck, s, b, nm)


def one_lookup(ck, s, b, nm):
    e = s.repo.engine()
    name = 'SuffixTree::' + nm
    for k, v, st in ck.run(e, b):
        if k != 'ret':
            continue
        v = strip_dyn(v)
        f = st.facts
        path = ' (path: %s)' % facts_str(st)
        unk = bool(unknown_calls(st))
        if v[0] in ('call', 'rec'):
            ck.holds('lookup', name, 'recursive')
            continue
        if v[0] != 'adt' or v[2] not in ('Ok', 'Err'):
            ck.unk('lookup', name, 'result %s' % pp(v)[:150])
            continue
        # the node and the rest of the literal at the end of the descent
        bs = [(t, x) for t, x in f.isv.items() if t[0] == 'bsearch' and owner(s, t[1]) is not None]
        if not bs:
            ck.unk('lookup', name, 'no search on this path' + path)
            continue
        t, x = bs[-1]
        if x == 'Err':
            ck.verdict('lookup', name + ': absent', v[2] == 'Err', 'reports a literal that the search did not find' + path, unk)
            continue
        E = get(t[1], ('idx', get(t, ('vf', 'Ok', '0'))))
        lit = get(E, ('f', s.l_lit))
        keys = [y[1] for kind in ('chars', 'len') for y in subterms(t[2]) if y[0] == kind and y[1] != get(('probe', t[1]), ('f', s.l_lit))]
        if not keys:
            ck.unk('lookup', name, 'key not recognised' + path)
            continue
        key = keys[0]
        eq = f.decide(EQ(lit, key))
        if eq is None and f.decide(AT(key, INT(0), lit)) is True and f.decide(eq0(sub(LEN(lit), LEN(key)))) is True:
            eq = True
        pre = f.decide(AT(key, INT(0), lit))
        c = CPL(lit, key)
        if f.decide(LT(c, LEN(lit))) is True:
            pre, eq = False, False
        if v[2] == 'Ok':
            ck.verdict('lookup', name + ': found', eq is True, 'reports the entry %s, whose literal is not known to be the one looked for' % pp(E)[:120] + path, unk)
        else:
            leaf = f.isv.get(get(E, ('f', s.l_node))) == 'None'
            ok = pre is False or eq is False and leaf
            ck.verdict('lookup', name + ': absent', ok, 'reports that the literal is absent although %s may lead to it' % pp(E)[:120] + path, unk)


def c21(ck):
    for kind in ('trie', 'suffix array'):
        def go(kind=kind):
            s = ISide(ck.repo, 'trie' if kind == 'trie' else 'array')
            if s.kind == 'trie':
                orders(ck, s)
                ck.guarded('kept-in-order', 'split', split_children, ck, s)
                lookups(ck, s)
            seen = set()
            outs = s.paths(ck)
            kept(ck, s, kind, 'add_pattern', outs)
            searches(ck, s, kind, outs, 'add_pattern', seen)
            po, e = s.__class__.__mro__[1].paths.__get__(s)(ck) if False else (ck.run(ck.repo.engine(), s.entry), None)
            searches(ck, s, kind, po, 'parse', seen)
            for b in ck.repo.p.raw['bodies']:
                if b.get('implself') and b['implself'][:2] == ['adt', s.root] and b.get('argc') and b.get('pub') and not b.get('impltrait') and b['id'] != s.add['id']:
                    others(ck, s, kind, b, seen)
        ck.guarded('kept-in-order', kind, go)
    ck.guarded('container', 'SortedVec', container, ck)
    ck.guarded('common-prefix', 'common_prefix_len', cpl_contract, ck)


def others(ck, s, kind, b, seen):
    """the other public operations of the node type"""
    nm = b['path'].split('::')[-1]
    t = b['locals'][1]
    if t[0] != 'ref':
        return
    mut = t[1]

    def go():
        e = s.engine()
        outs = ck.run(e, b)
        if mut:
            kept(ck, s, kind, nm, outs)
        searches(ck, s, kind, outs, nm, seen)
    ck.guarded('kept-in-order', '%s: %s' % (kind, nm), go)


def cpl_contract(ck):
    """common_prefix_len(a, b): the longest common prefix that ends between two characters"""
    rule, name = 'common-prefix', 'common_prefix_len'
    R = ck.repo
    b = R.body(CPFX, False)
    if b is None:
        ck.unk(rule, name, 'function not found')
        return
    keep = R.on_enter
    R.on_enter = lambda *a: None
    try:
        outs = ck.run(R.engine(), b)
    finally:
        del R.on_enter
    A, B = SELF, PAT
    mn = ('min', *sorted((LEN(A), LEN(B)), key=repr))
    byte = lambda x, k: ('idx', ('bytes', x), k)
    done = set()
    for k, v, st in outs:
        if k != 'ret':
            continue
        f = st.facts
        path = ' (path: %s)' % facts_str(st)
        unk = bool(unknown_calls(st))
        ls = loops_of(st)
        if len(ls) != 1:
            ck.unk(rule, name, 'not recognised' + path)
            continue
        L = ls[0]
        ks = {lv for p, (i, lv) in L.places.items() if i == INT(0) and all(bk['new'][p] == add(lv, INT(1)) for bk in L.backs) and lv[0] == 'lv'}
        if len(ks) != 1 or not L.backs:
            ck.unk(rule, name, 'no index that counts up was recognised' + path)
            continue
        K = ks.pop()
        def sides(a):
            """the two things an equality compares (numbers are compared by their difference)"""
            if a[0] == 'eq':
                return a[1:]
            if a[0] == 'eq0' and a[1][0] == 'lin' and a[1][1] == 0 and sorted(c for _, c in a[1][2]) == [-1, 1]:
                return tuple(x for x, _ in a[1][2])
            return ()
        eqf = [a for bk in L.backs for a, p in bk['facts'] if p and sides(a) and all(K in list(subterms(y)) for y in sides(a))]
        if not eqf:
            weak = [a for bk in L.backs for a, p in bk['facts'] if a[0] == 'call' and K in list(subterms(a)) and a[1] in PURE | {'u8::eq_ignore_ascii_case', 'eq_ignore_ascii_case'}]
            none = all(not any(x[0] in ('call', 'idx', 'elem') for a, p in bk['facts'] for x in subterms(a)) for bk in L.backs)
            ck.verdict(rule, name + ': equal', False if weak or none else None, 'the prefix is extended without an equal comparison (%s)' % '; '.join(pp(a) for bk in L.backs for a, p in bk['facts'])[:300])
            continue
        E = eqf[0]
        if {x[1] for x in sides(E) if x[0] in ('idx', 'elem', 'byte') and x[-1] == K} != {('bytes', A), ('bytes', B)}:
            ck.unk(rule, name, 'compares %s' % pp(E)[:150])
            continue
        if id(L) not in done:
            done.add(id(L))
            for bk in L.backs:
                d = bk['state'].facts.decide(E)
                ck.verdict(rule, name + ': equal', d is True, 'the prefix is extended although the bytes may differ (round: %s)' % '; '.join(('' if p else 'not ') + pp(a) for a, p in bk['facts'])[:300])
        last = None
        for p, (i, lv) in L.places.items():
            if i == INT(0) and lv[0] == 'lv' and lv != K:
                good = True
                for bk in L.backs:
                    bf = bk['state'].facts
                    bd = [bf.decide(('bnd', x, K)) for x in (A, B)]
                    n = bk['new'][p]
                    good = good and (n == K and True in bd or n == lv and False in bd)
                last = lv if good else last
        differ = f.decide(E) is False
        bd = [f.decide(('bnd', x, K)) for x in (A, B)]
        if f.decide(LT(K, LEN(A))) is False or f.decide(LT(K, LEN(B))) is False or f.decide(LT(K, mn)) is False:
            ok = v == mn or v == K
            ck.verdict(rule, name + ': all of the shorter text', True if ok else False if v == last or v[0] == 'int' else None, 'gives %s when one text is a prefix of the other' % pp(v)[:100] + path, unk)
        elif differ:
            if v == K:
                ck.verdict(rule, name + ': at the difference', True in bd, 'the prefix may end inside a character' + path, unk)
            elif v == last:
                ck.verdict(rule, name + ': before the difference', False in bd, 'gives the boundary before the difference although the difference is at a boundary' + path, unk)
            else:
                ck.unk(rule, name, 'gives %s' % pp(v)[:100] + path)
        else:
            ck.unk(rule, name, 'gives %s' % pp(v)[:100] + path)
