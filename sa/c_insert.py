"""Adding patterns: C07 (nothing lost or altered), C21 (literals stay findable), C02 (no panic while adding)."""
from repo import *
from check import *
from c_match import Side, MATCHER, classify_cmp, variant
import c_match

SELF = ('sym', 'self')
PAT = ('sym', 'p1')
TREE_ENTRY = 'matcher::trie::node::interface::Entry'
ARR_ENTRY = 'matcher::suffix_array::interface::Entry'
CPFX = '<str as utils::common_prefix::CommonPrefix>::common_prefix_len'


class ISide(Side):
    def __init__(self, repo, kind):
        Side.__init__(self, repo, kind)
        self.add = repo.impl(MATCHER, 'add_pattern', self.root)
        self.tok = repo.field(PATTERN, lambda t: mentions(t, 'matcher::compiled_pattern::TokenType'), 'token list')
        self.pfields = [n for n, t in repo.fields(PATTERN)]
        self.l_flag = repo.role(self.lit, 'flag') if any(t == ['bool'] for n, t in repo.fields(self.lit)) else None
        self.split = repo.method(self.lit, 'split', [lambda t: t == ['int', 'usize'], lambda t: t == ['ref', False, ['str']]]) if kind == 'trie' else None
        self.look = repo.method(self.root, 'lookup_literal_mut', [lambda t: t == ['ref', False, ['str']]],
                                lambda t: t[1].endswith('Result') and "['ref', True" in str(t)) if kind == 'trie' else None
        self.entry_trait = TREE_ENTRY if kind == 'trie' else ARR_ENTRY
        self.keys = self.insert_keys()

    def insert_keys(self):
        """functions that are the complete insertion of a pattern into a node"""
        keys = set()
        b = self.add
        for _ in range(5):
            keys.add(self.repo.engine().fkey(b))
            e = self.repo.engine(opaque=lambda bb, p, b=b: bb['id'] != b['id'])
            outs = e.run_fn(b)
            if len(outs) != 1 or outs[0][0] != 'ret':
                break
            ev = [x for x in outs[0][2].events if x[0] == 'call']
            if len(ev) == 1 and len(ev[0][2]) == 2 and ev[0][2][1] == PAT:
                nb = [x for x in self.repo.p.raw['bodies'] if e.fkey(x) == ev[0][1]]
                if len(nb) == 1:
                    b = nb[0]
                    continue
            break
        return keys

    def hook(self, e, ctx, body, args, st):
        """cut points whose contracts are checked on their own: LiteralNode::split and the look-up of the literal just split off"""
        if self.split is not None and body['id'] == self.split['id'] and args[0][0] == 'mref':
            a = args[0]
            old = st.read(a[1], a[2])
            n, lit = args[1], strip_dyn(e.deref(st, args[2]))
            st.events.append(('split', old, n, lit, a))
            new = setp(old, (('f', self.l_node),), SOME(('splitnode', old, n, lit)))
            new = setp(new, (('f', self.l_lit),), SLICE(lit, INT(0), n))
            new = setp(new, (('f', self.l_pat),), NONE)
            if self.l_flag:
                new = setp(new, (('f', self.l_flag),), ('bool', False))
            st.write(a[1], a[2], new)
            return [('ret', UNIT, st)]
        if self.look is not None and body['id'] == self.look['id'] and args[0][0] == 'mref':
            a = args[0]
            v = st.read(a[1], a[2])
            lit = strip_dyn(e.deref(st, args[1]))
            if v[0] == 'splitnode' and lit == SLICE(v[3], v[2], LEN(v[3])):
                pos = ('newpos', v)
                st.facts.background(LT(pos, LEN(self.lits(v))))
                return [('ret', OK(('tup', (a, pos))), st)]
        return None

    def engine(self):
        return self.repo.engine(extra=self.hook if self.kind == 'trie' else None)

    def paths(self, ck):
        return ck.run(self.engine(), self.add)


def norm(f, t):
    """an optional value that is known to be absent, or that is rebuilt from its own payload"""
    t = strip_dyn(t)
    if t[0] == 'adt' and t[1] == 'Option' and t[2] == 'Some':
        x = t[3][0][1]
        if x[0] == 'pl' and x[2] == 'Some':
            return x[1]
        return t
    if t[0] != 'adt' and f.isv.get(t) == 'None':
        return NONE
    return t


def same(f, a, b):
    return a == b or norm(f, a) == norm(f, b)


def rest_ok(s, rest):
    """rest = the given pattern without its first token, and otherwise unchanged"""
    for n in s.pfields:
        v = get(rest, ('f', n))
        w = get(PAT, ('f', n))
        if n == s.tok:
            if v not in (('remove', w, INT(0)), ('collect', ('skip', ('elems', w), INT(1))), SLICE(w, INT(1), LEN(w))):
                return False, 'its tokens become %s' % pp(v)[:120]
        elif v != w:
            return False, 'its field %s becomes %s' % (n, pp(v)[:120])
    return True, ''


def fields_of(s, kind):
    ty = s.lit if kind == 'lit' else s.par
    pat, node = (s.l_pat, s.l_node) if kind == 'lit' else (s.p_pat, s.p_node)
    return [n for n, t in s.repo.fields(ty)], pat, node


def stored(s, f, kind, old, new, whole=None):
    """new = old with the (rest of the) pattern stored below it. -> (True/False/None, why)
    whole: the entry operation itself is analysed, its argument is the pattern"""
    check = (lambda r: (r == whole, 'it is not the given pattern')) if whole is not None else (lambda r: rest_ok(s, r))
    if new[0] == 'post' and new[2] == 0 and new[1][0] in ('call', 'rec') and new[1][1].endswith('Entry::insert') and len(new[1]) == 4:
        if new[1][2] != old:
            return False, 'the entry that gets the pattern is %s' % pp(new[1][2])[:150]
        ok, why = check(new[1][3])
        return ok, 'the stored pattern is not the rest of the given one: ' + why
    names, pat, node = fields_of(s, kind)
    for n in names:
        if n in (pat, node):
            continue
        if not same(f, get(new, ('f', n)), get(old, ('f', n))):
            return False, 'the field %s of the entry becomes %s' % (n, pp(get(new, ('f', n)))[:150])
    op, on = get(old, ('f', pat)), get(old, ('f', node))
    np, nn = get(new, ('f', pat)), get(new, ('f', node))
    if same(f, nn, on) and not same(f, np, op):
        # the pattern ends here
        if not (np[0] == 'adt' and np[2] == 'Some'):
            return False, 'the pattern stored at the entry becomes %s' % pp(np)[:150]
        x = np[3][0][1]
        ok, why = check(x)
        if not ok:
            return False, 'the stored pattern is altered: ' + why
        if f.decide(eq0(LEN(get(x, ('f', s.tok))))) is not True:
            return False, 'the pattern is stored at the entry although tokens are left'
        return True, ''
    if same(f, np, op) and payload(f, nn) is not None:
        c = payload(f, nn)
        if c[0] == 'post' and c[2] == 0 and c[1][0] in ('call', 'rec') and len(c[1]) == 4 and (c[1][1] in s.keys or c[1][1].endswith('::insert')):
            ok, why = check(c[1][3])
            if not ok:
                return False, 'the pattern handed to the sub-tree is altered: ' + why
            if f.decide(eq0(LEN(get(c[1][3], ('f', s.tok))))) is not False:
                return False, 'a pattern without tokens is handed to the sub-tree, where it is lost'
            r = c[1][2]
            if r == get(on, ('vf', 'Some', '0')) and variant(f, on) != 'None':
                return True, ''
            if on[0] == 'adt' and on[2] == 'Some' and r == on[3][0][1]:
                return True, ''
            if is_empty_root(s, r):
                if variant(f, on) == 'None':
                    return True, ''
                return False, 'the sub-tree stored before is replaced by an empty one'
            return (None if opaque_in(r) else False), 'the pattern is added to %s, not to the sub-tree of the entry' % pp(r)[:150]
        return None, 'sub-tree %s not understood' % pp(c)[:150]
    if same(f, np, op) and same(f, nn, on):
        return False, 'the pattern is not stored'
    if opaque_in(new):
        return None, 'entry %s not understood' % pp(new)[:200]
    return False, 'the entry becomes %s' % pp(new)[:200]


def payload(f, t):
    """x of a value known to be Some(x)"""
    if t[0] == 'adt' and t[2] == 'Some':
        return t[3][0][1]
    if t[0] == 'upd' and t[2] == ('vf', 'Some', '0') and variant(f, t[1]) == 'Some':
        return t[3]
    return None


def elements(arr):
    """the elements of a list built from nothing, in no particular order; None when not recognised"""
    if arr[0] == 'vec':
        return list(arr[1])
    if arr[0] == 'sort':
        return elements(arr[1])
    if arr[0] in ('push', 'insert'):
        r = elements(arr[1])
        return None if r is None else r + [arr[-1]]
    return None


def is_empty_root(s, r):
    if not (r[0] == 'adt' and r[1] == s.root):
        return False
    a = s.lits(r)
    return a == ('vec', ()) and s.pars(r) == ('vec', ())


def unwind(post, base):
    """operations that lead from base to post, in order; None when not recognised"""
    ops = []
    x = post
    while x != base:
        if x[0] in ('upd', 'push', 'insert', 'sort', 'remove'):
            ops.append((x[0],) + tuple(x[2:]))
            x = x[1]
        else:
            return None
    return ops[::-1]


def shape(ops):
    """-> ('at', i, new) | ('new', how, i, fresh, new) | None"""
    o = list(ops)
    if len(o) == 1 and o[0][0] == 'upd' and o[0][1][0] == 'idx':
        return 'at', o[0][1][1], o[0][2]
    if o and o[0][0] in ('push', 'insert'):
        first = o.pop(0)
        how, i, fresh = ('push', None, first[1]) if first[0] == 'push' else ('insert', first[1], first[2])
        if o and o[0][0] == 'sort':
            how, o = how + '+sort', o[1:]
        if not o:
            return 'new', how, i, None, fresh
        if len(o) == 1 and o[0][0] == 'upd' and o[0][1][0] == 'idx':
            return 'new', how, (i, o[0][1][1]), fresh, o[0][2]
    return None


def changed(s, st):
    """[(base node term, new content)] of the nodes this path wrote to"""
    r = []
    for root, v in st.store.items():
        if root == ('arg', 'self') or root[0] == 'desc':
            b = v
            while b[0] == 'upd':
                b = b[1]
            if b != v:
                r.append((root, b, v))
    return r


def c07_side(ck, s, kind):
    outs = s.paths(ck)
    name = '%s: add_pattern' % kind
    toks = get(PAT, ('f', s.tok))
    T0 = get(toks, ('idx', INT(0)))
    seen = set()
    descents = set()
    for k, v, st in outs:
        if k != 'ret':
            continue
        f = st.facts
        path = ' (path: %s)' % facts_str(st)
        unk = bool(unknown_calls(st, crate_ok=('Entry::insert',) + tuple(s.keys)))
        ch = changed(s, st)
        if f.decide(eq0(LEN(toks))) is True:
            ck.verdict('no-tokens-no-change', name, not ch, 'a pattern without tokens changes the matcher' + path, unk)
            continue
        tv = variant(f, T0)
        if tv is None or len(ch) > 1:
            ck.unk('stored', name, 'path not understood' + path)
            continue
        if not ch:
            ck.verdict('stored', name, False, 'the pattern is not stored anywhere' + path, unk)
            continue
        root, N, post = ch[0]
        tok = get(T0, ('vf', tv, '0'))
        litA, parA = s.lits(N), s.pars(N)
        litP, parP = s.lits(post), s.pars(post)
        R = tok
        if N != SELF:
            r = descent(ck, s, st, N, tok, name, descents)
            if r is None:
                continue
            R = r
        if tv == 'Parser':
            seen.add('Parser')
            if litP != litA or N != SELF:
                ck.verdict('others-untouched', name, False, 'adding a parser changes the literal alternatives' + path, unk)
                continue
            ops = unwind(parP, parA)
            sh_ = shape(ops) if ops else None
            if sh_ is None:
                lost(ck, name, parP, parA, path, unk)
                continue
            if sh_[0] == 'at':
                E = get(parA, ('idx', sh_[1]))
                ok, why = stored(s, f, 'par', E, sh_[2])
                ck.verdict('stored', name + ' (existing parser)', ok, why + path, unk)
            else:
                _, how, i, fresh, new = sh_
                at = i[0] if how == 'insert' and fresh is not None else i
                if how == 'insert' and f.decide(LE(LEN(parA), at)) is True:
                    how = 'push'
                if how != 'push':
                    ck.verdict('order-of-parsers', name, False, 'a new parser is not appended after the existing ones (%s)' % how + path, unk)
                    continue
                old, ok, why = fresh_entry(s, f, 'par', fresh, new, tok)
                if ok is True and fresh is not None and i[1] != LEN(parA) and f.decide(EQ(i[1], LEN(parA))) is not True:
                    ok, why = None, 'the entry at %s gets the pattern' % pp(i[1])[:100]
                if ok is True:
                    ok, why = stored(s, f, 'par', old, new)
                ck.verdict('stored', name + ' (new parser)', ok, why + path, unk)
            continue
        seen.add('Literal')
        if parP != parA:
            ck.verdict('others-untouched', name, False, 'adding a literal changes the parser alternatives' + path, unk)
            continue
        ops = unwind(litP, litA)
        sh_ = shape(ops) if ops else None
        if sh_ is None:
            lost(ck, name, litP, litA, path, unk)
            continue
        if sh_[0] == 'at':
            E = get(litA, ('idx', sh_[1]))
            new = sh_[2]
            sp = [ev for ev in st.events if ev[0] == 'split']
            if sp:
                split_step(ck, s, st, name, E, R, new, sp, path, unk)
                continue
            eq = is_same_literal(f, get(E, ('f', s.l_lit)), R)
            if eq is None:
                eq = found(s, f, litA, R, sh_[1])
            if eq is not True:
                if new[0] != 'post' and get(new, ('f', s.l_lit)) != get(E, ('f', s.l_lit)) or opaque_in(get(E, ('f', s.l_lit))):
                    ck.unk('stored', name + ' (existing literal)', 'entry %s not understood' % pp(new)[:200])
                    continue
                ck.verdict('right-entry', name, False, 'the pattern is stored at the entry %s whose literal is not known to be the token' % pp(E)[:150] + path, unk)
                continue
            ok, why = stored(s, f, 'lit', E, new)
            ck.verdict('stored', name + ' (existing literal)', ok, why + path, unk)
        else:
            _, how, i, fresh, new = sh_
            old, ok, why = fresh_entry(s, f, 'lit', fresh, new, R)
            if ok is True and fresh is not None and how == 'insert' and i[0] != i[1] and any(x[0] == 'lv' for x in subterms(i[0])):
                ck.unk('stored', name + ' (new literal)', 'the new entry is put at %s' % pp(i[0])[:100])
                continue
            if ok is True and fresh is not None and how == 'insert' and i[0] != i[1]:
                ok, why = False, 'the new entry is put at %s but the pattern is stored at %s' % (pp(i[0])[:100], pp(i[1])[:100])
            if ok is True and fresh is not None and how == 'push+sort':
                b = bsearch_err(s, f, litA, R, i[1])
                if b is not True:
                    ok, why = b, 'the entry at %s, which gets the pattern, is not known to be the new one' % pp(i[1])[:100]
            if ok is True and fresh is not None and how == 'push' and i[1] != LEN(litA):
                ok, why = None, 'position %s' % pp(i[1])[:100]
            if ok is True:
                # content of a sorted list at the position found for it
                E0 = old if fresh is None else old
                nw = subst_entry(new, fresh, how, litA, i)
                ok, why = stored(s, f, 'lit', E0, nw)
            ck.verdict('stored', name + ' (new literal)', ok, why + path, unk)
    ck.verdict('both-token-kinds', name, seen >= {'Parser', 'Literal'} or (None if any(o[1] == name and o[2] == UNDECIDED for o in ck.obs) else False), 'only %s tokens are stored' % sorted(seen))


def subst_entry(new, fresh, how, arr, i):
    """reading the new entry back from the re-sorted list gives the new entry"""
    if fresh is None:
        return new
    for t in (('idx', ('sort', ('push', arr, fresh)), i[1]), ('idx', ('push', arr, fresh), i[1])):
        new = renorm(subst(new, {t: fresh}))
    return new


def lost(ck, name, post, pre, path, unk):
    ops = unwind(post, pre)
    if ops is None:
        if post[0] in ('vec', 'adt') and not opaque_in(post):
            ck.verdict('others-untouched', name, False, 'the list of alternatives is replaced by %s' % pp(post)[:200] + path, unk)
        elif any(x[0] == 'post' and x[1][0] == 'call' and x[1][1] == 'Vec::truncate' and x[1][2] == pre and x[1][3][0] == 'int' for x in subterms(post)):
            ck.bad('others-untouched', name, 'the list of alternatives is cut: %s' % pp(post)[:200] + path)
        else:
            ck.unk('others-untouched', name, 'the list of alternatives becomes %s' % pp(post)[:200])
        return
    if any(o[0] == 'remove' for o in ops) and not any(o[0] in ('insert', 'push') for o in ops):
        ck.verdict('others-untouched', name, False, 'an alternative is removed: %s' % pp(post)[:200] + path, unk)
    else:
        ck.unk('others-untouched', name, 'the list of alternatives becomes %s' % pp(post)[:200])


def is_same_literal(f, a, b):
    d = f.decide(EQ(a, b))
    if d is not None:
        return d
    at = f.decide(AT(b, INT(0), a))
    ln = f.decide(eq0(sub(LEN(a), LEN(b))))
    if at is True and ln is True:
        return True
    if at is False or ln is False:
        return False
    return None


def found(s, f, arr, key, i):
    """a binary search that compares whole literals hit the entry i"""
    for t, v in f.isv.items():
        if t[0] == 'bsearch' and t[1] == arr and v == 'Ok' and i == get(t, ('vf', 'Ok', '0')) and s.kind != 'trie':
            return classify(s, t[2], arr, key)
    return None


def bsearch_err(s, f, arr, key, i):
    for t, v in f.isv.items():
        if t[0] == 'bsearch' and t[1] == arr and v == 'Err' and i == get(t, ('vf', 'Err', '0')):
            return classify(s, t[2], arr, key)
    return False


def classify(s, c, arr, key):
    if s.kind == 'trie':
        return classify_cmp(c, arr, key, s.l_lit)
    want = ('cmp', get(('probe', arr), ('f', s.l_lit)), key)
    if c == want or c[0] == 'cases' and all(v == want for _, v in c[1]):
        return True
    return False if not opaque_in(c) else None


def fresh_entry(s, f, kind, fresh, new, key):
    """-> (the entry before the pattern was stored, ok, why)"""
    names, pat, node = fields_of(s, kind)
    old = fresh
    if old is None:
        old = setp(setp(new, (('f', pat),), NONE), (('f', node),), NONE)
    kf = s.l_lit if kind == 'lit' else s.p_parser
    if get(old, ('f', kf)) != key:
        v = get(old, ('f', kf))
        d = is_same_literal(f, v, key) if kind == 'lit' else None
        if d is not True:
            return old, (None if opaque_in(v) else False), 'the new entry is made for %s, not for the token %s' % (pp(v)[:150], pp(key)[:100])
    if norm(f, get(old, ('f', pat))) != NONE or norm(f, get(old, ('f', node))) != NONE:
        return old, False, 'the new entry is not empty: %s' % pp(old)[:200]
    if kind == 'lit' and s.l_flag and get(old, ('f', s.l_flag)) != ('bool', True):
        return old, False, 'the new literal is not marked as one that ends a token'
    return old, True, ''


def descent(ck, s, st, N, tok, name, done):
    """the way from the root to the node N follows complete literals; -> the part of the token left at N"""
    L = None
    for l in loops_of(st):
        for (root, p), (init, lv) in l.places.items():
            if lv[0] == 'mref' and st.store.get(lv[1]) is not None and N[0] == 'lv' and lv[1][0] == 'desc' and lv[1][1] == N[1]:
                L, knode = l, (root, p)
    if L is None:
        ck.unk('descent', name, 'the way to the changed node was not recognised')
        return None
    klit = None
    for k, (init, lv) in L.places.items():
        if k != knode and lv[0] == 'slice' and lv[1] == tok:
            klit = k
    if klit is None:
        ck.unk('descent', name, 'the rest of the literal was not recognised')
        return None
    R = L.places[klit][1]
    if L.places[klit][0] != tok:
        ck.verdict('descent', name, False, 'the search starts with %s, not with the token' % pp(L.places[klit][0])[:150])
    if id(L) in done:
        return R
    done.add(id(L))
    for bk in L.backs:
        f = bk['state'].facts
        path = ' (path: %s)' % '; '.join(('' if p else 'not ') + pp(a) for a, p in bk['facts'])[:600]
        nn, nl = bk['new'].get(knode), bk['new'].get(klit)
        if nn is None or nl is None or nn[0] != 'mref' or nl[0] != 'slice' or nl[1] != tok:
            ck.unk('descent', name, 'step not understood' + path)
            continue
        p = list(nn[2])
        j = [x for x in range(len(p)) if p[x][0] == 'idx']
        if len(j) != 1 or p[j[0] + 1:] != [('f', s.l_node), ('vf', 'Some', '0')]:
            ck.unk('descent', name, 'step to %s not understood' % pp(nn)[:200])
            continue
        E = getp(N, tuple(p[:j[0] + 1]))
        lit = get(E, ('f', s.l_lit))
        at = f.decide(AT(R, INT(0), lit))
        ck.verdict('descent', name + ': complete literal', at is True, 'the search goes below %s although the literal is not known to start with the whole of it' % pp(E)[:150] + path)
        if at is True:
            ok = f.decide(eq0(sub(nl[2], add(R[2], LEN(lit))))) is True and nl[3] == R[3]
            ck.verdict('descent', name + ': rest of the literal', ok, 'below the entry the search goes on with %s' % pp(nl)[:200] + path)
    return R


def split_step(ck, s, st, name, E, R, new, sp, path, unk):
    f = st.facts
    rule = 'split-point'
    if len(sp) != 1 or sp[0][1] != E:
        ck.unk(rule, name, 'split not understood' + path)
        return
    _, old, n, lit, a = sp[0]
    if lit != R:
        ck.verdict(rule, name, False, 'the entry is split for %s, not for the rest of the token %s' % (pp(lit)[:150], pp(R)[:100]) + path, unk)
        return
    el = get(E, ('f', s.l_lit))
    okn = n == CPL(el, R) or n == CPL(R, el) or f.decide(eq0(sub(n, CPL(el, R)))) is True
    ck.verdict(rule, name, okn, 'the entry is split at %s, which is not the length of the common prefix' % pp(n)[:150] + path, unk or bool(opaque_in(n)))
    ck.verdict('split-keeps-first-char', name, f.decide(LE(INT(1), n)) is True, 'the entry may be split at 0, which changes its place in the order' + path, unk)
    # the entry itself: head of both literals, without pattern, not a value; checked on split() itself; nothing else written
    node = get(new, ('f', s.l_node))
    c = payload(f, node)
    if c is None:
        ck.verdict('stored', name + ' (split)', False, 'the sub-tree of the split entry becomes %s' % pp(node)[:200] + path, unk)
        return
    base = c
    while base[0] == 'upd':
        base = base[1]
    if base[0] != 'splitnode' or s.pars(c) != s.pars(base):
        ck.unk('stored', name + ' (split)', 'sub-tree %s not understood' % pp(c)[:200])
        return
    ops = unwind(s.lits(c), s.lits(base))
    sh_ = shape(ops) if ops else None
    if not sh_ or sh_[0] != 'at':
        if not ops:
            ck.verdict('stored', name + ' (split)', False, 'the pattern is not stored below the split entry' + path, unk)
        else:
            ck.unk('stored', name + ' (split)', 'sub-tree %s not understood' % pp(c)[:200])
        return
    if sh_[1] != ('newpos', base):
        ck.unk('stored', name + ' (split)', 'the entry %s gets the pattern' % pp(sh_[1])[:150])
        return
    ok, why = stored(s, f, 'lit', get(s.lits(base), ('idx', sh_[1])), sh_[2])
    ck.verdict('stored', name + ' (split)', ok, why + path, unk)
    # apart from the sub-tree, the entry is what split() made of it
    for fld, want in ((s.l_lit, SLICE(R, INT(0), n)), (s.l_pat, NONE)):
        got = get(new, ('f', fld))
        if got != want:
            ck.verdict('stored', name + ' (split)', False, 'after the split the field %s becomes %s' % (fld, pp(got)[:150]) + path, unk)


def entry_insert(ck, s, kind):
    """Entry::insert of every entry type"""
    for ty, ek in ((s.lit, 'lit'), (s.par, 'par')):
        def go(ty=ty, ek=ek):
            ms = [b for q, b, im in s.repo.impl_methods(s.entry_trait, 'insert') if q == ty]
            if not ms:
                raise Undecided('Entry::insert of %s' % ty)
            e = s.repo.engine(opaque=lambda b, p: e.fkey(b) in s.keys)
            outs = ck.run(e, ms[0], subst={'Self': ['adt', ty, []]})
            kinds = set()
            for k, v, st in outs:
                if k != 'ret':
                    continue
                post = st.store.get(('arg', 'self'))
                unk = bool(unknown_calls(st, crate_ok=tuple(s.keys)))
                path = ' (path: %s)' % facts_str(st)
                if post is None:
                    ck.unk('entry-insert', ty, 'no post-state')
                    continue
                ok, why = stored(s, st.facts, ek, SELF, post, whole=PAT)
                ck.verdict('entry-insert', '%s %s' % (kind, ty.split('::')[-1]), ok, why + path, unk)
                kinds.add(st.facts.decide(eq0(LEN(get(PAT, ('f', s.tok))))))
            ck.verdict('entry-insert-cases', '%s %s' % (kind, ty.split('::')[-1]), kinds >= {True, False}, 'not both cases (tokens left, none left) return')
        ck.guarded('entry-insert', '%s %s' % (kind, ty), go)


def split_contract(ck, s):
    """LiteralNode::split(n, literal): both halves keep everything"""
    rule = 'split'
    if s.split is None:
        ck.unk(rule, 'trie', 'no split function')
        return

    def pre(st, args):
        lit = get(SELF, ('f', s.l_lit))
        for x in (lit, ('sym', 'p2')):
            st.facts.background(LE(PAT, LEN(x)))
            e.add_bnd(st, x, PAT)
    e = s.repo.engine()
    outs = ck.run(e, s.split, pre=pre)
    n, lit = PAT, ('sym', 'p2')
    mine = get(SELF, ('f', s.l_lit))
    for k, v, st in outs:
        if k != 'ret':
            continue
        f = st.facts
        unk = bool(unknown_calls(st))
        path = ' (path: %s)' % facts_str(st)
        post = st.store[('arg', 'self')]
        name = 'LiteralNode::split'
        ck.verdict(rule, name + ': head', get(post, ('f', s.l_lit)) in (SLICE(lit, INT(0), n), SLICE(mine, INT(0), n)), 'the literal becomes %s, not the common prefix' % pp(get(post, ('f', s.l_lit)))[:150] + path, unk)
        ck.verdict(rule, name + ': head has no pattern', norm(f, get(post, ('f', s.l_pat))) == NONE, 'the head keeps the pattern %s' % pp(get(post, ('f', s.l_pat)))[:150] + path, unk)
        if s.l_flag:
            ck.verdict(rule, name + ': head is no value', get(post, ('f', s.l_flag)) == ('bool', False), 'the head is still marked as a literal that ends a token' + path, unk)
        node = get(post, ('f', s.l_node))
        if not (node[0] == 'adt' and node[2] == 'Some'):
            ck.verdict(rule, name + ': sub-tree', False, 'the sub-tree becomes %s' % pp(node)[:150] + path, unk)
            continue
        T = node[3][0][1]
        arr = s.lits(T)
        els = elements(arr)
        if els is None or s.pars(T) != ('vec', ()):
            ck.unk(rule, name + ': sub-tree', 'sub-tree %s not understood' % pp(T)[:200])
            continue
        okl = okr = False
        for x in els:
            l = get(x, ('f', s.l_lit))
            if l == SLICE(lit, n, LEN(lit)) and get(x, ('f', s.l_flag)) == ('bool', True) and norm(f, get(x, ('f', s.l_pat))) == NONE and norm(f, get(x, ('f', s.l_node))) == NONE:
                okl = True
            if l == SLICE(mine, n, LEN(mine)) and same(f, get(x, ('f', s.l_pat)), get(SELF, ('f', s.l_pat))) and same(f, get(x, ('f', s.l_node)), get(SELF, ('f', s.l_node))) \
                    and get(x, ('f', s.l_flag)) == get(SELF, ('f', s.l_flag)):
                okr = True
        ck.verdict(rule, name + ': new tail', okl, 'the tail of the new literal is not among the children %s' % pp(arr)[:300] + path, unk)
        ck.verdict(rule, name + ': old tail', okr, 'the tail of the old literal with its pattern, sub-tree and mark is not among the children %s' % pp(arr)[:400] + path, unk)
        ck.verdict(rule, name + ': two children', len(els) == 2, '%d children' % len(els), unk)


def c07(ck):
    for kind in ('trie', 'suffix array'):
        def go(kind=kind):
            s = ISide(ck.repo, 'trie' if kind == 'trie' else 'array')
            c07_side(ck, s, kind)
            entry_insert(ck, s, kind)
            if kind == 'trie':
                ck.guarded('split', 'LiteralNode::split', split_contract, ck, s)
        ck.guarded('stored', kind, go)
    import c_order
    ck.guarded('common-prefix', 'common_prefix_len', c_order.cpl_contract, ck)
