"""The built-in parsers: C05 (SET, INT), C06 (GREEDY), C08 (identity)."""
from repo import *
from check import *
import models
from c_match import TEXT, unwrap_result, variant, found_rounds, collects, opaque

SETP = 'parsers::set::SetParser'
INTP = 'parsers::int::IntParser'
GREEDYP = 'parsers::greedy::GreedyParser'
HLC = 'parsers::has_length_constraint::HasLengthConstraint'
OSH = 'parsers::ObjectSafeHash'
SELF = ('sym', 'self')


def accessor(ck, trait, method, ty):
    """the term an accessor returns, for the receiver `self`"""
    outs = ck.run(ck.repo.engine(), ck.repo.impl(trait, method, ty))
    rets = [v for k, v, st in outs if k == 'ret']
    if len(outs) == 1 and len(rets) == 1:
        return strip_dyn(rets[0])
    return None


def on_recv(t, recv):
    """an accessor term for another receiver"""
    return resimp(subst(t, {SELF: recv}))


def resimp(t):
    """re-apply field selection after a substitution"""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == 'fld':
        return get(resimp(t[1]), ('f', t[2]))
    return t


def set_place(ck, ty):
    """path from self to the character set: ['delegate', 'character_set']"""
    def find(p, depth=0):
        for n, t in ck.repo.fields(p):
            if mentions(t, 'std::collections::BTreeSet') or mentions(t, 'std::collections::HashSet'):
                return (n,)
        if depth > 3:
            return None
        for n, t in ck.repo.fields(p):
            if t[0] == 'adt' and t[1] in ck.repo.p.adts:
                r = find(t[1], depth + 1)
                if r:
                    return (n,) + r
        return None
    r = find(ty)
    if r is None:
        raise Undecided('no character set in %s' % ty)
    return r


def at_place(t, place):
    for n in place:
        t = get(t, ('f', n))
    return t


class Run:
    """the run of set characters found by one path of a SET-like parse"""

    def __init__(self, st, cset):
        self.st = st
        self.cset = cset
        self.k = None         # number of characters in the run
        self.n = None         # number of bytes
        self.ok = None        # maximal run established?
        self.why = ''
        f = st.facts
        chars = ('chars', TEXT)
        member = lambda k: ('in', ('elem', chars, k), ('elems', cset))
        if f.decide(eq0(LEN(TEXT))) is True or f.decide(('more', chars, INT(0))) is False:
            self.k = self.n = INT(0)
            self.ok = True
            return
        if f.decide(member(INT(0))) is False:
            self.k = self.n = INT(0)
            self.ok = True
            return
        for L in loops_of(st):
            for lv, src in L.iterl:
                if models.chars_below(src) != TEXT:
                    continue
                init = [i for i, l in L.places.values() if l == lv][0]
                if init != INT(0):
                    self.ok, self.why = False, 'the scan does not start at the first character'
                    return
                bad = None
                for bk in L.backs:
                    nk = [bk['new'][pl] for pl, (i, l) in L.places.items() if l == lv][0]
                    if bk['state'].facts.decide(member(lv)) is not True:
                        bad = 'the scan at %s goes on over a character that is not known to be in the set (%s)' % (
                            L.where, '; '.join(('' if p else 'not ') + pp(a) for a, p in bk['facts']))
                    elif nk != add(lv, INT(1)):
                        bad = 'the scan at %s skips characters' % L.where
                end = f.decide(('more', chars, lv)) is False or f.decide(member(lv)) is False
                if bad is None and not end:
                    bad = 'the scan at %s stops before the run of set characters ends' % L.where
                if bad:
                    self.ok, self.why = False, bad
                    continue
                self.ok, self.why = True, ''
                self.k = lv
                for b in f.bg:
                    if b[0] == 'sync' and b[1] == TEXT and b[3] == ('elem', chars, lv):
                        self.n = b[2]
                self.loop = L
                return


def c05(ck):
    for ty in (SETP, INTP):
        def go(ty=ty):
            b = ck.repo.impl(PARSER, 'parse', ty)
            place = set_place(ck, ty)
            cset = at_place(SELF, place)
            mn, mx = accessor(ck, HLC, 'min_length', ty), accessor(ck, HLC, 'max_length', ty)
            if mn is None or mx is None:
                raise Undecided('length limit accessors of %s' % ty)
            pv = ck.repo.role(PRES, 'value')
            nsome = 0
            for k, v, st in ck.run(ck.repo.engine(), b):
                if k != 'ret':
                    continue
                f = st.facts
                unk = bool(unknown_calls(st))
                kind, r = unwrap_result(v)
                nsome += kind == 'some'
                run = Run(st, cset)
                path = ' (path: %s)' % facts_str(st)
                if kind == 'term':
                    ck.unk('set-run', ty, 'result %s not understood' % pp(r)[:200])
                    continue
                if run.ok is False:
                    ck.verdict('set-run', ty, False, run.why + path, unk)
                    continue
                val = get(r, ('f', pv)) if kind == 'some' else None
                if run.ok is None and val is not None and val[0] == 'slice' and val[1] == TEXT and any(x[0] == 'bpos' and x[1] == TEXT for x in subterms(val[2])):
                    # the start of a trimmed text is not the start of the text
                    ck.verdict('set-run', ty, False, 'the value %s does not start where the text starts' % pp(val)[:200] + path, unk)
                    continue
                if run.ok is None:
                    ck.unk('set-run', ty, 'the scan for set characters was not recognised' + path)
                    continue
                ck.holds('set-run', ty)
                cnts = [run.k]
                if run.n is not None:
                    cnts.append(('count', ('chars', SLICE(TEXT, INT(0), run.n))))
                if f.decide(('more', ('chars', TEXT), run.k)) is False:
                    cnts.append(('count', ('chars', TEXT)))
                dec = lambda mk: next((d for d in (f.decide(mk(c)) for c in cnts) if d is not None), None)
                nonempty = dec(lambda c: LE(INT(1), c))
                if nonempty is None and run.n is not None:
                    nonempty = f.decide(LE(INT(1), run.n))
                lo = True if variant(f, mn) == 'None' else dec(lambda c: LE(get(mn, ('vf', 'Some', '0')), c)) if variant(f, mn) == 'Some' else None
                hi = True if variant(f, mx) == 'None' else dec(lambda c: LE(c, get(mx, ('vf', 'Some', '0')))) if variant(f, mx) == 'Some' else None
                if kind == 'some':
                    val = get(r, ('f', pv))
                    okv = run.n is not None and val == SLICE(TEXT, INT(0), run.n) or val == TEXT and f.decide(('more', ('chars', TEXT), run.k)) is False \
                        or run.k == INT(0) and f.decide(eq0(LEN(val))) is True
                    if not okv and run.n is None:
                        ck.unk('set-value', ty, 'value %s' % pp(val)[:200])
                    else:
                        ck.verdict('set-value', ty, okv, 'the value %s is not the run of set characters' % pp(val)[:200] + path, unk)
                    ck.verdict('limits-accept', ty, nonempty is True and lo is True and hi is True,
                               'accepted without %s' % ('a character' if nonempty is not True else 'the minimum being met (in characters)' if lo is not True else 'the maximum being met (in characters)') + path, unk)
                else:
                    ck.verdict('limits-reject', ty, nonempty is False or lo is False or hi is False, 'rejected although the run is not known to be empty or outside the limits' + path, unk)
            ck.verdict('accepts', ty, nsome > 0, 'no path accepts')
            limits(ck, ty, mn, mx)
            constructors(ck, ty, place)
            set_setters(ck, ty, place)
        ck.guarded('set-run', ty, go)


def limits(ck, ty, mn, mx):
    """what is set as minimum is the minimum"""
    for m, mine, other in (('set_min_length', mn, mx), ('set_max_length', mx, mn)):
        outs = ck.run(ck.repo.engine(), ck.repo.impl(HLC, m, ty))
        for k, v, st in outs:
            if k != 'ret':
                continue
            post = st.store.get(('arg', 'self'))
            ok = post is not None and on_recv(mine, post) == ('sym', 'p1') and on_recv(other, post) == other
            ck.verdict('limit-setter', '%s::%s' % (ty, m), ok, 'the setter changes %s' % (pp(post) if post else 'nothing'), bool(unknown_calls(st)))


def built_set(v, st):
    """a set filled in a loop over all of a sequence holds what collecting the sequence gives"""
    if v[0] != 'lv':
        return v
    for L in loops_of(st):
        if L.key != v[1] or len(v) < 4 or v[3] != ('map', ()):
            continue
        mine = [pl for pl, (i, lv) in L.places.items() if lv == v]
        ks = [(pl, lv, src) for lv, src in L.iterl for pl, (i, l2) in L.places.items() if l2 == lv and i == INT(0)]
        if len(mine) != 1 or not L.backs:
            continue
        for pl, lv, src in ks:
            x = ('elem', src, lv)
            if src[0] == 'chars' and all(b['new'][pl] == add(lv, INT(1)) and b['new'][mine[0]] == ('sinsert', v, x) for b in L.backs) and \
                    st.facts.decide(('more', src, lv)) is False:
                return ('collect', src)
    return v


def set_setters(ck, ty, place):
    """what replaces the set of characters afterwards is built in the same way"""
    for b in ck.repo.p.raw['bodies']:
        L = b['locals']
        if not (b['path'].startswith(ty + '::') and b.get('pub') and b['argc'] == 2 and L[1] == ['ref', True, ['adt', ty, []]] and mentions(L[2], 'str')):
            continue
        if not (L[2] == ['ref', False, ['str']] or L[2][0] == 'adt' and L[2][1].endswith('String')):
            continue
        for k, v, st in ck.run(ck.repo.engine(), b):
            post = st.store.get(('arg', 'self'))
            if k != 'ret' or post is None:
                continue
            cs = built_set(at_place(post, place), st)
            if cs == at_place(SELF, place):
                continue
            ok = cs[0] == 'collect' and cs[1][0] == 'chars' and cs[1][1][0] == 'sym'
            ck.verdict('set-from-text', fname(b), ok, 'the set is %s, not the characters of the argument' % pp(cs)[:200], bool(unknown_calls(st)) or cs[0] == 'lv' and cs[3] != ('map', ()))


def constructors(ck, ty, place):
    """every way to build the parser: the character set is that of the argument (of the digits for INT), without limits"""
    for b in ck.repo.p.raw['bodies']:
        if not (b['path'].startswith(ty + '::') or b['path'].startswith('<%s as std::default::Default>' % ty)) or '{closure' in b['path']:
            continue
        if b.get('ret') is None and not b.get('locals'):
            continue
        rty = b['locals'][0]['ty'] if isinstance(b['locals'][0], dict) else b['locals'][0]
        if not (rty[0] == 'adt' and rty[1] == ty):
            continue
        for k, v, st in ck.run(ck.repo.engine(), b):
            if k != 'ret':
                continue
            cs = built_set(at_place(v, place), st)
            base = cs
            while base[0] in ('collect', 'chars'):
                base = base[1]
            n = fname(b)
            if ty == INTP:
                ok = base[0] == 'str' and set(base[1]) == set('0123456789')
                ck.verdict('int-digits', n, ok, 'the set is built from %s, not from the digits' % pp(cs)[:200], bool(unknown_calls(st)) or cs[0] == 'lv' and cs[3] != ('map', ()))
            else:
                ok = cs[0] == 'collect' and cs[1][0] == 'chars' and base[0] == 'sym'
                ck.verdict('set-from-text', n, ok, 'the set is %s, not the characters of the argument' % pp(cs)[:200], bool(unknown_calls(st)) or cs[0] == 'lv' and cs[3] != ('map', ()))
            for acc in ('min_length', 'max_length'):
                a = accessor(ck, HLC, acc, ty)
                if a is not None:
                    ck.verdict('no-default-limit', '%s %s' % (n, acc), on_recv(a, v) == NONE, 'a new parser starts with the limit %s' % pp(on_recv(a, v))[:100], bool(unknown_calls(st)))


def fname(b):
    return b['path']


def c06(ck):
    def go():
        b = ck.repo.impl(PARSER, 'parse', GREEDYP)
        endf = ck.repo.field(GREEDYP, lambda t: t[0] == 'adt' and t[1].endswith('Option') and mentions(t, 'std::string::String'), 'end string')
        end = get(SELF, ('f', endf))
        es = get(end, ('vf', 'Some', '0'))
        pv = ck.repo.role(PRES, 'value')
        ns = set()
        for k, v, st in ck.run(ck.repo.engine(), b):
            if k != 'ret':
                continue
            f = st.facts
            unk = bool(unknown_calls(st))
            kind, r = unwrap_result(v)
            path = ' (path: %s)' % facts_str(st)
            ev = variant(f, end)
            fv = variant(f, ('find', TEXT, es))
            empty = f.decide(eq0(LEN(es))) is True
            if kind == 'term':
                ck.unk('greedy', GREEDYP, 'result %s not understood' % pp(r)[:200])
                continue
            if ev is None:
                ck.verdict('greedy', GREEDYP, False, 'the result does not depend on whether there is an end string' + path, unk)
                continue
            ns.add((ev, kind))
            apart = taken_apart(*([a for a, p in f.list] + ([get(r, ('f', pv))] if kind == 'some' else [])))
            if ev == 'None':
                ok = kind == 'some' and (get(r, ('f', pv)) in (TEXT, SLICE(TEXT, INT(0), LEN(TEXT))) or f.decide(EQ(LEN(get(r, ('f', pv))), LEN(TEXT))) is True)
                ck.verdict('greedy-rest', GREEDYP, ok, 'without an end string the whole text must be taken; result: %s' % pp(v)[:200] + path, unk)
            elif kind == 'some':
                val = get(r, ('f', pv))
                want = SLICE(TEXT, INT(0), get(('find', TEXT, es), ('vf', 'Some', '0')))
                want2 = SLICE(TEXT, INT(0), ('bpos', TEXT, ('find', es)))
                ok = fv == 'Some' and val in (want, want2)
                if not ok and is_first_split(val, es):
                    ok = True
                ck.verdict('greedy-first', GREEDYP, ok, 'the value %s is not the text before the first occurrence of the end string' % pp(val)[:200] + path, unk or apart or not known_value(val))
            else:
                ok = fv == 'None' or f.decide(('contains', TEXT, es)) is False or f.decide(LE(LEN(es), LEN(TEXT))) is False
                ck.verdict('greedy-fail', GREEDYP, ok, 'fails although the end string is not known to be absent' + path, unk or apart)
        ck.verdict('greedy-cases', GREEDYP, ('None', 'some') in ns and ('Some', 'some') in ns, 'only %s' % sorted(ns))
        for m in ('set_end_string', 'from_str'):
            bb = ck.repo.body(GREEDYP + '::' + m, must=False)
            if not bb:
                continue
            for k, v, st in ck.run(ck.repo.engine(), bb):
                if k != 'ret':
                    continue
                t = get(st.store[('arg', 'self')] if m == 'set_end_string' else v, ('f', endf))
                ok = t == ('sym', 'p1') if m == 'set_end_string' else t == SOME(('sym', 'p1'))
                ck.verdict('end-string-stored', '%s::%s' % (GREEDYP, m), ok, 'the end string becomes %s' % pp(t)[:200], bool(unknown_calls(st)))
        for m in ('with_name', 'new', 'default'):
            bb = ck.repo.body(GREEDYP + '::' + m, must=False)
            if bb:
                for k, v, st in ck.run(ck.repo.engine(), bb):
                    if k == 'ret':
                        ck.verdict('end-string-stored', '%s::%s' % (GREEDYP, m), get(v, ('f', endf)) == NONE, 'a new parser has the end string %s' % pp(get(v, ('f', endf)))[:100], bool(unknown_calls(st)))
    ck.guarded('greedy', GREEDYP, go)


def known_value(val):
    """made of slices of the text at positions the analysis understands"""
    return val == TEXT or val[0] == 'slice' and val[1] == TEXT or val[0] in ('str', 'sym')


def is_first_split(val, es):
    return val[0] == 'elem' and val[1] == ('split', TEXT, es) and val[2] == INT(0)


def leaves(ck, ty, base, depth=0):
    """the non-struct fields below `base` : what distinguishes two values of the type"""
    r = []
    for n, t in ck.repo.fields(ty):
        f = get(base, ('f', n))
        if t[0] == 'adt' and t[1] in ck.repo.p.adts and len(ck.repo.p.adts[t[1]]['variants']) == 1 and depth < 4:
            r += leaves(ck, t[1], f, depth + 1)
        elif t[0] == 'adt' and t[1].endswith('PhantomData'):
            continue
        else:
            r.append(f)
    return r


def c08(ck):
    tags = {}
    impls = [s for s, b, im in ck.repo.impl_methods(PARSER, 'parse')]

    def one(ty):
        b = ck.repo.impl(OSH, 'hash_os', ty)
        for k, v, st in ck.run(ck.repo.engine(), b):
            if k != 'ret':
                continue
            v = strip_dyn(v)
            while v[0] == 'bin' and v[1] == 'BitXor' and 'int' in (v[2][0], v[3][0]):
                v = v[3] if v[2][0] == 'int' else v[2]
            if v[0] == 'bin' and v[1] in ('BitAnd', 'BitOr', 'Rem', 'Div', 'Shr', 'Shl') and v[2][0] == 'hash' and v[3][0] == 'int' and v[3][1] not in (0, 1, (1 << 64) - 1):
                ck.bad('hash-covers-fields', ty, 'the identity of the parser keeps only a part of the hash of its fields: %s' % pp(v)[:200])
            elif v[0] == 'hash' and v[1][0] == 'hasher':
                parts = flat_parts(v[1][1])
                tag = [p for p in parts if p[0] == 'str']
                miss = [l for l in leaves(ck, ty, SELF) if l not in parts and not any(is_whole(p, l) for p in parts)]
                unk = bool(unknown_calls(st)) or any(opaque_in(p) for p in parts)
                ck.verdict('hash-covers-fields', ty, not miss, 'the identity of the parser leaves out %s' % ', '.join(pp(m) for m in miss), unk)
                tags.setdefault(tuple(t[1] for t in tag), []).append(ty)
            else:
                ck.unk('hash-covers-fields', ty, 'identity hash %s not understood' % pp(v)[:200])
                tags.setdefault(('?', ty), []).append(ty)
    for ty in impls:
        ck.guarded('hash-covers-fields', ty, one, ty)
    for t, tys in tags.items():
        # parsers with the same fields must be told apart by their tag
        def shape(ty):
            return len(leaves(ck, ty, SELF)), [json.dumps(x) for x in flat(ck, ty)]
        if len(tys) > 1:
            shapes = [shape(x) for x in tys]
            same = any(shapes[i] == shapes[j] for i in range(len(tys)) for j in range(i))
            ck.verdict('hash-tells-kinds-apart', ', '.join(sorted(tys)), not same, 'parsers of these kinds with the same parameters have the same identity')
        else:
            ck.holds('hash-tells-kinds-apart', tys[0])
    for kind, root, par in (('trie', T_TREE, T_PAR), ('suffix array', A_TAB, A_PAR)):
        ck.guarded('merge-by-identity', kind, merge, ck, kind, root, par)


def flat_parts(xs):
    """a tuple is hashed part by part"""
    r = []
    for x in xs:
        r += flat_parts(x[1]) if x[0] == 'tup' else [strip_dyn(x)]
    return r


def is_whole(p, leaf):
    """p contains the leaf unchanged (an enclosing struct, or the leaf behind an accessor)"""
    x = leaf
    while x[0] in ('fld',):
        x = x[1]
        if x == p and p != SELF:
            return True
    return False


def flat(ck, ty):
    r = []
    for n, t in ck.repo.fields(ty):
        if t[0] == 'adt' and t[1] in ck.repo.p.adts and len(ck.repo.p.adts[t[1]]['variants']) == 1:
            r += flat(ck, t[1])
        else:
            r.append(t)
    return r


def merge_paths(ck, root):
    b = ck.repo.method(root, 'insert_parser', [lambda t: mentions(t, PARSER)])
    if b is None:
        raise Undecided('the function that finds or creates the entry of a parser was not recognised')
    return ck.run(ck.repo.engine(), b)


def merge(ck, kind, root, par):
    fp = ck.repo.role(root, 'parsers')
    pp_ = ck.repo.role(par, 'parser')
    arr = get(SELF, ('f', fp))
    P = ('sym', 'p1')
    h = lambda x: ('call', 'ObjectSafeHash::hash_os', x)
    for k, v, st in merge_paths(ck, root):
        if k != 'ret':
            continue
        f = st.facts
        unk = bool(unknown_calls(st))
        path = ' (path: %s)' % facts_str(st)
        name = '%s: insert_parser' % kind
        if v[0] != 'mref' or v[1] != ('arg', 'self') or not v[2] or v[2][0] != ('f', fp) or len(v[2]) != 2:
            ck.unk('merge-by-identity', name, 'result %s not understood' % pp(v)[:200])
            continue
        i = v[2][1][1]
        post = get(st.store[('arg', 'self')], ('f', fp))
        if post == arr:
            E = get(arr, ('idx', i))
            ok = all(s1.facts.decide(EQ(h(get(get(arr, ('idx', j)), ('f', pp_))), h(P), True)) is True for j, s1 in found_rounds(st, i) or [(i, st)])
            unk = unk or collects(st, v) or opaque(st, arr)
            ck.verdict('merge-by-identity', name, ok, 'the stored entry %s is used for a parser that is not known to be identical' % pp(E)[:120] + path, unk)
        elif post[0] == 'push' and post[1] == arr:
            new = post[2]
            ok = i == LEN(arr) and get(new, ('f', pp_)) == P
            # the entry is looked for again in the longer list
            unk = unk or get(new, ('f', pp_)) == P and any(x[0] == 'lv' or x[0] == 'elem' for x in subterms(i))
            ck.verdict('new-parser-entry', name, ok, 'the new entry %s is not a fresh one for the given parser' % pp(new)[:200] + path, unk)
        else:
            ck.verdict('merge-by-identity', name, False, 'the list of parsers becomes %s' % pp(post)[:200] + path, unk)
