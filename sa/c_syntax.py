"""C24: a malformed pattern text is reported at the furthest position that could not be continued.

Four parts: what noting a failure does to the parse state (mark_failure); that every failed test of a rule of the
generated parser is noted where it was made, under the name of what was looked for; that the entry reports the noted
position and names; that the line and the column are those of that position."""
from repo import *
from check import *
from c_grammar import Grammar, INP, POS, add_loops, ancestors, char_class, complement, entry_of, structure
from c_load import rendered
from reglang import MAXCP

PERR = 'grammar::parser::pattern_parser::ParseError'
P0, P1, P2 = ('sym', 'p0'), ('sym', 'p1'), ('sym', 'p2')
SELF = ('sym', 'self')


class Marks(Grammar):
    """as Grammar, but the notes of failures are kept as events of the path"""

    def hook(self, top):
        base = Grammar.hook(self, top)

        def f(e, ctx, body, args, st):
            if self.is_mark_failure(body):
                lab = strip_dyn(e.deref(st, args[2]))
                st.events.append(('mark', args[1], lab))
                return [('ret', adt(body['locals'][0][1], 'Failed', ()), st)]
            if is_place(body) and body['id'] != top['id']:
                t = ('call', 'place', strip_dyn(e.deref(st, args[0])), args[1])
                return [('ret', ('tup', (('fld', t, '0'), ('fld', t, '1'))), st)]
            r = base(e, ctx, body, args, st)
            if r is not None and body['path'] in self.rules and body['id'] != top['id'] and args[1][0] == 'mref':
                for _, t, s in r:
                    s.write(args[1][1], args[1][2], ('after', t))
            return r
        return f


def is_place(b):
    """fn(&str, usize) -> (usize, usize)"""
    return (b['kind'] != 'Closure' and b['argc'] == 2 and b['locals'][1] == ['ref', False, ['str']] and b['locals'][2] == ['int', 'usize']
            and b['locals'][0] in (['tuple', [['int', 'usize'], ['int', 'usize']]], ['tup', [['int', 'usize'], ['int', 'usize']]]))


# ---------------------------------------------------------------- the parse state
def state_fields(ck, ty):
    ns = [n for n, t in ck.repo.fields(ty) if t == ['int', 'usize']]
    ss = [n for n, t in ck.repo.fields(ty) if t[0] == 'adt' and t[1].split('::')[-1] in ('HashSet', 'BTreeSet')]
    if len(ns) != 1 or len(ss) != 1:
        raise Undecided('the parse state keeps something else than one position and one set')
    return ns[0], ss[0]


def labels(t, old):
    """('empty' | 'old' | '?', what was put in)"""
    xs = set()
    t = strip_dyn(t)
    while t[0] == 'sinsert':
        xs.add(strip_dyn(t[2]))
        t = strip_dyn(t[1])
    if t == ('map', ()):
        return 'empty', xs
    if t == old:
        return 'old', xs
    return '?', xs


def mark_failure(ck, g):
    bs = [b for b in ck.repo.p.raw['bodies'] if g.is_mark_failure(b)]
    if len(bs) != 1:
        raise Undecided('%d functions note failures' % len(bs))
    b = bs[0]
    ty = b['implself'][1]
    fpos, fset = state_fields(ck, ty)
    root = ('arg', 'self')
    self_ = SELF
    M, X = get(self_, ('f', fpos)), get(self_, ('f', fset))
    name = 'mark_failure'
    n = 0
    for k, v, st in ck.run(ck.repo.engine(), b):
        if k == 'panic':
            continue
        now = st.store.get(root)
        if now is None:
            raise Undecided('the parse state was not found among the places of %s' % name)
        m2, x2 = get(now, ('f', fpos)), get(now, ('f', fset))
        base, put = labels(x2, X)
        unk = bool(unknown_calls(st)) or bool(loops_of(st)) or base == '?' or opaque_in(m2) is not None
        for case, cond in (('further', LE(add(M, INT(1)), P1)), ('same', eq0(sub(P1, M))), ('nearer', LE(add(P1, INT(1)), M))):
            f = st.facts.copy()
            if not f.assume(cond, True):
                continue
            n += 1
            if case == 'further':
                ck.verdict('noting', name + ': a failure further on moves the position', m2 == P1, 'the position becomes %s' % pp(m2)[:80], unk)
                ck.verdict('noting', name + ': a failure further on replaces the names', base == 'empty' and put == {P2}, 'the names become %s' % pp(x2)[:100], unk)
            elif case == 'same':
                ck.verdict('noting', name + ': a failure at the same position keeps it', m2 in (P1, M), 'the position becomes %s' % pp(m2)[:80], unk)
                ck.verdict('noting', name + ': a failure at the same position adds its name', base == 'old' and put == {P2}, 'the names become %s' % pp(x2)[:100], unk)
            else:
                ck.verdict('noting', name + ': a failure before the position changes nothing', m2 == M and base == 'old' and not put,
                           'the state becomes %s, %s' % (pp(m2)[:80], pp(x2)[:100]), unk)
    if not n:
        raise Undecided('no path of %s' % name)
    # where it starts
    for c in ck.repo.p.raw['bodies']:
        if c['kind'] != 'Closure' and c['locals'][0][0] == 'adt' and c['locals'][0][1] == ty and c['argc'] == 0:
            for k, v, st in ck.run(ck.repo.engine(), c):
                if k != 'ret' or strip_dyn(v)[0] != 'adt':
                    continue
                m2, x2 = get(v, ('f', fpos)), get(v, ('f', fset))
                ck.verdict('noting', 'a new state is empty', m2 == INT(0) and labels(x2, None) == ('empty', set()), 'it is %s' % pp(v)[:100], bool(unknown_calls(st)))
    return ty, fpos, fset


# ---------------------------------------------------------------- the rules
class Round:
    """the tests and the notes of one path of a rule, or of one round of a loop of it"""

    def __init__(self, facts, events, kind, pos, where, new=None):
        self.facts, self.kind, self.pos, self.where, self.new = facts, kind, pos, where, new
        self.marks = [(q, l) for _, q, l in [x for x in events if x[0] == 'mark']]
        self.opaque = False
        self.lits, self.short, self.chars, self.subs, self.conv = {}, {}, {}, set(), []
        self.vague = set()
        used = set()
        for a, pol in facts:
            self.atom(a, pol)
        terms = [pos] if pos else []
        terms += [t for t in (new or {}).values() if isinstance(t, tuple)]
        terms += [x for a, pol in facts for x in subterms(a)] + [q for q, l in self.marks]
        for t in terms:
            for x in subterms(t):
                if x[0] == 'lin':
                    for y, c in x[2]:
                        if y[0] == 'lenutf8':
                            q = char_at(y[1])
                            if q is not None:
                                used.add(q)
        self.consumed = used

    def atom(self, a, pol):
        k = a[0]
        if k == 'is' and a[1][0] == 'rule':
            if (a[2] == 'Failed') == pol:
                self.subs.add(a[1][3])
            return
        if k == 'is' and a[1][0] == 'call' and a[1][1].split('::')[-1] in ('from_str', 'parse'):
            if (a[2] == 'Err') == pol and a[1][2][0] == 'slice' and a[1][2][1] == INP:
                self.conv.append(a[1][2])
            return
        if k == 'at' and a[1] == INP and a[3][0] == 'str':
            if not pol:
                self.lits.setdefault(a[2], set()).add(a[3][1])
            return
        if k in ('le0', 'eq0'):
            t = a[1] if a[1][0] == 'lin' else ('lin', 0, ((a[1], 1),))
            items = dict(t[2])
            cs = [x for x in items if char_at(x) is not None]
            if len(items) == 1 and cs:
                self.chars.setdefault(char_at(cs[0]), []).append((a, pol, cs[0]))
                return
            n = items.get(LEN(INP))
            if n in (1, -1):
                p = add(t, LEN(INP)) if n == -1 else scale(sub(t, LEN(INP)), -1)     # position + c
                c = p[1] if p[0] == 'lin' else p[1] if p[0] == 'int' else 0
                q = sub(p, INT(c))
                if k == 'le0' and n == -1 and c >= 1:
                    if not pol:
                        self.short.setdefault(q, set()).add(c)
                    return
                if k == 'le0' and n == 1 and c >= 0:
                    # length <= position + c
                    if pol:
                        self.short.setdefault(q, set()).add(1 + c)
                    return
                if k == 'eq0' and c == 0:
                    if pol:
                        self.short.setdefault(q, set()).add(1)
                    return
        if k == 'call' and char_class(a) is not None and len(a) > 2 and char_at(a[2]) is not None:
            self.chars.setdefault(char_at(a[2]), []).append((a, pol, a[2]))
            return
        if k == 'in' and char_at(a[1]) is not None:
            self.chars.setdefault(char_at(a[1]), []).append((a, pol, a[1]))
            return
        for x in subterms(a):
            if x[0] == 'slice' and x[1] == INP:
                self.vague |= {x[2], x[3]}
            if x == INP:
                self.vague.add('text')

    def failed_at(self):
        """positions at which a test of the text failed"""
        r = set(self.lits) | set(self.short)
        return r | {q for q in self.chars if q not in self.consumed}


def scale(t, n):
    return sub(INT(0), t) if n == -1 else t


def char_at(x):
    if x[0] in ('elem', 'idx') and x[1][0] == 'chars' and x[2] == INT(0):
        s = x[1][1]
        if s == INP:
            return INT(0)
        if s[0] == 'slice' and s[1] == INP and s[3] == LEN(INP):
            return s[2]
    return None


def rounds(g, r):
    b = g.rules[r]
    out = []
    seen = set()
    for p in g.paths(r):
        out.append(Round(p.facts, p.st.events, p.kind, p.pos, 'path'))
        for L in p.loops.values():
            if L.key in seen:
                continue
            seen.add(L.key)
            for bk in L.backs:
                out.append(Round(bk['facts'], bk['events'], 'round', None, 'round', bk['new']))
    return out


def beyond(q, r):
    """something failed, and was noted, further on on the same path"""
    for q2 in [m for m, _ in r.marks] + list(r.subs):
        if q2 != q and q in ancestors(q2):
            return True
    return False


def class_of(label):
    """'[a-z_.]' -> the set of code points, or None"""
    if len(label) < 3 or label[0] != '[' or label[-1] != ']' or label[1] == '^':
        return None
    s, i, r = label[1:-1], 0, set()
    while i < len(s):
        if i + 2 < len(s) and s[i + 1] == '-':
            if ord(s[i]) > ord(s[i + 2]):
                return None
            r |= set(range(ord(s[i]), ord(s[i + 2]) + 1))
            i += 3
        else:
            r.add(ord(s[i]))
            i += 1
    return r


def char_sat(a, pol, x, c):
    """does the character c satisfy the test? None when unknown"""
    k = a[0]
    if k in ('le0', 'eq0'):
        t = a[1] if a[1][0] == 'lin' else ('lin', 0, ((a[1], 1),))
        v = t[1] + dict(t[2])[x] * c
        return ((v <= 0) if k == 'le0' else (v == 0)) == pol
    if k == 'call':
        return any(lo <= c <= hi for lo, hi in char_class(a)) == pol
    if k == 'in':
        s = a[2]
        while s[0] in ('elems', 'chars', 'arr'):
            s = s[1]
        if s[0] == 'str':
            return (chr(c) in s[1]) == pol
        if s[0] == 'vec' and all(y[0] == 'int' for y in s[1]):
            return (c in {y[1] for y in s[1]}) == pol
    return None


def interesting(atoms, want):
    """characters among which the tests and the class cannot change anywhere else"""
    reps = {0, MAXCP} | {c + d for c in want for d in (-1, 0, 1)}
    for a, pol, ch in atoms:
        for y in subterms(a):
            if y[0] in ('lin', 'int') and isinstance(y[1], int):
                reps |= {abs(y[1]) + d for d in (-1, 0, 1)}
        if a[0] == 'call':
            reps |= {z + d for iv in char_class(a) for z in iv for d in (-1, 0, 1)}
        if a[0] == 'in':
            reps |= {ord(z) + d for y in subterms(a[2]) if y[0] == 'str' for z in y[1] for d in (-1, 0, 1)}
            reps |= {y[1] + d for y in subterms(a[2]) if y[0] == 'int' for d in (-1, 0, 1)}
    return {c for c in reps if 0 <= c <= MAXCP and not 0xD800 <= c < 0xE000}


def taken(atoms, labs):
    """the tests may have found what the name says (a character that must not follow, say)"""
    for lab in labs:
        want = class_of(lab)
        if want is None:
            return True
        if any(c in want and not any(char_sat(a, pol, ch, c) is False for a, pol, ch in atoms) for c in interesting(atoms, want)):
            return True
    return not labs


def one_rule(ck, g, r, st):
    fn = r.split('::')[-1]
    rs = rounds(g, r)
    marked = {q for x in rs for q, _ in x.marks}
    classes = {}
    ok = 0
    for x in rs:
        failed = x.failed_at()
        at = {}
        for q, l in x.marks:
            at.setdefault(q, set()).add(l)
        # every failed test is noted where it failed
        for q in failed:
            what = ', '.join(sorted(repr(l) for l in x.lits.get(q, ()))) or ('a character' if q in x.chars or q in x.short else '')
            if q in at or q in x.subs or beyond(q, x):
                ok += 1
                continue
            if q in x.chars and q not in x.lits and q not in x.short and taken(x.chars[q], [l[1] for y in rs for m, l in y.marks if m == q and l[0] == 'str']):
                ok += 1
                continue
            msg = 'the test for %s at %s fails without being noted%s' % (what, pp(q)[:80], ' (noted: %s)' % ', '.join(pp(m)[:60] for m in at) if at else '')
            if x.kind == 'Failed':
                if q in x.vague or 'text' in x.vague or x.opaque:
                    ck.unk('noted', fn, msg)
                else:
                    ck.bad('noted', '%s: %s' % (fn, what), msg)
            elif q in marked:
                # another path of the rule notes it
                ck.bad('noted', '%s: %s' % (fn, what), msg)
        # a number that does not fit
        for s in x.conv:
            if x.kind != 'Failed':
                continue
            ls = at.get(s[3], set()) | at.get(s[2], set())
            tests = len(x.lits.get(s[3], ())) + (1 if s[3] in x.chars or s[3] in x.short else 0)
            if ls and (tests == 0 or len(ls) > tests):
                ok += 1
            else:
                ck.bad('noted', '%s: number' % fn, 'a number that does not fit is not noted as such')
        # nothing else is noted
        for q, ls in at.items():
            if q in failed:
                ok += 1
                for l in ls:
                    if l[0] != 'str':
                        ck.unk('named', fn, 'the name %s is not a constant' % pp(l)[:80])
                        continue
                    lits = x.lits.get(q, set())
                    other = q in x.chars or any(n == len(l[1].encode()) or n == 1 for n in x.short.get(q, ()))
                    conv = any(q in (s[2], s[3]) for s in x.conv)
                    if lits and l[1] not in lits and not other and not conv and not (q in x.vague or 'text' in x.vague):
                        ck.bad('named', '%s: %s' % (fn, l[1]), 'the failed test for %s is named %r' % (', '.join(sorted(map(repr, lits))), l[1]))
                    elif q in x.short and not x.chars.get(q) and not lits and all(n > 1 and n != len(l[1].encode()) for n in x.short[q]) and not conv:
                        ck.bad('named', '%s: %s' % (fn, l[1]), 'a test for %s bytes is named %r' % (sorted(x.short[q]), l[1]))
                    else:
                        ok += 1
                    if l[1][:1] == '[' and q in x.chars and q not in lits:
                        classes.setdefault((q, l[1]), []).append(x)
            elif any(q in (s[2], s[3]) for s in x.conv):
                ok += 1
            elif q in x.vague or 'text' in x.vague:
                ck.unk('noted', fn, 'the test behind the note at %s was not understood' % pp(q)[:80])
            else:
                ck.bad('noted', '%s: %s' % (fn, '/'.join(sorted(l[1] for l in ls if l[0] == 'str'))), 'a failure is noted at %s, where no test failed' % pp(q)[:80])
    for (q, lab), xs in classes.items():
        want = class_of(lab)
        if want is None:
            continue
        reps = interesting([t for x in xs for t in x.chars[q]], want)
        fails = set()
        unk = False
        for x in xs:
            for c in reps:
                sat = [char_sat(a, pol, ch, c) for a, pol, ch in x.chars[q]]
                if False in sat:
                    continue
                unk = unk or None in sat
                fails.add(c)
        bad = fails & want
        lost = {c for c in reps if c not in want} - fails
        ck.verdict('named', '%s: %s' % (fn, lab), not bad and not lost,
                   'the name %s does not say what is looked for: %s' % (lab, ', '.join(['%r is refused' % chr(c) for c in sorted(bad)[:3]] + ['%r is taken' % chr(c) for c in sorted(lost)[:3]])), unk)
    ck.holds('noted', fn, '%d notes and failed tests agree' % ok)
    # the rule keeps its hands off the state
    for p in g.paths(r):
        for root, t in p.st.store.items():
            t = strip_dyn(t)
            if root != ('arg', 'p1'):
                continue
            base = t
            while base[0] == 'upd':
                base = base[1]
            if base != t:
                direct(ck, fn, t, p, st)


def direct(ck, fn, t, p, st):
    """fields of the parse state written outside mark_failure"""
    ty, fpos, fset = st
    base = t
    while base[0] == 'upd':
        base = base[1]
    old, new = get(base, ('f', fpos)), get(t, ('f', fpos))
    if old != new and p.st.facts.decide(LE(old, new)) is not True:
        if p.st.facts.decide(LE(add(new, INT(1)), old)) is True or new[0] == 'int' or new == POS:
            ck.bad('noted', fn + ': state', 'the furthest position is set to %s, whatever was noted before' % pp(new)[:80])
            return
    x0, x1 = get(base, ('f', fset)), get(t, ('f', fset))
    if old == new and labels(x1, x0)[0] == 'empty':
        ck.bad('noted', fn + ': state', 'the names noted so far are dropped')
        return
    ck.unk('noted', fn + ': state', 'the rule writes the parse state itself')


# ---------------------------------------------------------------- the report
def report(ck, g, st):
    b = entry_of(ck)
    if b is None:
        raise Undecided('the function that parses a whole pattern text was not recognised')
    ty, fpos, fset = st
    n = 0
    for k, v, s in g.run(b):
        v = strip_dyn(v)
        if k != 'ret' or not (v[0] == 'adt' and v[2] == 'Err'):
            continue
        er = strip_dyn(v[3][0][1])
        if er[0] != 'adt':
            ck.unk('report', 'pattern', 'the error %s was not understood' % pp(er)[:100])
            continue
        n += 1
        aft = [strip_dyn(x) for t in s.store.values() for x in [strip_dyn(t)] if x[0] == 'after']
        subs = [a[1] for a, pol in s.facts.list if a[0] == 'is' and a[1][0] == 'rule']
        S = ('after', subs[-1]) if subs else None
        unk = S is None or bool(unknown_calls(s, ('place',))) or len(subs) != 1
        m, x = (get(S, ('f', fpos)), get(S, ('f', fset))) if S else (None, None)
        place = ('call', 'place', INP, m)
        fl = dict(er[3])
        for f, want in (('offset', m), ('expected', x), ('line', ('fld', place, '0')), ('column', ('fld', place, '1'))):
            if f not in fl:
                ck.unk('report', 'pattern: ' + f, 'no such field')
                continue
            got = strip_dyn(fl[f])
            ck.verdict('report', 'pattern: ' + f, got == want, '%s is %s' % (f, pp(got)[:150]), unk or opaque_in(got, ('place',)) is not None or (f in ('line', 'column') and not mentions_place(got)))
    if not n:
        raise Undecided('no path of the entry reports an error')


def mentions_place(t):
    return any(x[0] == 'call' and x[1] == 'place' for x in subterms(t)) or t[0] == 'int' or t[0] == 'fld'


def shown(ck):
    b = ck.repo.impl('std::fmt::Display', 'fmt', PERR)
    n = 0
    L, C = get(SELF, ('f', 'line')), get(SELF, ('f', 'column'))
    from c_load import loose_write
    for k, v, st in ck.run(ck.repo.engine(), b):
        if k != 'ret' or strip_dyn(v)[0] == 'adt' and strip_dyn(v)[2] == 'Err' and loose_write(st):
            continue
        n += 1
        ps = rendered(st)
        unk = any(p[0] == '?' for p in ps)
        at = [i for i, (kd, x) in enumerate(ps) if kd == 'arg' and strip_dyn(x) in (L, C)]
        vals = [strip_dyn(ps[i][1]) for i in at]
        ck.verdict('shown', 'line and column', L in vals and C in vals, 'the text shows %s' % ', '.join(pp(x[1])[:40] if isinstance(x[1], tuple) else str(x[1]) for x in ps)[:150], unk)
        if L in vals and C in vals:
            ck.verdict('shown', 'the line comes first', vals.index(L) < vals.index(C), 'the column is shown before the line', unk)
        r = names_shown(st, ps)
        ck.verdict('shown', 'the expected names', r is None, 'the way they are shown was not understood' if r == '?' else r or '', unk or r == '?')
    if not n:
        raise Undecided('no path shows a syntax error')


EXPECTED = get(SELF, ('f', 'expected'))


def names_in(ps):
    return {x[2] for kd, t in ps if kd == 'arg' for x in subterms(t) if x[0] in ('idx', 'elem') and base_of(x[1]) == EXPECTED}


def base_of(t):
    while t[0] in ('elems', 'iter', 'sort', 'sortby', 'collect', 'cloned', 'copied', 'mapelems', 'peekable') and len(t) > 1 and isinstance(t[1], tuple):
        t = t[1]
    return t


def plain(a, xs):
    """a comparison of these numbers, or several of them"""
    if a[0] in ('le0', 'eq0'):
        return a[1] in xs or a[1][0] == 'lin' and all(x in xs for x, c in a[1][2])
    return a[0] in ('and', 'or', 'not') and all(plain(x, xs) for x in a[1:] if isinstance(x, tuple))


def names_shown(st, ps):
    """what is missing from the names a path shows (None: nothing, '?': not known)"""
    f, n = st.facts, LEN(EXPECTED)
    if f.decide(eq0(n)) is True:
        return None
    const = {x[1] for x in names_in(ps) if x[0] == 'int'}
    k = 0
    while k in const:
        k += 1
    if k and f.decide(LE(n, INT(k))) is True:
        return None
    class Part:
        pass
    walked, whole = False, False
    for L in loops_of(st):
        for pl, (init, lv) in L.places.items():
            if not (pl[1] and pl[1][-1] == ('k',)):
                continue
            rounds = []
            for bk in L.backs:
                q = Part()
                q.events = bk['events']
                rounds.append((rendered(q), bk))
            offs = {sub(x[2], lv) for r, bk in rounds for t in [y for kd, y in r if isinstance(y, tuple)] + [a for a, pol in bk['facts']]
                    for x in subterms(t) if x[0] in ('idx', 'elem') and base_of(x[1]) == EXPECTED}
            offs = {c[1] for c in offs if c[0] == 'int'}
            if len(offs) != 1:
                continue
            at = add(lv, INT(offs.pop()))
            walked = True
            for r, bk in rounds:
                if at not in names_in(r):
                    return '?' if any(kd == '?' for kd, y in r) or any(opaque_in(a, ('Formatter::write_fmt', 'Formatter::write_str')) for a, pol in bk['facts']) else 'a name is passed over'
                if bk['new'].get(pl) != add(lv, INT(1)):
                    return '?'
            first = subst(at, {lv: init})
            if first[0] != 'int' or first[1] < 0:
                return '?'
            if first[1] > k:
                return 'the names before number %d are left out' % (first[1] + 1)
            if f.decide(LE(n, at)) is True:
                return None
            own = [a for a, pol in f.list if lv in list(subterms(a))]
            if own and all(plain(a, (lv, n)) for a in own):
                return 'the names from some number on are left out'
    for t in [y for kd, y in ps if isinstance(y, tuple)]:
        for x in subterms(t):
            if x == EXPECTED:
                whole = whole or not any(x2[0] in ('idx', 'elem') for x2 in subterms(t))
    if walked or whole or loops_of(st):
        return '?'
    return 'not every name that was expected is shown'


# ---------------------------------------------------------------- line and column
NL = (('int', 10), ('str', '\n'))


def position(ck):
    bs = [b for b in ck.repo.p.raw['bodies'] if is_place(b) and b['path'].startswith('grammar')]
    if len(bs) != 1:
        raise Undecided('%d functions turn a position into a line and a column' % len(bs))
    e = ck.repo.engine()

    def pre(st, args):
        st.facts.background(LE(P1, LEN(P0)))
        st.facts.background(LE(INT(0), P1))
        e.add_bnd(st, P0, P1)
    outs = ck.run(e, bs[0], pre=pre)
    asserted = [v['detail'] for k, v, st in outs if k == 'panic' and v['kind'].startswith('assert:overflow')]
    outs = [(v, st) for k, v, st in outs if k == 'ret']
    name = bs[0]['path'].split('::')[-1]
    if not outs:
        raise Undecided('no path of %s' % name)
    for v, st in outs:
        v = strip_dyn(v)
        if v[0] != 'tup' or len(v[1]) != 2:
            ck.unk('place', name, 'result %s' % pp(v)[:100])
            continue
        if empty_split(st):
            continue
        ls = loops_of(st)
        w = walk_of(ls[0]) if len(ls) == 1 else None
        if w is not None and lines_of(w[0]) is not None and lines_of(w[0])[1] == P0:
            by_lines(ck, name, v[1], st, ls[0], w, asserted)
        else:
            by_prefix(ck, name, v[1], st, ls)


def lines_of(src):
    """(kind, text, separator) of a source of lines"""
    while src[0] in ('enumerate', 'peekable', 'fuse'):
        src = src[1]
    if src[0] == 'call' and src[1] in ('str::split', 'str::lines', 'str::split_terminator', 'str::rsplit'):
        return src[1].split('::')[-1], src[2], src[3] if len(src) > 3 else None
    if src[0] in ('lines', 'split', 'split_terminator'):
        return src[0], src[1], src[2] if len(src) > 2 else None
    return None


def empty_split(st):
    """the path says that splitting a text gives nothing"""
    return any(a[0] == 'le0' and not pol and len([x for x in subterms(a) if x[0] == 'len' and lines_of(x[1]) and lines_of(x[1])[0] in ('split', 'rsplit')]) == 1
               and a == LE(INT(1), [x for x in subterms(a) if x[0] == 'len' and lines_of(x[1])][0]) for a, pol in st.facts.list)


def walk_of(L):
    """(source, index variable, start) of the sequence a loop walks"""
    for (root, path), (init, lv) in L.places.items():
        if not path or path[-1] != ('k',):
            continue
        src = getattr(L, 'src', None)
        if src:
            return src, lv, init
        for bk in L.backs:
            for t in [a for a, pol in bk['facts']] + [t for t in bk['new'].values() if isinstance(t, tuple)]:
                for x in subterms(t):
                    if x[0] in ('elem', 'more') and x[2] == lv:
                        return x[1], lv, init
                    if x[0] == 'idx' and x[2] == lv:
                        return ('elems', x[1]), lv, init
    return None


def by_lines(ck, name, res, st, L, w, asserted):
    """a walk over the lines, taking the length of each and one off the position"""
    src, k, k0 = w
    if k0 != INT(0):
        raise Undecided('the loop of %s starts in the middle' % name)
    kind, text, sep = lines_of(src)
    f = st.facts
    # a place that grows by one every round is its start plus the index
    sub_, acc = {}, {}
    for pl, (init, lv) in L.places.items():
        if lv == k or lv[0] != 'lv':
            continue
        ns = [bk['new'][pl] for bk in L.backs]
        if ns and all(n == add(lv, INT(1)) for n in ns):
            sub_[lv] = add(init, k)
        else:
            acc[lv] = (init, ns)
    line, col = [subst(x, sub_) for x in res]
    e = [x for bk in L.backs for a, pol in bk['facts'] for x in subterms(a) if x[0] in ('elem', 'idx') and x[2] == k and lines_of(x[1])]
    ll = LEN(e[0]) if e else LEN(('elem', src, k))
    if len(acc) != 1:
        raise Undecided('%s keeps %d running numbers' % (name, len(acc)))
    (lv, (init, ns)), = acc.items()
    step = add(ll, INT(1))
    if init == P1 and all(n == sub(lv, step) for n in ns):
        rem = lv
    elif init == INT(0) and all(n == add(lv, step) for n in ns):
        rem = sub(P1, lv)
    elif init in (P1, INT(0)) and all(linear(n, lv, ll) for n in ns):
        return ck.bad('place', name + ': lines', 'a line and its line break do not count as its length and one: %s becomes %s' % (pp(init), ', '.join(pp(n)[:80] for n in ns)))
    else:
        return ck.unk('place', name + ': lines', 'the running number is not understood')
    if kind == 'lines':
        ck.bad('place', name + ': line breaks', 'lines() also takes off the \\r of a \\r\\n, which then counts for nothing: every position behind it is off by one')
    else:
        ck.verdict('place', name + ': line breaks', sep in NL, 'lines end at %s' % pp(sep)[:40], sep[0] not in ('int', 'str'))
    for bk in L.backs:
        within = LE(add(ll, INT(1)), rem)
        d = bk['state'].facts.decide(within) if within not in asserted and NOT(LT(rem, add(ll, INT(1)))) not in asserted else None     # known only where nothing overflowed
        ck.verdict('place', name + ': passed over', d is True, 'a line that may hold the position is passed over',
                   any(opaque_in(a, ('str::split', 'str::split_terminator')) is not None for a, pol in bk['facts']))
    if f.decide(('more', src, k)) is False and kind == 'split':
        return          # the lines and their breaks are the whole text: a position in it is found before they end
    ck.verdict('place', name + ': line', line == add(k, INT(1)), 'the line of index k is given as %s' % pp(line)[:80], not lin_in(line, (k, lv)))
    ck.verdict('place', name + ': column', eqt(col, add(rem, INT(1))), 'the column is given as %s' % pp(col)[:80], not lin_in(col, (k, lv)))
    if f.decide(('more', src, k)) is True:
        ck.verdict('place', name + ': found', f.decide(LE(rem, ll)) is True, 'a position that is not in the line is taken for one', bool(unknown_calls(st, ('str::split', 'str::split_terminator'))))


def linear(n, lv, ll):
    d = sub(n, lv)
    return d[0] == 'int' or d[0] == 'lin' and all(t == ll for t, c in d[2])


def lin_in(t, xs):
    return t[0] == 'int' or t in xs or t[0] == 'lin' and all(x in xs or x in (P1,) for x, c in t[2])


def eqt(a, b):
    return a == b or sub(a, b) == INT(0)


PRE = SLICE(P0, INT(0), P1)


def counters(st, ls):
    """what the loops over the text before the position count: {variable: ('breaks', n)} (breaks = variable + n),
    ('since', n) (distance from the last break = variable + n) or ('other',)"""
    r = {}
    for L in ls:
        w = walk_of(L)
        if w is None:
            continue
        src, k, k0 = w
        if k0 != INT(0):
            continue
        lo = lines_of(src)
        if lo and lo[1] == PRE:
            if st.facts.decide(('more', src, k)) is not False:
                continue
            for pl, (init, lv) in L.places.items():
                ns = [bk['new'][pl] for bk in L.backs]
                if lv[0] == 'lv' and init[0] == 'int' and all(n == add(lv, INT(1)) for n in ns):
                    r[lv] = ('breaks', -1 - init[1]) if lo[0] in ('split', 'rsplit') and lo[2] in NL else ('other',)
            continue
        base = src
        while base[0] in ('copied', 'cloned', 'elems', 'enumerate', 'cidx'):
            base = ('chars', base[1]) if base[0] == 'cidx' else base[1]
        if base not in (('chars', PRE), ('bytes', PRE)):
            continue
        if src[0] == 'elems':
            done = st.facts.decide(LE(LEN(base), k))
            es = (get(src[1], ('idx', k)), ('idx', src[1], k))
        else:
            done = st.facts.decide(('more', base, k))
            done = None if done is None else not done
            es = (('elem', base, k), ('elem', src, k))
        if done is not True:
            continue
        for pl, (init, lv) in L.places.items():
            if lv[0] != 'lv' or init[0] != 'int' or lv == k:
                continue
            steps = []
            for bk in L.backs:
                d = [x for x in [bk['state'].facts.decide(eq0(sub(e, INT(10)))) for e in es] if x is not None]
                steps.append((d[0] if d else None, bk['new'][pl]))
            if any(d is None for d, n in steps):
                continue
            if all(n == (add(lv, INT(1)) if d else lv) for d, n in steps):
                r[lv] = ('breaks', -init[1])
            elif all(n == (init if d else add(lv, INT(1))) for d, n in steps):
                r[lv] = ('since', -init[1]) if base[0] == 'bytes' else ('other',)      # characters are not bytes
            elif all(n[0] == 'int' or sub(n, lv)[0] == 'int' for d, n in steps):
                r[lv] = ('other',)
    return r


def by_prefix(ck, name, res, st, ls):
    """1 + line breaks before the position; 1 + distance from the last one"""
    f = st.facts
    line, col = res
    cs = counters(st, ls)
    for t in list(subterms(line)) + list(subterms(col)):
        if t[0] == 'len' and t[1][0] == 'call' and t[1][2:3] == (PRE,):
            if t[1][1] == 'str::matches':
                cs[t] = ('breaks', 0) if t[1][3] in NL else ('other',)
            elif t[1][1] in ('str::split', 'str::rsplit'):
                cs[t] = ('breaks', -1) if t[1][3] in NL else ('other',)
        if t[0] == 'len' and t[1][0] == 'lines' and t[1][1] == PRE:
            cs[t] = ('other',)
        if t[0] == 'len' and t[1][0] == 'idx' and t[1][2] == INT(0) and t[1][1][0] == 'call' and t[1][1][1] == 'str::rsplit' and t[1][1][2] == PRE:
            cs[t] = ('since', 0) if t[1][1][3] in NL else ('other',)
        if t[0] == 'bpos' and t[1] == PRE and isinstance(t[2], tuple) and t[2][0] in ('rfind', 'find'):
            cs[t] = ('at', 0) if t[2] in (('rfind', NL[0]), ('rfind', NL[1])) else ('other',)
    none = any(a[0] == 'is' and a[1][0] == 'rfind' and a[1][1] == PRE and a[1][2] in NL and (a[2] == 'None') == pol for a, pol in f.list)

    def one(t, what):
        vs = [x for x in cs if x in list(subterms(t))]
        vs = [x for x in vs if not any(y != x and x in list(subterms(y)) for y in vs)]
        if not vs:
            if t[0] == 'int':
                return False if what == 'line' and not none else (t == INT(1) if what == 'line' else False)
            if none and what == 'column' and lin_in(t, (P1,)):
                return eqt(t, add(P1, INT(1)))
            return None
        if len(vs) != 1:
            return None
        x, c = vs[0], cs[vs[0]]
        if not lin_in(t, (x,)):
            return None
        if c[0] == 'other':
            return False
        if what == 'line':
            return c[0] == 'breaks' and eqt(t, add(x, INT(c[1] + 1)))
        if c[0] == 'since':
            return eqt(t, add(x, INT(c[1] + 1)))
        return c[0] == 'at' and eqt(t, sub(P1, x))
    if not cs:
        raise Undecided('%s: %s not understood' % (name, pp(('tup', res))[:150]))
    ck.verdict('place', name + ': line', one(line, 'line'), 'the line is given as %s' % pp(line)[:100])
    ck.verdict('place', name + ': column', one(col, 'column'), 'the column is given as %s' % pp(col)[:100])


# ---------------------------------------------------------------- C24
def c24(ck):
    g = Marks(ck)
    st = ck.guarded('noting', 'mark_failure', mark_failure, ck, g)
    if st is None:
        ck.unk('noted', 'rules', 'the parse state was not understood')
    else:
        if not g.rules:
            ck.unk('noted', 'rules', 'no rules found')
        for r in sorted(g.rules):
            ck.guarded('noted', r.split('::')[-1], one_rule, ck, g, r, st)
        ck.guarded('report', 'pattern', report, ck, g, st)
    ck.guarded('shown', 'ParseError', shown, ck)
    ck.guarded('place', 'pos_to_line', position, ck)
