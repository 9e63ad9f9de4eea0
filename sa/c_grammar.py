"""Pattern texts: C15 (a text becomes the tokens it spells out), C16 (malformed texts are rejected), C17 (escapes).

The functions of the generated parser are summarised path by path (their callees of the same shape stay symbolic);
the tests on a path are constraints on positions of the text, so every function denotes a regular set of texts with
marked positions.  These sets are compared, exactly, with those of a reference grammar."""
import unicodedata

import json

from repo import *
from check import *
from models import pay
import reglang
from reglang import END, MAXCP, ANY, wp, show, TooBig

ENTRY = 'grammar::parser::pattern_parser::pattern'
INP = ('sym', 'p0')
POS = ('sym', 'p2')


def is_rule(b):
    L = b['locals']
    return (b['kind'] != 'Closure' and b['argc'] == 3 and L[1] == ['ref', False, ['str']] and L[2][0] == 'ref' and L[2][1] is True
            and L[3] == ['int', 'usize'] and L[0][0] == 'adt' and L[0][1].split('::')[-1] == 'RuleResult')


def complement(ivs):
    r, at = [], 0
    for lo, hi in sorted(ivs):
        lo = max(lo, 0)
        if lo > at:
            r.append((at, lo - 1))
        at = max(at, hi + 1)
    if at <= MAXCP:
        r.append((at, MAXCP))
    return tuple(r)


_uni = {}


def uni(pred):
    if pred not in _uni:
        r, start = [], None
        f = {'alphabetic': lambda c: unicodedata.category(c)[0] == 'L' or unicodedata.category(c) == 'Nl',
             'numeric': lambda c: unicodedata.category(c)[0] == 'N',
             'alphanumeric': lambda c: unicodedata.category(c)[0] in 'LN',
             'whitespace': str.isspace,
             'uppercase': lambda c: unicodedata.category(c) == 'Lu',
             'lowercase': lambda c: unicodedata.category(c) == 'Ll',
             'control': lambda c: unicodedata.category(c) == 'Cc'}[pred]
        for c in range(MAXCP + 2):
            ok = c <= MAXCP and f(chr(c))
            if ok and start is None:
                start = c
            elif not ok and start is not None:
                r.append((start, c - 1))
                start = None
        _uni[pred] = tuple(r)
    return _uni[pred]


D, LO, UP = (48, 57), (97, 122), (65, 90)
ASCII = {'digit': (D,), 'alphabetic': (LO, UP), 'alphanumeric': (D, LO, UP), 'uppercase': (UP,), 'lowercase': (LO,),
         'hexdigit': (D, (65, 70), (97, 102)), 'whitespace': ((9, 10), (12, 13), (32, 32)), 'graphic': ((33, 126),),
         'punctuation': ((33, 47), (58, 64), (91, 96), (123, 126)), 'control': ((0, 31), (127, 127))}


def char_class(call):
    """the class a std predicate on characters tests"""
    n = call[1].split('::')[-1]
    if n.startswith('is_ascii_') and n[9:] in ASCII:
        return ASCII[n[9:]]
    if n == 'is_ascii':
        return ((0, 127),)
    if n == 'is_digit' and call[-1] == ('int', 10):
        return (D,)
    if n.startswith('is_') and n[3:] in ('alphabetic', 'numeric', 'alphanumeric', 'whitespace', 'uppercase', 'lowercase', 'control'):
        return uni(n[3:])
    return None


class Path:
    __slots__ = ('facts', 'loops', 'kind', 'pos', 'val', 'st', 'n')


class Grammar:
    flat = True        # flatten_vec as a cut point (its contract is checked by C15)

    def __init__(self, ck):
        self.ck = ck
        self.repo = ck.repo
        self.L = reglang.Lang()
        self.rules = {}
        for b in self.repo.p.raw['bodies']:
            if is_rule(b):
                self.rules[b['path']] = b
        self.cache = {}
        self.wcache = {}
        self.scache = {}
        self.busy = set()
        self.nvar = 0

    # ------------------------------------------------------------ summaries
    def hook(self, top):
        def f(e, ctx, body, args, st):
            if body['path'] in self.rules and body['id'] != top['id']:
                inp = strip_dyn(e.deref(st, args[0]))
                if inp != INP:
                    raise Undecided('a rule works on %s' % pp(inp)[:80])
                pos = args[2]
                t = ('rule', body['path'], inp, pos)
                n = ('pl', t, 'Matched', '0')
                for a in ancestors(pos):
                    st.facts.background(LE(a, n))
                st.facts.background(LE(n, LEN(inp)))
                e.add_bnd(st, inp, n)
                if args[1][0] == 'mref':
                    st.write(args[1][1], args[1][2], ('opq', 'parse state'))
                return [('ret', t, st)]
            if self.is_mark_failure(body):
                if args[0][0] == 'mref':
                    st.write(args[0][1], args[0][2], ('opq', 'parse state'))
                return [('ret', adt(body['locals'][0][1], 'Failed', ()), st)]
            if body['path'].split('::')[-1] == 'slice_eq_case_insensitive' and body['argc'] == 4:
                m = strip_dyn(e.deref(st, args[3]))
                if m[0] == 'str' and m[1].isascii():
                    outs = []
                    for b, s2 in e.fork(st, ('atci', INP, args[2], m)):
                        ok = (('0', add(args[2], INT(len(m[1])))), ('1', ('tup', ())))
                        outs.append(('ret', adt(body['locals'][0][1], 'Matched', ok) if b else adt(body['locals'][0][1], 'Failed', ()), s2))
                    return outs
            if body['path'] == 'grammar::unescape_literal' and self.flat and body['id'] != top['id']:
                # its contract is checked by C17
                return [('ret', ('replace', strip_dyn(e.deref(st, args[0])), ('str', ESC[0][1]), ('str', ESC[1][1])), st)]
            if body['path'] == 'utils::flatten_vec' and self.flat:
                return [('ret', ('call', 'flatten_vec', strip_dyn(e.deref(st, args[0]))), st)]
            return None
        return f

    def is_mark_failure(self, b):
        """a method that only notes the failure and reports it"""
        L = b['locals']
        if not (b['argc'] == 3 and b.get('implself') and L[1] == ['ref', True, b['implself']] and L[0][0] == 'adt' and L[0][1].split('::')[-1] == 'RuleResult'):
            return False
        if b['path'] not in self.cache:
            outs = self.repo.engine().run_fn(b)
            self.cache[b['path']] = all(k == 'ret' and v[0] == 'adt' and v[2] == 'Failed' for k, v, st in outs)
        return self.cache[b['path']]

    def run(self, b):
        e = self.repo.engine(extra=self.hook(b))

        def pre(st, args):
            if b['argc'] == 3:
                st.facts.background(LE(POS, LEN(INP)))
                st.facts.background(LE(INT(0), POS))
                e.add_bnd(st, INP, POS)
        return self.ck.run(e, b, pre=pre)

    def paths(self, r):
        if r not in self.cache:
            b = self.rules[r]
            res = []
            for k, v, st in self.run(b):
                if k != 'ret':
                    continue
                v = strip_dyn(v)
                p = Path()
                p.facts, p.loops, p.st, p.n = st.facts.list, {}, st, len(res)
                add_loops(p.loops, st)
                if v[0] == 'adt' and v[2] in ('Matched', 'Failed'):
                    p.kind = v[2]
                    p.pos, p.val = (v[3][0][1], v[3][1][1]) if v[2] == 'Matched' else (None, None)
                    res.append(p)
                elif v[0] == 'rule':
                    # the result of another rule handed through
                    for kind in ('Matched', 'Failed'):
                        q = Path()
                        q.facts, q.loops, q.st, q.n = p.facts + [(('is', v, kind), True)], p.loops, st, len(res)
                        q.kind = kind
                        q.pos, q.val = (('pl', v, 'Matched', '0'), ('pl', v, 'Matched', '1')) if kind == 'Matched' else (None, None)
                        res.append(q)
                else:
                    raise Undecided('%s: result %s not understood' % (r.split('::')[-1], pp(v)[:120]))
            self.cache[r] = res
        return self.cache[r]

    # ------------------------------------------------------------ languages
    def at_start_only(self, r):
        """only the function that parses a whole text applies this rule"""
        if not isinstance(r, str) or r not in self.rules:
            return False
        return not any(json.dumps(r) in json.dumps(b) for p, b in self.rules.items() if p != r and not p.startswith(r + '::'))

    def W(self, r, k, skel=None, mark=None):
        """texts on which rule r matches (with a value of the given shape, the asked-for position marked) and the rest is in k"""
        key = (r, k, skel, mark)
        if key in self.wcache:
            return self.wcache[key]
        if r in self.busy:
            raise Undecided('%s calls itself' % r.split('::')[-1])
        self.busy.add(r)
        try:
            res = self.L.ZERO
            for p in self.paths(r):
                if p.kind != 'Matched':
                    continue
                if skel is None:
                    res = self.L.disj(res, PathLang(self, p.facts, p.loops, POS, [(p.pos, k)], (r, p.n, k, None)).lang())
                    continue
                for s, reqs, holes in self.shapes(r, p):
                    if s != skel:
                        continue
                    ends = [(p.pos, k)]
                    sub = {q: (r2, s2, None) for q, r2, s2 in reqs}
                    if mark is not None and mark != 'end':
                        h = holes[mark[0]]
                        if h[0] == 'own':
                            ends.append((h[1 + mark[1]], self.L.marked()))
                        else:
                            sub[h[1]] = (h[2], h[3], (h[4], mark[1]))
                    if mark == 'end':
                        ends.append((p.pos, self.L.marked()))
                    res = self.L.disj(res, PathLang(self, p.facts, p.loops, POS, ends, (r, p.n, k, skel, mark), sub).lang())
            self.wcache[key] = res
        finally:
            self.busy.discard(r)
        return res

    # ------------------------------------------------------------ values
    def skeletons(self, r):
        if r not in self.scache:
            res = []
            for p in self.paths(r):
                if p.kind == 'Matched':
                    for s, reqs, holes in self.shapes(r, p):
                        if (s, len(holes)) not in res:
                            res.append((s, len(holes)))
            self.scache[r] = res
        return self.scache[r]

    def rty(self, r):
        return str(self.rules[r]['locals'][0])

    def shapes(self, r, p):
        """[(shape, required shapes of sub-rules, holes)] of the value on a path"""
        return [(s, reqs, holes) for s, reqs, holes in self.shape(p.val, p)]

    def shape(self, v, p):
        v = strip_dyn(v)
        if v[0] in ('pl', 'slice') and no_escape(v, p.facts):
            # nothing to replace in it
            return [(('replace', s) + ESC, reqs, holes) for s, reqs, holes in self.shape_(v, p)]
        return self.shape_(v, p)

    def shape_(self, v, p):
        t = changed_text(v)
        if t is not None:
            return self.combine(t[0], [t[1]], p)
        if v == ('tup', ()):
            return [(('unit',), (), ())]
        if v[0] == 'str':
            return [(('text', v[1]), (), ())]
        if v[0] == 'slice' and v[1] == INP:
            c = self.const_text(v, p)
            if c is not None:
                return [(('text', c), (), ())]
            return [(('hole',), (), (('own', v[2], v[3]),))]
        if v[0] == 'pl' and v[1][0] == 'rule' and v[2] == 'Matched' and v[3] == '1':
            r2, q = v[1][1], v[1][3]
            if 'OptionalParameter' in self.rty(r2) and '::Vec' in self.rty(r2):
                return [(('options', r2), (), ())]
            return [(s, ((q, r2, s),), tuple(('sub', q, r2, s, i) for i in range(n))) for s, n in self.skeletons(r2)]
        if v[0] == 'adt':
            name = v[2] or v[1].split('::')[-1]
            if name == 'None' and v[1] == 'Option':
                return [(('none',), (), ())]
            return self.combine(name, [x for _, x in v[3]], p)
        if v[0] == 'vec':
            return self.combine('vec', v[1], p)
        if v[0] == 'push':
            base = v
            xs = []
            while base[0] == 'push':
                xs.insert(0, base[2])
                base = base[1]
            if base == ('vec', ()):
                return self.combine('vec', xs, p)
            if base[0] == 'vec':
                return self.combine('vec', list(base[1]) + xs, p)
        if v[0] == 'call':
            n = v[1].split('::')[-1]
            if n in ('new_set', 'new_int', 'new_greedy'):
                return self.combine(n, v[2:], p)
            if n == 'replace' and len(v) == 5:
                return self.combine('replace', v[2:], p)
            if n == 'replacen':
                return self.combine('replacen', v[2:], p)
        if v[0] in ('replace', 'replacen'):
            return self.combine(v[0], v[1:], p)
        if v[0] == 'slice' and v[1][0] in ('replace', 'replacen') and v[2] == INT(0) and v[3] == LEN(v[1]):
            return self.shape(v[1], p)
        if v[0] == 'int':
            return [(('int', v[1]), (), ())]
        if v[0] == 'pl' and v[2] == 'Ok' and v[1][0] == 'call' and v[1][1].split('::')[-1] in ('from_str', 'parse') and v[3] == '0':
            ty = v[1][3] if len(v[1]) > 3 else 'usize'
            return self.combine('number' if ty in ('usize', 'u64') else 'number of type ' + ty, [v[1][2]], p)
        if v[0] == 'cast' and len(v) >= 2:
            return self.shape(v[-1] if isinstance(v[-1], tuple) else v[1], p)
        raise Undecided('value %s not understood' % pp(v)[:150])

    def combine(self, name, xs, p):
        res = [((name,), (), ())]
        for x in xs:
            sh = self.shape(x, p)
            res = [(s + (s2,), reqs + r2, holes + h2) for s, reqs, holes in res for s2, r2, h2 in sh]
        # the same sub-rule used twice has one value
        out = []
        for s, reqs, holes in res:
            m = {}
            if all(m.setdefault((q, r), sk) == sk for q, r, sk in reqs):
                out.append((s, tuple(dict.fromkeys(reqs)), holes))
        return out

    def const_text(self, v, p):
        """the piece of text is known: a literal was tested at its start, and it has that length"""
        for a, pol in p.facts:
            if pol and a[0] == 'at' and a[1] == INP and a[2] == v[2] and a[3][0] == 'str' and add(v[2], INT(len(a[3][1].encode()))) == v[3]:
                return a[3][1]
        if v[3][0] == 'pl' and v[3][1][0] == 'rule' and v[3][1][3] == v[2]:
            # all that a sub-rule matched, which only matches one text
            return self.const_rule(v[3][1][1])
        return None

    def const_rule(self, r):
        ps = [p for p in self.paths(r) if p.kind == 'Matched']
        if len(ps) != 1:
            return None
        return self.const_text(('slice', INP, POS, ps[0].pos), ps[0])


CHANGES = {'to_lowercase', 'to_uppercase', 'to_ascii_lowercase', 'to_ascii_uppercase', 'repeat', 'escape_default', 'escape_debug'}


def changed_text(v):
    """(name, text) if v is a text changed by a std function that does change some texts"""
    if v[0] == 'call' and len(v) >= 3 and v[1].split('::')[-1] in CHANGES:
        return v[1].split('::')[-1], v[2]
    if v[0] == 'slice' and any(x[0] == 'bpos' and x[1] == v[1] and isinstance(x[2], tuple) and x[2][0] in ('ts', 'te') for x in (v[2], v[3])):
        return 'trim', v[1]
    return None


def ancestors(pos):
    r = [pos]
    while True:
        if pos[0] == 'pl' and pos[1][0] == 'rule':
            pos = pos[1][3]
        elif pos[0] == 'lv' and len(pos) > 3:
            pos = pos[3]
        elif pos[0] == 'lin':
            x = [t for t, c in pos[2] if c == 1 and t[0] != 'lenutf8']
            if len(x) != 1:
                return r
            pos = x[0]
        else:
            return r
        r.append(pos)


def add_loops(d, st):
    for L in loops_of(st):
        if L.key not in d:
            d[L.key] = L
            for bk in L.backs:
                add_loops(d, bk['state'])


def digits_of(t):
    """the part of the text a number is read from, separators taken out"""
    while t[0] == 'replace' and t[2][0] == 'str' and t[2][1] and not any(c.isdigit() for c in t[2][1]) and t[3] == ('str', ''):
        t = t[1]
    return t if t[0] == 'slice' and t[1] == INP else None


class PathLang:
    """the texts on which one path (or one round of a loop) is taken"""

    def __init__(self, g, facts, loops, start, ends, ident, sub=None):
        self.g, self.L, self.facts, self.loops, self.start, self.ident = g, g.L, facts, loops, start, ident
        self.sub = sub or {}
        self.nodes = {}        # position -> list of languages
        self.kids = {}         # position -> {edge: position}
        self.counts = []       # (loop key, atom, polarity)
        self.node(start)
        for a, pol in facts:
            self.atom(a, pol)
        for pos, k in ends:
            self.node(pos)
            self.con(pos, k)

    def con(self, pos, l):
        self.nodes[self.node(pos)].append(l)

    # ---- positions
    def node(self, t):
        if t in self.nodes:
            return t
        if t == self.start:
            self.nodes[t] = []
            self.kids[t] = {}
            return t
        par, edge = self.parent(t)
        par = self.node(par)
        self.nodes[t] = []
        self.kids[t] = {}
        self.kids[par].setdefault(edge, []).append(t)
        return t

    def parent(self, t):
        if t[0] == 'pl' and t[1][0] == 'rule' and t[2] == 'Matched' and t[3] == '0':
            return t[1][3], ('rule', t[1][1])
        if t[0] == 'lv':
            L = self.loops.get(t[1])
            if L is not None and len(t) > 3:
                return t[3], ('loop', t)
        x = self.peel(t)
        if x is not None:
            return x
        raise Undecided('position %s not understood' % pp(t)[:120])

    def peel(self, t):
        if t[0] != 'lin':
            return None
        for x, c in t[2]:
            if c == 1 and x[0] == 'lenutf8':
                q = self.char_at(x[1])
                if q is not None and sub(t, x) == q:
                    return q, ('next',)
        if t[1] > 0:
            b = sub(t, INT(t[1]))
            return b, ('skip', t[1])
        return None

    def char_at(self, x):
        """q if x is the character of the text at position q"""
        if x[0] in ('elem', 'idx') and x[1][0] == 'chars' and x[2] == INT(0):
            s = x[1][1]
            if s == INP:
                return INT(0)
            if s[0] == 'slice' and s[1] == INP and s[3] == LEN(INP):
                return s[2]
        return None

    def is_pos(self, t):
        try:
            self.node(t)
            return True
        except Undecided:
            return False

    # ---- tests
    def atom(self, a, pol):
        L = self.L
        k = a[0]
        if k == 'is':
            t, var = a[1], a[2]
            if t[0] == 'rule':
                matched = (var == 'Matched') == pol
                r, q = t[1], t[3]
                if matched:
                    self.node(('pl', t, 'Matched', '0'))
                else:
                    self.con(q, L.neg(self.g.W(r, L.ONE)))
                return
            if t[0] == 'call' and t[1].split('::')[-1] in ('from_str', 'parse') and digits_of(t[2]):
                ok = (var == 'Ok') == pol
                self.con(digits_of(t[2])[2], L.oracle() if ok else L.neg(L.oracle()))
                return
            if t[0] == 'more' or t[0] == 'rec':
                raise Undecided('test %s not understood' % pp(a)[:120])
        if k == 'at' and a[1] == INP and a[3][0] == 'str':
            l = L.lit(a[3][1], L.ONE)
            self.con(a[2], l if pol else L.neg(l))
            return
        if k == 'atci' and a[1] == INP:
            l = L.ONE
            for ch in reversed(a[3][1]):
                l = L.cls(tuple(sorted({(ord(x), ord(x)) for x in (ch.lower(), ch.upper())})), l)
            self.con(a[2], l if pol else L.neg(l))
            return
        if k in ('eq0', 'le0'):
            t = a[1]
            if t[0] != 'lin':
                t = ('lin', 0, ((t, 1),))
            c, items = t[1], dict(t[2])
            chars = [x for x in items if self.char_at(x) is not None]
            if len(items) == 1 and chars and abs(items[chars[0]]) == 1:
                x = chars[0]
                s = items[x]
                if k == 'eq0':
                    v = -c * s
                    ivs = ((v, v),) if v >= 0 else ()
                elif s == 1:
                    ivs = ((0, -c),) if c <= 0 else ()
                else:
                    ivs = ((max(c, 0), MAXCP),)
                self.con(self.char_at(x), L.cls(ivs if pol else complement(ivs), L.ONE))
                return
            cnt = self.count_atom(items)
            if cnt is not None:
                self.counts.append((cnt[0], k, c, cnt[1], pol))
                return
            cnt = self.moved_atom(a[1])
            if cnt is not None:
                self.counts.append((cnt[0], k, cnt[1], cnt[2], pol))
                return
            n = items.get(LEN(INP))
            if n == -1 and k == 'le0' or n in (1, -1) and k == 'eq0':
                # position + c <= length
                p = add(a[1], LEN(INP)) if n == -1 else neg_(sub(a[1], LEN(INP)))
                cc = p[1] if p[0] == 'lin' else p[1] if p[0] == 'int' else 0
                base = sub(p, INT(cc))
                if cc < 0:
                    raise Undecided('test %s not understood' % pp(a)[:120])
                if base == INT(0) and self.start == POS and self.g.at_start_only(self.ident[0]):
                    base = POS
                self.node(base)
                if k == 'le0':
                    l = L.atleast(cc)
                else:
                    l = L.skip(cc, L.end())
                self.con(base, l if pol else L.neg(l))
                return
            if n == 1 and k == 'le0':
                # length + c <= position  (c >= 0: position is at or behind the end)
                p = neg_(sub(a[1], LEN(INP)))
                cc = p[1] if p[0] == 'lin' else p[1] if p[0] == 'int' else 0
                base = sub(p, INT(cc))
                self.node(base)
                l = L.neg(L.atleast(cc + 1))
                self.con(base, l if pol else L.neg(l))
                return
            if k == 'le0' and self.order(items, c, pol):
                return
            if self.text_len(k, items, c, pol):
                return
            if k == 'eq0' and self.blank(a, pol):
                return
            if self.value_loop(a):
                return
        if k == 'call' and char_class(a) is not None:
            q = self.char_at(a[2]) if len(a) > 2 else None
            if q is not None:
                ivs = char_class(a)
                self.con(q, L.cls(ivs if pol else complement(ivs), L.ONE))
                return
        if k == 'in' and self.char_at(a[1]) is not None:
            s = a[2]
            while s[0] in ('elems', 'chars', 'arr'):
                s = s[1]
            if s[0] == 'str':
                ivs = tuple((ord(c), ord(c)) for c in set(s[1]))
                self.con(self.char_at(a[1]), L.cls(ivs if pol else complement(ivs), L.ONE))
                return
            if s[0] == 'vec' and all(x[0] == 'int' for x in s[1]):
                ivs = tuple((x[1], x[1]) for x in set(s[1]))
                self.con(self.char_at(a[1]), L.cls(ivs if pol else complement(ivs), L.ONE))
                return
        if k == 'eq' and 'str' in (a[1][0], a[2][0]):
            m, s = (a[1], a[2]) if a[1][0] == 'str' else (a[2], a[1])
            if s[0] == 'slice' and s[1] == INP and s[3] == LEN(INP):
                # the rest of the text is exactly this
                l = L.lit(m[1], L.end())
                self.con(s[2], l if pol else L.neg(l))
                return
        if k == 'is' and a[1][0] == 'find' and a[1][2][0] == 'str' and a[1][2][1] and '%{' not in a[1][2][1] and matched_text(a[1][1]):
            return              # can be true and can be false
        if self.value_loop(a):
            return
        raise Undecided('test %s not understood' % pp(a)[:150])

    def text_len(self, k, items, c, pol):
        """a test of the length of a text matched elsewhere, which can have any length from 1 on"""
        if k != 'le0' or len(items) != 1:
            return False
        x, s = next(iter(items.items()))
        if x[0] != 'len' or abs(s) != 1 or not matched_text(x[1]):
            return False
        least = c if s == -1 else 1 - c      # the length from which on the test (or its opposite) holds
        if least >= 2:
            return True
        if (s == -1) != pol:
            self.con(self.start, self.L.ZERO)
        return True

    def blank(self, a, pol):
        """the rest of the text, trimmed, is empty"""
        ps = [x for x in subterms(a) if x[0] == 'bpos' and isinstance(x[2], tuple) and x[2][0] in ('ts', 'te')]
        if not ps or len({x[1] for x in ps}) != 1 or len(ps[0][2]) != 2:
            return False
        s = ps[0][1]
        n = ps[0][2][1]
        if s[0] != 'slice' or s[1] != INP or s[3] != LEN(INP):
            return False
        te, ts = ('bpos', s, ('te', n)), ('bpos', s, ('ts', n))
        if a not in (eq0(sub(te, ts)), eq0(te), eq0(sub(ts, LEN(s)))):
            return False
        L = self.L
        nm = ('blank', n)
        L.define(nm, L.ZERO)
        L.define(nm, L.disj(L.end(), L.cls(uni('whitespace'), L.var(nm))))
        l = L.var(nm)
        self.con(s[2], l if pol else L.neg(l))
        return True

    def count_atom(self, items):
        """(loop key, sign) if the test is about how many rounds a loop over the text has done"""
        if len(items) != 1:
            return None
        x, s = next(iter(items.items()))
        if abs(s) != 1:
            return None
        if x[0] == 'len':
            x = x[1]
            if x[0] == 'lv' and x[1] in self.loops:
                lp = self.loops[x[1]]
                for pl, (i, lv) in lp.places.items():
                    if lv == x and i == ('vec', ()) and all(bk['new'][pl][0] in ('push', 'insert') and bk['new'][pl][1] == lv for bk in lp.backs):
                        return x[1], s
            return None
        if x[0] == 'lv' and x[1] in self.loops:
            lp = self.loops[x[1]]
            for pl, (i, lv) in lp.places.items():
                if lv == x and i == INT(0) and all(bk['new'][pl] == add(lv, INT(1)) for bk in lp.backs):
                    return x[1], s
        return None

    def moved_atom(self, t):
        """(loop key, constant, factor) if the test is about how far a loop of constant steps has got from where it started"""
        for x in set(subterms(t)):
            if x[0] != 'lv' or x[1] not in self.loops or len(x) < 4:
                continue
            lp = self.loops[x[1]]
            for pl, (i, lv) in lp.places.items():
                if lv != x:
                    continue
                steps = {sub(bk['new'][pl], lv) for bk in lp.backs}
                if len(steps) != 1:
                    continue
                step = steps.pop()
                if step[0] != 'int' or step[1] <= 0:
                    continue
                m = ('moved',)
                try:
                    c, d = lin_parts(subst(t, {lv: add(i, m)}))
                except Exception:
                    continue
                if set(d) == {m}:
                    return x[1], c, d[m] * step[1]
        return None

    def order(self, items, c, pol):
        """earlier position <= later position"""
        if len(items) != 2 or sorted(items.values()) != [-1, 1]:
            return False
        a = [x for x in items if items[x] == 1][0]
        b = [x for x in items if items[x] == -1][0]
        if c <= 0 and a in ancestors(b) and pol:
            return True
        return False

    def value_loop(self, a):
        """a test of a loop that does not move through the text"""
        lvs = [x for x in subterms(a) if x[0] == 'lv' and x[1] in self.loops]
        if not lvs:
            return False
        for x in lvs:
            lp = self.loops[x[1]]
            if any(self.is_textpos(i) for i, lv in lp.places.values()):
                if x[0] == 'lv' and any(lv == x and not self.is_textpos(i) for i, lv in lp.places.values()):
                    continue
                return False
        inner = [x for x in lvs if not any(self.is_textpos(i) for i, lv in self.loops[x[1]].places.values())]
        return bool(inner)

    def is_textpos(self, t):
        if t == self.start or t == POS:
            return True
        if t[0] == 'pl':
            return t[1][0] == 'rule' and t[3] == '0'
        if t[0] == 'lv':
            return len(t) > 3 and self.is_textpos(t[3])
        if t[0] == 'lin':
            return any(self.is_textpos(x) or x[0] == 'lenutf8' for x, _ in t[2])
        return False

    # ---- the language
    def lang(self):
        return self.at(self.start)

    def at(self, pos):
        L = self.L
        r = L.conj(*self.nodes[pos]) if self.nodes[pos] else L.ONE
        for edge, kids in self.kids[pos].items():
            if edge[0] == 'next':
                for kid in kids:
                    r = L.conj(r, L.cls(ANY, self.at(kid)))
            elif edge[0] == 'skip':
                for kid in kids:
                    r = L.conj(r, L.skip(edge[1], self.at(kid)))
            elif edge[0] == 'rule':
                for kid in kids:
                    k = self.at(kid)
                    if pos in self.sub and self.sub[pos][0] == edge[1]:
                        _, sk, mk = self.sub[pos]
                        r = L.conj(r, self.g.W(edge[1], k, sk, mk))
                    else:
                        r = L.conj(r, self.g.W(edge[1], k))
            else:
                for kid in kids:
                    r = L.conj(r, self.loop(kid))
        return r

    def loop(self, lv):
        """from the entry of a loop whose position variable is lv to the end of the path"""
        L = self.L
        lp = self.loops[lv[1]]
        place = [p for p, (i, x) in lp.places.items() if x == lv]
        if len(place) != 1:
            raise Undecided('loop not understood')
        place = place[0]
        others = [p for p, (i, x) in lp.places.items() if p != place and self.is_textpos(i)]
        if others:
            raise Undecided('loop with two positions')
        rounds = []
        top = 0
        for n, bk in enumerate(lp.backs):
            d = dict(self.loops)
            add_loops(d, bk['state'])
            counts = self.collect(bk, d, lv)
            top = max([top] + [abs(c[2]) for c in counts if c[0] == lv[1]])
            rounds.append((bk, d, counts))
        mine = [c for c in self.counts if c[0] == lv[1]]
        top = max([top] + [abs(c[2]) for c in mine]) + 1
        exit_ = self.at(lv)
        names = [('loop', self.ident, lv, i, exit_) for i in range(top + 1)]
        for i, nm in enumerate(names):
            self.L.define(nm, L.ZERO)
        for i, nm in enumerate(names):
            res = exit_ if all(holds(c, i) for c in mine) else L.ZERO
            nxt = L.var(names[min(i + 1, top)])
            for n, (bk, d, counts) in enumerate(rounds):
                if not all(holds(c, i) for c in counts if c[0] == lv[1]):
                    continue
                pl = PathLang(self.g, bk['facts'], d, lv, [(bk['new'][place], nxt)], (self.ident, lv, n, i, exit_))
                res = L.disj(res, pl.lang())
            self.L.define(nm, res)
        return L.var(names[0])

    def collect(self, bk, d, lv):
        pl = PathLang(self.g, bk['facts'], d, lv, [], (self.ident, lv, 'c'))
        return pl.counts


def no_escape(t, facts):
    """the text is known to hold no escape sequence"""
    f = ('find', t, ('str', ESC[0][1]))
    return any(a[0] == 'is' and a[1] == f and (a[2] == 'None') == pol for a, pol in facts)


def matched_text(t):
    """a text some rule matched, possibly unescaped"""
    if t[0] == 'replace':
        return matched_text(t[1])
    return t[0] == 'pl' and t[1][0] == 'rule' and t[3] == '1'


def neg_(t):
    return sub(INT(0), t)


def holds(c, i):
    _, k, const, sign, pol = c
    v = const + sign * i
    return ((v == 0) if k == 'eq0' else (v <= 0)) == pol


# ---------------------------------------------------------------- the reference grammar
def lit(s):
    return ('lit', s)


def seq(*x):
    return ('seq',) + x


def cls(*ivs):
    return ('class', tuple((ord(a), ord(b)) for a, b in ivs))


ANYC = ('class', ANY)
IDENT = seq(cls('az', 'AZ', '__', '..'), ('star', seq(cls('az', '--', 'AZ', '09', '__', '..'), ('not', cls('--')))))
LITERAL = ('plus', seq(('not', lit('%{')), ANYC))
CHARS = ('plus', seq(('not', lit('"')), ANYC))
COMMA = seq(lit(','), ('star', lit(' ')))
DIGITS = ('plus', cls('09'))


def opt_int(name):
    return seq(lit(name + '='), ('oracle',), ('mark', ('n', 0)), DIGITS, ('mark', ('n', 1)))


OPTION = ('alt', opt_int('min_len'), opt_int('max_len'))
OPTIONS = ('opt', seq(OPTION, ('star', seq(COMMA, OPTION))))


def name(i):
    return seq(lit(':'), ('mark', (i, 0)), IDENT, ('mark', (i, 1)))


def variants(i0, *parts):
    """parts: expressions or ('maybe', expr) / ('hole', expr); -> [(flags, expression with marks)]"""
    res = [((), (), i0)]
    for p in parts:
        new = []
        for flags, es, i in res:
            if p[0] == 'maybe':
                x, nh = p[1](i)
                new.append((flags + (True,), es + (x,), i + nh))
                new.append((flags + (False,), es + (('not', x),), i))
            else:
                x, nh = p[1](i) if p[0] == 'hole' else (p, 0)
                new.append((flags, es + (x,), i + nh))
        res = new
    return [(f, ('seq',) + es) for f, es, i in res]


NAME = ('maybe', lambda i: (name(i), 1))
SETARG = ('hole', lambda i: (seq(lit('"'), ('mark', (i, 0)), CHARS, ('mark', (i, 1)), lit('"')), 1))
SETOPTS = ('maybe', lambda i: (seq(COMMA, OPTIONS), 0))
INTOPTS = ('maybe', lambda i: (seq(lit('('), OPTIONS, lit(')')), 0))
ENDLIT = ('maybe', lambda i: (seq(('mark', (i, 0)), LITERAL, ('mark', (i, 1))), 1))
ESC = (('text', '\\%\\{'), ('text', '%{'))


def hole(b):
    return ('Some', ('hole',)) if b else ('none',)


def unesc():
    return ('replace', ('hole',)) + ESC


def reference():
    """ordered alternatives of a piece: [[(shape of the value, expression)]]"""
    greedy = []
    for (nm, end), e in variants(0, lit('%{GREEDY'), NAME, lit('}'), ENDLIT):
        greedy.append((('vec', ('Parser', ('new_greedy', hole(nm), ('Some', unesc()) if end else ('none',)))) + ((('Literal', unesc()),) if end else ()), e))
    literal = [(('vec', ('Literal', unesc())), seq(('mark', (0, 0)), LITERAL, ('mark', (0, 1))))]
    parser = []
    for (op, nm), e in variants(0, lit('%{SET('), SETARG, SETOPTS, lit(')'), NAME, lit('}')):
        parser.append((('vec', ('Parser', ('new_set', ('hole',), hole(nm), ('Some', ('options',)) if op else ('none',)))), e))
    ints = []
    for (op, nm), e in variants(0, lit('%{INT'), INTOPTS, NAME, lit('}')):
        ints.append((('vec', ('Parser', ('new_int', hole(nm), ('Some', ('options',)) if op else ('none',)))), e))
    return [greedy, literal, parser, ints]


def strip_opts(s):
    if s and s[0] == 'options':
        return ('options',)
    return tuple(strip_opts(x) if isinstance(x, tuple) else x for x in s)


def plain(s):
    """a shape for messages"""
    if isinstance(s, str) or not isinstance(s, tuple):
        return str(s)
    if s[0] == 'hole':
        return '<text>'
    if s[0] == 'text':
        return repr(s[1])
    if s[0] == 'none':
        return 'None'
    if s[0] == 'vec':
        return '[' + ', '.join(plain(x) for x in s[1:]) + ']'
    if len(s) == 1:
        return s[0]
    return '%s(%s)' % (s[0], ', '.join(plain(x) for x in s[1:]))


# ---------------------------------------------------------------- structure of the entry
def structure(ck):
    """entry -> rule of the whole pattern -> rule of one piece; (grammar, whole rule, piece rule)"""
    g = Grammar(ck)
    b = ck.repo.body(ENTRY, must=False) or entry_of(ck)
    if b is None:
        raise Undecided('the function that parses a whole pattern text was not recognised')
    g.entry = b
    g.whole = None
    g.eouts = [(k, strip_dyn(v), st) for k, v, st in g.run(b) if k == 'ret']
    for k, v, st in g.eouts:
        for a, pol in st.facts.list:
            if a[0] == 'is' and a[1][0] == 'rule' and a[1][3] == INT(0):
                g.whole = a[1][1]
    if g.whole is None:
        raise Undecided('the rule of the whole pattern was not recognised')
    g.piece = None
    for p in g.paths(g.whole):
        for L in p.loops.values():
            for bk in L.backs:
                for a, pol in bk['facts']:
                    if a[0] == 'is' and a[1][0] == 'rule' and pol and a[2] == 'Matched' and any(x == ('pl', a[1], 'Matched', '0') for x in bk['new'].values()):
                        g.piece = a[1][1]
    return g


def entry_of(ck):
    c = [b for b in ck.repo.p.raw['bodies'] if b['kind'] != 'Closure' and b['argc'] == 1 and b['locals'][1] == ['ref', False, ['str']]
         and 'ParseError' in str(b['locals'][0]) and b['path'].startswith('grammar::parser::pattern_parser')]
    return c[0] if len(c) == 1 else None


def entry_lang(g):
    """texts the entry accepts"""
    L = g.L
    acc = L.ZERO
    for k, v, st in g.eouts:
        if k != 'ret':
            continue
        if v[0] == 'adt' and v[2] == 'Ok':
            d = {}
            add_loops(d, st)
            acc = L.disj(acc, PathLang(g, st.facts.list, d, INT(0), [], ('entry', len(L.defs))).lang())
        elif not (v[0] == 'adt' and v[2] == 'Err'):
            raise Undecided('the entry returns %s' % pp(v)[:100])
    return acc


def ref_piece_expr():
    return ('alt',) + tuple(e for alts in reference() for s, e in alts)


def accepted(ck, g):
    L = g.L
    got = entry_lang(g)
    ref = wp(L, ('plus', ref_piece_expr()), L.end(), None)
    return L.differ(got, ref)


def c16(ck):
    ck.guarded('analysis', 'pattern_parser', c16_, ck)


def c16_(ck):
    g = structure(ck)
    try:
        d = accepted(ck, g)
    except TooBig:
        raise Undecided('the grammar is too big')
    nm = g.entry['path'].split('::')[-1]
    ck.stats['grammar states'] = len(g.L.terms)
    if d is None:
        ck.holds('whole-text-follows-the-syntax', nm, 'the accepted texts are exactly those of the reference grammar')
    elif d[1]:
        ck.bad('whole-text-follows-the-syntax', nm, 'the text %r is accepted although it is not a pattern' % show(d[0]))
    else:
        ck.holds('whole-text-follows-the-syntax', nm, 'nothing outside the reference grammar is accepted (the text %r is rejected)' % show(d[0]))
        # texts may still be accepted wrongly elsewhere
        L = g.L
        got = entry_lang(g)
        ref = wp(L, ('plus', ref_piece_expr()), L.end(), None)
        d2 = L.differ(L.conj(got, L.neg(ref)), L.ZERO)
        if d2 is not None:
            ck.bad('whole-text-follows-the-syntax', nm, 'the text %r is accepted although it is not a pattern' % show(d2[0]))
    for k, v, st in g.eouts:
        if k == 'ret' and v[0] == 'adt' and v[2] == 'Ok':
            end = any(a == EQ(('pl', ('rule', g.whole, INP, INT(0)), 'Matched', '0'), LEN(INP)) and pol for a, pol in st.facts.list)
            ck.verdict('nothing-left-over', nm, True if end else None, 'the end of the match is not compared with the end of the text')


# ---------------------------------------------------------------- C15: values
def c15(ck):
    g = ck.guarded('analysis', 'pattern_parser', structure, ck)
    if g is None:
        return
    ck.guarded('valid-texts-accepted', 'pattern', valid_accepted, ck, g)
    ck.guarded('pieces', 'pattern', pieces, ck, g)
    ck.guarded('option-list', 'pattern', option_lists, ck, g)
    ck.guarded('piece-order', 'pattern', piece_order, ck, g)
    ck.guarded('flatten', 'flatten_vec', flatten, ck)
    ck.guarded('factory', 'TrieParserFactory', factories, ck)


def valid_accepted(ck, g):
    L = g.L
    got = entry_lang(g)
    ref = wp(L, ('plus', ref_piece_expr()), L.end(), None)
    d = L.differ(L.conj(ref, L.neg(got)), L.ZERO)
    ck.verdict('valid-texts-accepted', g.entry['path'].split('::')[-1], d is None, 'the text %r follows the syntax but is rejected' % (show(d[0]) if d else ''))


def ref_langs(g, mark):
    """shape -> reference language, the position `mark` marked"""
    L = g.L
    res = {}
    no = L.ONE
    k = L.marked() if mark == 'end' else L.ONE
    for alts in reference():
        anyhit = L.ZERO
        for s, e in alts:
            res[s] = L.conj(no, wp(L, e, k, mark))
            anyhit = L.disj(anyhit, wp(L, e, L.ONE, None))
        no = L.conj(no, L.neg(anyhit))
    return res


def pieces(ck, g):
    """a piece: for every shape of its value, the texts that give it, and where each part of the value starts and ends"""
    rule = 'piece-value'
    if g.piece is None:
        raise Undecided('the rule of one piece was not recognised')
    L = g.L
    got = {}
    for s, n in g.skeletons(g.piece):
        got.setdefault(strip_opts(s), []).append((s, n))
    ref = ref_langs(g, 'end')
    for s in sorted(set(got) | set(ref), key=repr):
        nm = plain(s)
        if s in got and s in ref and len({n for _, n in got[s]}) > 1:
            ck.unk(rule, nm, 'different parts for the same value')
            continue
        a = L.disj(*[g.W(g.piece, L.ONE, x, 'end') for x, n in got.get(s, [])])
        b = ref.get(s, L.ZERO)
        d = L.differ(a, b)
        if d is not None:
            ck.bad(rule, nm, ('for the text %r this value is built, with the marked end of the piece, but should not be' if d[1] else
                              'for the text %r this value should be built, with the marked end of the piece, but is not') % show(d[0]))
            continue
        ck.holds(rule, nm, 'built for exactly the texts that spell it out')
        if s not in ref or s not in got:
            continue
        nh = got[s][0][1]
        for h in range(nh):
            for side in (0, 1):
                a = L.disj(*[g.W(g.piece, L.ONE, x, (h, side)) for x, n in got[s]])
                hr = h if h == 0 or nh_ref(s) > h else nh_ref(s) - 1
                b = ref_langs(g, (hr, side))[s]
                d = L.differ(a, b)
                ck.verdict('piece-part', '%s, part %d' % (nm, h), d is None, 'in the text %r the %s of the part is %sat the mark' % (
                    show(d[0]) if d else '', 'end' if side else 'start', '' if d and not d[1] else 'wrongly '))


def nh_ref(s):
    """number of different marked parts in the reference (the end string of a GREEDY is used twice)"""
    n = count_holes(s)
    return n - 1 if s[0] == 'vec' and len(s) == 3 else n


def count_holes(s):
    if not isinstance(s, tuple):
        return 0
    if s and s[0] == 'hole':
        return 1
    return sum(count_holes(x) for x in s)


def option_lists(ck, g):
    """the list of options: one option per round, pushed in order; and the option itself"""
    L = g.L
    opts = [r for r in g.rules if '::Vec' in g.rty(r) and 'OptionalParameter' in g.rty(r)]
    elems = set()
    if not opts:
        raise Undecided('no rule gives a list of options')
    for r in opts:
        nm = r.split('::')[-1]
        for p in g.paths(r):
            if p.kind != 'Matched':
                continue
            v = strip_dyn(p.val)
            if v[0] == 'pl' and v[1][0] == 'rule' and v[1][1] in opts and v[3] == '1':
                ck.holds('option-list', nm, 'list handed through')
                continue
            if v == ('vec', ()):
                ck.holds('option-list', nm, 'no option')
                extra = [a for a, pol in p.facts if pol and a[0] == 'is' and a[1][0] == 'rule' and a[2] == 'Matched' and one_option(g, a[1][1])]
                ck.verdict('option-list-complete', nm, not extra, 'an option is read but not put in the list')
                continue
            if v[0] != 'lv' or v[1] not in p.loops:
                ck.unk('option-list', nm, 'list %s not understood' % pp(v)[:100])
                continue
            lp = p.loops[v[1]]
            place = [q for q, (i, x) in lp.places.items() if x == v]
            init = lp.places[place[0]][0] if place else None
            if init != ('vec', ()):
                ck.unk('option-list', nm, 'list starts as %s' % pp(init)[:100] if init else 'list not understood')
                continue
            for bk in lp.backs:
                n = bk['new'][place[0]]
                x = n[2] if n[0] == 'push' and n[1] == v else None
                rd = [a[1] for a, pol in bk['facts'] if pol and a[0] == 'is' and a[1][0] == 'rule' and a[2] == 'Matched' and one_option(g, a[1][1])]
                if x is None:
                    ck.verdict('option-list', nm, False if rd and (n == v or n[0] == 'insert' and n[1] == v) else None, 'an option is read but not put at the end of the list (it becomes %s)' % pp(n)[:100])
                    continue
                ok = x[0] == 'pl' and x[1] in rd and len(rd) == 1 and x[3] == '1'
                ck.verdict('option-list', nm, True if ok else False if x[0] == 'pl' and x[1] in rd else None, 'the option put in the list is not the (only) one read in the round')
                if ok:
                    elems.add(x[1][1])
    for r in sorted(elems):
        one_option_value(ck, g, r)


def one_option(g, r):
    return 'OptionalParameter' in g.rty(r) and '::Vec' not in g.rty(r)


def one_option_value(ck, g, r):
    L = g.L
    nm = r.split('::')[-1]
    ref = {('Int', ('text', n), ('number', ('hole',))): opt_int(n) for n in ('min_len', 'max_len')}
    got = {s: n for s, n in g.skeletons(r)}
    for s in sorted(set(got) | set(ref), key=repr):
        for mark in ['end'] + ([(0, 0), (0, 1)] if got.get(s) == 1 else []):
            k = L.marked() if mark == 'end' else L.ONE
            b = wp(L, ref[s], k, ('n', mark[1]) if mark != 'end' else mark) if s in ref else L.ZERO
            if s in ref and s[1][1] == 'max_len':
                b = L.conj(b, L.neg(wp(L, ref[('Int', ('text', 'min_len'), ('number', ('hole',)))], L.ONE, None)))
            a = g.W(r, L.ONE, s, mark) if s in got else L.ZERO
            d = L.differ(a, b)
            ck.verdict('option-value', '%s: %s' % (nm, plain(s)), d is None, 'the text %r %s this option (mark: %s)' % (
                show(d[0]) if d else '', 'gives' if d and d[1] else 'does not give', mark))


def piece_order(ck, g):
    """the whole: the values of the pieces, in order, flattened; the entry hands that on"""
    nm = g.whole.split('::')[-1]
    for p in g.paths(g.whole):
        if p.kind != 'Matched':
            continue
        v = strip_dyn(p.val)
        if v[0] == 'call' and v[1] == 'flatten_vec':
            v = v[2]
        else:
            ck.unk('piece-order', nm, 'the value %s is not the flattened list' % pp(v)[:100])
            continue
        if v[0] != 'lv' or v[1] not in p.loops:
            ck.unk('piece-order', nm, 'list %s not understood' % pp(v)[:100])
            continue
        lp = p.loops[v[1]]
        place = [q for q, (i, x) in lp.places.items() if x == v]
        init = lp.places[place[0]][0] if place else None
        ck.verdict('piece-order', nm + ': start', True if init == ('vec', ()) else None, 'the list starts as %s' % (pp(init)[:100] if init else '?'))
        for bk in lp.backs:
            n = bk['new'][place[0]]
            rd = [a[1] for a, pol in bk['facts'] if pol and a[0] == 'is' and a[1][0] == 'rule' and a[2] == 'Matched' and a[1][1] == g.piece]
            want = ('pl', rd[0], 'Matched', '1') if len(rd) == 1 else None
            ok = want is not None and n == ('push', v, want)
            bad = n == v or n[0] == 'push' and n[1] != v
            ck.verdict('piece-order', nm + ': round', True if ok else False if bad else None, 'the list becomes %s' % pp(n)[:150])
    for k, v, st in g.eouts:
        if k == 'ret' and v[0] == 'adt' and v[2] == 'Ok':
            x = strip_dyn(v[3][0][1])
            want = ('pl', ('rule', g.whole, INP, INT(0)), 'Matched', '1')
            ck.verdict('entry-value', g.entry['path'].split('::')[-1], True if x == want else None, 'gives %s' % pp(x)[:150])
    # the public entry points are this one
    for path in ('grammar::parser::pattern', 'grammar::parser::pattern_with_factory'):
        b = ck.repo.body(path)
        e = ck.repo.engine(cut=(g.entry['path'],))
        for k, v, st in ck.run(e, b):
            v = strip_dyn(v) if k == 'ret' else v
            ok = k == 'ret' and v[0] == 'call' and v[1] == e.fkey(g.entry) and v[2] == ('sym', 'p0')
            ck.verdict('entry-point', path, True if ok else None, 'gives %s' % (pp(v)[:150] if k == 'ret' else 'a panic'))


def over(lp, x):
    """counters of a loop over the elements of x"""
    return [lv for lv, src in lp.iterl if src in (x, ('elems', x))]


def lossy_over(lp, x):
    """sources of a loop that leave elements of x out or change their order"""
    r = []
    for lv, src in lp.iterl:
        t, hit = src, False
        while len(t) > 1 and isinstance(t[1], tuple) and t[0] in LOSSY | {'rev', 'elems'}:
            hit = hit or t[0] != 'elems'
            t = t[1]
        if hit and t == x:
            r.append(src)
    return r


def flatten(ck):
    """flatten_vec: all inner elements, in order"""
    rule, nm = 'flatten', 'flatten_vec'
    b = ck.repo.body('utils::flatten_vec', must=False)
    if b is None:
        raise Undecided('flatten_vec not found')
    P = ('sym', 'p0')
    for k, v, st in ck.run(ck.repo.engine(), b):
        if k != 'ret':
            continue
        v = strip_dyn(v)
        path = ' (path: %s)' % facts_str(st)
        if v[0] == 'collect' and v[1][0] in ('flatten', 'flat_map') and v[1][1] in (P, ('iter', P)):
            ck.holds(rule, nm, 'flattening iterator')
            continue
        if any(x[0] in LOSSY or x[0] == 'rev' for x in subterms(v)):
            ck.bad(rule, nm, 'gives %s' % pp(v)[:150] + path)
            continue
        if v[0] == 'vec' and v[1] == () and st.facts.decide(eq0(LEN(P))) is True:
            ck.holds(rule, nm, 'nothing to flatten')
            continue
        d = {}
        add_loops(d, st)
        if v[0] != 'lv' or v[1] not in d:
            ck.unk(rule, nm, 'gives %s' % pp(v)[:150] + path)
            continue
        lp = d[v[1]]
        place = [q for q, (i, x) in lp.places.items() if x == v]
        its = over(lp, P)
        if lossy_over(lp, P):
            ck.bad(rule, nm, 'goes over %s' % pp(lossy_over(lp, P)[0])[:100] + path)
            continue
        if len(place) != 1 or lp.places[place[0]][0] != ('vec', ()) or len(its) != 1:
            ck.unk(rule, nm, 'loop not understood' + path)
            continue
        K = its[0]
        ck.verdict(rule, nm + ': all vectors', True if st.facts.decide(LT(K, LEN(P))) is False else False if not unknown_calls(st) else None, 'stops before the last vector' + path)
        for bk in lp.backs:
            n = bk['new'][place[0]]
            inner = get(P, ('idx', K))
            if n[0] in ('extend', 'append') and n[1] == v and strip_dyn(n[2]) in (inner, ('iter', inner)):
                ck.holds(rule, nm, 'extended by each vector')
                continue
            if n == v:
                ck.verdict(rule, nm, bk['state'].facts.decide(eq0(LEN(inner))) is True, 'a vector is dropped')
                continue
            d2 = {}
            add_loops(d2, bk['state'])
            from c_deser import ALTERS
            if n[0] in ('extend', 'append') and any(x[0] == 'call' and x[1] in ALTERS and strip_dyn(x[2]) == inner for x in subterms(n[2])):
                ck.bad(rule, nm, 'a vector is altered first: the list becomes %s' % pp(n)[:150] + path)
                continue
            if n[0] != 'lv' or n[1] not in d2:
                ck.unk(rule, nm, 'the list becomes %s' % pp(n)[:150])
                continue
            l2 = d2[n[1]]
            pl2 = [q for q, (i, x) in l2.places.items() if x == n]
            it2 = over(l2, inner)
            if lossy_over(l2, inner):
                ck.bad(rule, nm, 'goes over %s' % pp(lossy_over(l2, inner)[0])[:100] + path)
                continue
            if len(pl2) != 1 or l2.places[pl2[0]][0] != v or len(it2) != 1:
                ck.unk(rule, nm, 'inner loop not understood')
                continue
            J = it2[0]
            ck.verdict(rule, nm + ': all elements', True if bk['state'].facts.decide(LT(J, LEN(inner))) is False else False, 'stops before the last element of a vector')
            for b2 in l2.backs:
                m = b2['new'][pl2[0]]
                ok = m == ('push', n, get(inner, ('idx', J))) or m == ('push', n, ('elem', inner, J))
                ck.verdict(rule, nm + ': element', True if ok else False if m == n or m[0] == 'insert' else None, 'the list becomes %s' % pp(m)[:150])


LOSSY = {'filter', 'filter_map', 'take', 'skip', 'take_while', 'skip_while', 'step_by', 'map_while', 'scan', 'dedup'}
FACTORY = 'parsers::ParserFactory'


def name_place(ck, ty):
    """path to the optional name a parser keeps"""
    def find(p, depth=0):
        if p.split('::')[-1] == 'ParserBase':
            c = [n for n, t in ck.repo.fields(p) if t == OPTSTRING]
            if len(c) == 1:
                return (c[0],)
        if depth < 4:
            for n, t in ck.repo.fields(p):
                if t[0] == 'adt' and t[1] in ck.repo.p.adts:
                    r = find(t[1], depth + 1)
                    if r:
                        return (n,) + r
        return None
    return find(ty)


OPTSTRING = ['adt', 'std::option::Option', [['adt', 'std::string::String', []]]]


def factories(ck):
    """every factory builds the parser of its kind with exactly the given parts"""
    from c_parsers import SETP, INTP, GREEDYP, set_place, at_place, accessor, on_recv, HLC
    for m, ty in (('new_set', SETP), ('new_int', INTP), ('new_greedy', GREEDYP)):
        for owner, b, im in ck.repo.impl_methods(FACTORY, m):
            ck.guarded('factory', '%s::%s' % (owner.split('::')[-1], m), one_factory, ck, m, ty, owner, b)


def same_option(f, got, p):
    """got is the optional text p; True / False / None"""
    got = strip_dyn(got)
    if got == p:
        return True
    if got[0] == 'adt' and got[2] == 'Some' and changed_text(got[3][0][1]) and changed_text(got[3][0][1])[1] == pay(p, 'Some'):
        return False
    if f.decide(('is', p, 'Some')) is True or f.isv.get(p) == 'Some':
        if got == SOME(pay(p, 'Some')):
            return True
        return False if got == NONE else None
    if f.isv.get(p) == 'None':
        return True if got == NONE else False if got[0] == 'adt' else None
    return False if got == NONE else None


def one_factory(ck, m, ty, owner, b):
    from c_parsers import set_place, at_place, accessor, on_recv, HLC, GREEDYP, SETP
    nm = '%s::%s' % (owner.split('::')[-1], m)
    args = [('sym', 'p%d' % i) for i in range(b['argc'])]
    if m == 'new_set':
        S, N, O, E = args[0], args[1], args[2], None
    elif m == 'new_int':
        S, N, O, E = None, args[0], args[1], None
    else:
        S, N, O, E = None, args[0], None, args[1]
    np_ = name_place(ck, ty)
    if np_ is None:
        raise Undecided('the name of %s was not recognised' % ty)
    for k, v, st in ck.run(ck.repo.engine(), b):
        if k != 'ret':
            continue
        f = st.facts
        unk = bool(unknown_calls(st))
        path = ' (path: %s)' % facts_str(st)
        obj = strip_dyn(v)
        if obj[0] != 'adt':
            ck.unk('factory-kind', nm, 'gives %s' % pp(obj)[:120] + path)
            continue
        if obj[1] != ty:
            ck.verdict('factory-kind', nm, False, 'gives a %s' % obj[1] + path, unk)
            continue
        ck.holds('factory-kind', nm)
        got = at_place(obj, np_)
        r = same_option(f, got, N)
        ck.verdict('factory-name', nm, r, 'the name becomes %s' % pp(got)[:120] + path, unk)
        if E is not None:
            fe = [n for n, t in ck.repo.fields(ty) if t == OPTSTRING]
            if len(fe) != 1:
                ck.unk('factory-end', nm, 'the end string was not recognised')
            else:
                got = get(obj, ('f', fe[0]))
                ck.verdict('factory-end', nm, same_option(f, got, E), 'the end string becomes %s' % pp(got)[:120] + path, unk)
        if S is not None:
            got = at_place(obj, set_place(ck, ty))
            t = got
            while t[0] in ('collect', 'chars', 'iter', 'elems', 'set'):
                t = t[1]
            lossy = any(x[0] in LOSSY for x in subterms(got))
            ck.verdict('factory-set', nm, True if t == S else False if lossy or t[0] == 'slice' and t[1] == S else None, 'the set becomes %s' % pp(got)[:150] + path, unk)
        if O is not None:
            mn, mx = accessor(ck, HLC, 'min_length', ty), accessor(ck, HLC, 'max_length', ty)
            if mn is None or mx is None:
                ck.unk('factory-options', nm, 'the length limits were not recognised')
                continue
            gmn, gmx = on_recv(mn, obj), on_recv(mx, obj)
            factory_options(ck, nm, f, st, O, gmn, gmx, path, unk)


def factory_options(ck, nm, f, st, O, gmn, gmx, path, unk):
    rule = 'factory-options'
    if f.isv.get(O) == 'None':
        ck.verdict(rule, nm + ' (no options)', gmn == NONE and gmx == NONE, 'the limits become %s and %s' % (pp(gmn)[:60], pp(gmx)[:60]) + path, unk)
        return
    V = pay(O, 'Some')
    lps = [lp for lp in loops_of(st) if over(lp, V)]
    for lp in loops_of(st):
        for src in lossy_over(lp, V):
            ck.verdict(rule, nm + ': all', False, 'the options are taken from %s' % pp(src)[:100] + path, unk)
            return
    if f.isv.get(O) == 'Some' and not lps:
        empty = f.decide(eq0(LEN(V))) is True
        ok = gmn == NONE and gmx == NONE
        ck.verdict(rule, nm, True if ok and empty else False if ok and not unk else None, 'the options are not used: the limits are %s and %s' % (pp(gmn)[:60], pp(gmx)[:60]) + path, unk)
        return
    if len(lps) != 1:
        ck.unk(rule, nm, 'the loop over the options was not recognised' + path)
        return
    lp = lps[0]
    K = over(lp, V)[0]
    ck.verdict(rule, nm + ': all', True if f.decide(LT(K, LEN(V))) is False else False, 'options behind the first ones are not used' + path, unk)
    key = {}
    for what, g in (('min', gmn), ('max', gmx)):
        pl = [q for q, (i, x) in lp.places.items() if x == g]
        if not pl:
            if g == NONE or g[0] in ('adt', 'int'):
                ck.verdict(rule, '%s: %s' % (nm, what), False, 'the limit is %s whatever the options say' % pp(g)[:80] + path, unk)
            else:
                ck.unk(rule, '%s: %s' % (nm, what), 'the limit %s was not recognised' % pp(g)[:80])
            return
        i = lp.places[pl[0]][0]
        ck.verdict(rule, '%s: %s without option' % (nm, what), True if i == NONE else False if i[0] == 'adt' else None, 'starts as %s' % pp(i)[:80], unk)
        key[what] = (pl[0], g)
    el = get(V, ('idx', K))
    k0, v1 = pay(el, 'Int'), ('pl', el, 'Int', '1')
    txt = lambda s: EQ(k0, ('str', s), True)
    for bk in lp.backs:
        bf = bk['state'].facts
        rd = ' (round: %s)' % '; '.join(('' if p else 'not ') + pp(a) for a, p in bk['facts'])[:300]
        for what in ('min', 'max'):
            pl, g = key[what]
            n = bk['new'][pl]
            is_ = [decide_text(bf, bk['facts'], k0, w) for w in ('min_len', 'max_len')]
            mine = is_[0] if what == 'min' else is_[1]
            if mine is True:
                ok = n == SOME(v1)
                bad = n == g or n[0] == 'adt'
            elif mine is False:
                ok = n == g
                bad = n[0] == 'adt'
            else:
                ok = None
                bad = False
                if n == SOME(v1) or n != g:
                    bad = not opaque_in(n) and not any(opaque_in(a) for a, p in bk['facts'])
            ck.verdict(rule, '%s: %s' % (nm, what), True if ok else False if bad else None, 'the limit becomes %s' % pp(n)[:100] + rd, unk or bool(opaque_in(n)))


def decide_text(bf, facts, k, word):
    """is the text k the given word on this path"""
    for a, pol in facts:
        if a[0] == 'eq' and k in a[1:]:
            o = [x for x in a[1:] if x != k]
            if len(o) == 1 and o[0][0] == 'str':
                if o[0][1] == word:
                    return pol
                if pol:
                    return False
    return None


# ---------------------------------------------------------------- C17: escapes
def c17(ck):
    g = ck.guarded('analysis', 'pattern_parser', structure, ck)
    if g is None:
        return
    ck.guarded('unescape', 'pattern', unescaped_pieces, ck, g)
    ck.guarded('unescape', 'unescape_literal', unescape_fn, ck)


def literal_parts(s, inside=None):
    """texts that become literals or end strings"""
    if not isinstance(s, tuple) or not s:
        return
    if s[0] == 'Literal' and len(s) == 2:
        yield 'literal', s[1]
    elif s[0] == 'new_greedy' and len(s) == 3 and s[2][0] == 'Some':
        yield 'end string', s[2][1]
    for x in s:
        if isinstance(x, tuple):
            for y in literal_parts(x):
                yield y


def unescaped_pieces(ck, g):
    if g.piece is None:
        raise Undecided('the rule of one piece was not recognised')
    n = 0
    for s, nh in g.skeletons(g.piece):
        for what, x in literal_parts(s):
            n += 1
            ok = x == unesc()
            ck.verdict('unescape', '%s in %s' % (what, plain(s)), True if ok else False if x[0] in ('hole', 'replace', 'replacen', 'text') else None, 'the %s is %s of the text' % (what, plain(x)))
    ck.verdict('unescape-cases', 'pattern', n >= 2, 'no literal or end string is built')


def replacing_loop(v, P, st):
    """the text is put together from its pieces: up to the next occurrence, the replacement, and on behind it; then the rest"""
    esc, rep = ('str', ESC[0][1]), ('str', ESC[1][1])
    if v[0] == 'call' and v[1] in ('slice::join', 'SliceConcatExt::join', 'Join::join', 'slice::connect') and len(v) == 4:
        src = strip_dyn(v[2])
        while src[0] == 'collect':
            src = src[1]
        return src == ('split', P, esc) and v[3] == rep
    if not (v[0] == 'cat' and v[1][0] == 'lv'):
        return False
    acc, rest = v[1], v[2]
    for ev in st.events:
        if ev[0] != 'loop':
            continue
        lp = ev[1]
        mine = {lv: (pl, init) for pl, (init, lv) in lp.places.items()}
        if acc not in mine or mine[acc][1] != ('str', ''):
            continue
        lvs = [x for x in mine if x in list(subterms(rest)) and x != acc]
        if len(lvs) > 1 or not lvs and rest != P or not lp.backs:
            return False
        if subst(rest, {x: mine[x][1] for x in lvs}) != P and renorm(subst(rest, {x: mine[x][1] for x in lvs})) != P:
            return False
        if st.facts.isv.get(('find', rest, esc)) != 'None':
            return False
        for b in lp.backs:
            i = ('bpos', rest, ('find', esc))
            if b['state'].facts.isv.get(('find', rest, esc)) != 'Some':
                return False
            na = b['new'][mine[acc][0]]
            nr = renorm(subst(rest, {x: b['new'][mine[x][0]] for x in lvs}))
            if na != CAT(CAT(acc, SLICE(rest, INT(0), i)), rep) or nr != SLICE(rest, add(i, LEN(esc)), LEN(rest)):
                return False
        return True
    return False


def cat_parts(t):
    return cat_parts(t[1]) + cat_parts(t[2]) if t[0] == 'cat' else [t]


def replaces_otherwise(v, P):
    """v = P.replace(a, b).replace(c, d)... with constants: a text of which it makes something else than the unescaping does"""
    steps = []
    while v[0] == 'replace' and all(x[0] == 'str' for x in v[2:4]):
        steps.append((v[2][1], v[3][1]))
        v = v[1]
    if v != P or len(steps) < 2 or any(not a for a, b in steps):
        return False
    esc, rep = ESC[0][1], ESC[1][1]
    parts = {esc[i:j] for i in range(len(esc)) for j in range(i + 1, len(esc) + 1)} | {a for a, b in steps} | {b for a, b in steps} | {rep}
    for text in parts | {x + y for x in parts for y in parts}:
        out = text
        for a, b in reversed(steps):
            out = out.replace(a, b)
        if out != text.replace(esc, rep):
            return True
    return False


def unescape_fn(ck):
    b = ck.repo.body('grammar::unescape_literal', must=False)
    if b is None:
        raise Undecided('unescape_literal not found')
    P = ('sym', 'p0')
    for k, v, st in ck.run(ck.repo.engine(), b):
        if k != 'ret':
            continue
        v = strip_dyn(v)
        path = ' (path: %s)' % facts_str(st)
        want = ('replace', P, ('str', ESC[0][1]), ('str', ESC[1][1]))
        ok = v == want or v == P and no_escape(P, st.facts.list) or replacing_loop(v, P, st)
        bad = v == P or v[0] in ('replace', 'replacen') and v[1] == P and all(x[0] in ('str', 'int') for x in v[2:])
        # a chain of replacements by constants: refuted where it gives something else for a text made of parts of the escape
        bad = bad or replaces_otherwise(v, P)
        # a part of the result only, or a rest of the text left as it is
        bad = bad or v[0] == 'slice' and v[1] in (want, P) or v[0] == 'cat' and any(x[0] == 'slice' and x[1] == P and x[2] != INT(0) for x in cat_parts(v)) and not any(x[0] == 'lv' for x in subterms(v))
        ck.verdict('unescape', 'unescape_literal', True if ok else False if bad else None, 'gives %s' % pp(v)[:150] + path, bool(unknown_calls(st)))
