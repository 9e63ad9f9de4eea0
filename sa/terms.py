"""Term algebra of the value-flow analysis: canonical constructors and the fact store.

Terms are nested tuples.  Shared references and boxes are transparent (a term is the value it
denotes); a mutable reference is ('mref', root, proj).  Integers are kept in linear normal form so
that e.g. `len - (len - n)` and `n` are the same term.  Facts are path conditions; `Facts.decide`
answers True / False / None from them with a few syntactic closure rules (no solver).
"""
import functools


# ---------------------------------------------------------------- integers / linear forms
def INT(n):
    return ('int', n)


TRUE = ('bool', True)
FALSE = ('bool', False)
UNIT = ('tup', ())


def _key(t):
    return repr(t)


def lin_parts(t):
    """-> (const, {term: coef})"""
    if t[0] == 'int':
        return t[1], {}
    if t[0] == 'lin':
        return t[1], dict(t[2])
    return 0, {t: 1}


def mk_lin(c, d):
    d = {k: v for k, v in d.items() if v != 0}
    if not d:
        return ('int', c)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
    return ('lin', c, tuple(sorted(d.items(), key=lambda kv: _key(kv[0]))))


def add(a, b):
    ca, da = lin_parts(a)
    cb, db = lin_parts(b)
    for k, v in db.items():
        da[k] = da.get(k, 0) + v
    return mk_lin(ca + cb, da)


def scale(a, n):
    c, d = lin_parts(a)
    return mk_lin(c * n, {k: v * n for k, v in d.items()})


def sub(a, b):
    return add(a, scale(b, -1))


# ---------------------------------------------------------------- booleans
def NOT(b):
    if b[0] == 'bool':
        return ('bool', not b[1])
    if b[0] == 'not':
        return b[1]
    if b[0] == 'le0':
        return le0(sub(INT(1), b[1]))
    return ('not', b)


def le0(l):
    if l[0] == 'int':
        return ('bool', l[1] <= 0)
    return ('le0', l)


def eq0(l):
    if l[0] == 'int':
        return ('bool', l[1] == 0)
    c, d = lin_parts(l)
    first = sorted(d, key=_key)[0]
    if d[first] < 0:
        l = scale(l, -1)
    return ('eq0', l)


def LE(a, b):
    return le0(sub(a, b))


def LT(a, b):
    return le0(add(sub(a, b), INT(1)))


def adt(path, variant, fields):
    return ('adt', path, variant, tuple(fields))


def SOME(x):
    return adt('Option', 'Some', (('0', x),))


NONE = adt('Option', 'None', ())


def OK(x):
    return adt('Result', 'Ok', (('0', x),))


def ERR(x):
    return adt('Result', 'Err', (('0', x),))


def strip_dyn(t):
    while t[0] == 'dyn':
        t = t[2]
    return t


def IS(t, variant):
    t = strip_dyn(t)
    if t[0] == 'adt':
        return ('bool', t[2] == variant)
    return ('is', t, variant)


def conj(xs):
    xs = [x for x in xs if x != TRUE]
    if FALSE in xs:
        return FALSE
    if not xs:
        return TRUE
    if len(xs) == 1:
        return xs[0]
    return ('and',) + tuple(xs)


def is_intlike(t):
    return t[0] in ('int', 'lin', 'len', 'count')


def EQ(a, b, intty=False):
    a, b = strip_dyn(a), strip_dyn(b)
    if a == b:
        return TRUE
    if intty or is_intlike(a) or is_intlike(b):
        return eq0(sub(a, b))
    for x, y in ((a, b), (b, a)):
        if x[0] == 'adt' and not x[3] and x[2] is not None:
            return IS(y, x[2])
        if x[0] == 'bool':
            return y if x[1] else NOT(y)
    if a[0] == 'str' and b[0] == 'str':
        return ('bool', a[1] == b[1])
    if a[0] == 'adt' and b[0] == 'adt' and a[1] == b[1]:
        if a[2] != b[2]:
            return FALSE
        return conj([EQ(x[1], y[1]) for x, y in zip(a[3], b[3])])
    if a[0] == 'tup' and b[0] == 'tup' and len(a[1]) == len(b[1]):
        return conj([EQ(x, y) for x, y in zip(a[1], b[1])])
    for x, y in ((a, b), (b, a)):
        if x == ('str', ''):
            return eq0(LEN(y))
        # bytes comparison of a sub-slice against a whole string: "y occurs in s at a"
        if y[0] == 'bytes' and x[0] == 'slice' and x[1][0] == 'bytes':
            if sub(x[3], x[2]) == LEN(y[1]):
                return AT(x[1][1], x[2], y[1])
    if a[0] == 'bytes' and b[0] == 'bytes':
        return EQ(a[1], b[1])
    for x, y in ((a, b), (b, a)):
        # s[a..a+len(m)] == m
        if x[0] == 'slice' and x[1][0] != 'bytes' and sub(x[3], x[2]) == LEN(y):
            return AT(x[1], x[2], y)
    a, b = sorted((a, b), key=_key)
    return ('eq', a, b)


# ---------------------------------------------------------------- strings / vectors
def LEN(s):
    s = strip_dyn(s)
    if s[0] == 'str':
        return INT(len(s[1].encode('utf-8')))
    if s[0] == 'bytes':
        return LEN(s[1])
    if s[0] == 'slice':
        return sub(s[3], s[2])
    if s[0] == 'vec':
        return INT(len(s[1]))
    if s[0] in ('push', 'insert'):
        return add(LEN(s[1]), INT(1))
    if s[0] in ('remove', 'front', 'back'):      # one element removed
        return sub(LEN(s[1]), INT(1))
    if s[0] in ('sort', 'reverse', 'sortby'):
        return LEN(s[1])
    if s[0] == 'cat':
        return add(LEN(s[1]), LEN(s[2]))
    if s[0] == 'upd' and s[2][0] == 'idx':
        return LEN(s[1])
    if s[0] == 'lv' and s[3][0] in ('int',):
        return ('len', s)
    return ('len', s)


def CAT(a, b):
    """two texts joined"""
    a, b = strip_dyn(a), strip_dyn(b)
    if a == ('str', ''):
        return b
    if b == ('str', ''):
        return a
    if a[0] == 'str' and b[0] == 'str':
        return ('str', a[1] + b[1])
    if a[0] == 'cat' and a[2][0] == 'str' and b[0] == 'str':
        return ('cat', a[1], ('str', a[2][1] + b[1]))
    return ('cat', a, b)


def SLICE(s, a, b):
    s = strip_dyn(s)
    if s[0] == 'slice':
        return SLICE(s[1], add(s[2], a), add(s[2], b))
    if a == INT(0) and b == LEN(s):
        return s
    if s[0] == 'str' and a[0] == 'int' and b[0] == 'int':
        bs = s[1].encode('utf-8')
        if 0 <= a[1] <= b[1] <= len(bs):
            try:
                return ('str', bs[a[1]:b[1]].decode('utf-8'))
            except UnicodeDecodeError:
                pass
    return ('slice', s, a, b)


def AT(s, a, m):
    """m occurs in s at byte offset a"""
    s, m = strip_dyn(s), strip_dyn(m)
    if s[0] == 'slice':
        # within s[x..y]; equal to "at s[x..]" only when y is the end of the string
        if s[3] == LEN(s[1]):
            return AT(s[1], add(s[2], a), m)
        return ('at', s, a, m)
    if m == ('str', ''):
        return LE(a, LEN(s))
    return ('at', s, a, m)


def CPL(a, b):
    """length of the longest common prefix of two strings (whole characters)"""
    a, b = sorted((strip_dyn(a), strip_dyn(b)), key=_key)
    if a == b:
        return LEN(a)
    return ('cpl', a, b)


# ---------------------------------------------------------------- structured values
def get(t, p):
    """project: p is ('f',name) | ('vf',variant,name) | ('idx',term) | ('k',)"""
    if t[0] == 'dyn':
        return get(t[2], p)
    if p[0] == 'k':
        return t[2] if t[0] == 'iter' else ('fld', t, 'k')
    if t[0] == 'adt' and p[0] in ('f', 'vf'):
        name = p[-1]
        for n, v in t[3]:
            if n == name:
                return v
        return ('undef', name)
    if t[0] == 'tup' and p[0] in ('f', 'vf'):
        i = int(p[-1])
        return t[1][i] if i < len(t[1]) else ('undef', i)
    if t[0] == 'clo' and p[0] == 'f':
        i = int(p[1])
        return t[2][i] if i < len(t[2]) else ('undef', i)
    if t[0] == 'upd':
        if t[2] == p:
            return t[3]
        if p[0] in ('f', 'vf') and t[2][0] in ('f', 'vf'):
            return get(t[1], p)
        if p[0] == 'idx' and t[2][0] == 'idx' and p[1][0] == 'int' and t[2][1][0] == 'int':
            return get(t[1], p)
    if p[0] == 'f':
        return CONTRACT_FLD(t, p[1]) or ('fld', t, p[1])
    if p[0] == 'vf':
        return ('pl', t, p[1], p[2])
    if p[0] == 'mval':
        return t[3] if t[0] == 'minsert' and t[2] == p[1] else get(('mget', t, p[1]), ('vf', 'Some', '0'))
    if p[0] == 'idx':
        if t[0] == 'vec' and p[1][0] == 'int' and p[1][1] < len(t[1]):
            return t[1][p[1][1]]
        if t[0] == 'vec' and len(t[1]) == 1 and p[1][0] != 'int':
            return t[1][0]          # the only index there is
        if t[0] == 'push' and p[1] == LEN(t[1]):
            return t[2]
        if t[0] == 'insert' and p[1] == t[2]:
            return t[3]
        return ('idx', t, p[1])
    return ('prj', t, p)


_contract = [None]


def CONTRACT_FLD(t, name):
    return _contract[0](t, name) if _contract[0] else None


def getp(t, path):
    for p in path:
        t = get(t, p)
    return t


def setp(t, path, val):
    if not path:
        return val
    p, rest = path[0], path[1:]
    if t[0] == 'dyn':
        return ('dyn', t[1], setp(t[2], path, val))
    if p[0] == 'k' and t[0] == 'iter':
        return ('iter', t[1], setp(t[2], rest, val))
    if t[0] == 'adt' and p[0] in ('f', 'vf'):
        name = p[-1]
        fs = list(t[3])
        for i, (n, v) in enumerate(fs):
            if n == name:
                fs[i] = (n, setp(v, rest, val))
                return ('adt', t[1], t[2], tuple(fs))
        fs.append((name, val if not rest else setp(('undef', name), rest, val)))
        return ('adt', t[1], t[2], tuple(fs))
    if t[0] == 'tup' and p[0] in ('f', 'vf'):
        i = int(p[-1])
        xs = list(t[1])
        while len(xs) <= i:
            xs.append(('undef', len(xs)))
        xs[i] = setp(xs[i], rest, val)
        return ('tup', tuple(xs))
    if t[0] == 'clo' and p[0] == 'f':
        i = int(p[1])
        xs = list(t[2])
        xs[i] = setp(xs[i], rest, val)
        return ('clo', t[1], tuple(xs)) + t[3:]
    if t[0] == 'vec' and p[0] == 'idx' and p[1][0] == 'int' and p[1][1] < len(t[1]):
        xs = list(t[1])
        xs[p[1][1]] = setp(xs[p[1][1]], rest, val)
        return ('vec', tuple(xs))
    if p[0] == 'mval':
        new = setp(get(t, p), rest, val)
        if new == get(t, p):
            return t
        return ('minsert', t[1] if t[0] == 'minsert' and t[2] == p[1] else t, p[1], new)
    new = setp(get(t, p), rest, val)
    if t[0] == 'upd' and t[2] == p:
        t = t[1]
    if get(t, p) == new:
        return t
    return ('upd', t, p, new)


def subterms(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for x in t:
            if isinstance(x, tuple):
                yield from subterms(x)


def subst(t, m):
    """replace sub-terms (exact) and re-normalise the common constructors"""
    if t in m:
        return m[t]
    if not isinstance(t, tuple):
        return t
    new = tuple(subst(x, m) if isinstance(x, tuple) else x for x in t)
    if new == t:
        return t
    return renorm(new)


def renorm(t):
    if not t or not isinstance(t[0], str):
        return t
    k = t[0]
    if k == 'lin':
        r = INT(t[1])
        for x, c in t[2]:
            r = add(r, scale(x, c))
        return r
    if k == 'len' and len(t) == 2:
        return LEN(t[1])
    if k == 'slice' and len(t) == 4:
        return SLICE(t[1], t[2], t[3])
    if k == 'fld' and len(t) == 3:
        return get(t[1], ('f', t[2]))
    if k == 'pl' and len(t) == 4:
        return get(t[1], ('vf', t[2], t[3]))
    if k == 'idx' and len(t) == 3:
        return get(t[1], ('idx', t[2]))
    if k == 'is' and len(t) == 3:
        return IS(t[1], t[2])
    if k == 'le0':
        return le0(t[1])
    if k == 'eq0':
        return eq0(t[1])
    if k == 'eq':
        return EQ(t[1], t[2])
    if k == 'not':
        return NOT(t[1])
    if k == 'at' and len(t) == 4:
        return AT(t[1], t[2], t[3])
    return t


# ---------------------------------------------------------------- facts
NONNEG_EXEMPT = ()


class Facts:
    __slots__ = ('list', 'isv', 'isnt', 'le', 'bools', 'eqs', 'neq0', 'bg')

    def __init__(self, o=None):
        if o is None:
            self.list = []      # (atom, True|False) in the order they were assumed
            self.isv = {}
            self.isnt = {}
            self.le = []        # lins known <= 0
            self.bools = {}
            self.neq0 = []
            self.bg = set()
        else:
            self.list = list(o.list)
            self.isv = dict(o.isv)
            self.isnt = {k: set(v) for k, v in o.isnt.items()}
            self.le = list(o.le)
            self.bools = dict(o.bools)
            self.neq0 = list(o.neq0)
            self.bg = set(o.bg)

    def copy(self):
        return Facts(self)

    # -- entailment
    def _le(self, l, depth=2):
        c, d = lin_parts(l)
        if c <= 0 and all(v < 0 for v in d.values()):
            return True
        if depth == 0:
            return False
        for f in self.le:
            cf, df = lin_parts(f)
            # only useful if it shares a positive term of l
            if any(v > 0 and df.get(k, 0) > 0 for k, v in d.items()) or (c > 0 and any(df.get(k, 0) < 0 and (cf > 0 or v < 0) for k, v in d.items())):
                if self._le(sub(l, f), depth - 1):
                    return True
        return False

    def decide(self, a):
        k = a[0]
        if k == 'bool':
            return a[1]
        if k == 'not':
            r = self.decide(a[1])
            return None if r is None else not r
        if k == 'and':
            rs = [self.decide(x) for x in a[1:]]
            if False in rs:
                return False
            if all(r is True for r in rs):
                return True
            return None
        if k == 'or':
            rs = [self.decide(x) for x in a[1:]]
            if True in rs:
                return True
            if all(r is False for r in rs):
                return False
            return None
        if k == 'is':
            v = self.isv.get(a[1])
            if v is not None:
                return v == a[2]
            if a[2] in self.isnt.get(a[1], ()):
                return False
            return None
        if k == 'le0':
            if self._le(a[1]):
                return True
            if self._le(sub(INT(1), a[1])):
                return False
            return None
        if k == 'eq0':
            l = a[1]
            if a in self.bools:
                return self.bools[a]
            if self._le(add(l, INT(1))) or self._le(sub(INT(1), l)):
                return False
            if self._le(l) and self._le(scale(l, -1)):
                return True
            return None
        if a in self.bools:
            return self.bools[a]
        if k == 'eq':
            # two different string constants cannot equal the same term
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                if y[0] == 'str':
                    for (f, pol) in self.list:
                        if pol and f[0] == 'eq' and x in f[1:]:
                            o = f[2] if f[1] == x else f[1]
                            if o[0] == 'str':
                                return o == y
            if self.decide(eq0(sub(LEN(a[1]), LEN(a[2])))) is False:
                return False
            return None
        if k == 'at':
            s, m = SLICE(a[1], a[2], LEN(a[1])), a[3]
            if self.decide(LE(LEN(m), LEN(s))) is False:
                return False
            if self.bools.get(EQ(s, m)) is True:
                return True
            c = CPL(s, m)
            d = self.decide(eq0(sub(c, LEN(m))))
            if d is not None:
                return d
            return None
        if k == 'bnd':
            return True if self.boundary(a[1], a[2]) else None
        return None

    # -- char boundaries
    def boundary(self, s, i, depth=4):
        s = strip_dyn(s)
        if s[0] == 'slice':
            return self.boundary(s[1], add(s[2], i), depth)
        if i == INT(0) or i == LEN(s):
            return True
        if ('bnd', s, i) in self.bg or self.bools.get(('bnd', s, i)):
            return True
        if depth == 0:
            return False
        # equal to the end by a fact
        if self.decide(eq0(sub(i, LEN(s)))) is True:
            return True
        if self.decide(eq0(i)) is True:
            return True
        for (f, pol) in self.list:
            if not pol:
                continue
            if f[0] == 'at' and f[1] == s and add(f[2], LEN(f[3])) == i:
                if self.boundary(s, f[2], depth - 1):
                    return True
        for f in self.bg:
            if f[0] == 'at' and f[1] == s and add(f[2], LEN(f[3])) == i and f[2] != i and self.boundary(s, f[2], depth - 1):
                return True
        c, d = lin_parts(i)
        # i = base + offset that is a boundary of the suffix starting at base
        for t in list(d):
            if d[t] == 1:
                rest = sub(i, t)
                if t[0] == 'plen':
                    # length of the prefix a parser consumed from its input
                    x = SLICE(s, rest, LEN(s)) if rest != INT(0) else s
                    if t[1] == x and self.boundary(s, rest, depth - 1):
                        return True
                if t[0] == 'cpl' and rest == INT(0) and s in t[1:]:
                    return True
                if t[0] == 'cpl' and rest != INT(0) and SLICE(s, rest, LEN(s)) in t[1:] and self.boundary(s, rest, depth - 1):
                    return True
                if t[0] in ('bpos',) and t[1] == SLICE(s, rest, LEN(s)) and self.boundary(s, rest, depth - 1):
                    return True
                if t[0] == 'bpos' and t[1] == s and rest == INT(0):
                    return True
                if t[0] == 'lenutf8':
                    # base + len_utf8(first char of s[base..])
                    e = t[1]
                    if e == ('elem', ('chars', SLICE(s, rest, LEN(s))), INT(0)) and self.boundary(s, rest, depth - 1):
                        return True
                    if ('sync', s, rest, e) in self.bg:
                        return True
        return False

    # -- assumption; returns False when contradictory
    def assume(self, a, pol=True, note=True):
        if a[0] == 'not':
            return self.assume(a[1], not pol, note)
        if a[0] == 'bool':
            return a[1] == pol
        if a[0] == 'and':
            if pol:
                return all(self.assume(x, True, note) for x in a[1:])
            und = [x for x in a[1:] if self.decide(x) is not True]
            if not und:
                return False
            if len(und) == 1:
                return self.assume(und[0], False, note)
            if note:
                self.list.append((a, False))
            self.bools[a] = False
            return True
        if a[0] == 'or':
            if not pol:
                return all(self.assume(x, False, note) for x in a[1:])
            und = [x for x in a[1:] if self.decide(x) is not False]
            if not und:
                return False
            if len(und) == 1:
                return self.assume(und[0], True, note)
            if note:
                self.list.append((a, True))
            self.bools[a] = True
            return True
        r = self.decide(a)
        if r is not None:
            return r == pol
        if note:
            self.list.append((a, pol))
        k = a[0]
        if k == 'is':
            if pol:
                self.isv[a[1]] = a[2]
            else:
                self.isnt.setdefault(a[1], set()).add(a[2])
                o = {'Some': 'None', 'None': 'Some', 'Ok': 'Err', 'Err': 'Ok'}.get(a[2])
                if o:
                    self.isv.setdefault(a[1], o)
            return True
        if k == 'le0':
            self._addle(a[1] if pol else sub(INT(1), a[1]))
            return True
        if k == 'eq0':
            self.bools[a] = pol
            if pol:
                self._addle(a[1])
                self._addle(scale(a[1], -1))
            else:
                self.neq0.append(a[1])
                self._tighten()
            return True
        self.bools[a] = pol
        if pol and k == 'at':
            self._addle(sub(add(a[2], LEN(a[3])), LEN(a[1])))
            c = CPL(SLICE(a[1], a[2], LEN(a[1])), a[3])
            if c[0] == 'cpl':
                self._addle(sub(c, LEN(a[3])))
                self._addle(sub(LEN(a[3]), c))
        if not pol and k == 'at' and a[3][0] != 'str':
            # nothing is a head of everything: the text looked for is not empty, and the two differ somewhere in it
            self._addle(sub(INT(1), LEN(a[3])))
            c = CPL(SLICE(a[1], a[2], LEN(a[1])), a[3])
            if c[0] == 'cpl':
                self._addle(sub(add(c, INT(1)), LEN(a[3])))
        if pol and k == 'eq':
            d = sub(LEN(a[1]), LEN(a[2]))
            self._addle(d)
            self._addle(scale(d, -1))
        return True

    def _addle(self, l):
        if l[0] == 'int' or l in self.le:
            return
        self.le.append(l)
        self._tighten()

    def _tighten(self):
        for l in list(self.neq0):
            for x in (l, scale(l, -1)):
                y = add(x, INT(1))
                if y not in self.le and self._le(x):
                    self.le.append(y)

    def background(self, a):
        """add a fact known from a library contract (not a path condition)"""
        if a[0] == 'le0':
            self._addle(a[1])
        elif a[0] == 'is':
            self.isv.setdefault(a[1], a[2])
        elif a[0] == 'and':
            for x in a[1:]:
                self.background(x)
        elif a[0] == 'eq0':
            self.bools[a] = True
            self._addle(a[1])
            self._addle(scale(a[1], -1))
        elif a[0] == 'bool':
            pass
        elif a[0] in ('bnd', 'sync'):
            self.bg.add(a)
        else:
            self.bools[a] = True
