"""Regular languages over marked characters, as boolean combinations closed under derivatives.

A word is a text followed by the end symbol; every symbol carries mark bits (bit 0: the position asked about, bit 1: an uninterpreted predicate).  Languages are hash-consed terms
(0 = nothing, 1 = everything, a character class followed by a language, and, or, not, variables with guarded
definitions); equality is decided exactly by walking pairs of derivatives."""

END = -1
MAXCP = 0x10FFFF
ANY = ((0, MAXCP),)
WIDTH = {1: ((0, 0x7F),), 2: ((0x80, 0x7FF),), 3: ((0x800, 0xFFFF),), 4: ((0x10000, MAXCP),)}


class TooBig(Exception):
    pass


class Lang:
    LIMIT = 60000

    def __init__(self):
        self.terms = []
        self.ids = {}
        self.defs = {}
        self.dcache = {}
        self.ncache = {}
        self.ZERO = self.mk(('0',))
        self.ONE = self.mk(('1',))

    def mk(self, t):
        i = self.ids.get(t)
        if i is None:
            i = len(self.terms)
            self.terms.append(t)
            self.ids[t] = i
        return i

    # ---- constructors
    def cls(self, ivs, l, bit=None):
        """first symbol in the class (and with the given mark), then l"""
        if l == self.ZERO or not ivs:
            return self.ZERO
        return self.mk(('c', tuple(sorted(ivs)), bit, l))

    def end(self):
        return self.cls(((END, END),), self.ONE)

    def marked(self):
        return self.cls(((END, MAXCP),), self.ONE, (1, 1))

    def oracle(self):
        """the digits that start here denote a representable number"""
        return self.cls(((END, MAXCP),), self.ONE, (2, 2))

    def neg(self, a):
        t = self.terms[a]
        if t[0] == '0':
            return self.ONE
        if t[0] == '1':
            return self.ZERO
        if t[0] == 'not':
            return t[1]
        return self.mk(('not', a))

    def conj(self, *xs):
        s = set()
        for x in xs:
            t = self.terms[x]
            if t[0] == '0':
                return self.ZERO
            if t[0] == '1':
                continue
            if t[0] == 'and':
                s |= t[1]
            else:
                s.add(x)
        for x in s:
            if self.neg(x) in s:
                return self.ZERO
        # absorption: x & (x | y) = x ; (~x) & (x | y) = (~x) & y
        r = set()
        changed = False
        for x in s:
            t = self.terms[x]
            if t[0] == 'or':
                if t[1] & (s - {x}):
                    changed = True
                    continue
                drop = {y for y in t[1] if self.neg(y) in s}
                if drop:
                    changed = True
                    r.add(self.disj(*(t[1] - drop)))
                    continue
            r.add(x)
        if changed:
            return self.conj(*r)
        if not s:
            return self.ONE
        if len(s) == 1:
            return next(iter(s))
        return self.mk(('and', frozenset(s)))

    def disj(self, *xs):
        s = set()
        for x in xs:
            t = self.terms[x]
            if t[0] == '1':
                return self.ONE
            if t[0] == '0':
                continue
            if t[0] == 'or':
                s |= t[1]
            else:
                s.add(x)
        for x in s:
            if self.neg(x) in s:
                return self.ONE
        r = set()
        changed = False
        for x in s:
            t = self.terms[x]
            if t[0] == 'and':
                if t[1] & (s - {x}):
                    changed = True
                    continue
                drop = {y for y in t[1] if self.neg(y) in s}
                if drop:
                    changed = True
                    r.add(self.conj(*(t[1] - drop)))
                    continue
            r.add(x)
        if changed:
            return self.disj(*r)
        if not s:
            return self.ZERO
        if len(s) == 1:
            return next(iter(s))
        return self.mk(('or', frozenset(s)))

    def var(self, name):
        return self.mk(('v', name))

    def define(self, name, l):
        self.defs[name] = l

    # ---- helpers
    def skip(self, n, l):
        """exactly n bytes, then l"""
        if n == 0:
            return l
        return self.disj(*[self.cls(WIDTH[w], self.skip(n - w, l)) for w in (1, 2, 3, 4) if w <= n])

    def atleast(self, n):
        """at least n bytes are left"""
        if n <= 0:
            return self.ONE
        return self.disj(*[self.cls(WIDTH[w], self.atleast(n - w)) for w in (1, 2, 3, 4)])

    def lit(self, s, l):
        for c in reversed(s):
            l = self.cls(((ord(c), ord(c)),), l)
        return l

    # ---- derivative, emptiness of the word
    def null(self, a, seen=()):
        t = self.terms[a]
        k = t[0]
        if k in ('0', 'c'):
            return False
        if k == '1':
            return True
        if k == 'not':
            return not self.null(t[1], seen)
        if k == 'and':
            return all(self.null(x, seen) for x in t[1])
        if k == 'or':
            return any(self.null(x, seen) for x in t[1])
        if t[1] in seen:
            return False
        return self.null(self.defs[t[1]], seen + (t[1],))

    def d(self, a, sym, seen=()):
        key = (a, sym)
        r = self.dcache.get(key)
        if r is not None:
            return r
        t = self.terms[a]
        k = t[0]
        if k in ('0', '1'):
            return a
        if k == 'c':
            cp, bit = sym
            ok = any(lo <= cp <= hi for lo, hi in t[1]) and (t[2] is None or (bit & t[2][0]) == t[2][1])
            r = t[3] if ok else self.ZERO
        elif k == 'not':
            r = self.neg(self.d(t[1], sym, seen))
        elif k == 'and':
            r = self.conj(*[self.d(x, sym, seen) for x in t[1]])
        elif k == 'or':
            r = self.disj(*[self.d(x, sym, seen) for x in t[1]])
        else:
            if t[1] in seen:
                return self.ZERO            # a round that consumes nothing never ends: no word
            r = self.d(self.defs[t[1]], sym, seen + (t[1],))
        if not seen:
            self.dcache[key] = r
        return r

    # ---- alphabet
    def minterms(self, roots):
        cuts = {0, 0x80, 0x800, 0x10000, MAXCP + 1}
        seen, work = set(), list(roots)
        while work:
            a = work.pop()
            if a in seen:
                continue
            seen.add(a)
            t = self.terms[a]
            if t[0] == 'c':
                for lo, hi in t[1]:
                    if lo >= 0:
                        cuts.add(lo)
                    cuts.add(hi + 1)
                work.append(t[3])
            elif t[0] == 'not':
                work.append(t[1])
            elif t[0] in ('and', 'or'):
                work.extend(t[1])
            elif t[0] == 'v':
                work.append(self.defs[t[1]])
        cuts = sorted(c for c in cuts if 0 <= c <= MAXCP + 1)
        # one representative per elementary interval, merged when no class tells them apart
        classes = set()
        for a in seen:
            t = self.terms[a]
            if t[0] == 'c':
                classes.add(t[1])
        sig = {}
        for lo, hi in zip(cuts, cuts[1:]):
            s = frozenset(c for c in classes if any(x <= lo <= y for x, y in c))
            w = 1 if lo < 0x80 else 2 if lo < 0x800 else 3 if lo < 0x10000 else 4
            best = sig.get((s, w))
            rep = next((c for c in range(lo, min(hi, lo + 200)) if chr(c).isalnum()), next((c for c in range(lo, min(hi, lo + 200)) if 33 <= c < 127), lo))
            if best is None or (not chr(best).isalnum() and chr(rep).isalnum()):
                sig[(s, w)] = rep
        return sorted(set(sig.values()))

    def bits(self, roots):
        u = 0
        seen, work = set(), list(roots)
        while work:
            a = work.pop()
            if a in seen:
                continue
            seen.add(a)
            t = self.terms[a]
            if t[0] == 'c':
                u |= t[2][0] if t[2] else 0
                work.append(t[3])
            elif t[0] == 'not':
                work.append(t[1])
            elif t[0] in ('and', 'or'):
                work.extend(t[1])
            elif t[0] == 'v':
                work.append(self.defs[t[1]])
        return u

    def differ(self, a, b):
        """None if the languages agree on all marked words that end with the end symbol; otherwise a shortest word told apart"""
        syms = self.minterms([a, b])
        syms.sort(key=lambda c: (c >= 0x80, not chr(c).isalnum(), c))
        bits = [0]
        used = self.bits([a, b])
        if used & 1:
            bits += [x | 1 for x in bits]
        if used & 2:
            bits += [x | 2 for x in bits]
        seen = {(a, b)}
        level = [((a, b), ())]
        while level:
            nxt = []
            for (x, y), w in level:
                for bit in bits:
                    dx, dy = self.d(x, (END, bit)), self.d(y, (END, bit))
                    nx, ny = self.null(dx), self.null(dy)
                    if nx != ny:
                        return w + ((END, bit),), nx
                for c in syms:
                    for bit in bits:
                        p = (self.d(x, (c, bit)), self.d(y, (c, bit)))
                        if p[0] == p[1] or p in seen:
                            continue
                        seen.add(p)
                        if len(seen) > self.LIMIT:
                            raise TooBig()
                        nxt.append((p, w + ((c, bit),)))
            level = nxt
        return None


def show(w):
    """a witness word as text, the marked position shown by ^"""
    s = ''
    for c, bit in w:
        if bit & 1:
            s += '\u2038'
        if c != END:
            s += chr(c)
    return s


# ---------------------------------------------------------------- the reference: parsing expressions
def wp(L, e, k, fresh):
    """texts on which the parsing expression matches a prefix such that the rest is in k"""
    t = e[0]
    if t == 'lit':
        return L.lit(e[1], k)
    if t == 'class':
        return L.cls(e[1], k)
    if t == 'seq':
        for x in reversed(e[1:]):
            k = wp(L, x, k, fresh)
        return k
    if t == 'alt':
        r = L.ZERO
        no = L.ONE
        for x in e[1:]:
            r = L.disj(r, L.conj(no, wp(L, x, k, fresh)))
            no = L.conj(no, L.neg(wp(L, x, L.ONE, fresh)))
        return r
    if t == 'opt':
        x = wp(L, e[1], k, fresh)
        return L.disj(x, L.conj(L.neg(wp(L, e[1], L.ONE, fresh)), k))
    if t == 'not':
        return L.conj(k, L.neg(wp(L, e[1], L.ONE, fresh)))
    if t == 'star':
        n = ('star', e, k)
        v = L.var(n)
        if n not in L.defs:
            L.define(n, L.ZERO)
            L.define(n, L.disj(wp(L, e[1], v, fresh), L.conj(L.neg(wp(L, e[1], L.ONE, fresh)), k)))
        return v
    if t == 'plus':
        return wp(L, ('seq', e[1], ('star', e[1])), k, fresh)
    if t == 'mark':
        return L.conj(L.marked(), k) if e[1] == fresh else k
    if t == 'oracle':
        return L.conj(L.oracle(), k)
    raise ValueError(t)
