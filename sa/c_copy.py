"""C19: a clone has every part of the original.

Every implementation of Clone for a type of the crate, and every boxed_clone, is run with the clones of the parts it
calls taken as faithful (each of them is an obligation of its own); what it builds has to be the original again,
field by field and variant by variant."""
from repo import *
from check import *
from models import pay
from c_grammar import changed_text

CLONE = 'std::clone::Clone'
SELF = ('sym', 'self')
PARTIAL = {'filter', 'filter_map', 'take', 'skip', 'take_while', 'skip_while', 'step_by', 'map_while', 'dedup', 'rev'}


def hook(top):
    def f(e, ctx, body, args, st):
        if body['id'] != top['id'] and (body['name'] == 'boxed_clone' or body.get('impltrait') == CLONE and body['name'] == 'clone'):
            return [('ret', strip_dyn(e.deref(st, args[0])), st)]
        return None
    return f


def c19(ck):
    todo = []
    for im in ck.repo.p.impls:
        if im['trait'] == CLONE and im['self'][0] == 'adt' and im['self'][1] in ck.repo.p.adts:
            for m, i in im['methods']:
                if i in ck.repo.p.bodies:
                    todo.append((im['self'][1], m, ck.repo.p.bodies[i]))
    for tr in sorted({im['trait'] for im in ck.repo.p.impls if im['trait']}):
        for m in ('boxed_clone',):
            for owner, b, im in ck.repo.impl_methods(tr, m):
                todo.append((owner, m, b))
    if not any(t.split('::')[-1] == 'SuffixTree' for t, m, b in todo):
        ck.unk('clone', 'SuffixTree', 'no clone of the matcher found')
    for owner, m, b in todo:
        nm = '%s::%s' % (owner.split('::')[-1], m)
        ck.guarded('clone', nm, one, ck, owner, m, b, nm)


def one(ck, owner, m, b, nm):
    e = ck.repo.engine(extra=hook(b))
    if m == 'clone_from':
        return clone_from(ck, e, owner, b, nm)
    for k, v, st in ck.run(e, b):
        if k != 'ret':
            continue
        path = ' (path: %s)' % facts_str(st) if st.facts.list else ''
        unk = bool(unknown_calls(st, ('Parser::boxed_clone', 'Matcher::boxed_clone')))
        for part, ok, why in compare(ck, st, unbox(v), SELF, owner, ()):
            ck.verdict('clone', nm + part, ok, why + path, unk)


def clone_from(ck, e, owner, b, nm):
    src = ('sym', 'p1')
    for k, v, st in ck.run(e, b):
        if k != 'ret':
            continue
        r = [x for q, x in st.store.items() if q == ('arg', 'self')]
        if len(r) != 1:
            ck.unk('clone', nm, 'the target of clone_from was not recognised')
            continue
        for part, ok, why in compare(ck, st, unbox(r[0]), src, owner, ()):
            ck.verdict('clone', nm + part, ok, why)


def unbox(v):
    v = strip_dyn(v)
    while v[0] == 'call' and v[1].split('::')[-1] in ('boxed_clone', 'clone') and len(v) == 3:
        v = strip_dyn(v[2])
    return v


def compare(ck, st, got, want, ty, at):
    """[(part, True / False / None, why)]: got is want"""
    here = ''.join('.' + x for x in at)
    got = unbox(got)
    f = st.facts
    if got == want:
        return [(here, True, '')]
    if want[0] == 'str' or got[0] == 'str' and want[0] != 'str':
        return [(here, False, 'the copy has the text %s here' % pp(got)[:100])]
    if got[0] == 'adt':
        a = ck.repo.p.adts.get(ty) if isinstance(ty, str) else None
        if got[2] is None:
            if a is not None and got[1] != ty:
                return [(here, False, 'the copy is a %s' % got[1])]
            res = []
            tys = dict((x[0], x[1]) for x in a['variants'][0]['fields']) if a else {}
            for n, x in got[3]:
                t = tys.get(n)
                if t and t[0] == 'adt' and 'PhantomData' in t[1]:
                    continue
                res += compare(ck, st, x, get(want, ('f', n)), t[1] if t and t[0] == 'adt' else None, at + (n,))
            return res or [(here, True, '')]
        var = f.isv.get(want)
        if var is None and want[0] == 'adt':
            var = want[2]
        if var is None:
            r = {v: f.decide(IS(want, v)) for v in (got[2],)}
            var = got[2] if r[got[2]] is True else None
            if r[got[2]] is False:
                return [(here, False, 'the copy is %s although the original is not' % got[2])]
        if var is None:
            return [(here, False, 'the copy is %s whatever the original is' % got[2])]
        if var != got[2]:
            return [(here, False, 'the copy is %s where the original is %s' % (got[2], var))]
        res = []
        for n, x in got[3]:
            res += compare(ck, st, x, ('pl', want, got[2], n) if want[0] != 'adt' else dict(want[3])[n], None, at + (got[2],) + ((n,) if len(got[3]) > 1 else ()))
        return res or [(here, True, '')]
    if got in (('vec', ()), ('map', ()), ('set', ())) or got[0] == 'vec':
        if f.decide(eq0(LEN(want))) is True and got == ('vec', ()):
            return [(here, True, '')]
        return [(here, False if got[0] != 'vec' or got[1] == () else None, 'the copy holds %s here' % pp(got)[:100])]
    if got[0] == 'upd' and isinstance(ty, str) and ty in ck.repo.p.adts and not ck.repo.p.adts[ty]['enum']:
        res = []
        for n, t, _ in ck.repo.p.adts[ty]['variants'][0]['fields']:
            res += compare(ck, st, get(got, ('f', n)), get(want, ('f', n)), t[1] if t[0] == 'adt' else None, at + (n,))
        return res
    t = changed_text(got)
    if t is not None and t[1] == want or one_char(got, want):
        return [(here, False, 'the copy has %s where the original has %s' % (pp(got)[:80], pp(want)[:80]))]
    if got[0] in ('int', 'bool', 'true', 'false'):
        return [(here, False, 'the copy has %s here, whatever the original has' % pp(got)[:60])]
    if got[0] == 'collect':
        s, lossy = got[1], False
        while s[0] in PARTIAL | {'elems', 'iter', 'map', 'cloned', 'chars'} and len(s) > 1 and isinstance(s[1], tuple):
            if s[0] == 'map':
                return [(here, None, 'the elements are mapped')]
            lossy = lossy or s[0] in PARTIAL
            s = s[1]
        if s == want:
            return [(here, not lossy, 'the copy leaves out elements: %s' % pp(got)[:120])]
    if got[0] == 'lv':
        return [(here,) + built(st, got, want)]
    if got[0] in ('fld', 'pl', 'sym') and root(got) == root(want) and not opaque_in(got):
        return [(here, False, 'the copy has %s where the original has %s' % (pp(got)[:80], pp(want)[:80]))]
    return [(here, None, 'the copy has %s here' % pp(got)[:150])]


def one_char(got, want):
    if got[0] == 'call' and got[1] == 'to_string':
        got = got[2]
    return got[0] in ('elem', 'idx') and got[1] in (('chars', want), ('bytes', want))


def root(t):
    while t[0] in ('fld', 'pl', 'idx') and isinstance(t[1], tuple):
        t = t[1]
    return t


def built(st, got, want):
    """a collection filled in a loop over the original"""
    lps = {lp.key: lp for lp in loops_of(st)}
    if got[1] not in lps:
        return None, 'the copy is %s' % pp(got)[:100]
    lp = lps[got[1]]
    place = [q for q, (i, x) in lp.places.items() if x == got]
    its = [lv for lv, s in lp.iterl if s in (want, ('elems', want))]
    part = [s for lv, s in lp.iterl if s[0] in PARTIAL and any(x == want for x in subterms(s))]
    if part:
        return False, 'the copy is filled from %s' % pp(part[0])[:100]
    if len(place) != 1 or len(its) != 1 or lp.places[place[0]][0] not in (('vec', ()), ('map', ()), ('set', ())):
        return None, 'loop not understood'
    if st.facts.decide(LT(its[0], LEN(want))) is not False:
        return False, 'the copy stops before the last element'
    for bk in lp.backs:
        n = bk['new'][place[0]]
        x = get(want, ('idx', its[0]))
        if n in (('push', got, x), ('push', got, ('elem', want, its[0]))):
            continue
        if n == got:
            return (None if any(opaque_in(a) for a, p in bk['facts']) else False), 'an element is left out'
        return None, 'a round gives %s' % pp(n)[:100]
    return True, ''
