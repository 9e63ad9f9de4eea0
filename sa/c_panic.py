"""C02: compiling, adding and loading never panics.

Every panicking construct (failed assertion, arithmetic overflow check, slice or index out of range, unwrap / expect,
explicit panic) in the functions reachable from compiling a pattern text, adding a pattern and loading a pattern file is an
obligation: no path of the function, analysed from the most general arguments its callers can give, reaches it."""
from repo import *
from check import *
from c_insert import ISide, TREE_ENTRY
from c_match import classify_cmp, MATCHER, variant
from c_effect import Graph
import c_grammar
import c_load
import c_deser

FPS = c_load.FPS
LOADER = c_load.LOADER


def first_chars_equal(s, f):
    """[(a, b)]: texts whose first characters a successful binary search has found equal"""
    res = []
    for x, var in list(f.isv.items()):
        if x[0] == 'bsearch' and var == 'Ok':
            E = get(x[1], ('idx', ('pl', x, 'Ok', '0')))
            l = get(E, ('f', s.l_lit))
            for t in {t for a, p in f.list for t in subterms(a) if t[0] == 'cpl' and l in t[1:]}:
                k = t[2] if t[1] == l else t[1]
                if classify_cmp(x[2], x[1], k, s.l_lit):
                    res.append((l, k, t))
    return res


def insertion_excuse(s):
    def ex(v, st):
        f = st.facts
        for a, b, t in first_chars_equal(s, f):
            if f.decide(LE(INT(1), t)) is False:
                ne = f.decide(LE(INT(1), LEN(a))) is True or f.decide(LE(INT(1), LEN(b))) is True or \
                    any(not p and x[0] == 'eq' and set(x[1:3]) == {a, b} for x, p in f.list)
                if ne:
                    return 'infeasible: the entry found by its first character shares at least that character'
        return None
    return ex


def split_sites(ck, s, outs):
    """the position given to LiteralNode::split is a character boundary of both texts"""
    for k, v, st in outs:
        for ev in st.events:
            if ev[0] != 'split':
                continue
            old, n, lit = ev[1], ev[2], ev[3]
            for t, what in ((get(old, ('f', s.l_lit)), 'the old literal'), (lit, 'the new literal')):
                ok = st.facts.boundary(t, n)
                ck.verdict('no-panic', 'split position in %s' % what, True if ok else (None if opaque_in(n) else False),
                           'the literal is split at %s, which need not be a character boundary of %s' % (pp(n)[:120], what))


def adding(ck, kind):
    s = ISide(ck.repo, kind)
    outs = s.paths(ck)
    no_panic(ck, 'no-panic', 'add_pattern (%s)' % kind, outs, insertion_excuse(s))
    if s.split is not None:
        split_sites(ck, s, outs)

        def pre(st, args):
            for x in (get(('sym', 'self'), ('f', s.l_lit)), ('sym', 'p2')):
                st.facts.background(LE(args[1], LEN(x)))
                e.add_bnd(st, x, args[1])
        e = s.repo.engine()
        no_panic(ck, 'no-panic', 'split', ck.run(e, s.split, pre=pre))


def compiling(ck):
    g = c_grammar.Grammar(ck)
    g.flat = False
    for r, b in sorted(g.rules.items()):
        ck.guarded('no-panic', r.split('::')[-1], lambda: no_panic(ck, 'no-panic', r.split('::')[-1], g.run(b)))
    entry = ck.repo.body(c_grammar.ENTRY, must=False) or c_grammar.entry_of(ck)
    if entry is None:
        raise Undecided('the function that parses a whole pattern text was not recognised')
    no_panic(ck, 'no-panic', entry['path'].split('::')[-1], g.run(entry))


def loading(ck):
    def one(name, f):
        ck.guarded('no-panic', name, lambda: no_panic(ck, 'no-panic', name, f()))
    one('load_file', lambda: c_load.load_paths(ck))
    one('test_result', lambda: c_load.c12_paths(ck))
    for n in ('from_source', 'from_source_ignore_errors'):
        one(n, lambda: c_load.Ctx(ck.repo).run(ck, n))
    # the entry points, on top of what was analysed above
    fns = [ck.repo.body(LOADER + '::' + n) for n in ('from_file', 'from_file_ignore_errors')]
    big = {b['id'] for b in fns} | {ck.repo.body(LOADER + '::load_file')['id']}
    for b in ck.repo.p.raw['bodies']:
        if is_decoder(b) and b['kind'] != 'Closure':
            fns.append(b)
    for b in fns:
        def go(b=b):
            e = ck.repo.engine(opaque=lambda x, p: x['id'] != b['id'] and (x['id'] in big or x['path'].startswith(('grammar::', FPS))))
            return ck.run(e, b)
        one(b['path'].split('::', 1)[-1] if b['path'].startswith('<') else '::'.join(b['path'].split('::')[-2:]), go)
    for t, b, im in ck.repo.impl_methods('std::iter::Iterator', 'next'):
        one('%s::next' % t.split('::')[-1], lambda: ck.run(ck.repo.engine(), b))


def is_decoder(b):
    t = b.get('impltrait') or ''
    return 'serde' in t and ('de::' in t or 'Deserialize' in t or 'Visitor' in t)


def roots(repo):
    r = []
    for t, b, im in repo.impl_methods(MATCHER, 'add_pattern'):
        r.append(b['id'])
    for b in repo.p.raw['bodies']:
        p = b['path']
        if p.startswith((FPS + '::', LOADER + '::')) or is_decoder(b):
            r.append(b['id'])
        if b['kind'] != 'Closure' and b['path'] in (c_grammar.ENTRY,):
            r.append(b['id'])
    return r


def factory_excuse(ck, v, st):
    """what the pattern syntax guarantees about the arguments of the parser constructors"""
    f = st.facts
    d = v['detail']
    # only texts of the grammar reach them: names are plain ASCII identifiers, keys are the ones the grammar knows
    if isinstance(d, tuple) and d[0] == 'slice' and len(d) == 4 and isinstance(d[3], tuple):
        if all(c[0] == 'bnd' or f.decide(c) is True for c in d[3]):
            return True
    if any(a[0] in ('eq', 'occurs', 'starts', 'ends', 'member') and not (a[0] == 'eq' and ('int' in (a[1][0], a[2][0]))) for a, p in f.list):
        keys = {a for a, p in f.list if a[0] == 'eq' and 'str' in (a[1][0], a[2][0])}
        pos = {a for a, p in f.list if p and a in keys}
        if len(pos) == 0 or any(a not in keys for a, p in f.list if a[0] in ('occurs', 'starts', 'ends', 'member')):
            return True
    return False


def factories(ck):
    for b in ck.repo.p.raw['bodies']:
        if not (b.get('impltrait') or '').startswith('parsers::ParserFactory') or b['kind'] == 'Closure':
            continue
        name = '::'.join(b['path'].split('::')[-2:])

        def go(b=b):
            def pre(st, args):
                for i, a in enumerate(args):
                    for x in (a, ('pl', a, 'Some', '0')):
                        st.facts.background(LE(INT(1), LEN(x)))
            e = ck.repo.engine()
            outs = ck.run(e, b, pre=pre)
            rest_ = []
            for o in outs:
                if o[0] == 'panic' and factory_excuse(ck, o[1], o[2]):
                    ck.unk('no-panic', '%s: %s in %s' % (name, o[1]['kind'], o[1]['fn']), 'depends on what the grammar lets through (path: %s)' % facts_str(o[2])[:300])
                else:
                    rest_.append(o)
            no_panic(ck, 'no-panic', name, rest_)
        ck.guarded('no-panic', name, go)


def rest(ck):
    """everything else that is reachable: analysed on its own, from arbitrary arguments"""
    repo = ck.repo
    G = Graph(repo)
    G.relevant = set()
    seen = G.reach(roots(repo))
    g = c_grammar.Grammar(ck)
    done = set(ck.stats['functions'])
    left = [i for i in seen if i not in done and repo.p.bodies[i]['kind'] != 'Closure']
    for i in sorted(left, key=lambda i: repo.p.bodies[i]['path']):
        b = repo.p.bodies[i]
        if b['id'] in ck.stats['functions']:
            continue
        name = b['path'].split('::', 2)[-1] if b['path'].startswith('<') else '::'.join(b['path'].split('::')[-2:])

        def go():
            e = repo.engine(opaque=lambda x, p: x['id'] != b['id'] and x['id'] in done and x['path'].startswith(('grammar::', FPS, LOADER)))
            outs = ck.run(e, b)
            n = 0
            for k, v, st in outs:
                if k == 'panic':
                    d = v['detail'] if isinstance(v['detail'], tuple) else ('str', str(v['detail']))
                    ck.unk('no-panic', '%s: %s in %s' % (name, v['kind'], v['fn']), 'depends on the arguments: %s (path: %s)' % (pp(d)[:200], facts_str(st)[:300]))
                else:
                    n += 1
            ck.holds('no-panic', name, '%d paths return normally' % n)
        ck.guarded('no-panic', name, go)


def c02(ck):
    for kind in ('trie', 'array'):
        ck.guarded('no-panic', 'add_pattern (%s)' % kind, adding, ck, kind)
    import c_order
    ck.guarded('common-prefix', 'common_prefix_len', c_order.cpl_contract, ck)
    ck.guarded('no-panic', 'pattern', compiling, ck)
    loading(ck)
    ck.guarded('no-panic', 'parser constructors', factories, ck)
    ck.guarded('no-panic', 'other functions', rest, ck)
