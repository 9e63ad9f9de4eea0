"""Decoding of pattern files (C14) and the rule that the decoders swallow no error (part of C10)."""
from repo import *
from check import *
from c_load import swallowed, calls, loops_in, ok_pl, some_pl, fold, pfacts, is_result

FILE = 'matcher::pattern::file::file::PatternFile'
VISITOR = 'serde::de::Visitor'

# documented field names: (name, mandatory) per type
DOC = {
    PATTERN: (('name', False), ('uuid', True), ('pattern', True), ('values', False), ('tags', False), ('test_messages', False)),
    TMSG: (('message', True), ('values', False), ('tags', False)),
    FILE: (('patterns', True),),
}
OTHERS = ('', 'x', 'Name', 'NAME', 'names', 'uid', 'UUID', 'Pattern', 'PATTERN', 'value', 'Values', 'tag', 'Tags', 'test_message', 'testmessages',
          'TestMessages', 'test-messages', 'Message', 'messages', 'comment', 'description', '_', ' name', 'name ', 'id', 'rule', 'parser', 'examples')
ERRMAKERS = ('Error::', 'error::')


def decoders(ck):
    """{type: (visit_map body, visit_str body or None)}"""
    res = {}
    bodies = [b for b in ck.repo.p.raw['bodies'] if b.get('impltrait') == VISITOR]
    for T in DOC:
        ms = [b for b in bodies if b.get('name') == 'visit_map' and is_result(b['locals'][0]) and b['locals'][0][2][0][:2] == ['adt', T]]
        if not ms:
            raise Undecided('no hand-written decoder (visit_map) of %s' % T)
        res[T] = ms[0]
    return res


def engine(ck):
    return ck.repo.engine(opaque=lambda b, p: b['path'].startswith('grammar::') or b['path'].startswith('parsers::'))


def field_visitors(ck, ftype):
    """every visit_* function that yields the key type"""
    return [b for b in ck.repo.p.raw['bodies'] if b.get('impltrait') == VISITOR and b['name'].startswith('visit_')
            and is_result(b['locals'][0]) and b['locals'][0][2][0] == ftype]


def infeasible(st):
    """missing_field of an absent, non-optional value is always an error (serde)"""
    for key, args, ret, site, ty in calls(st.events):
        if key == 'MapVisitor::missing_field' and st.facts.isv.get(ret) == 'Ok':
            t = ty[2][0] if is_result(ty) else None
            if not (isinstance(t, list) and t[0] == 'adt' and t[1].endswith('::Option')):
                return True
    return False


def no_swallow(ck):
    rule = 'decoder'
    for T, b in decoders(ck).items():
        ck.guarded(rule, T.split('::')[-1], one_no_swallow, ck, T, b)


def one_no_swallow(ck, T, b):
    rule, name = 'decoder', T.split('::')[-1] + '::visit_map'
    crate = {'grammar::parser::pattern', 'parser::pattern', 'grammar::parser::pattern_with_factory'}
    n = 0
    for k, v, st in ck.run(engine(ck), b):
        if k != 'ret':
            continue
        for L in loops_in(st.events):
            if getattr(L, '_sw', None) == name:
                continue
            L._sw = name
            for bk in L.backs:
                swallowed(ck, rule, name, bk['state'].facts, bk['events'], ' (round of the loop: %s)' % pfacts(bk['facts']), crate)
        v = strip_dyn(v)
        if infeasible(st) or (v[0] == 'adt' and v[2] == 'Err'):
            continue
        if v[0] != 'adt' or v[2] != 'Ok':
            ck.unk(rule, name, 'result %s not understood' % pp(v)[:200])
            continue
        n += 1
        swallowed(ck, rule, name, st.facts, [ev for ev in st.events if ev[0] == 'call' and not ev[1].startswith('Error::')], ' (path: %s)' % facts_str(st), crate)
    ck.verdict(rule, name + ': succeeds', True if n else None, 'no successful path recognised')


def c14(ck):
    try:
        ds = decoders(ck)
    except Undecided as u:
        ck.unk('analysis', 'decoders', str(u))
        return
    for T, b in ds.items():
        ck.guarded('analysis', T.split('::')[-1], decode, ck, T, b)
    for T in (PATTERN, TMSG):
        accessors(ck, T)
    for T in DOC:
        ck.guarded('delegate', T.split('::')[-1], delegate, ck, T, ds[T])


def delegate(ck, T, vm):
    """Deserialize::deserialize hands the input to the visitor and returns what it gives"""
    rule, name = 'delegate', T.split('::')[-1] + '::deserialize'
    bs = [b for b in ck.repo.p.raw['bodies'] if b.get('name') == 'deserialize' and is_result(b['locals'][0]) and b['locals'][0][2][0][:2] == ['adt', T]]
    if len(bs) != 1:
        ck.unk(rule, name, 'deserialize not found')
        return
    for k, v, st in ck.run(engine(ck), bs[0]):
        if k != 'ret':
            continue
        v = strip_dyn(v)
        cs = [c for c in calls(st.events) if c[0].startswith('Deserializer::')]
        ok = len(cs) == 1 and (v == cs[0][2] or (v[0] == 'adt' and v[2] == 'Ok' and dict(v[3]).get('0') == ok_pl(cs[0][2]) and st.facts.isv.get(cs[0][2]) == 'Ok')
                               or (v[0] == 'adt' and v[2] == 'Err' and st.facts.isv.get(cs[0][2]) == 'Err'))
        if not ok and cs and v[0] == 'adt' and v[2] == 'Ok' and any(st.facts.isv.get(c[2]) == 'Err' for c in cs):
            ck.bad(rule, name, 'yields a value although decoding failed (path: %s)' % facts_str(st))
        else:
            ck.verdict(rule, name, True if ok else None, 'not recognised: %s' % pp(v)[:200])


def accessors(ck, T):
    """the public accessors give the field they are named after"""
    last = T.split('::')[-1]
    fields = dict(ck.repo.fields(T))
    for n, mand in DOC[T]:
        b = ck.repo.body('%s::%s' % (T, n), False)
        if b is None or b['argc'] != 1:
            continue
        if n not in fields:
            ck.unk('accessor', '%s::%s' % (last, n), 'no field of that name')
            continue
        ck.guarded('accessor', '%s::%s' % (last, n), accessor_, ck, b, '%s::%s' % (last, n), ('fld', ('sym', 'self'), n))


def accessor_(ck, b, name, place):
    e = ck.repo.engine()
    outs = ck.run(e, b)
    place = get(('sym', 'self'), ('f', place[2]))
    for k, v, st in outs:
        if k != 'ret':
            continue
        d = strip_dyn(e.deref(st, v))
        path = ' (path: %s)' % facts_str(st)
        full = deep(e, st, d)
        if full == place or (full[0] == 'adt' and full[2] == 'Some' and dict(full[3])['0'] == some_pl(place)) \
                or (full[0] == 'adt' and full[2] == 'None' and st.facts.isv.get(place) == 'None'):
            ck.holds('accessor', name)
        elif not opaque_in(full) and (full[0] == 'adt' and full[2] == 'None' or reads_other(full, place)):
            ck.bad('accessor', name, 'gives %s' % pp(full)[:200] + path)
        else:
            ck.unk('accessor', name, 'gives %s' % pp(full)[:200] + path)


def reads_other(t, place):
    return any(x[0] == 'fld' and x[1] == ('sym', 'self') and x != place for x in subterms(t)) and place not in list(subterms(t))


def deep(e, st, t):
    t = strip_dyn(t)
    if t[0] == 'ref':
        return deep(e, st, e.deref(st, t))
    if t[0] == 'adt':
        return ('adt', t[1], t[2], tuple((n, deep(e, st, x)) for n, x in t[3]))
    return t


def decode(ck, T, b):
    last = T.split('::')[-1]
    name = last + '::visit_map'
    e = engine(ck)
    outs = [(strip_dyn(v), st) for k, v, st in ck.run(e, b) if k == 'ret']
    # the key type
    keys = {}
    loops = []
    for v, st in outs:
        for L in loops_in(st.events):
            if L not in loops:
                loops.append(L)
        for evs in [st.events] + [bk['events'] for L in loops_in(st.events) for bk in L.backs]:
            for key, args, ret, site, ty in calls(evs):
                if key == 'MapVisitor::visit_key' or key == 'MapVisitor::visit':
                    keys[repr(ty[2][0][2][0])] = ty[2][0][2][0]
    kl = [L for L in loops if any(c[0] == 'MapVisitor::visit_key' for bk in L.backs for c in calls(bk['events']))]
    if len(keys) != 1 or len(kl) != 1:
        ck.unk('fields', name, 'the loop over the fields was not recognised')
        return
    ftype = list(keys.values())[0]
    names = key_names(ck, T, ftype)
    if names is None:
        return
    L = kl[0]
    lvs = {k: lv for k, (init, lv) in L.places.items()}
    inits = {k: init for k, (init, lv) in L.places.items()}
    store = {}          # variant -> place
    bad_place = set()
    ign = set()
    variants = [x['name'] for x in ck.repo.adt(ftype[1])['variants']] if ftype[0] == 'adt' and ftype[1] in ck.repo.p.adts else None
    if variants is None:
        ck.unk('fields', name, 'the type of the keys is %s' % ftype)
        return
    for bk in L.backs:
        f = bk['state'].facts
        path = ' (round: %s)' % pfacts(bk['facts'])
        kc = [c for c in calls(bk['events']) if c[0] == 'MapVisitor::visit_key']
        if len(kc) != 1:
            ck.unk('fields', name, 'a round reads %d keys' % len(kc) + path)
            return
        item = some_pl(ok_pl(kc[0][2]))
        v = f.isv.get(item)
        cands = [v] if v else [x for x in variants if x not in nots(f, item)]
        if len(variants) == 1:
            cands = variants
        ch = {k: n for k, n in bk['new'].items() if n != lvs[k]}
        vals = [c for c in calls(bk['events']) if c[0] == 'MapVisitor::visit_value']
        writes = {k: n for k, n in ch.items() if not visitor_state(n, kc + vals)}
        for c in cands:
            cn = '%s: %s' % (name, c)
            if not writes:
                ck.verdict('stored', cn, False, 'the value of the field %r is read and dropped' % names.get(c, c) + path,
                           bool([x for x in calls(bk['events']) if x not in kc + vals and not x[0].startswith('Error::')]))
                continue
            if len(writes) != 1 or len(vals) != 1 or list(writes.values())[0] != SOME(ok_pl(vals[0][2])):
                k0 = list(writes)[0]
                n0 = writes[k0]
                # a recognised wrong value: the value of the field plays no role
                if len(writes) == 1 and len(vals) == 1 and vals[0][2] not in list(subterms(n0)) and not opaque_in_not(n0, [vals[0][2], kc[0][2]]):
                    ck.bad('stored', cn, 'stores %s instead of the value read' % pp(n0)[:200] + path)
                else:
                    ck.unk('stored', cn, 'stores %s' % {str(k): pp(x)[:200] for k, x in writes.items()} + path)
                bad_place |= set(writes)
                store.setdefault(c, None)
                continue
            k0 = list(writes)[0]
            if c in store and store[c] not in (k0, None):
                ck.unk('stored', cn, 'stored in two places' + path)
            store.setdefault(c, k0)
            ck.holds('stored', cn)
    for c in variants:
        if c not in store and c in names and not any(o[0] == 'stored' and o[1].endswith(': ' + c) for o in ck.obs):
            ck.unk('stored', '%s: %s' % (name, c), 'no round for this field was recognised')
    place = {}
    for c, nm in names.items():
        if store.get(c):
            place[nm] = store[c]
    for nm, p in place.items():
        for nm2, p2 in place.items():
            if nm < nm2 and p == p2:
                ck.bad('stored', '%s: %s and %s' % (name, nm, nm2), 'both fields are stored in the same place, one replaces the other')
    for nm, p in place.items():
        i = strip_dyn(inits[p])
        if not (i[0] == 'adt' and i[2] == 'None'):
            known = i[0] == 'adt' and i[2] == 'Some' and not opaque_in(i)
            ck.verdict('stored', '%s: %s starts absent' % (name, nm), None if not known else False, 'starts as %s' % pp(i)[:200])
    fields = dict(ck.repo.fields(T))
    n = 0
    for v, st in outs:
        path = ' (path: %s)' % facts_str(st)
        if v[0] == 'adt' and v[2] == 'Err':
            rejected(ck, T, name, v, st, place, lvs, path)
            continue
        if infeasible(st):
            continue
        if v[0] != 'adt' or v[2] != 'Ok':
            ck.unk('result', name, 'result %s' % pp(v)[:200] + path)
            continue
        r = strip_dyn(dict(v[3])['0'])
        if r[0] != 'adt' or r[1] != T:
            ck.unk('result', name, 'result %s' % pp(r)[:200] + path)
            continue
        n += 1
        got = dict(r[3])
        f = st.facts
        done = any(c[0] == 'MapVisitor::visit_key' and f.isv.get(ok_pl(c[2])) == 'None' for c in calls(st.events))
        ck.verdict('all-fields', name, True if done else None, 'yields a value before the last field was read' + path)
        for nm, mand in DOC[T]:
            cn = '%s: %s' % (name, nm)
            if nm not in place:
                continue
            lv = lvs[place[nm]]
            pv = f.isv.get(lv)
            if mand and pv != 'Some':
                ck.verdict('mandatory', cn, False if pv == 'None' or lv_free(f, lv) else None, 'a %s without %r is accepted' % (last, nm) + path)
                continue
            elif mand:
                ck.holds('mandatory', cn)
            if nm not in fields or nm not in got:
                ck.unk('value', cn, 'the field of the result was not recognised')
                continue
            g = strip_dyn(got[nm])
            ok = value_ok(f, T, nm, g, lv, pv)
            if ok is None:
                mine = lv in list(subterms(g))
                other = [x for x in subterms(g) if x in lvs.values() and x != lv]
                if g[0] == 'adt' and g[2] == 'None' and pv != 'None':
                    ok = False
                elif g[0] in ('map', 'vec', 'set', 'str') and not opaque_in(g) and pv == 'Some':
                    ok = False
                elif other and not mine and not strange(g):
                    ok = False
                elif pv == 'Some' and altered(g, some_pl(lv)):
                    ok = False
            ck.verdict('value', cn, ok, 'the field %r becomes %s' % (nm, pp(g)[:250]) + path)
    if not n:
        ck.unk('result', name, 'no successful path recognised')


ALTERS = {'Vec::dedup', 'Vec::dedup_by', 'Vec::dedup_by_key', 'Vec::truncate', 'Vec::pop', 'Vec::remove', 'Vec::swap_remove', 'String::truncate',
          'str::to_lowercase', 'str::to_uppercase', 'str::to_ascii_lowercase', 'str::to_ascii_uppercase', 'str::replacen', 'str::repeat'}


def altered(g, pay):
    """the value is known to be another one than the one that was read, for some input"""
    while g[0] == 'adt' and g[2] == 'Some':
        g = strip_dyn(g[3][0][1])
    while g[0] == 'upd' and g[2] == ('vf', 'Some', '0'):
        g = strip_dyn(g[3])
    if g[0] == 'post':
        g = g[1]
    if g[0] == 'call' and g[1] in ALTERS:
        return strip_dyn(g[2]) == pay
    return g[0] in ('slice', 'replace', 'sort', 'rev') and g[1] == pay


def strange(g):
    return [x for x in subterms(g) if x[0] == 'call' and not x[1].endswith('parser::pattern') and not x[1].startswith('MapVisitor')]


def lv_free(f, lv):
    return not any(lv in list(subterms(a)) for a, p in f.list)


def opaque_in_not(t, known):
    for x in subterms(t):
        if x[0] in ('call', 'post', 'opq') and not any(k in list(subterms(x)) or x in list(subterms(k)) for k in known):
            return x
    return None


def nots(f, t):
    return [a[2] for a, p in f.list if not p and a[0] == 'is' and a[1] == t]


def visitor_state(n, cs):
    """the state of the visitor after it was asked"""
    return n[0] == 'post' and any(n[1] == c[2] for c in cs)


def value_ok(f, T, nm, g, lv, pv):
    pay = some_pl(lv)
    if T == PATTERN and nm == 'pattern':
        if g[0] == 'pl' and g[2] == 'Ok' and g[1][0] == 'call' and g[1][1].endswith('parser::pattern') and f.isv.get(g[1]) == 'Ok':
            a = strip_dyn(g[1][2])
            return True if a == pay else False if a[0] == 'slice' and a[1] == pay or a[0] == 'str' or a[0] == 'call' and a[1] in PURE else None
        return None
    if g == lv:
        return True
    if g == pay and pv == 'Some':
        return True
    if g == SOME(pay) and pv == 'Some':
        return True
    if g[0] == 'adt' and g[2] == 'None' and pv == 'None':
        return True
    if pv == 'None' and g in (('map', ()), ('call', 'BTreeMap::new'), ('call', 'default')) or g[0] == 'map' and len(g) > 1 and not g[1] and pv == 'None':
        return True
    if g[0] == 'unwrap_or' and g[1] == lv:
        return True
    return None


def rejected(ck, T, name, v, st, place, lvs, path):
    """an error is only returned when something failed or a mandatory field is absent"""
    f = st.facts
    if any(is_result(c[4]) and f.isv.get(c[2]) == 'Err' for c in calls(st.events)):
        return
    for nm, mand in DOC[T]:
        if nm in place and mand and f.isv.get(lvs[place[nm]]) == 'None':
            ck.holds('mandatory', '%s: %s absent' % (name, nm))
            return
    miss = [nm for nm, mand in DOC[T] if nm in place and not mand and f.isv.get(lvs[place[nm]]) == 'None']
    unk = [c for c in calls(st.events) if not c[0].startswith('MapVisitor::') and not c[0].startswith('Error::') and not c[0].endswith('parser::pattern')]
    if miss and not unk and not any(x for x in f.list if x[0][0] not in ('is',)):
        ck.bad('optional', '%s: %s' % (name, miss[0]), 'a value without the optional field %r is rejected' % miss[0] + path)
    elif not any(nm in place and f.isv.get(lvs[place[nm]]) for nm, m in DOC[T]):
        ck.unk('optional', name, 'rejected for a reason that was not recognised' + path)
    else:
        ck.unk('optional', name, 'rejected for a reason that was not recognised' + path)


def key_names(ck, T, ftype):
    """{variant: documented name}; every other name is an error"""
    last = T.split('::')[-1]
    bs = field_visitors(ck, ftype)
    strs = [b for b in bs if b['name'] in ('visit_str', 'visit_string')]
    for b in bs:
        if b not in strs:
            ck.unk('names', '%s: %s' % (last, b['name']), 'field keys are also taken from %s' % b['name'])
    if not strs:
        ck.unk('names', last, 'the function that recognises the field names was not found')
        return None
    docs = [n for n, m in DOC[T]]
    res = {}
    good = True
    for b in strs:
        name = '%s::Field::%s' % (last, b['name'])
        e = ck.repo.engine()
        outs = [(strip_dyn(v), st) for k, v, st in ck.run(e, b) if k == 'ret']
        val = ('sym', 'p1')
        near = tuple(y for d in docs for y in (d.upper(), d.capitalize(), d.title(), d + 's', d[:-1], ' ' + d, d + ' ', d.replace('_', ''), d.replace('_', '-'), '_' + d) if y not in docs)
        consts = {x[1] for v, st in outs for a, p in st.facts.list for x in subterms(a) if x[0] == 'str'}
        for s in dict.fromkeys(tuple(docs) + OTHERS + near + tuple(sorted(consts))):
            for v, st in outs:
                ok, dunno = True, False
                for a, pol in st.facts.list:
                    d = fold(a, val, s)
                    if d is None:
                        dunno = dunno or val in list(subterms(a))
                    elif d != pol:
                        ok = False
                if not ok:
                    continue
                path = ' (path: %s)' % facts_str(st)
                cn = '%s: %s' % (name, repr(s) if s in docs else 'other names')
                if dunno:
                    ck.unk('names', cn, 'condition on the name %r not understood' % s + path)
                    good = False
                    continue
                acc = v[0] == 'adt' and v[2] == 'Ok'
                rej = v[0] == 'adt' and v[2] == 'Err'
                if s in docs:
                    x = strip_dyn(dict(v[3])['0']) if acc else None
                    if acc and x[0] == 'adt' and x[1] == ftype[1]:
                        if x[2] in res and res[x[2]] != s:
                            ck.bad('names', cn, 'the names %r and %r are taken for the same field' % (res[x[2]], s) + path)
                            good = False
                        res.setdefault(x[2], s)
                        ck.holds('names', cn)
                    else:
                        ck.verdict('names', cn, False if rej else None, 'the documented field %r is rejected' % s + path)
                        good = good and rej
                else:
                    ck.verdict('unknown-fields', cn, True if rej else False if acc else None, 'the unknown field %r is accepted' % s + path)
    return res if good else None
