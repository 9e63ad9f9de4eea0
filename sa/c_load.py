"""Loading: C10 (errors are never swallowed), C11 (every test message is verified), C12 (exact verdict), C13 (lenient loading),
C22 (error reports), C23 (file format)."""
from repo import *
from check import *
from c_match import variant
from models import more

FPS = 'matcher::pattern_source::FromPatternSource'
LOADER = 'matcher::pattern_loader::PatternLoader'
TEST_RESULT = TMSG + '::test_result'
BERR = 'matcher::pattern_source::error::BuildError'
SELF = ('sym', 'self')
P0, P1 = ('sym', 'p0'), ('sym', 'p1')

LOSSY_SRC = {'filter', 'filter_map', 'flatten', 'take', 'skip', 'take_while', 'skip_while', 'step_by', 'map_while', 'scan', 'flat_map'}
LOSSY_CALL = {'Vec::dedup', 'Vec::dedup_by', 'Vec::dedup_by_key', 'Vec::retain', 'Vec::truncate', 'Vec::split_off', 'Vec::drain'}
LOSSLESS_SRC = {'enumerate', 'rev', 'map', 'inspect', 'peekable'}

# calls whose failure means that the load failed
FALLIBLE = {'File::open', 'Read::read_to_string', 'Read::read_to_end', 'Read::read', 'Read::read_exact', 'fs::read_to_string', 'fs::read',
            'serde_json::from_str', 'serde_yaml::from_str', 'serde_json::from_slice', 'serde_json::from_reader', 'serde_yaml::from_reader',
            'serde_yaml::from_slice', 'String::from_utf8', 'str::from_utf8', 'MapVisitor::visit_key', 'MapVisitor::visit_value', 'MapVisitor::end',
            'MapVisitor::missing_field', 'OpenOptions::open', 'Uuid::parse_str', 'Seek::seek', 'SeqVisitor::visit', 'SeqVisitor::end'}
LOSSY_READ = {'String::from_utf8_lossy', 'Read::take', 'Read::read', 'BufRead::read_line'}


def is_result(ty):
    return isinstance(ty, list) and ty and ty[0] == 'adt' and ty[1].split('::')[-1] == 'Result'


def calls(events):
    """(key, args, result, (file, line, fn), type) of the opaque calls, nested loops excluded"""
    return [(ev[1], ev[2], ev[3], ev[4], ev[5]) for ev in events if ev[0] == 'call']


def unary(x):
    """a test of one known value by itself: it cannot stand for a comparison of two"""
    return x[4] == ['bool'] and len(x[1]) == 1 and opaque_in(x[1][0], ('Matcher::parse', 'Matcher::add_pattern', 'MatcherFactory::new_matcher')) is None


def loops_in(events):
    return [ev[1] for ev in events if ev[0] == 'loop']


def ok_pl(t):
    return get(t, ('vf', 'Ok', '0'))


def some_pl(t):
    return get(t, ('vf', 'Some', '0'))


def err_pl(t):
    return get(t, ('vf', 'Err', '0'))


def swallowed(ck, rule, name, f, events, path, crate=(), returned=None):
    """no fallible operation failed (or was left untested) on a way that goes on as if nothing had happened"""
    n = 0
    for key, args, ret, site, ty in calls(events):
        if not is_result(ty) or ret == returned:
            continue
        v = f.isv.get(ret)
        c = '%s: %s in %s' % (name, key, site[2])
        n += 1
        if v == 'Ok':
            ck.holds(rule, c)
        elif v == 'Err':
            (ck.bad if key in FALLIBLE or key in crate else ck.unk)(rule, c, 'goes on although this failed' + path)
        elif key in FALLIBLE or key in crate:
            ck.bad(rule, c, 'the outcome is not looked at before going on' + path)
        else:
            ck.unk(rule, c, 'the outcome is not looked at before going on' + path)
    return n


def nested_swallowed(ck, rule, name, events, crate=()):
    for L in loops_in(events):
        for bk in L.backs:
            path = ' (round of the loop %s: %s)' % (L.where, pfacts(bk['facts']))
            swallowed(ck, rule, name, bk['state'].facts, bk['events'], path, crate)


def pfacts(fs, n=600):
    return '; '.join(('' if p else 'not ') + pp(a) for a, p in fs)[:n]


# ---------------------------------------------------------------- the loop over the pattern source
class SourceLoop:
    """the loop that takes the items of the source one by one"""

    def __init__(self, L, src):
        self.L = L
        self.item = None
        self.src = src
        self.lossy = None
        for pl, (init, lv) in L.places.items():
            if strip_dyn(init) == src and lv[0] == 'lv':
                self.pl, self.lv, self.whole = pl, lv, True
                self.item = get(lv, ('idx', INT(0)))
                return
        for lv, s in L.iterl:
            base = s
            while base[0] in LOSSLESS_SRC or base[0] in LOSSY_SRC:
                if base[0] in LOSSY_SRC:
                    self.lossy = base[0]
                base = base[1]
            if base == ('elems', src):
                self.pl = [p for p, (i, l) in L.places.items() if l == lv and p[1] and p[1][-1] == ('k',)][0]
                self.lv, self.whole = lv, False
                self.item = get(src, ('idx', lv)) if not self.lossy else None
                self.init = L.places[self.pl][0]
                return

    def one_step(self, bk):
        """the round consumes exactly one item"""
        new = bk['new'][self.pl]
        if self.whole:
            if new == ('iter', ('elems', self.lv), INT(1)):
                return True
            return False if new[0] == 'iter' and new[1] == ('elems', self.lv) else None
        return new == add(self.lv, INT(1))

    def exhausted(self, f):
        if self.whole:
            return f.decide(LT(INT(0), LEN(self.lv))) is False
        return f.decide(more(('elems', self.src), self.lv)) is False


def find_source_loop(st, src):
    for L in loops_of(st):
        s = SourceLoop(L, src)
        if s.item is not None or s.lossy:
            return s
    return None


def stable_init(t, loops):
    """a field of a loop variable that the loop does not change has its value from before the loop"""
    for _ in range(6):
        m = {}
        for x in subterms(t):
            if x[0] == 'fld' and x[1][0] == 'lv':
                for L in loops:
                    for pl, (init, lv) in L.places.items():
                        if lv == x[1] and all(get(bk['new'][pl], ('f', x[2])) == x for bk in L.backs):
                            m[x] = get(init, ('f', x[2]))
        if not m:
            return t
        t = renorm(subst(t, m))
    return t


class Ctx:
    def __init__(self, repo):
        self.repo = repo
        self.tm = repo.field(PATTERN, lambda t: mentions(t, TMSG), 'test message')
        self.uuid = repo.field(PATTERN, lambda t: t[0] == 'adt' and t[1].endswith('Uuid'), 'uuid')
        self.pfields = [n for n, t in repo.fields(PATTERN)]
        self.msg = repo.field(TMSG, lambda t: t == ['adt', 'std::string::String', []], 'message')
        self.mpat = repo.field(MRES, lambda t: mentions(t, PATTERN), 'pattern')
        self.mval = repo.role(MRES, 'values')
        self.tr = repo.body(TEST_RESULT)
        self.trkey = repo.engine().fkey(self.tr)

    def run(self, ck, name):
        b = self.repo.body(FPS + '::' + name)
        e = self.repo.engine(cut=(TEST_RESULT,))
        self.engine = e
        return ck.run(e, b)


def pattern_of(c, P, X, loops):
    """P = the pattern X, apart from its test messages"""
    for n in c.pfields:
        if n == c.tm:
            continue
        a, b = stable_init(get(P, ('f', n)), loops), get(X, ('f', n))
        if a != b:
            return (None if opaque_in(a) else False), 'its field %s becomes %s' % (n, pp(a)[:150])
    return True, ''


def peel(src):
    """-> (the list behind an iterator source, True/False/None: are all of its elements visited?)"""
    ok = True
    while True:
        if src[0] == 'elems':
            return src[1], ok
        if src[0] in LOSSLESS_SRC:
            src = src[1]
        elif src[0] in LOSSY_SRC:
            ok, src = False, src[1]
        elif src[0] == 'elemsmut':
            return src, ok
        else:
            return src, None


def covers(c, V, X, loops, f):
    """does the list V hold every test message of X? -> (True/False/None, why)"""
    M = get(X, ('f', c.tm))
    V = strip_dyn(V)
    if stable_init(V, loops) in (some_pl(M), M):
        return True, ''
    if V[0] in ('reverse', 'sort', 'sortby'):
        return covers(c, V[1], X, loops, f)
    if V[0] in ('front', 'remove', 'swap_remove', 'slice'):
        ok, why = covers(c, V[1], X, loops, f)
        return (False if ok is not None else None), 'the list %s lacks a test message' % pp(V)[:150]
    if V[0] == 'post' and V[1][0] == 'call' and V[1][1] in LOSSY_CALL:
        return False, '%s removes test messages' % V[1][1]
    if V[0] == 'collect':
        W, ok = peel(V[1])
        if ok is True:
            return covers(c, W, X, loops, f)
        return ok, 'the adaptor %s drops test messages' % V[1][0]
    if V[0] == 'call' and V[1] in LOSSY_CALL:
        return False, '%s drops test messages' % V[1]
    if V[0] == 'lv':
        for L in loops:
            for pl, (init, lv) in L.places.items():
                if lv == V:
                    return extraction(c, L, pl, X, loops, f)
    return None, 'the list of test messages %s was not recognised' % pp(V)[:150]


def extraction(c, L, pv, X, loops, f):
    """a loop that moves the test messages of X to the list at the place pv"""
    init, V = L.places[pv]
    if init != ('vec', ()):
        return None, 'the list starts as %s' % pp(init)[:100]
    M = get(X, ('f', c.tm))
    for pl, (i2, lv) in L.places.items():
        if pl == pv:
            continue
        i2 = strip_dyn(i2)
        if i2 == X:
            get_c, put_c = (lambda t: some_pl(get(t, ('f', c.tm)))), (lambda t, v: setp(t, (('f', c.tm), ('vf', 'Some', '0')), v))
            opt = get(lv, ('f', c.tm))
        elif i2 == M:
            get_c, put_c = some_pl, (lambda t, v: setp(t, (('vf', 'Some', '0'),), v))
            opt = lv
        elif i2 == some_pl(M):
            get_c, put_c, opt = (lambda t: t), (lambda t, v: v), None
        else:
            continue
        C = get_c(lv)
        for bk in L.backs:
            path = ' (round of %s: %s)' % (L.where, pfacts(bk['facts'], 300))
            nc, nv = get_c(bk['new'][pl]), bk['new'][pv]
            taken = None
            if nc == ('front', C):
                taken = ('last', C)
            elif nc[0] in ('remove', 'swap_remove') and nc[1] == C:
                taken = get(C, ('idx', nc[2]))
            if taken is None:
                if nc == C and nv == V:
                    continue
                return None, 'round not understood' + path
            if nv == V:
                return False, 'a test message is taken out and dropped' + path
            if nv[0] == 'push' and nv[1] == V and nv[2] == taken:
                continue
            if nv[0] == 'insert' and nv[1] == V and nv[3] == taken:
                continue
            return (None if opaque_in(nv) else False), 'a test message is not kept: the list becomes %s' % pp(nv)[:150] + path
        if f.decide(eq0(LEN(C))) is True or opt is not None and variant(f, opt) == 'None':
            return True, ''
        if L.backs:
            return False, 'not all test messages are taken out (the loop at %s ends early)' % L.where
        return None, ''
    # a loop over the messages that pushes each of them
    for lv, s in L.iterl:
        W, ok = peel(s)
        if stable_init(W, loops) in (some_pl(M), M):
            if ok is not True:
                return ok, 'only some of the test messages are visited by %s' % L.where
            el = get(W, ('idx', lv))
            for bk in L.backs:
                nv = bk['new'][pv]
                if nv == V:
                    return False, 'a test message is left out at %s (%s)' % (L.where, pfacts(bk['facts'], 300))
                if not (nv[0] == 'push' and nv[1] == V and nv[2] == el):
                    return None, 'the list becomes %s' % pp(nv)[:150]
            if f.decide(more(s, lv)) is False:
                return True, ''
            return False, 'the loop at %s ends early' % L.where
    return None, 'the loop at %s was not recognised' % L.where


def message_checked(c, bk, msg, X, loops):
    """this round established that the message matched the pattern X and satisfied its expectations -> (True/False/None, why)"""
    f = bk['state'].facts
    cs = calls(bk['events'])
    parses = [x for x in cs if x[0] == 'Matcher::parse']
    crate_unknown = [x[0] for x in cs if not unary(x) and x[0] not in PURE and x[0] not in ('Matcher::parse', c.trkey, 'to_string') and not x[0].startswith('Argument')]
    dunno = bool(crate_unknown) or bool(loops_in(bk['events']))
    mine = [x for x in parses if x[1][1] == get(msg, ('f', c.msg))]
    if not parses:
        return (None if dunno else False), 'the message is not matched'
    if not mine:
        return (None if opaque_in(parses[0][1][1]) else False), 'the text matched is %s, not the message' % pp(parses[0][1][1])[:150]
    P = mine[0][2]
    if f.isv.get(P) != 'Some':
        return (None if dunno else False), 'goes on although the message did not match'
    r = some_pl(P)
    got = get(get(r, ('f', c.mpat)), ('f', c.uuid))
    same = None
    for a, pol in f.list + [(b, True) for b in f.bg]:
        if a[0] == 'eq' and got in (a[1], a[2]) and pol:
            other = a[2] if a[1] == got else a[1]
            if stable_init(other, loops) == get(X, ('f', c.uuid)):
                same = True
    if same is None:
        return (None if dunno else False), 'goes on although the match may be another pattern'
    t = [x for x in cs if x[0] == c.trkey]
    if not t:
        return (None if dunno else False), 'the expected values and tags are not compared'
    if t[0][1][0] != msg or strip_dyn(t[0][1][1]) != r:
        return False, 'the verdict is that of %s on %s' % (pp(t[0][1][0])[:80], pp(t[0][1][1])[:80])
    if f.isv.get(t[0][2]) != 'Ok':
        return (None if dunno else False), 'goes on although the expectations are not met'
    return True, ''


def matcher_place(S, bk=None):
    """the loop-carried matcher"""
    for pl, (init, lv) in S.L.places.items():
        if init[0] == 'call' and 'new_matcher' in init[1]:
            return pl
    return None


def mentions_item(f, X):
    return f.isv.get(X)


def added(ck, c, S, bk, rule, name, path):
    """exactly this pattern is added in this round; -> the post state of the matcher or None"""
    X = ok_pl(S.item)
    loops = loops_in(bk['events'])
    adds = [x for x in calls(bk['events']) if x[0] == 'Matcher::add_pattern']
    pm = matcher_place(S)
    unk = bool(unk_calls(c, bk['events'])) or any('add_pattern' in x[0] for L in loops for b in L.backs for x in calls(b['events']))
    if pm is None:
        ck.unk(rule, name, 'the matcher under construction was not recognised' + path)
        return None
    if not adds:
        ck.verdict(rule, name, False, 'a pattern of the source is not added' + path, unk)
        return None
    if len(adds) > 1:
        ck.unk(rule, name, 'several patterns are added' + path)
        return None
    ok, why = pattern_of(c, adds[0][1][1], X, loops)
    ck.verdict(rule, name + ': the pattern of the source', ok, 'the pattern added is not that of the source: ' + why + path, unk)
    lvm = S.L.places[pm][1]
    new = bk['new'][pm]
    if adds[0][1][0] != lvm:
        ck.verdict(rule, name + ': to the matcher', False if not opaque_in(adds[0][1][0]) else None, 'the pattern is added to %s' % pp(adds[0][1][0])[:150] + path, unk)
    ck.verdict(rule, name + ': to the matcher', new == ('post', adds[0][2], 0) or (None if opaque_in(new) and new != lvm and new[0] != 'call' else False),
               'after the round the matcher is %s' % pp(new)[:200] + path, unk)
    return ('post', adds[0][2], 0)


def unk_calls(c, events):
    good = PURE | {'Matcher::parse', 'Matcher::add_pattern', c.trkey, 'to_string', 'MatcherFactory::new_matcher'}
    return [x[0] for x in calls(events) if x[0] not in good and not unary(x)]


def messages_checked(ck, c, S, bk, rule, name, post, path):
    X = ok_pl(S.item)
    f = bk['state'].facts
    M = get(X, ('f', c.tm))
    loops = loops_in(bk['events'])
    if variant(f, M) == 'None' or f.decide(eq0(LEN(some_pl(M)))) is True:
        ck.holds(rule, name + ' (none)')
        return
    unk = bool(unk_calls(c, bk['events']))
    why = 'no loop over the test messages'
    ok = False
    for K in loops:
        if not any(x[0] == 'Matcher::parse' for b in K.backs for x in calls(b['events'])):
            continue
        # the list that is walked
        for lv, s in K.iterl:
            V, all_ = peel(s)
            if all_ is not True:
                ok, why = all_, 'only some of the test messages are visited: %s' % s[0]
                break
            ok, why = covers(c, V, X, loops, f)
            if ok is not True:
                break
            init = [i for i, l in K.places.values() if l == lv][0]
            if init != INT(0):
                ok, why = False, 'the first test messages are skipped'
                break
            if f.decide(more(s, lv)) is not False:
                ok, why = False, 'the loop over the test messages ends early'
                break
            for b in K.backs:
                ok, why = message_checked(c, b, get(V, ('idx', lv)), X, loops)
                nk = [b['new'][pl] for pl, (i, l) in K.places.items() if l == lv][0]
                if ok is True and nk != add(lv, INT(1)):
                    ok, why = False, 'test messages are skipped'
                ps = [x for x in calls(b['events']) if x[0] == 'Matcher::parse']
                if ok is True and ps[0][1][0] != post:
                    ok, why = (None if opaque_in(ps[0][1][0]) and post is None else False), 'the message is matched with %s' % pp(ps[0][1][0])[:100]
                why += ' (round of %s: %s)' % (K.where, pfacts(b['facts'], 400))
                if ok is not True:
                    break
            break
        else:
            ok, why = None, 'the loop at %s was not recognised' % K.where
        break
    else:
        # the list of the messages was found to be empty
        for V in {a[1] for t, p in f.list for a in subterms(t) if a[0] == 'len' and a[1][0] == 'lv'}:
            if f.decide(eq0(LEN(V))) is True and covers(c, V, X, loops, f)[0] is not False:
                ok, why = covers(c, V, X, loops, f)
    ck.verdict(rule, name, ok, why + path, unk)


def strict_source(ck, c, what):
    """from_source; what: which of C10, C11, C22"""
    name = 'from_source'
    outs = c.run(ck, name)
    crate = {c.trkey}
    ends = 0
    S = None
    for k, v, st in outs:
        if k == 'ret':
            S = S or find_source_loop(st, P0)
    if S is None:
        ck.unk('source-loop', name, 'the loop over the pattern source was not recognised')
        return
    if S.lossy:
        ck.bad('source-loop', name, 'items of the source are dropped by %s' % S.lossy)
        return
    if not S.L.backs:
        ck.bad('source-loop', name, 'at most one item of the source is taken')
    for bk in S.L.backs:
        f = bk['state'].facts
        path = ' (round of %s: %s)' % (S.L.where, pfacts(bk['facts']))
        unk = bool(unk_calls(c, bk['events']))
        if what in ('C10', 'C11'):
            ck.verdict('every-item', name, S.one_step(bk), 'a round does not take exactly one item of the source' + path, unk)
        iv = f.isv.get(S.item)
        if what == 'C10':
            ck.verdict('item-error', name, iv == 'Ok', 'goes on after an item of the source that %s' % ('is an error' if iv == 'Err' else 'is not known to be good') + path, unk)
            swallowed(ck, 'no-swallowed-error', name, f, bk['events'], path, crate)
            nested_swallowed(ck, 'no-swallowed-error', name, bk['events'], crate)
            # a message that did not match is an error as well
            for x in calls(bk['events']):
                if x[0] == 'Matcher::parse' and f.isv.get(x[2]) == 'None':
                    ck.verdict('no-swallowed-error', name + ': unmatched test message', False, 'goes on although a test message did not match' + path, unk)
        elif what == 'C11' and iv == 'Ok':
            post = added(ck, c, S, bk, 'pattern-added', name, path)
            messages_checked(ck, c, S, bk, 'messages-verified', name, post, path)
    for k, v, st in outs:
        if k != 'ret':
            continue
        f = st.facts
        path = ' (path: %s)' % facts_str(st)
        unk = bool(unk_calls(c, st.events))
        v = strip_dyn(v)
        if v[0] == 'adt' and v[2] == 'Ok':
            ends += 1
            ck.verdict('all-items', name, S.exhausted(f), 'a matcher is returned before the source is exhausted' + path, unk)
            if what == 'C10':
                swallowed(ck, 'no-swallowed-error', name, f, [ev for ev in st.events], path, crate)
            if what == 'C11':
                pm = matcher_place(S)
                got = v[3][0][1]
                if pm is None:
                    ck.unk('returned-matcher', name, 'matcher under construction not recognised')
                else:
                    ck.verdict('returned-matcher', name, got == S.L.places[pm][1], 'the matcher returned is %s' % pp(got)[:150] + path, unk or bool(opaque_in(got)) and got[0] != 'call')
        elif v[0] == 'adt' and v[2] == 'Err':
            if what == 'C22':
                error_value(ck, c, S, st, v[3][0][1], name, path, unk)
        else:
            ck.unk('all-items', name, 'result %s not understood' % pp(v)[:150])
    ck.verdict('all-items', name + ': success', ends > 0, 'no path returns a matcher')


def hyph(t):
    return ('call', 'to_string', ('hyphenated', t))


def as_uuid(t):
    """the uuid a rendered text stands for"""
    t = strip_dyn(t)
    if t[0] == 'call' and t[1] in ('to_string', 'ToString::to_string'):
        t = t[2]
    if t[0] == 'hyphenated':
        return t[1]
    return t if t[0] == 'fld' else None


def fieldof(t, n):
    return dict(t[3]).get(n)


def error_value(ck, c, S, st, e, name, path, unk):
    """what an error of a strict load says is what happened"""
    f = st.facts
    rule = 'error-kind'
    loops = loops_of(st)
    X = ok_pl(S.item)
    e = strip_dyn(e)
    if e == err_pl(S.item):
        ck.verdict(rule, name + ': error of the source', f.isv.get(S.item) == 'Err', 'not an error item' + path, unk)
        return
    if not (e[0] == 'adt' and e[1] == BERR):
        ck.unk(rule, name, 'error %s not understood' % pp(e)[:200])
        return
    if e[2] != 'TestMessage':
        ck.verdict(rule, name, False, 'a problem with a test message or a pattern is reported as %s' % e[2] + path, unk or bool(opaque_in(e)))
        return
    t = strip_dyn(e[3][0][1])
    parses = [x for x in calls(st.events) if x[0] == 'Matcher::parse']
    tests = [x for x in calls(st.events) if x[0] == c.trkey]
    P = parses[-1][2] if parses else None
    msgtext = parses[-1][1][1] if parses else None
    for x in tests:
        if t == err_pl(x[2]):
            ck.verdict(rule, name + ': error of the test', f.isv.get(x[2]) == 'Err', 'the test did not fail' + path, unk)
            return
    if not (t[0] == 'adt' and t[1] == TERR):
        ck.unk(rule, name, 'error %s not understood' % pp(t)[:200])
        return
    xu = get(X, ('f', c.uuid))

    def uuid_is(fld, want, what):
        got = as_uuid(fieldof(t, fld) or ('?',))
        if got is None:
            ck.unk('error-fields', '%s: %s.%s' % (name, t[2], fld), 'value %s not understood' % pp(fieldof(t, fld) or ('?',))[:150])
            return
        ck.verdict('error-fields', '%s: %s.%s' % (name, t[2], fld), stable_init(got, loops) == want, '%s is %s, not %s' % (fld, pp(got)[:120], what) + path, unk)
    if t[2] == 'TestMessageDoesntMatch':
        ck.verdict(rule, name + ': ' + t[2], P is not None and f.isv.get(P) == 'None', 'the message did match (or was not matched)' + path, unk)
        uuid_is('pattern_uuid', xu, 'that of the pattern')
    elif t[2] == 'MatchedToOtherPattern':
        okp = P is not None and f.isv.get(P) == 'Some'
        ck.verdict(rule, name + ': ' + t[2], okp, 'the message did not match' + path, unk)
        if okp:
            got = get(get(some_pl(P), ('f', c.mpat)), ('f', c.uuid))
            differ = any(a[0] == 'eq' and got in (a[1], a[2]) and not pol for a, pol in f.list)
            ck.verdict(rule, name + ': ' + t[2], differ, 'the match is not known to be another pattern' + path, unk)
            uuid_is('expected_uuid', xu, 'that of the pattern under test')
            uuid_is('got_uuid', got, 'that of the matched pattern')
    else:
        ck.verdict(rule, name, False, 'the failure is reported as %s' % t[2] + path, unk)
        return
    m = fieldof(t, 'message')
    if m is None or msgtext is None:
        ck.unk('error-fields', name, 'no message')
    else:
        ck.verdict('error-fields', '%s: %s.message' % (name, t[2]), m == msgtext, 'the message reported is %s' % pp(m)[:120] + path, unk or bool(opaque_in(m)))


def lenient_source(ck, c):
    name = 'from_source_ignore_errors'
    outs = c.run(ck, name)
    S = None
    for k, v, st in outs:
        if k == 'ret':
            S = S or find_source_loop(st, P0)
    if S is None or S.item is None:
        ck.unk('source-loop', name, 'the loop over the pattern source was not recognised')
        return
    if not S.L.backs:
        ck.bad('source-loop', name, 'at most one item of the source is taken')
    pm = matcher_place(S)
    kinds = set()
    # errors collected in a list are logged by a later loop
    later = any(ev[0] == 'log' for k, v, st in outs for L in loops_of(st) if L.key != S.L.key for b in L.backs for ev in b['events'])
    for bk in S.L.backs:
        f = bk['state'].facts
        path = ' (round of %s: %s)' % (S.L.where, pfacts(bk['facts']))
        unk = bool(unk_calls(c, bk['events']))
        ck.verdict('every-item', name, S.one_step(bk), 'a round does not take exactly one item of the source' + path, unk)
        iv = f.isv.get(S.item)
        kinds.add(iv)
        logs = [ev for ev in bk['events'] if ev[0] == 'log' and ev[1][0] == 'adt' and ev[1][2] == 'Error']
        errs = errors_of(c, bk, S.item, f)
        if iv == 'Err':
            if pm is not None:
                new = bk['new'][pm]
                ck.verdict('bad-item-skipped', name, new == S.L.places[pm][1], 'an item that is an error changes the matcher to %s' % pp(new)[:150] + path, unk or bool(opaque_in(new)) and new[0] != 'call')
        elif iv == 'Ok':
            added(ck, c, S, bk, 'pattern-added', name, path)
        else:
            ck.verdict('item-looked-at', name, False, 'it is not looked at whether the item is an error' + path, unk)
        for what, e in errs:
            ok = any(any(x in es for x in subterms(ev[2])) for ev in logs for es in [e])
            kept = later and any(n != x and x in e for n in bk['new'].values() for x in subterms(n))
            ck.verdict('error-logged', '%s: %s' % (name, what), ok, 'the error is not written to the error log' + path, (unk or kept) and not ok)
    ck.verdict('every-kind', name, kinds >= {'Ok', 'Err'} or (None if None in kinds else False), 'only items %s let the loop go on' % sorted(str(x) for x in kinds))
    for k, v, st in outs:
        if k != 'ret':
            continue
        path = ' (path: %s)' % facts_str(st)
        unk = bool(unk_calls(c, st.events))
        ck.verdict('all-items', name, S.exhausted(st.facts), 'the result is returned before the source is exhausted' + path, unk)
        if pm is not None:
            ck.verdict('returned-matcher', name, v == S.L.places[pm][1], 'the matcher returned is %s' % pp(v)[:150] + path, unk or bool(opaque_in(v)) and v[0] != 'call')


def errors_of(c, bk, item, f):
    """[(what, terms that render this error)] of the errors met in a round"""
    r = []
    if f.isv.get(item) == 'Err':
        r.append(('error item', {err_pl(item)}))
    for x in calls(bk['events']):
        if x[0] == c.trkey and f.isv.get(x[2]) == 'Err':
            r.append(('failed expectations', {err_pl(x[2])}))
        if x[0] == 'Matcher::parse' and f.isv.get(x[2]) == 'None':
            r.append(('unmatched message', errterms(bk, 'TestMessageDoesntMatch')))
        if x[0] == 'Matcher::parse' and f.isv.get(x[2]) == 'Some':
            got = get(get(some_pl(x[2]), ('f', c.mpat)), ('f', c.uuid))
            if any(a[0] == 'eq' and got in (a[1], a[2]) and not pol for a, pol in f.list):
                r.append(('other pattern matched', errterms(bk, 'MatchedToOtherPattern')))
    return r


def errterms(bk, variant_):
    told = [ev[2] for ev in bk['events'] if ev[0] == 'log'] + list(bk['new'].values())
    return {t for x in told for t in subterms(x) if t[0] == 'adt' and t[2] == variant_}


# ---------------------------------------------------------------- files
def file_iter(ck):
    """every pattern of a file is handed on: PatternFile::into_iter and its iterator"""
    r = ck.repo
    pf = 'matcher::pattern::file::file::PatternFile'
    rule = 'file-iteration'
    b = r.impl('std::iter::IntoIterator', 'into_iter', r.adt(pf)['path'] if 'path' in r.adt(pf) else pf)
    pats = r.field(pf, lambda t: mentions(t, PATTERN), 'patterns')
    it = None
    for k, v, st in ck.run(r.engine(), b):
        if k != 'ret':
            continue
        v = strip_dyn(v)
        if v[0] == 'adt' and v[1] in r.p.adts:
            it = v
            flds = [n for n, x in v[3] if x == get(SELF, ('f', pats))]
            unk = bool(unknown_calls(st))
            if len(flds) == 1:
                ck.holds(rule, 'into_iter')
            else:
                lossy = [x for x in subterms(v) if x[0] == 'collect' and any(y[0] in LOSSY_SRC for y in subterms(x)) or
                         x[0] == 'post' and x[1][0] == 'call' and x[1][1] in LOSSY_CALL or x[0] in ('front', 'remove')]
                ck.verdict(rule, 'into_iter', False if lossy or not opaque_in(v) and get(SELF, ('f', pats)) not in list(subterms(v)) else None,
                           'the patterns of the file become %s' % pp(v)[:200], unk and not lossy)
                return
        else:
            ck.unk(rule, 'into_iter', 'iterator %s not understood' % pp(v)[:150])
            return
    if it is None:
        ck.unk(rule, 'into_iter', 'no result')
        return
    fld = flds[0]
    nx = r.impl('std::iter::Iterator', 'next', it[1])
    kinds = set()
    A = get(SELF, ('f', fld))
    for k, v, st in ck.run(r.engine(), nx):
        if k != 'ret':
            continue
        f = st.facts
        v = strip_dyn(v)
        path = ' (path: %s)' % facts_str(st)
        post = get(st.store[('arg', 'self')], ('f', fld))
        unk = bool(unknown_calls(st)) or loops_of(st) != []
        if v == NONE:
            kinds.add('None')
            ck.verdict(rule, 'next: end', f.decide(eq0(LEN(A))) is True, 'the iteration ends while patterns are left' + path, unk)
        elif v[0] == 'adt' and v[2] == 'Some':
            kinds.add('Some')
            x = strip_dyn(v[3][0][1])
            if not (x[0] == 'adt' and x[2] == 'Ok'):
                ck.verdict(rule, 'next: item', False if x[0] == 'adt' else None, 'a pattern of the file is handed on as %s' % pp(x)[:150] + path, unk)
                continue
            p = x[3][0][1]
            ok = p == ('last', A) and post == ('front', A) or post[0] == 'remove' and post[1] == A and p == get(A, ('idx', post[2]))
            bad = post != A and post[0] in ('front', 'remove', 'vec') and not opaque_in(p)
            ck.verdict(rule, 'next: item', True if ok else (False if bad or post == A else None), 'hands on %s and keeps %s' % (pp(p)[:120], pp(post)[:120]) + path, unk)
        else:
            ck.unk(rule, 'next', 'result %s not understood' % pp(v)[:150])
    ck.verdict(rule, 'next: both', kinds >= {'None', 'Some'} or None, 'only %s' % sorted(kinds))


def content_ok(t, p, f):
    """the text decoded is the whole content of the file p -> (True/False/None, why)"""
    t = strip_dyn(t)
    for x in subterms(t):
        if x[0] == 'call' and x[1] in LOSSY_READ or x[0] == 'post' and x[1][0] == 'call' and x[1][1] in LOSSY_READ:
            return False, 'the text decoded is only part of the file (%s)' % (x[1] if isinstance(x[1], str) else x[1][1])
    if t[0] == 'post' and t[1][0] == 'call' and t[1][1] == 'Read::read_to_string' and t[2] == 1:
        h, b = t[1][2], t[1][3]
        if b not in (('str', ''), ('vec', ())):
            return (None if opaque_in(b) else False), 'the buffer starts with %s' % pp(b)[:100]
        h = strip_dyn(h)
        while h[0] == 'call' and h[1] in ('BufReader::new', 'BufReader::with_capacity', 'Read::by_ref'):
            h = h[-1]
        if h[0] == 'pl' and h[2] == 'Ok' and h[1][0] == 'call' and h[1][1] == 'File::open' and h[1][2] == p:
            return True, ''
        return (None if opaque_in(h) else False), 'the text is read from %s' % pp(h)[:150]
    if t[0] == 'pl' and t[2] == 'Ok' and t[1][0] == 'call' and t[1][1] == 'fs::read_to_string' and t[1][2] == p:
        return True, ''
    if t[0] in ('slice', 'str'):
        return False, 'only part of the file is decoded: %s' % pp(t)[:150]
    return None, 'the text %s was not recognised' % pp(t)[:150]


DECODERS = {'serde_json::from_str': 'json', 'serde_json::from_reader': 'json', 'serde_json::from_slice': 'json',
            'serde_yaml::from_str': 'yaml', 'serde_yaml::from_reader': 'yaml', 'serde_yaml::from_slice': 'yaml'}


def load_paths(ck):
    b = ck.repo.body(LOADER + '::load_file')
    return ck.run(ck.repo.engine(), b)


def load_strict(ck, what):
    name = 'load_file'
    n = 0
    for k, v, st in load_paths(ck):
        if k != 'ret':
            continue
        f = st.facts
        path = ' (path: %s)' % facts_str(st)
        v = strip_dyn(v)
        good = v[0] == 'adt' and v[2] == 'Ok'
        direct = v[0] == 'call' and is_result_call(st, v)
        if good or direct:
            n += 1
            swallowed(ck, 'no-swallowed-error', name, f, st.events, path, returned=v if direct else None) if what == 'C10' else None
            if what == 'C10':
                nested_swallowed(ck, 'no-swallowed-error', name, st.events)
            x = v[3][0][1] if good else ok_pl(v)
            d = x[1] if x[0] == 'pl' and x[2] == 'Ok' else None
            if d is not None and d[0] == 'call' and d[1] in DECODERS:
                if what == 'C10':
                    ok, why = content_ok(d[2], P0, f) if d[1].endswith('from_str') else (None, '')
                    ck.verdict('whole-file', name, ok, why + path)
            elif what == 'C10':
                ck.verdict('decoded-file', name, None if opaque_in(x) else False, 'the result is %s, not what was decoded from the file' % pp(x)[:200] + path,
                           bool([y for y in calls(st.events) if y[0] not in FALLIBLE]))
        elif v[0] == 'adt' and v[2] == 'Err' and what == 'C22':
            load_error(ck, name, st, v[3][0][1], path)
    if what == 'C10':
        ck.verdict('decoded-file', name + ': success', n > 0, 'no path returns a pattern file')


def is_result_call(st, v):
    return any(x[2] == v and is_result(x[4]) for x in calls(st.events))


ERRKIND = {'File::open': 'Io', 'Read::read_to_string': 'Io', 'fs::read_to_string': 'Io', 'serde_json::from_str': 'DeserJson', 'serde_yaml::from_str': 'DeserYaml',
           'Read::read_to_end': 'Io', 'serde_json::from_reader': 'DeserJson', 'serde_yaml::from_reader': 'DeserYaml', 'fs::read': 'Io'}


def load_error(ck, name, st, e, path):
    """I/O and decoding errors carry the original cause under their own kind"""
    f = st.facts
    e = strip_dyn(e)
    failed = [x for x in calls(st.events) if is_result(x[4]) and f.isv.get(x[2]) == 'Err']
    unk = bool([x for x in calls(st.events) if x[0] not in ERRKIND])
    if not failed:
        return
    key = failed[-1][0]
    if key not in ERRKIND:
        ck.unk('load-error', '%s: %s' % (name, key), 'error %s' % pp(e)[:150])
        return
    want = ERRKIND[key]
    ok = e[0] == 'adt' and e[1] == BERR and e[2] == want and strip_dyn(e[3][0][1]) == err_pl(failed[-1][2])
    ck.verdict('load-error', '%s: %s' % (name, key), ok, 'the failure is reported as %s' % pp(e)[:200] + path, unk and bool(opaque_in(e)) and e[0] != 'adt')


def from_file(ck, name, strict):
    """the loader entry points hand the result of load_file to the source function, or return its error"""
    r = ck.repo
    b = r.body(LOADER + '::' + name)
    cut = (LOADER + '::load_file', FPS + '::from_source', FPS + '::from_source_ignore_errors')
    into = 'matcher::pattern::file::file::PatternFile'
    ib = [x for s, x, im in r.impl_methods('std::iter::IntoIterator', 'into_iter') if s == into]
    cutids = {x['id'] for x in ib}
    e = r.engine(cut=cut, opaque=lambda bb, p: bb['id'] in cutids)
    seen = set()
    for k, v, st in ck.run(e, b):
        if k != 'ret':
            continue
        f = st.facts
        path = ' (path: %s)' % facts_str(st)
        v = strip_dyn(v)
        cs = calls(st.events)
        loads = [x for x in cs if x[0].endswith('PatternLoader::load_file')]
        known = lambda x: x[0].endswith('PatternLoader::load_file') or 'from_source' in x[0] or 'into_iter' in x[0]
        unk = bool([x for x in cs if not known(x) and x[0] not in PURE])
        if len(loads) != 1 or loads[0][1][0] != P0:
            ck.verdict('file-loaded', name, None if unk or not loads else False, 'loads %s' % [pp(x[1])[:80] for x in loads] + path, unk)
            continue
        ld = loads[0][2]
        lv = f.isv.get(ld)
        if lv == 'Err':
            seen.add('Err')
            ck.verdict('file-error', name, v == ERR(err_pl(ld)) or v == ld, 'when the file cannot be loaded the result is %s' % pp(v)[:150] + path, unk and not (v[0] == 'adt' and v[2] == 'Ok'))
            continue
        want = 'FromPatternSource::from_source' + ('' if strict else '_ignore_errors')
        src = [x for x in cs if x[0].endswith('FromPatternSource::from_source') or x[0].endswith('FromPatternSource::from_source_ignore_errors')]
        if len(src) != 1:
            ck.verdict('file-source', name, False if not src else None, 'the patterns of the file are not used' + path, unk)
            continue
        seen.add('Ok')
        res = src[0][2]
        arg = strip_dyn(src[0][1][0])
        ck.verdict('file-source', name + ': mode', src[0][0].endswith(want), 'uses %s' % src[0][0] + path, unk)
        okarg = arg[0] == 'call' and 'into_iter' in arg[1] and arg[2] == ok_pl(ld)
        lossy = any(x[0] in LOSSY_SRC or x[0] in ('front', 'remove') for x in subterms(arg))
        ck.verdict('file-source', name + ': patterns', True if okarg else (False if lossy else None), 'the source is %s' % pp(arg)[:200] + path, unk)
        if strict:
            okr = v == res or v == OK(ok_pl(res)) and f.isv.get(res) == 'Ok' or v == ERR(err_pl(res)) and f.isv.get(res) == 'Err'
        else:
            okr = v == OK(res)
        ck.verdict('file-result', name, okr, 'the result is %s' % pp(v)[:200] + path, unk)
        if lv is None:
            ck.verdict('file-error', name, False, 'the outcome of loading the file is not looked at' + path, unk)
    ck.verdict('file-result', name + ': both outcomes', seen >= {'Ok', 'Err'} or None, 'only %s' % sorted(seen))


def c10(ck):
    def go(f, *a):
        ck.guarded('analysis', f.__name__ + ''.join(' ' + str(x) for x in a[1:] if isinstance(x, str)), f, *a)
    go(load_strict, ck, 'C10')
    go(from_file, ck, 'from_file', True)
    go(lambda ck: strict_source(ck, Ctx(ck.repo), 'C10'), ck)
    go(file_iter, ck)
    import c_deser
    go(c_deser.no_swallow, ck)


def c11(ck):
    ck.guarded('analysis', 'from_source', lambda: strict_source(ck, Ctx(ck.repo), 'C11'))
    ck.guarded('analysis', 'from_file', from_file, ck, 'from_file', True)
    ck.guarded('analysis', 'file iteration', file_iter, ck)


def c13(ck):
    ck.guarded('analysis', 'from_source_ignore_errors', lambda: lenient_source(ck, Ctx(ck.repo)))
    ck.guarded('analysis', 'from_file_ignore_errors', from_file, ck, 'from_file_ignore_errors', False)
    ck.guarded('analysis', 'file iteration', file_iter, ck)


# ---------------------------------------------------------------- C12 verdict on a test message
class Verdict:
    def __init__(self, ck):
        r = self.repo = ck.repo
        self.c = Ctx(r)
        isopt = lambda t: t[0] == 'adt' and t[1].endswith('Option')
        ismap = lambda t: mentions(t, 'std::collections::BTreeMap') or mentions(t, 'std::collections::HashMap')
        self.etags = get(SELF, ('f', r.field(TMSG, lambda t: mentions(t, 'std::vec::Vec'), 'tags')))
        self.evals = get(SELF, ('f', r.field(TMSG, ismap, 'values')))
        pat = get(P1, ('f', self.c.mpat))
        strvec = ['adt', 'std::vec::Vec', [['adt', 'std::string::String', []]]]
        self.gtags = get(pat, ('f', r.field(PATTERN, lambda t: isopt(t) and t[2][0][:2] == strvec[:2] and mentions(t, 'std::string::String') and not mentions(t, TMSG), 'tags')))
        self.pvals = get(pat, ('f', r.field(PATTERN, ismap, 'values')))
        self.rvals = get(P1, ('f', self.c.mval))
        self.uuid = get(pat, ('f', self.c.uuid))


def layers(M, f, loops, V):
    """a map as the list of maps it was filled from, later ones override; None when not recognised"""
    M = strip_dyn(M)
    if M == ('map', ()) or M[0] == 'map' and not M[1]:
        return []
    if M in (V.rvals, some_pl(V.pvals), V.pvals):
        return [some_pl(V.pvals) if M == V.pvals else M]
    if M[0] == 'extend':
        a, b = layers(M[1], f, loops, V), layers(M[2], f, loops, V)
        return None if a is None or b is None else a + b
    if M[0] == 'collect':
        s = M[1]
        if s[0] == 'elems':
            return layers(s[1], f, loops, V)
        if s[0] == 'chain':
            o = s[2]
            if o[0] == 'iter':
                o = ('collect', o[1])
            a, b = layers(('collect', s[1]), f, loops, V), layers(o, f, loops, V)
            return None if a is None or b is None else a + b
        if s[0] == 'map':
            return None
    if M[0] == 'lv':
        for L in loops:
            for pl, (init, lv) in L.places.items():
                if lv != M:
                    continue
                base = layers(init, f, loops, V)
                if base is None:
                    return None
                for ilv, s in L.iterl:
                    W, ok = peel(s)
                    if ok is None or s[0] == 'rev':
                        ok = ok if ok is None else ok
                    src = W
                    fills = bool(L.backs)
                    for bk in L.backs:
                        new = bk['new'][pl]
                        el = get(src, ('idx', ilv))
                        # a key that is there already is left alone
                        had = bk['state'].facts.isv.get(('mget', M, get(el, ('f', '0'))))
                        if had == 'Some' and new == M:
                            continue
                        if had != 'None':
                            fills = False
                        if new != ('minsert', M, get(el, ('f', '0')), get(el, ('f', '1'))):
                            if new == M:
                                return ['dropped']
                            return None
                    if ok is False or f.decide(more(s, ilv)) is not False:
                        return ['dropped']
                    if src in (V.rvals, some_pl(V.pvals)):
                        return [src] + base if fills else base + [src] if all(b['new'][pl] != M for b in L.backs) else None
                    return None
    return None


def effective(x, key, f, loops, V):
    """is mget(M, key) the effective value of the key? True/False/None"""
    # x = mget(M, key)
    ly = layers(x[1], f, loops, V)
    if ly is None:
        return None
    full = [some_pl(V.pvals), V.rvals]
    if ly == full:
        return True
    if ly == [V.rvals]:
        # nothing from the pattern: right when the key was captured, or the pattern has no values
        if f.isv.get(x) == 'Some' or variant(f, V.pvals) == 'None':
            return True
        pk = ('mget', some_pl(V.pvals), key)
        if f.isv.get(pk) == 'None':
            return True
        return False
    if ly == [some_pl(V.pvals)]:
        if f.isv.get(('mget', V.rvals, key)) == 'None':
            return True
        return False
    return False


def value_round(V, facts_state, key, want, loops):
    """the expected value of one key was found to hold (True) or to fail (False)? -> (holds?, proved?, why)"""
    f = facts_state
    for x, v in list(f.isv.items()):
        if x[0] == 'mget' and x[2] == key:
            eff = effective(x, key, f, loops, V)
            if v == 'None':
                if eff is True:
                    return 'missing', x, ''
                continue
            p = some_pl(x)
            d = f.decide(EQ(p, want))
            if d is None:
                for a, pol in f.list:
                    if a[0] == 'eq' and {a[1], a[2]} == {p, want}:
                        d = pol
            if eff is True and d is not None:
                return ('equal' if d else 'differs'), x, ''
            if eff is False and d is not None:
                return 'wrong', x, 'the value compared is not the effective one: captured values override those of the pattern'
    return None, None, 'no comparison with the effective value was recognised'


def tag_fact(f, tag, V):
    """True/False/None: the expected tag is among the tags of the pattern"""
    got = some_pl(V.gtags)
    for a, pol in f.list:
        if a[0] == 'in' and a[1] == tag and a[2] in (('elems', got), ('elems', V.gtags)):
            return pol
    if variant(f, V.gtags) == 'None' or f.decide(eq0(LEN(got))) is True:
        return False
    return None


def first_tag_fails(f, V):
    E = some_pl(V.etags)
    return f.decide(LE(INT(1), LEN(E))) is True and tag_fact(f, get(E, ('idx', INT(0))), V) is False


def c12_paths(ck):
    return ck.run(ck.repo.engine(), ck.repo.body(TEST_RESULT))


def c12(ck):
    ck.guarded('analysis', 'test_result', c12_body, ck)


def c12_body(ck):
    V = Verdict(ck)
    name = 'test_result'
    kinds = set()
    for k, v, st in c12_paths(ck):
        if k != 'ret':
            continue
        f = st.facts
        path = ' (path: %s)' % facts_str(st)
        v = strip_dyn(v)
        loops = loops_of(st)
        uk = [x for x in unknown_calls(st) if x not in ('to_string',)]
        unk = bool(uk)
        if v[0] != 'adt' or v[2] not in ('Ok', 'Err'):
            ck.unk('verdict', name, 'result %s not understood' % pp(v)[:150])
            continue
        if v[2] == 'Ok':
            kinds.add('Ok')
            tags_accepted(ck, V, st, loops, name, path, unk)
            values_accepted(ck, V, st, loops, name, path, unk)
        else:
            rejected(ck, V, st, loops, v[3][0][1], name, path, unk, kinds)
    ck.verdict('verdict', name + ': accepts', True if 'Ok' in kinds else None if any(o[2] == UNDECIDED for o in ck.obs) else False, 'no path accepts')
    ck.verdict('verdict', name + ': rejects', {'tags', 'missing', 'differs'} <= kinds or (None if '?' in kinds or any(o[2] == UNDECIDED for o in ck.obs) else False), 'it only rejects for %s' % sorted(kinds - {'Ok'}))


def tags_accepted(ck, V, st, loops, name, path, unk):
    f = st.facts
    rule = 'tags-accepted'
    if variant(f, V.etags) == 'None' or f.decide(eq0(LEN(some_pl(V.etags)))) is True:
        ck.holds(rule, name + ': none expected')
        return
    E = some_pl(V.etags)
    for L in loops:
        for lv, s in L.iterl:
            W, ok = peel(s)
            if W not in (E, V.etags):
                continue
            if ok is False:
                ck.verdict(rule, name, False, 'only some of the expected tags are looked at (%s)' % s[0] + path, unk)
                return
            tag = get(W, ('idx', lv))
            for bk in L.backs:
                bf = bk['state'].facts
                d = tag_fact(bf, tag, V)
                inner = loops_in(bk['events'])
                bunk = unk or bool(inner) or bool([x for x in calls(bk['events']) if x[0] not in PURE]) or tallied(st)
                if d is None and inner:
                    d = inner_scan(bf, inner, tag, V)
                    bunk = d is None
                ck.verdict(rule, name, d is True, 'an expected tag is accepted although it is not known to be among the tags of the pattern (round of %s: %s)' % (L.where, pfacts(bk['facts'], 300)),
                           bunk and (d is None or tallied(st)))
            end = f.decide(more(s, lv)) is False
            ck.verdict(rule, name + ': all', end, 'not all of the expected tags are looked at' + path, unk)
            return
    ck.verdict(rule, name, False, 'accepts without comparing the expected tags' + path, unk or bool([L for L in loops if any(any(y == E for y in subterms(a)) for bk in L.backs for a, p in bk['facts'])]))


def inner_scan(f, inner, tag, V):
    """tag == some element of the tags of the pattern, found by a loop over them"""
    G = some_pl(V.gtags)
    for a, pol in f.list:
        if a[0] == 'eq' and pol and tag in (a[1], a[2]):
            o = a[2] if a[1] == tag else a[1]
            if o[0] == 'idx' and o[1] in (G, V.gtags):
                return True
    for a, pol in f.list:
        # found by a weaker comparison than equality
        if a[0] == 'call' and a[1] in WEAK and pol and tag in a[2:] and any(o[0] == 'idx' and o[1] in (G, V.gtags) for o in a[2:]):
            return False
    return None


WEAK = {'str::eq_ignore_ascii_case', 'str::starts_with', 'str::ends_with', 'str::contains'}


def inner_absent(f, inner, tag, V):
    """a loop over all tags of the pattern ended and every round found a different one"""
    G = some_pl(V.gtags)
    for L in inner:
        for lv, s in L.iterl:
            W, ok = peel(s)
            if W in (G, V.gtags) and ok is True and f.decide(more(s, lv)) is False and [i for i, l in L.places.values() if l == lv] == [INT(0)] \
                    and all(b['state'].facts.decide(EQ(get(W, ('idx', lv)), tag)) is False or b['state'].facts.decide(EQ(tag, get(W, ('idx', lv)))) is False for b in L.backs):
                return True
    return False


def values_accepted(ck, V, st, loops, name, path, unk):
    f = st.facts
    rule = 'values-accepted'
    if f.decide(eq0(LEN(V.evals))) is True:
        ck.holds(rule, name + ': none expected')
        return
    for L in loops:
        for lv, s in L.iterl:
            W, ok = peel(s)
            if W != V.evals:
                if s[0] in ('keys',) and s[1] == V.evals:
                    W, ok = V.evals, True
                else:
                    continue
            if ok is False:
                ck.verdict(rule, name, False, 'only some of the expected values are looked at (%s)' % s[0] + path, unk)
                return
            if ok is None:
                continue
            el = get(W, ('idx', lv))
            key, want = get(el, ('f', '0')), get(el, ('f', '1'))
            if not L.backs:
                ck.verdict(rule, name, False, 'no round of the loop over the expected values goes on' + path, unk)
            for bk in L.backs:
                kind, x, why = value_round(V, bk['state'].facts, key, want, loops + loops_in(bk['events']))
                rpath = ' (round of %s: %s)' % (L.where, pfacts(bk['facts'], 300))
                bunk = unk or bool(loops_in(bk['events'])) or tallied(st) or bool([y for y in calls(bk['events']) if y[0] not in PURE]) or V_unrec(V, bk['state'].facts, key, loops)
                if kind == 'equal':
                    ck.holds(rule, name)
                elif kind in ('missing', 'differs', 'wrong'):
                    ck.verdict(rule, name, False, {'missing': 'a key that is absent is accepted', 'differs': 'a value that differs is accepted', 'wrong': why}[kind] + rpath, unk or tallied(st))
                else:
                    ck.verdict(rule, name, False, 'an expected value is accepted without ' + why + rpath, bunk)
            ck.verdict(rule, name + ': all', f.decide(more(s, lv)) is False, 'not all of the expected values are looked at' + path, unk)
            return
    ck.verdict(rule, name, False, 'accepts without comparing the expected values' + path, unk or bool(opaque_cmp(st, V)))


def V_unrec(V, f, key, loops):
    """the key is looked up in a map whose origin is not understood"""
    return any(x[0] == 'mget' and effective(x, key, f, loops, V) is None for x in f.isv)


def opaque_cmp(st, V):
    return [L for L in loops_of(st) if any(any(y == V.evals for y in subterms(a)) for bk in L.backs for a, p in bk['facts'])] or \
        [a for a, p in st.facts.list if any(y == V.evals for y in subterms(a))]


def rejected(ck, V, st, loops, e, name, path, unk, kinds):
    f = st.facts
    rule = 'rejection'
    e = strip_dyn(e)
    why = ''
    if first_tag_fails(f, V):
        kinds.add('tags')
        ck.holds(rule, name + ': tag')
        return
    for L in loops:
        for lv, s in L.iterl:
            W, ok = peel(s)
            if W in (some_pl(V.etags), V.etags) and f.decide(more(s, lv)) is True:
                d = tag_fact(f, get(W, ('idx', lv)), V)
                if d is False:
                    kinds.add('tags')
                    ck.holds(rule, name + ': tag')
                    return
                inner = [l for l in loops if l is not L and any(peel(x[1])[0] in (some_pl(V.gtags), V.gtags) for x in l.iterl)]
                if inner and d is None:
                    kinds.add('tags')
                    if inner_absent(f, inner, get(W, ('idx', lv)), V):
                        ck.holds(rule, name + ': tag')
                        return
                    ck.unk(rule, name, 'tags compared by a loop of their own' + path)
                    return
                why = 'an expected tag that is among the tags of the pattern is rejected'
            if W == V.evals and f.decide(more(s, lv)) is True:
                el = get(W, ('idx', lv))
                key, want = get(el, ('f', '0')), get(el, ('f', '1'))
                kind, x, w = value_round(V, f, key, want, loops)
                if kind in ('missing', 'differs'):
                    kinds.add(kind)
                    ck.holds(rule, name + ': ' + kind)
                    return
                if kind == 'equal':
                    why = 'a value that is as expected is rejected'
                elif kind == 'wrong':
                    why = w
                else:
                    why = w
                    if V_unrec(V, f, key, loops):
                        kinds.add('?')
                        ck.unk(rule, name, w + path)
                        return
    unk = unk or tallied(st)
    if unk or [L for L in loops if L.iterl and peel(L.iterl[0][1])[1] is None]:
        kinds.add('?')
    ck.verdict(rule, name, False, (why or 'rejects (%s) although no expectation is known to fail' % pp(e)[:120]) + path, unk or not why and bool(opaque_cmp(st, V)) and '?' in kinds)


# ---------------------------------------------------------------- C22
def c22(ck):
    ck.guarded('analysis', 'from_source', lambda: strict_source(ck, Ctx(ck.repo), 'C22'))
    ck.guarded('analysis', 'load_file', load_strict, ck, 'C22')
    ck.guarded('analysis', 'test_result', test_errors, ck)
    ck.guarded('analysis', 'constructors', constructors, ck)
    ck.guarded('analysis', 'Display', display, ck)
    ck.guarded('analysis', 'From', conversions, ck)


def test_errors(ck):
    """the errors of test_result carry the uuid of the matched pattern, the key, the expected and the received values in their places"""
    V = Verdict(ck)
    name = 'test_result'
    for k, v, st in c12_paths(ck):
        v = strip_dyn(v) if k == 'ret' else v
        if k != 'ret' or v[0] != 'adt' or v[2] != 'Err':
            continue
        f = st.facts
        path = ' (path: %s)' % facts_str(st)
        loops = loops_of(st)
        unk = bool([x for x in unknown_calls(st) if x != 'to_string'])
        t = strip_dyn(v[3][0][1])
        if not (t[0] == 'adt' and t[1] == TERR):
            ck.unk('error-fields', name, 'error %s not understood' % pp(t)[:150])
            continue
        u = as_uuid(fieldof(t, 'pattern_uuid') or ('?',))
        ck.verdict('error-fields', '%s: %s.pattern_uuid' % (name, t[2]), None if u is None else u == V.uuid, 'pattern_uuid is %s' % pp(fieldof(t, 'pattern_uuid') or ('?',))[:150] + path, unk)
        # what failed?
        fail = ('tags',) if first_tag_fails(f, V) else None
        for L in loops:
            for lv, s in L.iterl:
                W, ok = peel(s)
                if W in (some_pl(V.etags), V.etags) and f.decide(more(s, lv)) is True:
                    fail = ('tags',)
                if W == V.evals and f.decide(more(s, lv)) is True:
                    el = get(W, ('idx', lv))
                    key, want = get(el, ('f', '0')), get(el, ('f', '1'))
                    kind, x, w = value_round(V, f, key, want, loops)
                    fail = (kind, key, want, x) if kind else None
        if fail is None:
            ck.unk('error-kind', name, 'what failed was not recognised' + path)
            continue
        kind = {'tags': 'UnexpectedTags', 'missing': 'KeyNotFound', 'differs': 'ValueNotMatch'}.get(fail[0])
        if kind is None:
            continue
        ck.verdict('error-kind', name + ': ' + kind, t[2] == kind, 'a failure of kind %s is reported as %s' % (kind, t[2]) + path, unk)
        if t[2] != kind:
            continue

        def fld(n, want, alt=()):
            got = fieldof(t, n)
            if got is None:
                ck.unk('error-fields', '%s: %s.%s' % (name, kind, n), 'no such field')
                return
            got = normopt(f, got)
            ok = got == want or got in alt
            ck.verdict('error-fields', '%s: %s.%s' % (name, kind, n), ok, '%s is %s, not %s' % (n, pp(got)[:120], pp(want)[:120]) + path, unk or bool(opaque_in(got)))
        if kind in ('KeyNotFound', 'ValueNotMatch'):
            fld('key', fail[1])
        if kind == 'ValueNotMatch':
            fld('expected_value', fail[2])
            fld('got_value', some_pl(fail[3]))
        if kind == 'UnexpectedTags':
            fld('expected', normopt(f, V.etags))
            fld('got', normopt(f, V.gtags))


def normopt(f, t):
    t = strip_dyn(t)
    if t[0] == 'adt' and t[2] == 'Some':
        x = t[3][0][1]
        if x[0] == 'pl' and x[2] == 'Some':
            return x[1]
    if t == NONE:
        return t
    if variant(f, t) == 'None':
        return NONE
    return t


CTORS = {'value_not_match': ('ValueNotMatch', ['pattern_uuid', 'key', 'expected_value', 'got_value']),
         'key_not_found': ('KeyNotFound', ['pattern_uuid', 'key']),
         'test_message_does_not_match': ('TestMessageDoesntMatch', ['pattern_uuid', 'message']),
         'matched_to_other_pattern': ('MatchedToOtherPattern', ['expected_uuid', 'got_uuid', 'message']),
         'unexpected_tags': ('UnexpectedTags', ['pattern_uuid', 'expected', 'got'])}


def constructors(ck):
    c = Ctx(ck.repo)
    for fn, (var, fields) in CTORS.items():
        b = ck.repo.body(TERR + '::' + fn)
        for k, v, st in ck.run(ck.repo.engine(), b):
            if k != 'ret':
                continue
            v = strip_dyn(v)
            unk = bool([x for x in unknown_calls(st) if x != 'to_string'])
            if not (v[0] == 'adt' and v[1] == TERR):
                ck.unk('error-constructor', fn, 'result %s not understood' % pp(v)[:150])
                continue
            ck.verdict('error-constructor', fn, v[2] == var, 'makes a %s' % v[2], unk)
            if v[2] != var:
                continue
            for i, n in enumerate(fields):
                got = fieldof(v, n)
                if got is None:
                    ck.unk('error-constructor', '%s.%s' % (fn, n), 'no such field')
                    continue
                want = ('sym', 'p%d' % i)
                if 'uuid' in n:
                    if as_uuid(got) is not None:
                        got = as_uuid(got)
                    elif got[0] == 'call':
                        got = got[2] if len(got) == 3 else got
                if fn == 'test_message_does_not_match' and n == 'message':
                    want = get(want, ('f', c.msg))
                got = normopt(st.facts, got)
                ok = got == want or got == ('hyphenated', want)
                ck.verdict('error-constructor', '%s.%s' % (fn, n), ok, '%s becomes %s' % (n, pp(got)[:150]), unk or bool(opaque_in(got)))


def template(bs):
    """the pieces of a format template: [('text', s) | ('arg', i)]; None when not understood"""
    out, i, arg = [], 0, 0
    try:
        while i < len(bs):
            n = bs[i]
            i += 1
            if n == 0:
                return out
            if n < 0x80:
                out.append(('text', bytes(bs[i:i + n]).decode()))
                i += n
            elif n == 0x80:
                ln = bs[i] | bs[i + 1] << 8
                i += 2
                out.append(('text', bytes(bs[i:i + ln]).decode()))
                i += ln
            elif n >= 0xC0:
                idx = arg
                if n & 1:
                    i += 4
                if n & 2:
                    i += 2
                if n & 4:
                    i += 2
                if n & 8:
                    idx = bs[i] | bs[i + 1] << 8
                    i += 2
                arg = idx + 1
                out.append(('arg', idx))
            else:
                return None
        return out
    except Exception:
        return None


LABELS = {'pattern_uuid': ('uuid',), 'expected_uuid': ('expected',), 'got_uuid': ('got',), 'expected_value': ('expected',), 'got_value': ('got',),
          'key': ('key',), 'message': ('message',), 'expected': ('expected',), 'got': ('got',)}


def rendered(st):
    """[(preceding text, value)] of everything the path writes, or None"""
    out = []
    for ev in st.events:
        if ev[0] != 'call':
            continue
        key = ev[1]
        if key in ('Formatter::write_str', 'Write::write_str'):
            out.append(('text', ev[2][1]))
        elif key in ('Display::fmt', 'Debug::fmt'):
            out.append(('arg', ev[2][0]))
        elif key in ('Formatter::write_fmt', 'Write::write_fmt', 'Formatter::pad'):
            a = ev[2][1]
            if a[0] != 'fmt':
                out.append(('text', a) if a[0] == 'str' else ('?', a))
                continue
            tpl = template(a[1][1]) if a[1][0] == 'bytestr' else ([('text', a[1][1])] if a[1][0] == 'str' else None)
            args = []
            if len(a) > 2 and a[2][0] == 'vec':
                args = list(a[2][1])
            if tpl is None:
                for x in args:
                    out.append(('arg', x[2]) if x[0] == 'fmtarg' else ('?', x))
                continue
            for kind, x in tpl:
                if kind == 'text':
                    out.append(('text', ('str', x)))
                else:
                    y = args[x] if x < len(args) else ('?',)
                    out.append(('arg', y[2]) if y[0] == 'fmtarg' else ('?', y))
        elif key in ('to_string',):
            continue
        else:
            out.append(('?', ('str', key)))
    return out


def loose_write(st):
    """the path has a write to the sink that failed"""
    return any(x == 'Err' and any(str(y[1]).split('::')[-1] in ('write_str', 'write_fmt', 'fmt', 'pad', 'write_char') for y in [t] + list(subterms(t)) if y and y[0] == 'call')
               for t, x in st.facts.isv.items())


def display(ck):
    import re as _re
    for ty in (TERR, BERR):
        b = ck.repo.impl('std::fmt::Display', 'fmt', ty)
        seen = set()
        for k, v, st in ck.run(ck.repo.engine(), b):
            if k != 'ret':
                continue
            var = st.facts.isv.get(SELF)
            if var is None:
                ck.unk('display', ty, 'variant not looked at')
                continue
            if strip_dyn(v)[0] == 'adt' and strip_dyn(v)[2] == 'Err' and loose_write(st):
                continue        # the sink refused a piece: nothing more can be shown
            seen.add(var)
            pieces = rendered(st)
            unk = any(p[0] == '?' for p in pieces) or bool(loops_of(st))
            name = '%s::%s' % (ty.split('::')[-1] if ty == BERR else 'testmessage::Error', var)
            vs = [x for x in ck.repo.adt(ty)['variants'] if x['name'] == var][0]
            for fl in vs['fields']:
                n = fl[0]
                val_ = ('pl', SELF, var, n)
                hits = [i for i, (kd, x) in enumerate(pieces) if kd == 'arg' and (strip_dyn(x) == val_ or val_ in list(subterms(x)))]
                ck.verdict('display', '%s.%s' % (name, n), bool(hits), 'the rendered text does not show %s' % n, unk)
                if hits and n in LABELS and hits[0] > 0 and pieces[hits[0] - 1][0] == 'text' and pieces[hits[0] - 1][1][0] == 'str':
                    txt = pieces[hits[0] - 1][1][1]
                    words = [w for w in _re.findall(r'[a-z]+', txt.lower()) if w in ('uuid', 'expected', 'got', 'key', 'message')]
                    m = _re.search(r'([A-Za-z_]+)\s*[=:]\s*[\'"(\[]?$', txt)
                    if m:
                        lab = m.group(1).lower()
                        names = {x for x in ('expected', 'got', 'key', 'message') if x in lab.split('_') or lab == x}
                        if not names and 'uuid' in lab:
                            names = {'uuid'}
                        if names:
                            ck.verdict('display-label', '%s.%s' % (name, n), bool(names & set(LABELS[n])), '%s is shown under the label %s' % (n, m.group(1)), unk)
        allv = {x['name'] for x in ck.repo.adt(ty)['variants']}
        ck.verdict('display', ty + ': variants', seen >= allv or None, 'variants %s' % sorted(allv - seen))


def conversions(ck):
    """From<cause> for BuildError keeps the cause under its own kind"""
    want = {'matcher::pattern::testmessage::error::Error': 'TestMessage', 'std::io::Error': 'Io'}
    for im in ck.repo.p.impls:
        if im['trait'] != 'std::convert::From' or im['self'] != ['adt', BERR, []]:
            continue
        src = im.get('targs') or im.get('args') or []
        srct = src[-1] if src else None
        path = srct[1] if srct and srct[0] == 'adt' else str(srct)
        m = ck.repo.p.trait_method('std::convert::From', 'from', im['self'], src[1:] if len(src) > 1 else src)
        if not m or not m[0]:
            ck.unk('conversion', str(path), 'no body')
            continue
        kind = want.get(path) or ('DeserJson' if 'serde_json' in path else 'DeserYaml' if 'serde_yaml' in path else None)
        if kind is None:
            ck.unk('conversion', path, 'unknown cause')
            continue
        for k, v, st in ck.run(ck.repo.engine(), m[0]):
            if k != 'ret':
                continue
            v = strip_dyn(v)
            unk = bool(unknown_calls(st))
            ok = v[0] == 'adt' and v[1] == BERR and v[2] == kind and strip_dyn(v[3][0][1]) == P0
            ck.verdict('conversion', '%s -> %s' % (path.split('::')[0] + '::' + path.split('::')[-1], kind), ok, 'becomes %s' % pp(v)[:150], unk)


# ---------------------------------------------------------------- C23
JSON, YAML = ('json',), ('yaml', 'yml', 'YAML', 'YML')
OTHERS = ('JSON', 'Json', 'jSON', 'Yaml', 'yAML', 'Yml', 'yML', 'jsonl', 'json5', 'xjson', 'yamlx', 'xyaml', 'ymlx', 'txt', 'j', 'y', 'js', 'ym', 'toml', 'xml', 'conf', 'JSON5',
          'bak', '', ' json', 'json ', 'yaml~', 'jsn', 'pdb', 'db', 'JSN', 'pattern', 'patterns', 'cfg', 'YAMl', 'jsON', 'yaMl', 'tmp', 'ini', 'swp', 'old', 'jso', 'yam', 'son', 'aml', 'ml')


def fold(t, ext, v):
    """constant evaluation of a term for one extension; None when unknown"""
    t = strip_dyn(t)
    if t == ext:
        return v
    if t[0] == 'str':
        return t[1]
    if t[0] == 'int':
        return t[1]
    if t[0] == 'bool':
        return t[1]
    if t[0] == 'call':
        a = [fold(x, ext, v) for x in t[2:]]
        if None in a:
            return None
        n = t[1].split('::')[-1]
        s = a[0]
        if not isinstance(s, str):
            return None
        if n in ('to_lowercase', 'to_ascii_lowercase'):
            return s.lower()
        if n in ('to_uppercase', 'to_ascii_uppercase'):
            return s.upper()
        if n in ('trim',):
            return s.strip()
        if n == 'eq_ignore_ascii_case' and len(a) == 2:
            return s.lower() == a[1].lower()
        if n == 'starts_with' and len(a) == 2 and isinstance(a[1], str):
            return s.startswith(a[1])
        if n == 'ends_with' and len(a) == 2 and isinstance(a[1], str):
            return s.endswith(a[1])
        if n == 'contains' and len(a) == 2 and isinstance(a[1], str):
            return a[1] in s
        return None
    if t[0] == 'eq':
        a, b = fold(t[1], ext, v), fold(t[2], ext, v)
        return None if a is None or b is None else a == b
    if t[0] == 'not':
        a = fold(t[1], ext, v)
        return None if a is None else not a
    if t[0] in ('and', 'or'):
        xs = [fold(x, ext, v) for x in t[1:]]
        if None in xs:
            return None
        return all(xs) if t[0] == 'and' else any(xs)
    if t[0] == 'in':
        a = fold(t[1], ext, v)
        if t[2][0] == 'elems' and t[2][1][0] == 'vec' and a is not None:
            ys = [fold(y, ext, v) for y in t[2][1][1]]
            return None if None in ys else a in ys
        return None
    if t[0] == 'at':
        a, m = fold(t[1], ext, v), fold(t[3], ext, v)
        if isinstance(a, str) and isinstance(m, str) and t[2][0] == 'int':
            return a.encode()[t[2][1]:t[2][1] + len(m.encode())] == m.encode()
        return None
    if t[0] == 'slice' and len(t) >= 4:
        a, i, j = fold(t[1], ext, v), fold(t[2], ext, v), fold(t[3], ext, v)
        if isinstance(a, str) and isinstance(i, int) and isinstance(j, int) and a.isascii() and i <= j <= len(a):
            return a[i:j]
        return None
    if t[0] == 'bpos' and t[2][0] in ('ts', 'te'):
        # the ends of a trimmed text
        a = fold(t[1], ext, v)
        pats = [chr(x[1]) if x[0] == 'int' and 'matches' in t[2][1] else fold(x, ext, v) for x in t[2][2:]]
        if not isinstance(a, str) or not a.isascii() or any(not isinstance(x, str) or len(x) != 1 for x in pats) or len(pats) > 1:
            return None
        ch = pats[0] if pats else None
        n = t[2][1].split('::')[-1]
        b = a
        if t[2][0] == 'ts' or n in ('trim', 'trim_matches'):
            b = b.lstrip(ch)
        if t[2][0] == 'ts':
            return len(a) - len(b)
        c = b.rstrip(ch)
        return len(a) - len(b) + len(c)
    if t[0] == 'len':
        a = fold(t[1], ext, v)
        return len(a.encode()) if isinstance(a, str) else None
    if t[0] == 'lin':
        n = t[1]
        for x, cf in t[2]:
            y = fold(x, ext, v)
            if not isinstance(y, int):
                return None
            n += cf * y
        return n
    if t[0] in ('le0', 'eq0'):
        n = fold(t[1], ext, v)
        return None if not isinstance(n, int) else (n <= 0 if t[0] == 'le0' else n == 0)
    return None


def c23(ck):
    ck.guarded('analysis', 'load_file', c23_body, ck)


def c23_body(ck):
    name = 'load_file'
    e0 = ('call', 'Path::extension', P0)
    e1 = ('call', 'OsStr::to_str', some_pl(e0))
    ext = some_pl(e1)
    outs = [(strip_dyn(v), st) for k, v, st in load_paths(ck) if k == 'ret']

    def decoder(v, st):
        """which decoder read the file on this path"""
        ds = [DECODERS[x[0]] for x in calls(st.events) if x[0] in DECODERS]
        return ds

    def unsupported(v):
        return v[0] == 'adt' and v[2] == 'Err' and v[3][0][1][0] == 'adt' and v[3][0][1][2] == 'UnsupportedFileExtension'

    # no extension / not Unicode
    seen_none = seen_bad = False
    for v, st in outs:
        f = st.facts
        path = ' (path: %s)' % facts_str(st)
        touched = bool([x for x in calls(st.events) if x[0] in FALLIBLE])
        if f.isv.get(e0) == 'None':
            seen_none = True
            ck.verdict('no-extension', name, unsupported(v) and not touched, 'a file without extension gives %s' % pp(v)[:150] + path)
        elif f.isv.get(e0) == 'Some' and f.isv.get(e1) == 'None':
            seen_bad = True
            ok = v[0] == 'adt' and v[2] == 'Err' and v[3][0][1][0] == 'adt' and v[3][0][1][2] == 'NotUtf8FileName'
            ck.verdict('not-unicode', name, ok, 'an extension that is not Unicode gives %s' % pp(v)[:150] + path)
    if not any(e0 in f_.facts.isv for _, f_ in outs):
        ck.unk('extension', name, 'the extension of the path is not looked at in a recognised way')
        return
    ck.verdict('no-extension', name + ': rejected', seen_none or None, 'not recognised')
    ck.verdict('not-unicode', name + ': rejected', seen_bad or None, 'not recognised')
    work = [(v, st) for v, st in outs if st.facts.isv.get(e0) == 'Some' and st.facts.isv.get(e1) == 'Some']
    consts = {x[1] for v, st in work for a, p in st.facts.list for x in subterms(a) if x[0] == 'str'}
    vals = list(dict.fromkeys(JSON + YAML + OTHERS + tuple(consts)))
    for s in vals:
        want = 'json' if s in JSON else 'yaml' if s in YAML else None
        rep = s if want else ('a constant' if s in consts and s not in OTHERS else 'other')
        for v, st in work:
            ok = True
            dunno = False
            for a, pol in st.facts.list:
                d = fold(a, ext, s)
                if d is None:
                    if ext in list(subterms(a)):
                        dunno = True
                elif d != pol:
                    ok = False
            if not ok:
                continue
            path = ' (path: %s)' % facts_str(st, 30)
            ds = decoder(v, st)
            touched = [x for x in calls(st.events) if x[0] in FALLIBLE]
            if dunno:
                ck.unk('format', '%s: %s' % (name, s), 'condition on the extension not understood' + path)
            elif want is None:
                ck.verdict('format', '%s: other extensions are rejected' % name, unsupported(v) and not ds, 'the extension %r gives %s%s' % (s, pp(v)[:100], ' after decoding as %s' % ds if ds else '') + path,
                           bool(loops_of(st)))
            else:
                if unsupported(v):
                    ck.verdict('format', '%s: %s' % (name, s), False, 'the extension %r is rejected' % s + path)
                elif ds:
                    ck.verdict('format', '%s: %s' % (name, s), ds == [want], 'the extension %r is decoded as %s' % (s, ds) + path)
                elif touched:
                    ck.holds('format', '%s: %s' % (name, s), 'reading fails')
                else:
                    ck.unk('format', '%s: %s' % (name, s), 'result %s' % pp(v)[:100])
    for want, exts in (('json', JSON), ('yaml', YAML)):
        for v, st in work:
            for x in calls(st.events):
                if DECODERS.get(x[0]) == want and x[1] and False:
                    pass
