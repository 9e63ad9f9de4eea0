"""Obligation bookkeeping: every obligation is HOLDS, VIOLATED or UNDECIDED."""
import traceback

from engine import Undecided, Budget
from repo import Missing
from pp import pp
from terms import subterms, sub

HOLDS, VIOLATED, UNDECIDED = 'holds', 'violated', 'undecided'

# std functions that are not modelled further but whose result is a definite function of its arguments
PURE = {
    'Parser::name', 'ObjectSafeHash::hash_os', 'str::trim', 'str::trim_start', 'str::trim_end', 'str::trim_left', 'str::trim_right',
    'str::to_lowercase', 'str::to_uppercase', 'str::to_ascii_lowercase', 'str::to_ascii_uppercase', 'str::contains', 'str::ends_with',
    'char::is_alphanumeric', 'char::is_alphabetic', 'char::is_numeric', 'char::is_digit', 'char::is_whitespace', 'char::is_ascii',
    'str::eq_ignore_ascii_case', 'str::repeat', 'Parser::parse', 'str::replacen', 'char::is_ascii_alphanumeric', 'str::to_string',
    'to_string', 'from_str', 'default', 'str::starts_with', 'PartialOrd::le', 'PartialOrd::lt', 'PartialOrd::ge', 'PartialOrd::gt',
}


class Check:
    def __init__(self, pid, repo):
        self.pid = pid
        self.repo = repo
        self.obs = []          # (rule, construct, status, detail)
        self.stats = {'functions': set(), 'paths': 0, 'loops': 0, 'call_sites': 0}
        self.sites = set()
        self.loops = []

    def add(self, rule, construct, status, detail=''):
        self.obs.append((rule, construct, status, detail))

    def holds(self, rule, construct, detail=''):
        self.add(rule, construct, HOLDS, detail)

    def bad(self, rule, construct, detail=''):
        self.add(rule, construct, VIOLATED, detail)

    def unk(self, rule, construct, detail=''):
        self.add(rule, construct, UNDECIDED, detail)

    def verdict(self, rule, construct, ok, detail='', unknown=False):
        """ok: True/False/None"""
        if ok is True:
            self.holds(rule, construct, detail if ok is not True else '')
        elif ok is False and not unknown:
            self.bad(rule, construct, detail)
        else:
            self.unk(rule, construct, detail)
        return ok

    def run(self, e, body, **kw):
        """path summaries of a function, with the counts recorded as evidence"""
        outs = e.run_fn(body, **kw)
        self.stats['functions'] |= e.stats['functions']
        self.stats['paths'] += len(outs)
        self.stats['loops'] += e.stats['loops']
        self.stats['call_sites'] += e.stats['calls']
        self.loops += e.all_loops
        e.all_loops = []
        return outs

    def guarded(self, rule, construct, f, *a):
        """run f; what the analysis cannot follow is undecided, what is gone is a violation"""
        try:
            return f(*a)
        except Missing as m:
            self.bad(rule, construct, 'anchor not found: %s' % m)
        except Undecided as u:
            self.unk(rule, construct, 'not analysable: %s' % u)
        except RecursionError:
            self.unk(rule, construct, 'not analysable: term too deep')
        except Exception as x:
            self.unk(rule, construct, 'analysis gave up: %r at %s' % (x, traceback.format_exc().strip().splitlines()[-3].strip()))
        return None


def unknown_calls(st, crate_ok=()):
    """opaque calls on the path the analysis has no meaning for"""
    r = []
    for ev in st.events:
        if ev[0] == 'call' and ev[1] not in PURE and ev[1] not in crate_ok and ev[3][0] != 'rec':
            r.append(ev[1])
    return r


def tallied(st):
    """the path depends on a number kept by a loop that is not the position of the loop"""
    loops = {ev[1].key: ev[1] for ev in st.events if ev[0] == 'loop'}
    for a, p in st.facts.list:
        for x in subterms(a):
            L = loops.get(x[1]) if x[0] == 'lv' and len(x) > 3 and x[3][0] == 'int' else None
            if L is not None and x not in [lv for lv, s in L.iterl] and any(b['new'][pl] != x for pl, (i, lv) in L.places.items() if lv == x for b in L.backs):
                return True
    return False


# what takes a text or list apart in a way the analysis does not follow
APART = {'split', 'chain', 'matches', 'splitn', 'cidx', 'windows', 'bytes', 'chars'}


def taken_apart(*ts):
    return any(x[0] in APART for t in ts for x in subterms(t))


def where(v):
    return '%s:%s (%s)' % (v['file'], v['line'], v['fn'])


def facts_str(st, n=12):
    return '; '.join(('' if pol else 'not ') + pp(f) for f, pol in st.facts.list[-n:])


# unmodelled std functions that panic on some arguments (whether they do here is not decided)
MAYPANIC = {'Vec::split_off', 'Vec::drain', 'String::insert', 'String::drain', 'slice::copy_from_slice', 'slice::clone_from_slice',
            'slice::rotate_left', 'slice::rotate_right', 'RefCell::borrow', 'RefCell::borrow_mut', 'String::replace_range'}
# calls that end the program
ENDS = {'process::exit', 'process::abort'}
# calls whose outcome (Ok / Err, Some / None) is not constrained by anything else on the path: both happen for some input
FREE = {'File::open', 'Read::read_to_string', 'Read::read_to_end', 'fs::read_to_string', 'fs::read', 'serde_json::from_str', 'serde_yaml::from_str',
        'serde_json::from_reader', 'serde_yaml::from_reader', 'serde_json::from_slice', 'serde_yaml::from_slice', 'MapVisitor::visit_key',
        'MapVisitor::visit_value', 'MapVisitor::end', 'MapVisitor::missing_field', 'SeqVisitor::visit', 'SeqVisitor::end', 'Uuid::parse_str',
        'Path::extension', 'OsStr::to_str', 'String::from_utf8', 'str::from_utf8', 'Path::file_name', 'Path::to_str', 'Path::file_stem',
        'grammar::parser::pattern_parser::pattern', 'grammar::parser::pattern', 'matcher::pattern_loader::PatternLoader::load_file', 'Iterator::next', 'Matcher::parse', 'Matcher::add_pattern'}


def opaque_in(t, free=()):
    """an unmodelled result inside a term"""
    for x in subterms(t):
        if x[0] == 'call' and x[1] not in PURE and x[1] not in free or x[0] in ('post', 'opq') and not (x[0] == 'post' and x[1][0] == 'call' and x[1][1] in free):
            return x
    return None


# operations whose results the analysis cannot relate to other numbers
UNREL = {'bin', 'un', 'trunc', 'splitnode', 'newpos'}


def vague(t, st, free=()):
    """a term about which failing to prove something says little"""
    if opaque_in(t, free) is not None:
        return True
    loops = {ev[1].key: ev[1] for ev in st.events if ev[0] == 'loop'}
    for x in subterms(t):
        if x[0] in UNREL or x[0] == 'elem' and any(y[0] in ('chain', 'flat_map', 'flatten', 'skip_while', 'scan', 'map_while', 'filter', 'filter_map') for y in subterms(x[1])):
            return True
        if x[0] == 'lv':
            lp = loops.get(x[1])
            if lp is None:
                return True
            for pl, (init, lv) in lp.places.items():
                if x not in subterms(lv):
                    continue
                for b in lp.backs:
                    n = b['new'][pl]
                    if n == lv or lv == x and sub(n, lv)[0] == 'int' or lv != x:
                        continue
                    # a list rearranged in every round
                    if any(y[0] == 'sortby' for y in subterms(n)):
                        return True
                    # a step by something else than a constant
                    if x == lv and opaque_in(n, free) is None and not any(y[0] in UNREL for y in subterms(n)):
                        continue
                    return True
    return False


def no_panic(ck, rule, name, outs, excuse=None, free=FREE):
    """every panicking path is a violation, unless it hangs on something the analysis does not know"""
    n = 0
    for k, v, st in outs:
        for ev in st.events:
            if ev[0] == 'call' and ev[1] in ENDS:
                ck.bad(rule, '%s: %s in %s' % (name, ev[1], ev[4][2]), 'this call ends the program')
            if ev[0] == 'call' and ev[1] in MAYPANIC:
                ck.unk(rule, '%s: %s in %s' % (name, ev[1], ev[4][2]), 'this call panics for some arguments')
        if k != 'panic':
            n += 1
            continue
        site = '%s: %s in %s' % (name, v['kind'], v['fn'])
        if excuse:
            x = excuse(v, st)
            if x:
                ck.holds(rule, site, x)
                continue
        d = v['detail'] if isinstance(v['detail'], tuple) else ('str', str(v['detail']))
        msg = '%s of %s at %s:%s can be reached (path: %s)' % (v['kind'], pp(d)[:300], v['file'], v['line'], facts_str(st)[:600])
        conds = d[3] if d[0] == 'slice' and len(d) == 4 and isinstance(d[3], tuple) else (d,)
        moved = {ev[1].key for ev in st.events if ev[0] == 'loop' for b in ev[1].backs for m in b['new'].values() if any(y[0] == 'sortby' for y in subterms(m))}
        hang = any(vague(c, st, free) for c in conds) or any(opaque_in(f, free) is not None or any(x[0] in UNREL or x[0] == 'lv' and x[1] in moved for x in subterms(f)) for f, p in st.facts.list)
        # what a filtered list's elements are like is known by its test only, not where they lie
        hang = hang or any(x[0] == 'elem' and any(y[0] in ('filter', 'filter_map') for y in subterms(x[1])) for f, p in st.facts.list for x in subterms(f))
        # a search in a list the path walked over, or sorted by a comparator of its own
        walked = {x[1] for f, p in st.facts.list for x in subterms(f) if x[0] == 'idx' and x[2][0] == 'lv'}
        hang = hang or any(x[0] == 'bsearch' and (x[1] in walked or any(y[0] == 'sortby' for y in subterms(x[1]))) for c in conds for x in subterms(c))
        (ck.unk if hang else ck.bad)(rule, site, msg)
    ck.holds(rule, name, '%d paths return normally' % n)
