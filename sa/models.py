"""Models of the std functions the crate uses (and of near neighbours a rewrite may use).

model(engine, ctx, args, state) -> [(kind, value, state)] or None (= treat as an opaque call)
"""
import json

from terms import *

MODELS = {}


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def R(v, st):
    return [('ret', v, st)]


def val(e, st, a):
    """the value behind a reference"""
    return strip(e.deref(st, a))


def strip(t):
    return strip_dyn(t)


def IN(x, els):
    if els == ('elems', ('vec', ())):
        return FALSE
    return ('in', x, els)


# ---------------------------------------------------------------- identities
@model('Clone::clone', 'ToOwned::to_owned', 'Borrow::borrow', 'AsRef::as_ref', 'Deref::deref', 'Into::into',
       'ToString::to_string', 'String::as_str', 'Box::new', 'slice::to_vec', 'String::from', 'Vec::as_slice',
       'hint::must_use', 'Path::new', 'String::into_boxed_str', 'str::to_string', 'str::to_owned', 'Option::as_ref',
       'Option::as_deref', 'Option::cloned', 'Option::copied', 'Result::as_ref', 'Rc::new', 'Arc::new',
       'Borrow::borrow', 'convert::identity', 'str::as_ref', 'String::into_string', 'Vec::into_boxed_slice',
       'mem::ManuallyDrop', 'String::as_ref', 'OsStr::to_os_string', 'slice::into_vec', 'Box::leak', 'str::into_string',
       'vec::into_vec', 'Vec::from', 'ToOwned::clone')
def m_id(e, ctx, args, st):
    v = e.deref(st, args[0])
    if ctx.key == 'Into::into' and len(ctx.fargs) > 1:
        dst, src = ctx.fargs[1], ctx.fargs[0]
        m = e.p.trait_method('std::convert::From', 'from', dst, [src]) if dst[0] == 'adt' and dst[1] in e.p.adts else None
        if m and m[0]:
            return e.enter(ctx, m[0], args, m[1], st, 'From::from')
    if ctx.key == 'ToString::to_string':
        src = ctx.fargs[0] if ctx.fargs else None
        if src and src[0] not in ('str', 'param') and not (src[0] == 'adt' and src[1].endswith('String')) and not (src[0] == 'ref'):
            return R(('call', 'to_string', v), st)
    return R(v, st)


@model('From::from')
def m_from(e, ctx, args, st):
    return R(e.deref(st, args[0]), st)


@model('DerefMut::deref_mut', 'BorrowMut::borrow_mut', 'AsMut::as_mut', 'Vec::as_mut_slice', 'Option::as_deref_mut_')
def m_mid(e, ctx, args, st):
    return R(args[0], st)


# ---------------------------------------------------------------- Option / Result
OV = ('Some', 'None')
RV = ('Ok', 'Err')


def pay(t, v):
    return get(t, ('vf', v, '0'))


def variants(e, ctx, args, st, t, vs):
    return e.split(st, strip(t), vs)


def is_result(ctx):
    return ctx.key.startswith('Result::')


def on(e, ctx, st, t, handlers):
    """handlers: {variant: fn(payload, state) -> outs}"""
    t = strip(t)
    outs = []
    for v, s in e.split(st, t, list(handlers)):
        outs += handlers[v](pay(t, v) if v != 'None' else None, s)
    return outs


def app(e, ctx, f, args, st, wrap):
    outs = []
    for k, v, s in e.apply(ctx, f, args, st):
        outs.append((k, wrap(v), s) if k == 'ret' else (k, v, s))
    return outs


IDN = lambda v: v


@model('Option::is_some')
def m_is_some(e, ctx, args, st):
    return R(IS(val(e, st, args[0]), 'Some'), st)


@model('Option::is_none')
def m_is_none(e, ctx, args, st):
    t = val(e, st, args[0])
    return R(NOT(IS(t, 'Some')), st) if t[0] == 'adt' else on(e, ctx, st, t, {'Some': lambda p, s: R(FALSE, s), 'None': lambda p, s: R(TRUE, s)})


@model('Option::is_some')
def m_is_some2(e, ctx, args, st):
    t = val(e, st, args[0])
    return on(e, ctx, st, t, {'Some': lambda p, s: R(TRUE, s), 'None': lambda p, s: R(FALSE, s)})


@model('Result::is_ok')
def m_is_ok(e, ctx, args, st):
    return on(e, ctx, st, val(e, st, args[0]), {'Ok': lambda p, s: R(TRUE, s), 'Err': lambda p, s: R(FALSE, s)})


@model('Result::is_err')
def m_is_err(e, ctx, args, st):
    return on(e, ctx, st, val(e, st, args[0]), {'Ok': lambda p, s: R(FALSE, s), 'Err': lambda p, s: R(TRUE, s)})


@model('Option::map')
def m_map(e, ctx, args, st):
    return on(e, ctx, st, args[0], {'Some': lambda p, s: app(e, ctx, args[1], [p], s, SOME), 'None': lambda p, s: R(NONE, s)})


@model('Option::and_then')
def m_and_then(e, ctx, args, st):
    return on(e, ctx, st, args[0], {'Some': lambda p, s: app(e, ctx, args[1], [p], s, IDN), 'None': lambda p, s: R(NONE, s)})


@model('Option::or_else')
def m_or_else(e, ctx, args, st):
    t = strip(args[0])
    return on(e, ctx, st, t, {'Some': lambda p, s: R(SOME(p), s), 'None': lambda p, s: app(e, ctx, args[1], [], s, IDN)})


@model('Option::or')
def m_or(e, ctx, args, st):
    return on(e, ctx, st, args[0], {'Some': lambda p, s: R(SOME(p), s), 'None': lambda p, s: R(args[1], s)})


@model('Option::and')
def m_and(e, ctx, args, st):
    return on(e, ctx, st, args[0], {'Some': lambda p, s: R(args[1], s), 'None': lambda p, s: R(NONE, s)})


@model('Option::map_or')
def m_map_or(e, ctx, args, st):
    return on(e, ctx, st, args[0], {'Some': lambda p, s: app(e, ctx, args[2], [p], s, IDN), 'None': lambda p, s: R(args[1], s)})


@model('Option::map_or_else')
def m_map_or_else(e, ctx, args, st):
    return on(e, ctx, st, args[0], {'Some': lambda p, s: app(e, ctx, args[2], [p], s, IDN),
                                    'None': lambda p, s: app(e, ctx, args[1], [], s, IDN)})


@model('Option::is_some_and')
def m_is_some_and(e, ctx, args, st):
    return on(e, ctx, st, args[0], {'Some': lambda p, s: app(e, ctx, args[1], [p], s, IDN), 'None': lambda p, s: R(FALSE, s)})


@model('Option::is_none_or')
def m_is_none_or(e, ctx, args, st):
    return on(e, ctx, st, args[0], {'Some': lambda p, s: app(e, ctx, args[1], [p], s, IDN), 'None': lambda p, s: R(TRUE, s)})


@model('Option::ok_or')
def m_ok_or(e, ctx, args, st):
    return on(e, ctx, st, args[0], {'Some': lambda p, s: R(OK(p), s), 'None': lambda p, s: R(ERR(args[1]), s)})


@model('Option::ok_or_else')
def m_ok_or_else(e, ctx, args, st):
    return on(e, ctx, st, args[0], {'Some': lambda p, s: R(OK(p), s), 'None': lambda p, s: app(e, ctx, args[1], [], s, ERR)})


@model('Option::unwrap_or')
def m_unwrap_or(e, ctx, args, st):
    return on(e, ctx, st, args[0], {'Some': lambda p, s: R(p, s), 'None': lambda p, s: R(args[1], s)})


@model('Option::unwrap_or_else')
def m_unwrap_or_else(e, ctx, args, st):
    return on(e, ctx, st, args[0], {'Some': lambda p, s: R(p, s), 'None': lambda p, s: app(e, ctx, args[1], [], s, IDN)})


def default_of(e, ty):
    if ty is None:
        return None
    if ty[0] == 'bool':
        return FALSE
    if ty[0] == 'int':
        return INT(0)
    if ty[0] == 'tuple' and not ty[1]:
        return UNIT
    if ty[0] == 'ref' and ty[2][0] == 'str':
        return ('str', '')
    if ty[0] == 'adt':
        n = ty[1].split('::')[-1]
        if n == 'Option':
            return NONE
        if n == 'Vec':
            return ('vec', ())
        if n == 'String':
            return ('str', '')
        if n in ('BTreeMap', 'HashMap', 'BTreeSet', 'HashSet'):
            return ('map', ())
    if ty[0] == 'proj':
        return ('call', 'default')
    return ('call', 'default', ('ty', json.dumps(ty)))


@model('Option::unwrap_or_default')
def m_unwrap_or_default(e, ctx, args, st):
    return on(e, ctx, st, args[0], {'Some': lambda p, s: R(p, s), 'None': lambda p, s: R(default_of(e, ctx.dty), s)})


@model('Default::default')
def m_default(e, ctx, args, st):
    return R(default_of(e, ctx.dty), st)


@model('Option::unwrap', 'Option::expect')
def m_unwrap(e, ctx, args, st):
    e.site(ctx.fr, ctx.t, ctx.key)
    t = strip(args[0])
    return on(e, ctx, st, t, {'Some': lambda p, s: R(p, s), 'None': lambda p, s: [e.do_panic(ctx, s, ctx.key, t)]})


@model('Result::unwrap', 'Result::expect')
def m_runwrap(e, ctx, args, st):
    e.site(ctx.fr, ctx.t, ctx.key)
    t = strip(args[0])
    return on(e, ctx, st, t, {'Ok': lambda p, s: R(p, s), 'Err': lambda p, s: [e.do_panic(ctx, s, ctx.key, t)]})


@model('Result::unwrap_err', 'Result::expect_err')
def m_runwrap_err(e, ctx, args, st):
    e.site(ctx.fr, ctx.t, ctx.key)
    t = strip(args[0])
    return on(e, ctx, st, t, {'Err': lambda p, s: R(p, s), 'Ok': lambda p, s: [e.do_panic(ctx, s, ctx.key, t)]})


@model('Option::filter')
def m_filter(e, ctx, args, st):
    def f(p, s):
        outs = []
        for k, v, s2 in e.apply(ctx, args[1], [p], s):
            if k != 'ret':
                outs.append((k, v, s2))
                continue
            for b, s3 in e.fork(s2, v):
                outs.append(('ret', SOME(p) if b else NONE, s3))
        return outs
    return on(e, ctx, st, args[0], {'Some': f, 'None': lambda p, s: R(NONE, s)})


@model('Option::as_mut', 'Option::as_deref_mut')
def m_as_mut(e, ctx, args, st):
    a = args[0]
    if a[0] != 'mref':
        return None
    t = strip(st.read(a[1], a[2]))
    return on(e, ctx, st, t, {'Some': lambda p, s: R(SOME(('mref', a[1], a[2] + (('vf', 'Some', '0'),))), s), 'None': lambda p, s: R(NONE, s)})


@model('Option::take')
def m_take(e, ctx, args, st):
    a = args[0]
    if a[0] != 'mref':
        return None
    t = st.read(a[1], a[2])
    st.write(a[1], a[2], NONE)
    return R(t, st)


@model('Option::replace', 'mem::replace')
def m_replace(e, ctx, args, st):
    a = args[0]
    if a[0] != 'mref':
        return None
    t = st.read(a[1], a[2])
    st.write(a[1], a[2], SOME(args[1]) if ctx.key.startswith('Option') else args[1])
    return R(t, st)


@model('mem::take')
def m_mtake(e, ctx, args, st):
    a = args[0]
    if a[0] != 'mref':
        return None
    t = st.read(a[1], a[2])
    st.write(a[1], a[2], default_of(e, ctx.dty))
    return R(t, st)


@model('mem::swap')
def m_swap(e, ctx, args, st):
    a, b = args
    if a[0] != 'mref' or b[0] != 'mref':
        return None
    x, y = st.read(a[1], a[2]), st.read(b[1], b[2])
    st.write(a[1], a[2], y)
    st.write(b[1], b[2], x)
    return R(UNIT, st)


@model('mem::drop', 'mem::forget')
def m_drop(e, ctx, args, st):
    return R(UNIT, st)


@model('Option::get_or_insert_with', 'Option::get_or_insert')
def m_goi(e, ctx, args, st):
    a = args[0]
    if a[0] != 'mref':
        return None
    t = strip(st.read(a[1], a[2]))
    loc = ('mref', a[1], a[2] + (('vf', 'Some', '0'),))

    def none(p, s):
        if ctx.key.endswith('with'):
            outs = []
            for k, v, s2 in e.apply(ctx, args[1], [], s):
                if k == 'ret':
                    s2.write(a[1], a[2], SOME(v))
                    outs.append(('ret', loc, s2))
                else:
                    outs.append((k, v, s2))
            return outs
        s.write(a[1], a[2], SOME(args[1]))
        return R(loc, s)
    return on(e, ctx, st, t, {'Some': lambda p, s: R(loc, s), 'None': none})


@model('Option::insert')
def m_oinsert(e, ctx, args, st):
    a = args[0]
    if a[0] != 'mref':
        return None
    st.write(a[1], a[2], SOME(args[1]))
    return R(('mref', a[1], a[2] + (('vf', 'Some', '0'),)), st)


@model('Option::into_iter', 'Option::iter')
def m_oiter(e, ctx, args, st):
    one = lambda xs, s: R(('iter', ('elems', ('vec', xs)), INT(0)), s)
    return on(e, ctx, st, args[0], {'Some': lambda p, s: one((p,), s), 'None': lambda p, s: one((), s)})


def option_ty(t):
    while t and t[0] == 'ref':
        t = t[-1]
    return bool(t) and t[0] == 'adt' and t[1].endswith('option::Option')


@model('Result::ok')
def m_ok(e, ctx, args, st):
    return on(e, ctx, st, args[0], {'Ok': lambda p, s: R(SOME(p), s), 'Err': lambda p, s: R(NONE, s)})


@model('Result::err')
def m_err(e, ctx, args, st):
    return on(e, ctx, st, args[0], {'Err': lambda p, s: R(SOME(p), s), 'Ok': lambda p, s: R(NONE, s)})


@model('Result::map')
def m_rmap(e, ctx, args, st):
    return on(e, ctx, st, args[0], {'Ok': lambda p, s: app(e, ctx, args[1], [p], s, OK), 'Err': lambda p, s: R(ERR(p), s)})


@model('Result::map_err')
def m_rmap_err(e, ctx, args, st):
    return on(e, ctx, st, args[0], {'Err': lambda p, s: app(e, ctx, args[1], [p], s, ERR), 'Ok': lambda p, s: R(OK(p), s)})


@model('Result::and_then')
def m_rand_then(e, ctx, args, st):
    return on(e, ctx, st, args[0], {'Ok': lambda p, s: app(e, ctx, args[1], [p], s, IDN), 'Err': lambda p, s: R(ERR(p), s)})


@model('Result::and')
def m_rand(e, ctx, args, st):
    return on(e, ctx, st, args[0], {'Ok': lambda p, s: R(args[1], s), 'Err': lambda p, s: R(ERR(p), s)})


@model('Result::or_else')
def m_ror_else(e, ctx, args, st):
    return on(e, ctx, st, args[0], {'Ok': lambda p, s: R(OK(p), s), 'Err': lambda p, s: app(e, ctx, args[1], [p], s, IDN)})


@model('Result::or')
def m_ror(e, ctx, args, st):
    return on(e, ctx, st, args[0], {'Ok': lambda p, s: R(OK(p), s), 'Err': lambda p, s: R(args[1], s)})


@model('Result::unwrap_or')
def m_runwrap_or(e, ctx, args, st):
    return on(e, ctx, st, args[0], {'Ok': lambda p, s: R(p, s), 'Err': lambda p, s: R(args[1], s)})


@model('Result::unwrap_or_else')
def m_runwrap_or_else(e, ctx, args, st):
    return on(e, ctx, st, args[0], {'Ok': lambda p, s: R(p, s), 'Err': lambda p, s: app(e, ctx, args[1], [p], s, IDN)})


@model('Result::unwrap_or_default')
def m_runwrap_or_default(e, ctx, args, st):
    return on(e, ctx, st, args[0], {'Ok': lambda p, s: R(p, s), 'Err': lambda p, s: R(default_of(e, ctx.dty), s)})


@model('Result::map_or')
def m_rmap_or(e, ctx, args, st):
    return on(e, ctx, st, args[0], {'Ok': lambda p, s: app(e, ctx, args[2], [p], s, IDN), 'Err': lambda p, s: R(args[1], s)})


@model('Result::map_or_else')
def m_rmap_or_else(e, ctx, args, st):
    return on(e, ctx, st, args[0], {'Ok': lambda p, s: app(e, ctx, args[2], [p], s, IDN), 'Err': lambda p, s: app(e, ctx, args[1], [p], s, IDN)})


@model('Result::is_ok_and')
def m_is_ok_and(e, ctx, args, st):
    return on(e, ctx, st, args[0], {'Ok': lambda p, s: app(e, ctx, args[1], [p], s, IDN), 'Err': lambda p, s: R(FALSE, s)})


@model('Result::is_err_and')
def m_is_err_and(e, ctx, args, st):
    return on(e, ctx, st, args[0], {'Err': lambda p, s: app(e, ctx, args[1], [p], s, IDN), 'Ok': lambda p, s: R(FALSE, s)})


@model('Result::as_mut')
def m_ras_mut(e, ctx, args, st):
    a = args[0]
    if a[0] != 'mref':
        return None
    t = strip(st.read(a[1], a[2]))
    w = lambda v, c: (lambda p, s: R(c(('mref', a[1], a[2] + (('vf', v, '0'),))), s))
    return on(e, ctx, st, t, {'Ok': w('Ok', OK), 'Err': w('Err', ERR)})


# the ? operator
@model('Try::branch')
def m_branch(e, ctx, args, st):
    CF = lambda v: (lambda x: adt('ControlFlow', v, (('0', x),)))
    ty = ctx.fargs[0] if ctx.fargs else None
    t = strip(args[0])
    opt = (ty and ty[0] == 'adt' and ty[1].endswith('Option')) or (t[0] == 'adt' and t[1] == 'Option')
    if opt:
        return on(e, ctx, st, t, {'Some': lambda p, s: R(CF('Continue')(p), s), 'None': lambda p, s: R(CF('Break')(NONE), s)})
    return on(e, ctx, st, t, {'Ok': lambda p, s: R(CF('Continue')(p), s), 'Err': lambda p, s: R(CF('Break')(ERR(p)), s)})


@model('FromResidual::from_residual')
def m_residual(e, ctx, args, st):
    t = strip(args[0])
    if t[0] == 'adt' and t[2] == 'Err':
        x = t[3][0][1]
        # Result<T, F>: F: From<E>
        try:
            dst = ctx.fargs[0][2][1]
            src = ctx.fargs[1][2][1]
        except Exception:
            return R(t, st)
        if dst != src and dst[0] == 'adt':
            m = e.p.trait_method('std::convert::From', 'from', dst, [src])
            if m and m[0]:
                return app(e, ctx, None, [], st, ERR) if False else [
                    (k, ERR(v) if k == 'ret' else v, s) for k, v, s in e.enter(ctx, m[0], [x], m[1], st, 'From::from')]
        return R(t, st)
    return R(t, st)


# ---------------------------------------------------------------- strings
@model('str::len', 'String::len', 'Vec::len', 'slice::len', 'BTreeMap::len', 'HashSet::len', 'BTreeSet::len', 'HashMap::len')
def m_len(e, ctx, args, st):
    return R(LEN(val(e, st, args[0])), st)


@model('str::is_empty', 'String::is_empty', 'Vec::is_empty', 'slice::is_empty', 'BTreeMap::is_empty', 'HashSet::is_empty', 'BTreeSet::is_empty')
def m_is_empty(e, ctx, args, st):
    return R(eq0(LEN(val(e, st, args[0]))), st)


@model('str::as_bytes', 'String::as_bytes', 'str::bytes_', 'String::into_bytes')
def m_bytes(e, ctx, args, st):
    return R(('bytes', val(e, st, args[0])), st)


@model('str::chars')
def m_chars(e, ctx, args, st):
    return R(('iter', ('chars', val(e, st, args[0])), INT(0)), st)


@model('str::char_indices')
def m_char_indices(e, ctx, args, st):
    return R(('iter', ('cidx', val(e, st, args[0])), INT(0)), st)


@model('str::bytes')
def m_sbytes(e, ctx, args, st):
    return R(('iter', ('elems', ('bytes', val(e, st, args[0]))), INT(0)), st)


@model('str::starts_with')
def m_starts(e, ctx, args, st):
    ty = ctx.fargs[0] if ctx.fargs else None
    p = val(e, st, args[1])
    s = val(e, st, args[0])
    p = char_text(p)
    if p[0] in ('clo', 'int', 'fn'):
        return R(('call', 'str::starts_with', s, p), st)
    return R(AT(s, INT(0), p), st)


@model('str::contains', 'str::ends_with')
def m_contains_str(e, ctx, args, st):
    p = val(e, st, args[1])
    if ctx.key == 'str::contains' and p[0] not in ('clo', 'fn'):
        return [('ret', TRUE if v == 'Some' else FALSE, s2) for v, s2 in e.split(st, ('find', val(e, st, args[0]), p), OV)]
    s = val(e, st, args[0])
    t = ('call', ctx.key, s, p)
    n = pat_len(p)
    if ctx.key == 'str::ends_with' and n is not None:
        r = []
        for b, s2 in e.fork(st, t):
            if b:
                s2.facts.background(LE(n, LEN(s)))
                e.add_bnd(s2, s, sub(LEN(s), n))
            r.append(('ret', TRUE if b else FALSE, s2))
        return r
    return R(t, st)


def char_text(p):
    """a constant character as the text it is"""
    return ('str', chr(p[1])) if p[0] == 'int' and 0 <= p[1] < 0xD800 else p


def pat_len(p):
    """bytes a text or character takes"""
    if p[0] == 'int':
        return INT(len(chr(p[1]).encode('utf-8', 'surrogatepass'))) if 0 <= p[1] < 0x110000 else None
    return None if p[0] in ('clo', 'fn', 'call', 'opq', 'vec') else LEN(p)


def found(e, s2, s, i, p):
    """what is known about a position at which a text or a character was found"""
    n = pat_len(p)
    s2.facts.background(LE(add(i, n) if n is not None else i, LEN(s)))
    if n is not None:
        e.add_bnd(s2, s, add(i, n))
    if p[0] not in ('int', 'clo', 'fn'):
        s2.facts.background(AT(s, i, p))


@model('str::strip_prefix')
def m_strip_prefix(e, ctx, args, st):
    s, p = val(e, st, args[0]), char_text(val(e, st, args[1]))
    if p[0] in ('clo', 'int', 'fn'):
        return None
    outs = []
    for b, s2 in e.fork(st, AT(s, INT(0), p)):
        outs.append(('ret', SOME(SLICE(s, LEN(p), LEN(s))) if b else NONE, s2))
    return outs


@model('str::find')
def m_find(e, ctx, args, st):
    s, p = val(e, st, args[0]), val(e, st, args[1])
    if p[0] == 'clo':
        # first character satisfying the predicate
        return first_char_where(e, ctx, st, s, p)
    t = ('find', s, p)
    outs = []
    for v, s2 in e.split(st, t, OV):
        if v == 'Some':
            i = ('bpos', s, ('find', p))
            found(e, s2, s, i, p)
            outs.append(('ret', SOME(i), s2))
        else:
            outs.append(('ret', NONE, s2))
    return outs


def first_char_where(e, ctx, st, s, p):
    it = ('iter', ('cidx', s), INT(0))

    def step(s2, x, k):
        r = []
        for kk, v, s3 in e.apply(ctx, p, [get(x, ('f', '1'))], s2):
            if kk != 'ret':
                r.append((kk, v, s3))
                continue
            for b, s4 in e.fork(s3, v):
                r.append(('stop', SOME(get(x, ('f', '0'))), s4) if b else ('back', None, s4))
        return r
    return iter_loop(e, ctx, st, it, step, lambda s2: NONE)


@model('str::rfind')
def m_rfind(e, ctx, args, st):
    s, p = val(e, st, args[0]), val(e, st, args[1])
    t = ('rfind', s, p)
    outs = []
    for v, s2 in e.split(st, t, OV):
        if v == 'Some':
            i = ('bpos', s, ('rfind', p))
            found(e, s2, s, i, p)
            outs.append(('ret', SOME(i), s2))
        else:
            outs.append(('ret', NONE, s2))
    return outs


@model('str::is_char_boundary')
def m_isb(e, ctx, args, st):
    s, i = val(e, st, args[0]), args[1]
    if s[0] == 'slice':
        return R(('bnd', s[1], add(s[2], i)), st)
    return R(('bnd', s, i), st)


@model('char::len_utf8')
def m_lenutf8(e, ctx, args, st):
    c = e.deref(st, args[0])
    if c[0] == 'int':
        return R(INT(len(chr(c[1]).encode())), st)
    return R(('lenutf8', c), st)


@model('str::split_at')
def m_split_at(e, ctx, args, st):
    s, i = val(e, st, args[0]), args[1]
    return slice_checked(e, ctx, st, s, [(INT(0), i), (i, LEN(s))], lambda xs: ('tup', tuple(xs)))


def slice_checked(e, ctx, st, s, ranges, mk):
    """s[a..b] for each range; panics unless every bound is provably fine"""
    e.site(ctx.fr, ctx.t, 'slice')
    outs = []
    conds = []
    isbytes = s[0] in ('bytes', 'vec') or (s[0] == 'slice' and s[1][0] == 'bytes') or getattr(ctx, 'key', '') == 'bytes'
    for a, b in ranges:
        conds.append(LE(a, b))
        conds.append(LE(b, LEN(s)))
        if not isbytes:
            conds.append(('bnd', s, a))
            conds.append(('bnd', s, b))
    bad = [c for c in conds if st.facts.decide(c) is not True]
    # a proven character boundary lies inside the text
    inside = [LE(c[2], LEN(s)) for c in conds if c[0] == 'bnd' and c not in bad]
    bad = [c for c in bad if c not in inside]
    if bad:
        s2 = st.copy()
        feasible = True
        if feasible:
            outs.append(e.do_panic(ctx, s2, 'slice', ('slice', s, tuple(ranges), tuple(bad))))
    for c in bad:
        if c[0] == 'bnd':
            e.add_bnd(st, c[1], c[2])
        elif not st.assume(c, True):
            return outs
    outs.append(('ret', mk([SLICE(s, a, b) for a, b in ranges]), st))
    return outs


def range_of(r, s):
    n = r[1].split('::')[-1] if r[0] == 'adt' else None
    f = dict(r[3]) if r[0] == 'adt' else {}
    if n == 'RangeFull':
        return INT(0), LEN(s)
    if n == 'RangeTo':
        return INT(0), f['end']
    if n == 'RangeFrom':
        return f['start'], LEN(s)
    if n == 'Range':
        return f['start'], f['end']
    if n == 'RangeInclusive':
        return f['start'], add(f['end'], INT(1))
    if n == 'RangeToInclusive':
        return INT(0), add(f['end'], INT(1))
    return None


@model('Index::index')
def m_index(e, ctx, args, st):
    s, i = val(e, st, args[0]), args[1]
    sty = ctx.fargs[0] if ctx.fargs else ['?']
    r = range_of(i, s)
    if r:
        if sty[0] == 'str' or (sty[0] == 'adt' and sty[1].endswith('String')):
            return slice_checked(e, ctx, st, s, [r], lambda xs: xs[0])
        ctx.key = 'bytes'
        return slice_checked(e, ctx, st, s, [r], lambda xs: xs[0])
    if sty[0] == 'adt' and sty[1].split('::')[-1] in ('Vec',) or sty[0] in ('slice', 'array'):
        return idx_checked(e, ctx, st, s, i)
    e.site(ctx.fr, ctx.t, 'index')
    if sty[0] == 'adt' and sty[1].split('::')[-1] in ('BTreeMap', 'HashMap'):
        t = ('mget', s, val(e, st, i))
        return on(e, ctx, st, t, {'Some': lambda p, s3: R(p, s3), 'None': lambda p, s3: [e.do_panic(ctx, s3, 'index', t)]})
    s2 = st.copy()
    return [e.do_panic(ctx, s2, 'index', ('idx', s, i)), ('ret', get(s, ('idx', i)), st)]


def idx_checked(e, ctx, st, s, i, wrap=None):
    e.site(ctx.fr, ctx.t, 'index')
    outs = []
    for b, s2 in e.fork(st, LT(i, LEN(s))):
        if b:
            outs.append(('ret', wrap or get(s, ('idx', i)), s2))
        else:
            outs.append(e.do_panic(ctx, s2, 'index', ('idx', s, i)))
    return outs


@model('IndexMut::index_mut')
def m_index_mut(e, ctx, args, st):
    a = args[0]
    if a[0] != 'mref':
        return None
    s = strip(st.read(a[1], a[2]))
    if range_of(args[1], s):
        return None
    return idx_checked(e, ctx, st, s, args[1], ('mref', a[1], a[2] + (('idx', args[1]),)))


@model('str::get')
def m_strget(e, ctx, args, st):
    s = val(e, st, args[0])
    r = range_of(args[1], s)
    if not r:
        return None
    a, b = r
    c = conj([LE(a, b), LE(b, LEN(s))] + [('bnd', s, x) for x in (a, b) if st.facts.decide(('bnd', s, x)) is not True])
    outs = []
    for ok, s2 in e.fork(st, c):
        outs.append(('ret', SOME(SLICE(s, a, b)) if ok else NONE, s2))
    return outs


@model('str::replace')
def m_strreplace(e, ctx, args, st):
    return R(('replace', val(e, st, args[0]), val(e, st, args[1]), val(e, st, args[2])), st)


@model('str::replacen')
def m_strreplacen(e, ctx, args, st):
    return R(('replacen',) + tuple(val(e, st, a) for a in args), st)


@model('String::new')
def m_snew(e, ctx, args, st):
    return R(('str', ''), st)


@model('String::push_str')
def m_push_str(e, ctx, args, st):
    a = args[0]
    if a[0] != 'mref':
        return None
    st.write(a[1], a[2], CAT(strip(st.read(a[1], a[2])), val(e, st, args[1])))
    return R(UNIT, st)


@model('String::push')
def m_push_char(e, ctx, args, st):
    a = args[0]
    c = val(e, st, args[1])
    if a[0] != 'mref':
        return None
    c = ('str', chr(c[1])) if c[0] == 'int' else ('charstr', c)
    st.write(a[1], a[2], CAT(strip(st.read(a[1], a[2])), c))
    return R(UNIT, st)


@model('String::with_capacity')
def m_snewc(e, ctx, args, st):
    return R(('str', ''), st)


@model('str::trim_left_matches', 'str::trim_start_matches')
def m_trim(e, ctx, args, st):
    s, p = val(e, st, args[0]), val(e, st, args[1])
    if p[0] != 'clo':
        return m_trim_ws(e, ctx, args, st)
    it = ('iter', ('cidx', s), INT(0))

    def step(s2, x, k):
        r = []
        for kk, v, s3 in e.apply(ctx, p, [get(x, ('f', '1'))], s2):
            if kk != 'ret':
                r.append((kk, v, s3))
                continue
            for b, s4 in e.fork(s3, v):
                r.append(('back', None, s4) if b else ('stop', SLICE(s, get(x, ('f', '0')), LEN(s)), s4))
        return r
    return iter_loop(e, ctx, st, it, step, lambda s2: SLICE(s, LEN(s), LEN(s)))


@model('str::trim', 'str::trim_left', 'str::trim_start', 'str::trim_right', 'str::trim_end', 'str::trim_right_matches', 'str::trim_end_matches',
       'str::trim_matches')
def m_trim_ws(e, ctx, args, st):
    s = val(e, st, args[0])
    tag = (ctx.key,) + tuple(val(e, st, a) for a in args[1:])
    a, b = ('bpos', s, ('ts',) + tag), ('bpos', s, ('te',) + tag)
    n = ctx.key.split('::')[1]
    if n in ('trim_left', 'trim_start', 'trim_left_matches', 'trim_start_matches'):
        b = LEN(s)
    elif n not in ('trim', 'trim_matches'):
        a = INT(0)
    st.facts.background(LE(a, b))
    st.facts.background(LE(b, LEN(s)))
    return R(SLICE(s, a, b), st)


# ---------------------------------------------------------------- comparisons
@model('PartialEq::eq')
def m_eq(e, ctx, args, st):
    a, b = val(e, st, args[0]), val(e, st, args[1])
    ty = ctx.fargs[0] if ctx.fargs else ['?']
    return R(EQ(a, b, ty[0] in ('int', 'char')), st)


@model('PartialEq::ne')
def m_ne(e, ctx, args, st):
    a, b = val(e, st, args[0]), val(e, st, args[1])
    ty = ctx.fargs[0] if ctx.fargs else ['?']
    return R(NOT(EQ(a, b, ty[0] in ('int', 'char'))), st)


def is_log(ctx):
    return any(a[0] == 'adt' and a[1].startswith('log::') for a in ctx.fargs)


@model('PartialOrd::le', 'PartialOrd::lt', 'PartialOrd::ge', 'PartialOrd::gt')
def m_cmpop(e, ctx, args, st):
    if is_log(ctx):
        return R(TRUE, st)        # logging is always on: its arguments are analysed too
    a, b = val(e, st, args[0]), val(e, st, args[1])
    ty = ctx.fargs[0] if ctx.fargs else ['?']
    op = ctx.key.split('::')[1]
    if ty[0] in ('int', 'char'):
        return R({'le': LE, 'lt': LT, 'ge': lambda x, y: LE(y, x), 'gt': lambda x, y: LT(y, x)}[op](a, b), st)
    # orders that agree with the total one
    if ty[0] == 'str' or ty[0] == 'adt' and (ty[1].endswith('::String') or ty[1].endswith('Option') and ty[2] and ty[2][0][0] in ('int', 'char')):
        t = CMP(a, b)
        return R({'lt': IS(t, 'Less'), 'ge': NOT(IS(t, 'Less')), 'gt': IS(t, 'Greater'), 'le': NOT(IS(t, 'Greater'))}[op], st)
    return R(('call', ctx.key, a, b), st)


@model('Ord::cmp', 'PartialOrd::partial_cmp')
def m_cmp(e, ctx, args, st):
    a, b = val(e, st, args[0]), val(e, st, args[1])
    t = CMP(a, b)
    wrap = SOME if ctx.key.startswith('Partial') else (lambda x: x)
    if t[0] == 'cmp' and ctx.fargs and ctx.fargs[0][0] == 'int':
        outs = []
        for v, s2 in e.split(st, t, ('Less', 'Equal', 'Greater')):
            rel = {'Less': LT(a, b), 'Equal': eq0(sub(a, b)), 'Greater': LT(b, a)}[v]
            if s2.facts.decide(rel) is not False:
                s2.facts.background(rel)
                outs.append(('ret', wrap(t), s2))
        return outs
    return R(wrap(t), st)


ORD = lambda v: adt('Ordering', v, ())


def CMP(a, b):
    if a == b:
        return ORD('Equal')
    if a[0] == 'adt' and b[0] == 'adt' and a[1] == b[1] == 'Option':
        if a[2] == 'Some' and b[2] == 'Some':
            return CMP(a[3][0][1], b[3][0][1])
        return ORD('Less' if a[2] == 'None' else 'Greater')
    if a[0] == 'int' and b[0] == 'int':
        return ORD('Less' if a[1] < b[1] else 'Greater' if a[1] > b[1] else 'Equal')
    return ('cmp', a, b)


@model('Ordering::reverse')
def m_rev(e, ctx, args, st):
    t = args[0]
    if t[0] == 'cmp':
        return R(('cmp', t[2], t[1]), st)
    return None


@model('Ordering::is_eq')
def m_iseq(e, ctx, args, st):
    return R(IS(args[0], 'Equal'), st)


@model('Ordering::then', 'Ordering::then_with')
def m_then(e, ctx, args, st):
    return R(('call', ctx.key, args[0], args[1]), st)


@model('cmp::min', 'Ord::min')
def m_min(e, ctx, args, st):
    a, b = args
    t = ('min',) + tuple(sorted((a, b), key=repr))
    st.facts.background(LE(t, a))
    st.facts.background(LE(t, b))
    return R(t, st)


@model('cmp::max', 'Ord::max')
def m_max(e, ctx, args, st):
    a, b = args
    if ctx.fargs and ctx.fargs[0][0] == 'int':
        return [('ret', b if le else a, s2) for le, s2 in e.fork(st, LE(a, b))]
    t = ('max',) + tuple(sorted((a, b), key=repr))
    st.facts.background(LE(a, t))
    st.facts.background(LE(b, t))
    return R(t, st)


@model('usize::saturating_sub')
def m_satsub(e, ctx, args, st):
    a, b = args
    outs = []
    for ok, s2 in e.fork(st, LE(b, a)):
        outs.append(('ret', sub(a, b) if ok else INT(0), s2))
    return outs


@model('usize::checked_sub')
def m_chksub(e, ctx, args, st):
    a, b = args
    outs = []
    for ok, s2 in e.fork(st, LE(b, a)):
        outs.append(('ret', SOME(sub(a, b)) if ok else NONE, s2))
    return outs


@model('usize::wrapping_add', 'usize::saturating_add')
def m_wadd(e, ctx, args, st):
    return R(add(args[0], args[1]), st)


@model('usize::checked_add')
def m_cadd(e, ctx, args, st):
    return R(SOME(add(args[0], args[1])), st)


# ---------------------------------------------------------------- Vec / slice
@model('Vec::new', 'Vec::with_capacity')
def m_vnew(e, ctx, args, st):
    return R(('vec', ()), st)


def vpush(v, x):
    if v[0] == 'vec':
        return ('vec', v[1] + (x,))
    return ('push', v, x)


@model('Vec::push', 'VecDeque::push_back')
def m_push(e, ctx, args, st):
    a = args[0]
    if a[0] != 'mref':
        return None
    st.write(a[1], a[2], vpush(strip(st.read(a[1], a[2])), args[1]))
    return R(UNIT, st)


@model('Vec::insert')
def m_vinsert(e, ctx, args, st):
    a = args[0]
    if a[0] != 'mref':
        return None
    e.site(ctx.fr, ctx.t, 'Vec::insert')
    v = strip(st.read(a[1], a[2]))
    outs = []
    for ok, s2 in e.fork(st, LE(args[1], LEN(v))):
        if ok:
            if v[0] == 'vec' and args[1][0] == 'int':
                n = args[1][1]
                s2.write(a[1], a[2], ('vec', v[1][:n] + (args[2],) + v[1][n:]))
            elif s2.facts.decide(LE(LEN(v), args[1])) is True:
                s2.write(a[1], a[2], vpush(v, args[2]))
            else:
                s2.write(a[1], a[2], ('insert', v, args[1], args[2]))
            outs.append(('ret', UNIT, s2))
        else:
            outs.append(e.do_panic(ctx, s2, 'Vec::insert', (v, args[1])))
    return outs


@model('Vec::pop')
def m_pop(e, ctx, args, st):
    a = args[0]
    if a[0] != 'mref':
        return None
    v = strip(st.read(a[1], a[2]))
    outs = []
    for empty, s2 in e.fork(st, eq0(LEN(v))):
        if empty:
            outs.append(('ret', NONE, s2))
        else:
            if v[0] == 'vec':
                x, rest = v[1][-1], ('vec', v[1][:-1])
            elif v[0] == 'push':
                x, rest = v[2], v[1]
            else:
                x, rest = ('last', v), ('front', v)
            s2.write(a[1], a[2], rest)
            outs.append(('ret', SOME(x), s2))
    return outs


@model('Vec::remove', 'Vec::swap_remove')
def m_remove(e, ctx, args, st):
    a = args[0]
    if a[0] != 'mref':
        return None
    e.site(ctx.fr, ctx.t, 'Vec::remove')
    v = strip(st.read(a[1], a[2]))
    outs = []
    for ok, s2 in e.fork(st, LT(args[1], LEN(v))):
        if ok:
            if v[0] == 'vec' and args[1][0] == 'int':
                n = args[1][1]
                x, rest = v[1][n], ('vec', v[1][:n] + v[1][n + 1:])
            else:
                tag = 'remove' if ctx.key == 'Vec::remove' else 'swap_remove'
                x, rest = get(v, ('idx', args[1])), (tag, v, args[1])
            s2.write(a[1], a[2], rest)
            outs.append(('ret', x, s2))
        else:
            outs.append(e.do_panic(ctx, s2, ctx.key, (v, args[1])))
    return outs


@model('Vec::drain')
def m_drain(e, ctx, args, st):
    a = args[0]
    if a[0] != 'mref':
        return None
    v = strip(st.read(a[1], a[2]))
    r = range_of(args[1], v)
    if r is None or sub(r[1], r[0]) != INT(1):
        return None
    outs = []
    for ok, s2 in e.fork(st, LE(r[1], LEN(v))):
        if ok:
            s2.write(a[1], a[2], ('remove', v, r[0]))
            outs.append(('ret', ('iter', ('elems', ('vec', (get(v, ('idx', r[0])),))), INT(0)), s2))
        else:
            outs.append(e.do_panic(ctx, s2, ctx.key, (v, args[1])))
    return outs


@model('Vec::extend_from_slice', 'Extend::extend', 'Vec::append', 'Vec::extend')
def m_extend(e, ctx, args, st):
    a = args[0]
    if a[0] != 'mref':
        return None
    v = strip(st.read(a[1], a[2]))
    if ctx.key == 'Extend::extend' and ctx.fargs and option_ty(ctx.fargs[-1]):
        keyed = ctx.fargs[0][0] == 'adt' and ctx.fargs[0][1].endswith('Map')
        if not keyed and not ctx.fargs[0][1].endswith('::Vec'):
            return None

        def one(p, s):
            p = e.deref(s, p)
            s.write(a[1], a[2], ('minsert', v, get(p, ('f', '0')), get(p, ('f', '1'))) if keyed else vpush(v, p))
            return R(UNIT, s)
        return on(e, ctx, st, args[1], {'Some': one, 'None': lambda p, s: R(UNIT, s)})
    x = val(e, st, args[1])
    if x[0] == 'iter':
        x = collect_src(x)
    if ctx.key == 'Vec::append' and args[1][0] == 'mref':
        st.write(args[1][1], args[1][2], ('vec', ()))
    if v[0] == 'vec' and x[0] == 'vec':
        r = ('vec', v[1] + x[1])
    elif v == ('map', ()) and x[0] == 'collect':
        r = x
    else:
        r = ('extend', v, x)
    st.write(a[1], a[2], r)
    return R(UNIT, st)


@model('String::split_off', 'String::truncate')
def m_strcut(e, ctx, args, st):
    a = args[0]
    if a[0] != 'mref':
        return None
    s, i = strip(st.read(a[1], a[2])), args[1]
    outs = []
    if ctx.key == 'String::truncate':
        # beyond the end: nothing happens
        rest = []
        for inside, s2 in e.fork(st, LE(i, LEN(s))):
            if inside:
                rest.append(s2)
            else:
                outs.append(('ret', UNIT, s2))
    else:
        rest = [st]
    for s2 in rest:
        for k, v, s3 in slice_checked(e, ctx, s2, s, [(INT(0), i), (i, LEN(s))], lambda xs: ('tup', tuple(xs))):
            if k == 'ret':
                s3.write(a[1], a[2], v[1][0])
                v = v[1][1] if ctx.key == 'String::split_off' else UNIT
            outs.append((k, v, s3))
    return outs


@model('slice::split_at')
def m_slice_split_at(e, ctx, args, st):
    s, i = val(e, st, args[0]), args[1]
    ctx.key = 'bytes'
    return slice_checked(e, ctx, st, s, [(INT(0), i), (i, LEN(s))], lambda xs: ('tup', tuple(xs)))


@model('slice::swap')
def m_slice_swap(e, ctx, args, st):
    a = args[0]
    if a[0] != 'mref':
        return None
    s = strip(st.read(a[1], a[2]))
    outs = []
    for k, v, s2 in idx_checked(e, ctx, st, s, args[1], UNIT):
        if k != 'ret':
            outs.append((k, v, s2))
            continue
        for k3, v3, s3 in idx_checked(e, ctx, s2, s, args[2], UNIT):
            if k3 == 'ret':
                s3.write(a[1], a[2], ('sortby', s, ctx.key) + tuple(args[1:]))
            outs.append((k3, v3, s3))
    return outs


@model('Vec::truncate', 'Vec::clear', 'Vec::retain', 'Vec::split_off', 'Vec::dedup', 'Vec::sort_by', 'Vec::sort_by_key',
       'slice::sort_by', 'slice::sort_by_key', 'slice::sort_unstable_by')
def m_vmut(e, ctx, args, st):
    a = args[0]
    if a[0] != 'mref':
        return None
    v = strip(st.read(a[1], a[2]))
    if ctx.key == 'Vec::clear':
        st.write(a[1], a[2], ('vec', ()))
        return R(UNIT, st)
    if 'sort' in ctx.key or 'swap' in ctx.key:
        st.write(a[1], a[2], ('sortby', v, ctx.key) + tuple(args[1:]))
        return R(UNIT, st)
    return None


@model('slice::sort', 'slice::sort_unstable', 'Vec::sort')
def m_sort(e, ctx, args, st):
    a = args[0]
    if a[0] != 'mref':
        return None
    st.write(a[1], a[2], ('sort', strip(st.read(a[1], a[2]))))
    return R(UNIT, st)


@model('slice::reverse', 'Vec::reverse')
def m_reverse(e, ctx, args, st):
    a = args[0]
    if a[0] != 'mref':
        return None
    st.write(a[1], a[2], ('reverse', strip(st.read(a[1], a[2]))))
    return R(UNIT, st)


@model('slice::get', 'Vec::get')
def m_get(e, ctx, args, st):
    v = val(e, st, args[0])
    if range_of(args[1], v):
        return None
    outs = []
    for ok, s2 in e.fork(st, LT(args[1], LEN(v))):
        outs.append(('ret', SOME(get(v, ('idx', args[1]))) if ok else NONE, s2))
    return outs


@model('slice::get_mut', 'Vec::get_mut')
def m_get_mut(e, ctx, args, st):
    a = args[0]
    if a[0] != 'mref':
        return None
    v = strip(st.read(a[1], a[2]))
    if range_of(args[1], v):
        return None
    outs = []
    for ok, s2 in e.fork(st, LT(args[1], LEN(v))):
        outs.append(('ret', SOME(('mref', a[1], a[2] + (('idx', args[1]),))) if ok else NONE, s2))
    return outs


def last_idx(v):
    return sub(LEN(v), INT(1))


@model('slice::first', 'slice::last')
def m_first(e, ctx, args, st):
    v = val(e, st, args[0])
    outs = []
    i = INT(0) if ctx.key.endswith('first') else last_idx(v)
    for empty, s2 in e.fork(st, eq0(LEN(v))):
        outs.append(('ret', NONE if empty else SOME(get(v, ('idx', i))), s2))
    return outs


@model('slice::first_mut', 'slice::last_mut')
def m_first_mut(e, ctx, args, st):
    a = args[0]
    if a[0] != 'mref':
        return None
    v = strip(st.read(a[1], a[2]))
    i = INT(0) if ctx.key.endswith('first_mut') else last_idx(v)
    outs = []
    for empty, s2 in e.fork(st, eq0(LEN(v))):
        outs.append(('ret', NONE if empty else SOME(('mref', a[1], a[2] + (('idx', i),))), s2))
    return outs


@model('slice::contains')
def m_scontains(e, ctx, args, st):
    return R(IN(val(e, st, args[1]), ('elems', val(e, st, args[0]))), st)


def allowed(a, pol, x, y):
    """the orders of x and y that the fact (a, pol) allows, None: the fact is about something else"""
    every = {'Less', 'Equal', 'Greater'}
    r = None
    if a[0] == 'is' and a[1] == ('cmp', x, y):
        r = {a[2]}
    elif a[0] == 'is' and a[1] == ('cmp', y, x):
        r = {{'Less': 'Greater', 'Greater': 'Less'}.get(a[2], a[2])}
    elif a[0] in ('le0', 'eq0', 'eq'):
        for rel, o in ((LT, {'Less'}), (LE, {'Less', 'Equal'}), (lambda p, q: EQ(p, q, True), {'Equal'}), (lambda p, q: EQ(p, q), {'Equal'})):
            if a == rel(x, y):
                r = o
            elif a == rel(y, x):
                r = {{'Less': 'Greater'}.get(z, z) for z in o}
    return None if r is None else r if pol else every - r


def by_cases(rets):
    """the result of a comparator; orders told apart by comparing twice are one comparison"""
    while True:
        cands = []
        for fs, v in rets:
            if v[0] == 'adt' and v[1] == 'Ordering':
                for a, pol in fs:
                    if a[0] == 'is' and a[1][0] == 'cmp':
                        cands += [(a[1][1], a[1][2]), (a[1][2], a[1][1])]
                    elif a[0] in ('le0', 'eq0') and a[1][0] == 'lin' and len(a[1][2]) == 2 and {c for t, c in a[1][2]} == {1, -1}:
                        (t1, _), (t2, _) = a[1][2]
                        if t1[0] not in ('len', 'lv') and t2[0] not in ('len', 'lv'):
                            cands += [(t1, t2), (t2, t1)]
        for x, y in dict.fromkeys(cands):
            groups = {}
            for fs, v in rets:
                rest, can = [], {'Less', 'Equal', 'Greater'}
                for a, pol in fs:
                    r = allowed(a, pol, x, y)
                    if r is None:
                        rest.append((a, pol))
                    else:
                        can &= r
                groups.setdefault(frozenset(rest), []).append((can, v, tuple(rest)))
            new = []
            for g in groups.values():
                told = [c for c, v, r in g if len(c) < 3]
                if told and all(v == ('cmp', x, y) or len(c) == 1 and v == ORD(list(c)[0]) for c, v, r in g if c) and set().union(*[c for c, v, r in g]) == {'Less', 'Equal', 'Greater'}:
                    new.append((g[0][2], ('cmp', x, y)))
                elif told:
                    break
                else:
                    new += [(r, v) for c, v, r in g]
            else:
                if len(new) < len(rets):
                    rets = new
                    break
        else:
            break
    if len(rets) == 1 and not rets[0][0]:
        return rets[0][1]
    return ('cases', tuple(sorted(rets, key=repr)))


@model('slice::binary_search_by')
def m_bsearch(e, ctx, args, st):
    v = val(e, st, args[0])
    probe = ('probe', v)
    base = st.copy()
    n0 = len(base.facts.list)
    outs = e.apply(ctx, args[1], [probe], base)
    rets = [(tuple(s.facts.list[n0:]), x) for k, x, s in outs if k == 'ret']
    res = [(k, x, s) for k, x, s in outs if k == 'panic']
    c = by_cases(rets)
    t = ('bsearch', v, c)
    st.events.append(('bsearch', v, c))
    return res + [('ret', t, st)]


@model('slice::binary_search_by_key')
def m_bsearchk(e, ctx, args, st):
    v = val(e, st, args[0])
    probe = ('probe', v)
    base = st.copy()
    n0 = len(base.facts.list)
    outs = e.apply(ctx, args[2], [probe], base)
    rets = [(tuple(s.facts.list[n0:]), x) for k, x, s in outs if k == 'ret']
    if len(rets) != 1 or rets[0][0]:
        return None
    key = val(e, st, args[1])
    return R(('bsearch', v, CMP(rets[0][1], key)), st)


@model('slice::binary_search')
def m_bsearch0(e, ctx, args, st):
    v = val(e, st, args[0])
    probe = ('probe', v)
    key = val(e, st, args[1])
    ty = ctx.fargs[0] if ctx.fargs else ['?']
    m = e.p.trait_method('std::cmp::Ord', 'cmp', ty) if ty[0] == 'adt' else None
    if m and m[0]:
        base = st.copy()
        n0 = len(base.facts.list)
        outs = e.enter(ctx, m[0], [probe, key], m[1] or {}, base, m[0]['path'])
        rets = [(tuple(s.facts.list[n0:]), x) for k, x, s in outs if k == 'ret']
        c = by_cases(rets)
        return [o for o in outs if o[0] == 'panic'] + [('ret', ('bsearch', v, c), st)]
    return R(('bsearch', v, CMP(probe, key)), st)


# vec![..] lowering
@model('Box::new_uninit')
def m_new_uninit(e, ctx, args, st):
    r = ('box', e.fresh())
    st.store[r] = ('uninitbox',)
    return R(('mref', r, ()), st)


@model('boxed::box_assume_init_into_vec_unsafe')
def m_box_vec(e, ctx, args, st):
    v = e.deref(st, args[0])
    for t in subterms(v):
        if t[0] == 'vec':
            return R(t, st)
    return R(('opq', 'vec!'), st)


@model('vec::from_elem')
def m_from_elem(e, ctx, args, st):
    return None


# ---------------------------------------------------------------- maps and sets
@model('BTreeMap::new', 'HashMap::new', 'BTreeSet::new', 'HashSet::new')
def m_mapnew(e, ctx, args, st):
    return R(('map', ()), st)


@model('BTreeMap::insert', 'HashMap::insert')
def m_minsert(e, ctx, args, st):
    a = args[0]
    if a[0] != 'mref':
        return None
    m = strip(st.read(a[1], a[2]))
    st.write(a[1], a[2], ('minsert', m, e.deref(st, args[1]), e.deref(st, args[2])))
    return R(('mget', m, e.deref(st, args[1])), st)


@model('BTreeMap::entry', 'HashMap::entry')
def m_mentry(e, ctx, args, st):
    if args[0][0] != 'mref':
        return None
    return R(('entry', args[0], e.deref(st, args[1])), st)


@model('Entry::or_insert')
def m_orinsert(e, ctx, args, st):
    en = e.deref(st, args[0])
    if en[0] != 'entry':
        return None
    a, k = en[1], en[2]
    m = strip(st.read(a[1], a[2]))
    r = []
    for b, s2 in e.fork(st, IS(('mget', m, k), 'Some')):
        if not b:
            s2.write(a[1], a[2], ('minsert', m, k, e.deref(s2, args[1])))
        r.append(('ret', ('mref', a[1], a[2] + (('mval', k),)), s2))
    return r


@model('BTreeSet::insert', 'HashSet::insert')
def m_setinsert(e, ctx, args, st):
    a = args[0]
    if a[0] != 'mref':
        return None
    m = strip(st.read(a[1], a[2]))
    x = e.deref(st, args[1])
    st.write(a[1], a[2], ('sinsert', m, x))
    return R(NOT(('in', x, ('elems', m))), st)


@model('HashSet::clear', 'BTreeMap::clear', 'BTreeSet::clear')
def m_mclear(e, ctx, args, st):
    a = args[0]
    if a[0] == 'mref':
        st.write(a[1], a[2], ('map', ()))
    return R(UNIT, st)


@model('BTreeMap::get', 'HashMap::get')
def m_mget(e, ctx, args, st):
    return R(('mget', val(e, st, args[0]), val(e, st, args[1])), st)


@model('BTreeMap::contains_key', 'HashMap::contains_key')
def m_mhas(e, ctx, args, st):
    return R(IS(('mget', val(e, st, args[0]), val(e, st, args[1])), 'Some'), st)


@model('BTreeSet::contains', 'HashSet::contains')
def m_setcontains(e, ctx, args, st):
    s = val(e, st, args[0])
    return R(IN(val(e, st, args[1]), collect_elems(s)), st)


def collect_elems(s):
    """the source whose elements a collection holds"""
    if s[0] == 'collect':
        return s[1]
    return ('elems', s)


# ---------------------------------------------------------------- iterators
def as_iter(t):
    t = strip(t)
    if t[0] == 'iter':
        return t
    if t[0] == 'adt' and t[1].split('::')[-1] in ('Range',):
        f = dict(t[3])
        return ('iter', ('range', f['start'], f['end']), INT(0))
    if t[0] == 'collect':
        return ('iter', t[1], INT(0))
    return ('iter', ('elems', t), INT(0))


@model('IntoIterator::into_iter', 'slice::iter', 'Vec::iter', 'BTreeMap::iter', 'HashSet::iter', 'BTreeSet::iter', 'Vec::into_iter', 'HashMap::iter')
def m_into_iter(e, ctx, args, st):
    a = args[0]
    ty = ctx.fargs[0] if ctx.fargs else ['?']
    if ctx.key == 'IntoIterator::into_iter' and (a[0] == 'mref' or a[0] == 'dyn' and a[2][0] == 'mref'):
        return R(a, st)           # &mut I where I: Iterator
    if ctx.key == 'IntoIterator::into_iter' and option_ty(ty):
        return m_oiter(e, ctx, args, st)
    v = strip(e.deref(st, a))
    if ctx.key == 'IntoIterator::into_iter' and v[0] not in ('iter', 'adt') and ty[0] in ('param', 'proj'):
        return R(('iter', ('elems', v), INT(0)), st)
    return R(as_iter(v), st)


@model('slice::iter_mut', 'Vec::iter_mut')
def m_iter_mut(e, ctx, args, st):
    a = args[0]
    if a[0] != 'mref':
        return None
    return R(('iter', ('elemsmut', a[1], a[2], LEN(strip(st.read(a[1], a[2])))), INT(0)), st)


@model('BTreeMap::keys', 'HashMap::keys')
def m_keys(e, ctx, args, st):
    return R(('iter', ('keys', val(e, st, args[0])), INT(0)), st)


@model('BTreeMap::values', 'HashMap::values')
def m_values(e, ctx, args, st):
    return R(('iter', ('vals', val(e, st, args[0])), INT(0)), st)


def adapter(name, nextra=0):
    def f(e, ctx, args, st):
        it = as_iter(e.deref(st, args[0]))
        src = it[1] if it[2] == INT(0) else ('skip', it[1], it[2])
        return R(('iter', (name, src) + tuple(args[1:]), INT(0)), st)
    return f


for _n in ('map', 'filter', 'filter_map', 'flat_map', 'enumerate', 'rev', 'zip', 'chain', 'skip_while', 'take_while', 'take', 'skip',
           'peekable', 'fuse', 'inspect', 'flatten', 'step_by', 'scan', 'map_while'):
    MODELS['Iterator::' + _n] = adapter(_n)


@model('Iterator::cloned', 'Iterator::copied', 'Iterator::by_ref', 'Iterator::into_iter')
def m_itid(e, ctx, args, st):
    return R(args[0] if ctx.key.endswith('by_ref') else as_iter(e.deref(st, args[0])), st)


MODELS['Iterator::fuse'] = m_itid


@model('str::lines')
def m_lines(e, ctx, args, st):
    return R(('iter', ('lines', val(e, st, args[0])), INT(0)), st)


def before_first(e, s, p, st):
    """split a text at the first occurrence: [(position or None, state)]"""
    outs = []
    for v, s2 in e.split(st, ('find', s, p), OV):
        if v == 'Some':
            i = ('bpos', s, ('find', p))
            found(e, s2, s, i, p)
            outs.append((i, s2))
        else:
            outs.append((None, s2))
    return outs


@model('str::split_once')
def m_split_once(e, ctx, args, st):
    s, p = val(e, st, args[0]), val(e, st, args[1])
    if p[0] in ('clo', 'fn', 'int'):
        return None
    return [('ret', NONE if i is None else SOME(('tup', (SLICE(s, INT(0), i), SLICE(s, add(i, LEN(p)), LEN(s))))), s2) for i, s2 in before_first(e, s, p, st)]


@model('str::split', 'str::split_whitespace', 'str::splitn')
def m_split(e, ctx, args, st):
    if ctx.key == 'str::split' and val(e, st, args[1])[0] not in ('clo', 'fn', 'int'):
        return R(('iter', ('split', val(e, st, args[0]), val(e, st, args[1])), INT(0)), st)
    if ctx.key == 'str::splitn' and val(e, st, args[2])[0] not in ('clo', 'fn', 'int') and args[1][0] == 'int' and args[1][1] > 1:
        return R(('iter', ('split', val(e, st, args[0]), val(e, st, args[2])), INT(0)), st)
    return R(('iter', ('call', ctx.key) + tuple(val(e, st, a) for a in args), INT(0)), st)


@model('Chars::as_str')
def m_chars_as_str(e, ctx, args, st):
    it = as_iter(e.deref(st, args[0]))
    if it[1][0] == 'chars':
        s = it[1][1]
        if it[2] == INT(0):
            return R(s, st)
        off = ('choff', s, it[2])
        e.add_bnd(st, s, off)
        st.facts.background(LE(off, LEN(s)))
        return R(SLICE(s, off, LEN(s)), st)
    return None


def more(src, k):
    """boolean: element k exists"""
    if src[0] == 'elems':
        return LT(k, LEN(src[1])) if src[1][0] != 'opq' else ('more', src, k)
    if src[0] == 'range':
        return LT(add(src[1], k), src[2])
    if src[0] in ('enumerate', 'rev', 'map', 'inspect', 'peekable'):
        return more(src[1], k)
    if src[0] == 'cidx':
        return more(('chars', src[1]), k)
    if src[0] == 'skip':
        return more(src[1], add(k, src[2]))
    if src[0] == 'take':
        return conj([LT(k, src[2]), more(src[1], k)])
    if src[0] == 'zip':
        o = as_iter(src[2])
        return conj([more(src[1], k), more(o[1], add(o[2], k))])
    if src[0] == 'elemsmut':
        return LT(k, src[3])
    if src[0] == 'chars' and src[1][0] == 'str':
        if k[0] == 'int':
            return ('bool', k[1] < len(src[1][1]))
    if src[0] == 'chars' and k == INT(0):
        return NOT(eq0(LEN(src[1])))
    return ('more', src, k)


def elem(e, ctx, src, k, st):
    """-> outs with the value of element k (which exists)"""
    n = src[0]
    if n == 'elems':
        return R(get(src[1], ('idx', k)), st)
    if n == 'rev' and src[1][0] == 'elems':
        v = src[1][1]
        return R(get(v, ('idx', sub(sub(LEN(v), INT(1)), k))), st)
    if n == 'rev' and src[1][0] == 'elemsmut':
        return elem(e, ctx, src[1], sub(sub(src[1][3], INT(1)), k), st)
    if n == 'range':
        return R(add(src[1], k), st)
    if n == 'rev' and src[1][0] == 'range':
        return R(sub(sub(src[1][2], INT(1)), k), st)
    if n == 'cidx':
        s = src[1]
        off = ('choff', s, k) if k != INT(0) else INT(0)
        c = ('elem', ('chars', s), k)
        e.add_bnd(st, s, off)
        st.facts.background(('sync', s, off, c))
        st.facts.background(LE(add(off, ('lenutf8', c)), LEN(s)))
        return R(('tup', (off, c)), st)
    if n == 'chars':
        if src[1][0] == 'str' and k[0] == 'int' and k[1] < len(src[1][1]):
            return R(INT(ord(src[1][1][k[1]])), st)
        return R(('elem', src, k), st)
    if n == 'elemsmut':
        return R(('mref', src[1], src[2] + (('idx', k),)), st)
    if n == 'enumerate':
        outs = []
        for kk, v, s in elem(e, ctx, src[1], k, st):
            outs.append((kk, ('tup', (k, v)) if kk == 'ret' else v, s))
        return outs
    if n in ('map',):
        outs = []
        for kk, v, s in elem(e, ctx, src[1], k, st):
            if kk != 'ret':
                outs.append((kk, v, s))
            else:
                outs += e.apply(ctx, src[2], [v], s)
        return outs
    if n == 'skip':
        return elem(e, ctx, src[1], add(k, src[2]), st)
    if n in ('take', 'peekable', 'inspect'):
        return elem(e, ctx, src[1], k, st)
    if n == 'zip':
        o = as_iter(src[2])
        outs = []
        for kk, v, s in elem(e, ctx, src[1], k, st):
            for k2, v2, s2 in elem(e, ctx, o[1], add(o[2], k), s):
                outs.append(('ret', ('tup', (v, v2)), s2) if kk == 'ret' and k2 == 'ret' else ('panic', v, s))
        return outs
    return R(('elem', src, k), st)


def deep_lazy(src, skips=False):
    """an adapter below decides by a closure whether there is a next element"""
    top = src
    while src[0] in ('map', 'inspect', 'enumerate', 'peekable'):
        src = src[1]
    return src[0] in ('take_while', 'map_while') or skips and src[0] in ('filter', 'filter_map') and plain_below(top)


def plain_below(src):
    """filters whose rounds can be told one by one: nothing counts the elements that pass"""
    n = False
    while src[0] in ('map', 'inspect', 'filter', 'filter_map', 'take_while'):
        n = n or src[0] in ('filter', 'filter_map')
        src = src[1]
    return n and src[0] in ('chars', 'cidx', 'elems', 'elemsmut', 'range', 'rev', 'bytes', 'enumerate', 'zip', 'skip', 'sym') and not has_filter(src)


def walked(src):
    """what a loop over an iterator walks one by one"""
    if plain_below(src):
        s = src
        while s[0] in ('map', 'inspect', 'filter', 'filter_map'):
            s = s[1]
        if s[0] != 'take_while':
            return s
    return src


def has_filter(src):
    return any(isinstance(x, tuple) and x and x[0] in ('filter', 'filter_map', 'skip_while', 'flat_map', 'flatten', 'chain') for x in subterms(src))


def chars_below(src):
    """the string whose characters an iterator walks one by one"""
    while src[0] in ('map', 'inspect', 'enumerate', 'peekable', 'take_while', 'map_while', 'take'):
        src = src[1]
    return src[1] if src[0] in ('chars', 'cidx') else None


def it_next(e, ctx, it, st, skips=False):
    """-> [(kind, option value, new k, state)]; kind 'skip': the round of the loop ends without an element (only if asked for)"""
    src, k = it[1], it[2]
    outs = []
    if skips and src[0] in ('filter', 'filter_map') and plain_below(src):
        for kk, o, k2, s in it_next(e, ctx, ('iter', src[1], k), st, skips):
            if kk != 'ret' or o == NONE:
                outs.append((kk, o, k2, s))
                continue
            x = o[3][0][1]
            for k3, v, s2 in e.apply(ctx, src[2], [x], s):
                if k3 != 'ret':
                    outs.append((k3, v, k2, s2))
                elif src[0] == 'filter':
                    for b, s3 in e.fork(s2, v):
                        outs.append(('ret', SOME(x), k2, s3) if b else ('skip', None, k2, s3))
                else:
                    for var, s3 in e.split(s2, v, OV):
                        outs.append(('ret', SOME(pay(strip(v), 'Some')), k2, s3) if var == 'Some' else ('skip', None, k2, s3))
        return outs
    if src[0] == 'split' and k == INT(0):
        return [('ret', SOME(src[1] if i is None else SLICE(src[1], INT(0), i)), INT(1), s2) for i, s2 in before_first(e, src[1], src[2], st)]
    if src[0] in ('filter', 'filter_map', 'take_while', 'flat_map', 'chain', 'skip_while', 'flatten', 'scan', 'step_by', 'map_while'):
        if src[0] == 'take_while':
            for kk, o, k2, s in it_next(e, ctx, ('iter', src[1], k), st, skips):
                if kk != 'ret' or o == NONE:
                    outs.append((kk, o, k2, s))
                    continue
                x = o[3][0][1]
                for k3, v, s2 in e.apply(ctx, src[2], [x], s):
                    if k3 != 'ret':
                        outs.append((k3, v, k2, s2))
                        continue
                    for b, s3 in e.fork(s2, v):
                        outs.append(('ret', SOME(x) if b else NONE, k2, s3))
            return outs
        if src[0] == 'map_while':
            for kk, o, k2, s in it_next(e, ctx, ('iter', src[1], k), st, skips):
                if kk != 'ret' or o == NONE:
                    outs.append((kk, o, k2, s))
                else:
                    outs += [(k3, v, k2, s2) for k3, v, s2 in e.apply(ctx, src[2], [o[3][0][1]], s)]
            return outs
        el = ('elem', src, k)
        for b, s in e.fork(st, ('more', src, k)):
            if b:
                if src[0] == 'filter':
                    inner = ('elem', src, k)
                    for k3, v, s2 in e.apply(ctx, src[2], [inner], s):
                        if k3 == 'ret':
                            if s2.assume(v, True):
                                outs.append(('ret', SOME(inner), add(k, INT(1)), s2))
                        else:
                            outs.append((k3, v, k, s2))
                else:
                    outs.append(('ret', SOME(el), add(k, INT(1)), s))
            else:
                outs.append(('ret', NONE, k, s))
        return outs
    if src[0] in ('map', 'inspect', 'enumerate', 'peekable') and deep_lazy(src[1], skips):
        for kk, o, k2, s in it_next(e, ctx, ('iter', src[1], k), st, skips):
            if kk != 'ret' or o == NONE:
                outs.append((kk, o, k2, s))
            elif src[0] == 'map':
                outs += [(k3, SOME(v) if k3 == 'ret' else v, k2, s2) for k3, v, s2 in e.apply(ctx, src[2], [o[3][0][1]], s)]
            elif src[0] == 'enumerate':
                outs.append(('ret', SOME(('tup', (k, o[3][0][1]))), k2, s))
            else:
                outs.append((kk, o, k2, s))
        return outs
    for b, s in e.fork(st, more(src, k)):
        if b:
            for kk, v, s2 in elem(e, ctx, src, k, s):
                outs.append((kk, SOME(v) if kk == 'ret' else v, add(k, INT(1)), s2))
        else:
            outs.append(('ret', NONE, k, s))
    return outs


@model('Iterator::next')
def m_next(e, ctx, args, st):
    a = args[0]
    if a[0] == 'dyn':
        a = a[2]
    if a[0] != 'mref':
        return None
    it = st.read(a[1], a[2])
    hop = 0
    while strip(it)[0] == 'mref' and hop < 4:
        a = strip(it)
        it = st.read(a[1], a[2])
        hop += 1
    it = strip(it)
    if it[0] != 'iter':
        it = as_iter(it)
    outs = []
    if it[1][0] in ('filter', 'filter_map') and it[2] == INT(0) and not in_loop(e, ctx):
        # the first element that passes: what find / find_map give
        m = MODELS['Iterator::find' if it[1][0] == 'filter' else 'Iterator::find_map']
        for kk, o, s in m(e, ctx, [('iter', it[1][1], INT(0)), it[1][2]], st):
            if kk == 'ret':
                s.write(a[1], a[2], ('iter', ('opq', 'rest', it[1]), INT(0)))
            outs.append((kk, o, s))
        return outs
    for kk, o, k2, s in it_next(e, ctx, it, st, at_header(e, ctx)):
        if kk in ('ret', 'skip'):
            s.write(a[1], a[2], ('iter', it[1], k2))
        outs.append((kk, o, s))
    return outs


def at_header(e, ctx):
    """the call is all the head of a loop does: a round can start over from there"""
    b = ctx.fr.body
    hs = e.p.loops(b)
    return e.head_of(b, hs, ctx.t) is not None


def in_loop(e, ctx):
    b = ctx.fr.body
    at = {i for i, bl in enumerate(b['blocks']) if bl['t'] is ctx.t}
    return any(at & s for s in e.p.loops(b).values())


@model('Peekable::peek')
def m_peek(e, ctx, args, st):
    it = as_iter(e.deref(st, args[0]))
    return [(kk, o, s) for kk, o, k2, s in it_next(e, ctx, it, st)]


@model('DoubleEndedIterator::next_back')
def m_next_back(e, ctx, args, st):
    return None


def iter_loop(e, ctx, st, it, step, done, skips=True):
    """synthetic `for x in it`; step(state, elem, index) -> [('back'|'stop'|'panic', value, state)]"""
    r = ('it', e.fresh())
    st.store[r] = it

    def body(s):
        outs = []
        cur = s.store[r]
        for kk, o, k2, s2 in it_next(e, ctx, cur, s, skips):
            if kk == 'skip':
                s2.store[r] = ('iter', cur[1], k2)
                outs.append(('back', None, s2))
            elif kk != 'ret':
                outs.append((kk, o, s2))
            elif o == NONE:
                outs.append(('done', None, s2))
            else:
                s2.store[r] = ('iter', cur[1], k2)
                outs += step(s2, o[3][0][1], cur[2])
        return outs
    few = it[1]
    while few[0] in ('filter', 'map', 'filter_map', 'inspect', 'enumerate'):
        few = few[1]
    if few[0] == 'elems' and few[1][0] == 'vec' and len(few[1][1]) <= 1 and it[2] == INT(0):
        outs, todo = [], [st]
        for _ in range(len(few[1][1]) + 1):
            again = [o for s in todo for o in body(s)]
            outs += [o for o in again if o[0] != 'back']
            todo = [o[2] for o in again if o[0] == 'back']
        return after_loop(r, outs, done)
    sp = ctx.t['sp']
    outs, info = e.fix(st, body, '%s (%s:%s)' % (ctx.fr.body['path'], sp[0], sp[1]))
    info.src = walked(it[1]) if skips else it[1]
    return after_loop(r, outs, done)


def after_loop(r, outs, done):
    res = []
    for k, v, s in outs:
        s.store.pop(r, None)
        if k == 'done':
            res.append(('ret', done(s), s))
        elif k == 'stop':
            res.append(('ret', v, s))
        else:
            res.append((k, v, s))
    return res


def pred_loop(on_true, on_false, done, withidx=False, val_of=None):
    def f(e, ctx, args, st):
        a = args[0]
        it = as_iter(e.deref(st, a))

        def step(s, x, k):
            r = []
            for kk, v, s2 in e.apply(ctx, args[1], [x], s):
                if kk != 'ret':
                    r.append((kk, v, s2))
                    continue
                for b, s3 in e.fork(s2, v):
                    act = on_true if b else on_false
                    r.append(('back', None, s3) if act is None else ('stop', act(x, k), s3))
            return r
        return iter_loop(e, ctx, st, it, step, lambda s: done, not withidx)
    return f


MODELS['Iterator::position'] = pred_loop(lambda x, k: SOME(k), None, NONE, True)
MODELS['Iterator::find'] = pred_loop(lambda x, k: SOME(x), None, NONE)
MODELS['Iterator::any'] = pred_loop(lambda x, k: TRUE, None, FALSE)
MODELS['Iterator::all'] = pred_loop(None, lambda x, k: FALSE, TRUE)


@model('Iterator::find_map')
def m_find_map(e, ctx, args, st):
    it = as_iter(e.deref(st, args[0]))

    def step(s, x, k):
        r = []
        for kk, v, s2 in e.apply(ctx, args[1], [x], s):
            if kk != 'ret':
                r.append((kk, v, s2))
                continue
            for var, s3 in e.split(s2, v, OV):
                r.append(('stop', SOME(pay(strip(v), 'Some')), s3) if var == 'Some' else ('back', None, s3))
        return r
    return iter_loop(e, ctx, st, it, step, lambda s: NONE)


@model('Iterator::for_each')
def m_for_each(e, ctx, args, st):
    it = as_iter(e.deref(st, args[0]))

    def step(s, x, k):
        return [('back', None, s2) if kk == 'ret' else (kk, v, s2) for kk, v, s2 in e.apply(ctx, args[1], [x], s)]
    return iter_loop(e, ctx, st, it, step, lambda s: UNIT)


@model('Iterator::try_for_each')
def m_try_for_each(e, ctx, args, st):
    it = as_iter(e.deref(st, args[0]))

    def step(s, x, k):
        r = []
        for kk, v, s2 in e.apply(ctx, args[1], [x], s):
            if kk != 'ret':
                r.append((kk, v, s2))
                continue
            for var, s3 in e.split(s2, v, RV):
                r.append(('back', None, s3) if var == 'Ok' else ('stop', ERR(pay(strip(v), 'Err')), s3))
        return r
    return iter_loop(e, ctx, st, it, step, lambda s: OK(UNIT))


@model('Iterator::fold')
def m_fold(e, ctx, args, st):
    it = as_iter(e.deref(st, args[0]))
    acc = ('acc', e.fresh())
    st.store[acc] = args[1]

    def step(s, x, k):
        r = []
        for kk, v, s2 in e.apply(ctx, args[2], [s.store[acc], x], s):
            if kk == 'ret':
                s2.store[acc] = v
                r.append(('back', None, s2))
            else:
                r.append((kk, v, s2))
        return r
    return iter_loop(e, ctx, st, it, step, lambda s: s.store[acc])


@model('Iterator::sum')
def m_sum(e, ctx, args, st):
    it = as_iter(e.deref(st, args[0]))
    acc = ('acc', e.fresh())
    st.store[acc] = INT(0)

    def step(s, x, k):
        s.store[acc] = add(s.store[acc], x)
        return [('back', None, s)]
    return iter_loop(e, ctx, st, it, step, lambda s: s.store[acc])


@model('Iterator::count')
def m_count(e, ctx, args, st):
    it = as_iter(e.deref(st, args[0]))
    if it[1][0] in ('chars', 'elems') and it[2] == INT(0):
        if it[1][0] == 'elems':
            return R(LEN(it[1][1]), st)
        s = it[1][1]
        t = ('count', it[1])
        # zero characters <=> zero bytes
        d = st.facts.decide(eq0(LEN(s)))
        if d is True:
            return R(INT(0), st)
        st.facts.background(LE(t, LEN(s)))
        return R(t, st)
    acc = ('acc', e.fresh())
    st.store[acc] = INT(0)

    def step(s, x, k):
        s.store[acc] = add(s.store[acc], INT(1))
        return [('back', None, s)]
    return iter_loop(e, ctx, st, it, step, lambda s: s.store[acc])


@model('Iterator::last', 'Iterator::max', 'Iterator::min', 'Iterator::nth')
def m_itlast(e, ctx, args, st):
    it = as_iter(e.deref(st, args[0]))
    if ctx.key == 'Iterator::nth' and it[1][0] in ('chars', 'elems', 'cidx'):
        outs = []
        for kk, o, k2, s in it_next(e, ctx, ('iter', it[1], add(it[2], args[1])), st):
            if kk == 'ret' and args[0][0] == 'mref':
                s.write(args[0][1], args[0][2], ('iter', it[1], k2))
            outs.append((kk, o, s))
        return outs
    return R(('call', ctx.key, it), st)


def collect_src(it):
    """value built by collecting an iterator"""
    src, k = it[1], it[2]
    if k == INT(0) and src[0] == 'elems':
        return src[1]
    if k == INT(0) and src[0] == 'rev' and src[1][0] == 'elems':
        return ('reverse', src[1][1])
    return ('collect', src if k == INT(0) else ('skip', src, k))


@model('Iterator::collect', 'FromIterator::from_iter')
def m_collect(e, ctx, args, st):
    it = as_iter(e.deref(st, args[0]))
    src = it[1]
    # a mapped / filtered iterator with a closure is evaluated as a loop building the collection
    if src[0] in ('map', 'filter', 'filter_map', 'take_while', 'enumerate', 'zip', 'flat_map') and ctx.dty[0] == 'adt' and ctx.dty[1].endswith('Vec') and src[0] not in ('flat_map', 'filter_map'):
        acc = ('acc', e.fresh())
        st.store[acc] = ('vec', ())

        def step(s, x, k):
            s.store[acc] = vpush(s.store[acc], x)
            return [('back', None, s)]
        return iter_loop(e, ctx, st, it, step, lambda s: s.store[acc])
    if ctx.dty[0] == 'adt' and ctx.dty[1].split('::')[-1] in ('BTreeMap', 'HashMap') and src[0] in ('map', 'chain', 'filter'):
        return R(('collect', src), st)
    if ctx.dty[0] == 'adt' and ctx.dty[1].split('::')[-1] in ('Result', 'Option') and src[0] in ('map', 'inspect', 'filter', 'zip', 'enumerate') and ctx.dty[2]:
        # stops at the first error, else the values
        t0 = ctx.dty[2][0]
        good, bad, vs = ('Ok', 'Err', RV) if ctx.dty[1].split('::')[-1] == 'Result' else ('Some', 'None', OV)
        vec = t0[0] == 'adt' and t0[1].split('::')[-1] == 'Vec'
        if vec or t0 == ['tup', []] or t0 == ['tup'] or t0 == ['unit']:
            acc = ('acc', e.fresh())
            st.store[acc] = ('vec', ()) if vec else UNIT

            def rstep(s, x, k):
                r = []
                for var, s2 in e.split(s, x, vs):
                    if var == good:
                        if vec:
                            s2.store[acc] = vpush(s2.store[acc], pay(strip(x), good))
                        r.append(('back', None, s2))
                    else:
                        r.append(('stop', ERR(pay(strip(x), 'Err')) if bad == 'Err' else NONE, s2))
                return r
            return iter_loop(e, ctx, st, it, rstep, lambda s: OK(s.store[acc]) if good == 'Ok' else SOME(s.store[acc]))
    return R(collect_src(it), st)


# ---------------------------------------------------------------- hashing
@model('SipHasher::new', 'DefaultHasher::new')
def m_hnew(e, ctx, args, st):
    return R(('hasher', ()), st)


def own_hash(e, t):
    while t[0] == 'ref':
        t = t[-1]
    if t[0] != 'adt' or t[1] not in e.p.adts:
        return None
    m = e.p.trait_method('std::hash::Hash', 'hash', t)
    return m if m and m[0] else None


@model('Hash::hash', 'Hasher::write', 'Hasher::write_u8', 'Hasher::write_usize', 'Hasher::write_u64', 'Hasher::write_u32', 'Hasher::write_isize',
       'Hash::hash_slice')
def m_hash(e, ctx, args, st):
    ty = ctx.fargs[0] if ctx.fargs else None
    if ctx.key == 'Hash::hash' and ty and ty[0] in ('tuple', 'tup') and any(own_hash(e, t) for t in ty[1]):
        # a tuple is hashed part by part
        v = e.deref(st, args[0])
        sts = [st]
        for i, t in enumerate(ty[1]):
            nxt = []
            for s in sts:
                x = get(v, ('f', str(i)))
                m = own_hash(e, t)
                if m:
                    for kk, o, s2 in e.enter(ctx, m[0], [x, args[1]], m[1], s, 'Hash::hash'):
                        if kk != 'ret':
                            return None
                        nxt.append(s2)
                else:
                    c2 = ctx.fargs
                    ctx.fargs = [t]
                    nxt += [s2 for _, _, s2 in m_hash(e, ctx, [x, args[1]], s)]
                    ctx.fargs = c2
            sts = nxt
        return [('ret', UNIT, s) for s in sts]
    if ctx.key.startswith('Hash::'):
        x, h = args[0], args[1]
    else:
        h, x = args[0], args[1]
    if h[0] == 'dyn':
        h = h[2]
    if h[0] != 'mref':
        return None
    cur = st.read(h[1], h[2])
    hop = 0
    while cur[0] == 'mref' and hop < 4:
        h = cur
        cur = st.read(h[1], h[2])
        hop += 1
    if cur[0] == 'hasher':
        st.write(h[1], h[2], ('hasher', cur[1] + (val(e, st, x),)))
    else:
        st.write(h[1], h[2], ('hashed', cur, val(e, st, x)))
    return R(UNIT, st)


@model('Hasher::finish')
def m_finish(e, ctx, args, st):
    return R(('hash', e.deref(st, args[0])), st)


# ---------------------------------------------------------------- panics
@model('panicking::panic', 'panicking::panic_fmt', 'panicking::unreachable_default_msg', 'rt::begin_panic', 'panicking::panic_display',
       'rt::panic_fmt', 'panicking::panic_explicit', 'panicking::unreachable_display', 'panicking::panic_str_2015', 'std::rt::begin_panic',
       'panicking::begin_panic', 'process::abort', 'process::exit', 'panicking::panic_str_literal', 'panicking::assert_failed',
       'panicking::panic_nounwind')
def m_panic(e, ctx, args, st):
    e.site(ctx.fr, ctx.t, 'panic')
    return [e.do_panic(ctx, st, 'panic', ctx.key)]


# ---------------------------------------------------------------- logging / formatting
@model('log::__log')
def m_log(e, ctx, args, st):
    lvl = args[0]
    st.events.append(('log', lvl, tuple(args[1:])))
    return R(UNIT, st)


@model('log::max_log_level', 'log::__static_max_level')
def m_loglvl(e, ctx, args, st):
    return R(('opq', 'loglevel'), st)


@model('Argument::new_display', 'Argument::new_debug')
def m_arg(e, ctx, args, st):
    return R(('fmtarg', ctx.key[-7:], e.deref(st, args[0])), st)


@model('Arguments::new', 'Arguments::new_v1', 'Arguments::new_const', 'Arguments::from_str')
def m_args(e, ctx, args, st):
    return R(('fmt',) + tuple(e.deref(st, a) for a in args), st)


@model('fmt::format')
def m_format(e, ctx, args, st):
    a = args[0]
    if a[0] == 'fmt' and a[1][0] == 'bytestr' and a[1][1] in ((0xC0,), (0xC0, 0)) and a[2][0] == 'vec' and len(a[2][1]) == 1 and a[2][1][0][:2] == ('fmtarg', 'display'):
        # "{}" alone shows what to_string() gives
        x = a[2][1][0][2]
        return R(('call', 'to_string', x) if strip_dyn(x)[0] == 'hyphenated' else x, st)
    return R(('format', args[0]), st)


@model('Uuid::hyphenated', 'Uuid::to_hyphenated_string')
def m_hyph(e, ctx, args, st):
    return R(('hyphenated', val(e, st, args[0])), st)


@model('Uuid::as_bytes')
def m_uuid_bytes(e, ctx, args, st):
    return R(val(e, st, args[0]), st)


@model('OsStr::to_str')
def m_tostr(e, ctx, args, st):
    return R(('call', 'OsStr::to_str', val(e, st, args[0])), st)


@model('Path::extension')
def m_ext(e, ctx, args, st):
    return R(('call', 'Path::extension', val(e, st, args[0])), st)


@model('FromStr::from_str', 'str::parse')
def m_fromstr(e, ctx, args, st):
    t = ctx.dty
    if t[0] == 'adt' and t[1].split('::')[-1] == 'Result' and len(t) > 2 and t[2] and t[2][0][0] == 'int' and t[2][0][1] != 'usize':
        return R(('call', 'from_str', val(e, st, args[0]), t[2][0][1]), st)
    return R(('call', 'from_str', val(e, st, args[0])), st)


@model('SortedVec::len')
def m_none(e, ctx, args, st):
    return None


@model('char::is_ascii_digit')
def m_isdigit(e, ctx, args, st):
    c = e.deref(st, args[0])
    return R(conj([LE(INT(48), c), LE(c, INT(57))]), st)
