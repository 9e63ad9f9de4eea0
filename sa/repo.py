"""What the analysis knows about this crate: roles of fields, contracts at the cut points."""
import json
import re

import terms
from terms import *
from engine import Program, Engine, Undecided, Budget, FnRef
from models import OV, ORD

PARSER = 'parsers::Parser'
T_TREE = 'matcher::trie::node::SuffixTree'
T_LIT = 'matcher::trie::node::literal::LiteralNode'
T_PAR = 'matcher::trie::node::parser::ParserNode'
A_TAB = 'matcher::suffix_array::impls::SuffixTable'
A_LIT = 'matcher::suffix_array::impls::LiteralE'
A_PAR = 'matcher::suffix_array::impls::ParserE'
PATTERN = 'matcher::pattern::pattern::Pattern'
TMSG = 'matcher::pattern::testmessage::message::TestMessage'
TERR = 'matcher::pattern::testmessage::error::Error'
MRES = 'matcher::result::MatchResult'
PRES = 'parsers::ParseResult'


class Missing(Exception):
    """a public anchor of a property is gone"""


def mentions(ty, what):
    if ty == what or ty == ['adt', what] or ty == ['dyn', what]:
        return True
    return isinstance(ty, list) and (what in ty or any(mentions(x, what) for x in ty if isinstance(x, list)))


class Repo:
    def __init__(self, dump):
        self.p = Program(dump)
        self._roles = {}

    # -------------------------------------------------------- lookup
    def body(self, path, must=True):
        b = self.p.body_named(path)
        if b is None and must:
            raise Missing('function %s' % path)
        return b

    def adt(self, path):
        """an ADT of the crate by its full path or, when it was moved, by its last segment"""
        a = self.p.adts.get(path)
        if a:
            return a
        n = path.split('::')[-1]
        c = [x for q, x in self.p.adts.items() if q.split('::')[-1] == n and ('trie' in q) == ('trie' in path)]
        if len(c) == 1:
            return c[0]
        raise Missing('type %s' % path)

    def impl_methods(self, trait, method):
        """[(self type path, body)] of every implementation of a trait method in the crate"""
        res = []
        for im in self.p.impls:
            if im['trait'] == trait:
                m = self.p.trait_method(trait, method, im['self'])
                if m and m[0]:
                    res.append((im['self'][1] if im['self'][0] == 'adt' else str(im['self']), m[0], im))
        return res

    def impl(self, trait, method, self_path):
        for s, b, im in self.impl_methods(trait, method):
            if s == self_path:
                return b
        raise Missing('%s::%s for %s' % (trait, method, self_path))

    def method(self, self_path, name, args, ret=None):
        """an inherent method by name or, when it was renamed, by its signature (args: predicates on the types after self)"""
        b = self.body('%s::%s' % (self_path, name), must=False)
        if b is not None:
            return b
        c = [x for x in self.p.raw['bodies'] if x.get('implself') == ['adt', self_path, []] and x['kind'] != 'Closure' and x['argc'] == len(args) + 1
             and mentions(x['locals'][1], self_path) and all(f(x['locals'][i + 2]) for i, f in enumerate(args)) and (ret is None or ret(x['locals'][0]))
             and not any(im['trait'] and any(i == x['id'] for n, i in im['methods']) for im in self.p.impls)]
        return c[0] if len(c) == 1 else None

    def fields(self, path):
        return [(f[0], f[1]) for f in self.adt(path)['variants'][0]['fields']]

    def field(self, path, pred, what):
        c = [n for n, t in self.fields(path) if pred(t)]
        if len(c) != 1:
            raise Undecided('the %s field of %s was not recognised' % (what, path))
        return c[0]

    def role(self, path, what):
        k = (path, what)
        if k not in self._roles:
            self._roles[k] = self._role(path, what)
        return self._roles[k]

    def _role(self, path, what):
        isopt = lambda t: t[0] == 'adt' and t[1].endswith('Option')
        preds = {
            'literals': lambda t: mentions(t, T_LIT) or mentions(t, A_LIT),
            'parsers': lambda t: mentions(t, T_PAR) or mentions(t, A_PAR),
            'literal': lambda t: t == ['adt', 'std::string::String', []],
            'pattern': lambda t: mentions(t, PATTERN),
            'node': lambda t: mentions(t, T_TREE) or mentions(t, A_TAB),
            'parser': lambda t: mentions(t, PARSER),
            'flag': lambda t: t == ['bool'],
            'set': lambda t: mentions(t, 'std::collections::BTreeSet') or mentions(t, 'std::collections::HashSet'),
            'array': lambda t: t[0] == 'adt' and t[1].endswith('::Vec'),
            'values': lambda t: mentions(t, 'std::collections::BTreeMap') or mentions(t, 'std::collections::HashMap'),
            'value': lambda t: t == ['ref', False, ['str']],
        }
        return self.field(path, preds[what], what)

    # -------------------------------------------------------- engine configurations
    def engine(self, cut=(), contract=True, steps=150000, opaque=None, inline_clone=False, extra=None):
        """cut: predicate names of functions summarised by a contract verified elsewhere"""
        cut = set(cut)
        terms._contract[0] = self.contract_fld if contract else None
        hooks = {'call': self.on_call, 'enter': self.on_enter}
        if extra:
            hooks['enter'] = lambda *a: (extra(*a) or self.on_enter(*a))
        e = Engine(self.p, opaque=(lambda b, p: b['path'] in cut or (opaque(b, p) if opaque else False)), hooks=hooks,
                   inline_clone=inline_clone)
        e.MAXSTEPS = steps
        e.repo = self
        return e

    def contract_fld(self, t, name):
        """fields of the result of a parser: the value is a prefix of the text (checked on every implementation)"""
        if t[0] == 'pl' and t[2] == 'Some' and t[1][0] == 'call' and t[1][1] == 'Parser::parse':
            try:
                if name == self.role(PRES, 'value'):
                    text = t[1][3]
                    return SLICE(text, INT(0), ('plen', text, t[1]))
            except Exception:
                return None
        return None

    def on_call(self, e, ctx, key, fn, args, st):
        if key == 'Parser::parse' and fn.get('trait') == PARSER:
            recv, text = strip_dyn(e.deref(st, args[0])), strip_dyn(e.deref(st, args[1]))
            t = ('call', 'Parser::parse', recv, text)
            st.facts.background(LE(('plen', text, t), LEN(text)))
            st.events.append(('call', key, (recv, text), t, (ctx.t['sp'][0], ctx.t['sp'][1], ctx.fr.body['path']), ctx.dty, tuple(args)))
            return [('ret', t, st)]
        return None

    def on_enter(self, e, ctx, body, args, st):
        if body['path'] == '<str as utils::common_prefix::CommonPrefix>::common_prefix_len':
            a, b = strip_dyn(e.deref(st, args[0])), strip_dyn(e.deref(st, args[1]))
            c = CPL(a, b)
            for s in (a, b):
                st.facts.background(LE(c, LEN(s)))
                e.add_bnd(st, s, c)
            return [('ret', c, st)]
        return None


def loops_of(st):
    return [ev[1] for ev in st.events if ev[0] == 'loop']
