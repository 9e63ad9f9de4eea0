"""compact rendering of terms for reports"""


def pp(t, d=0):
    if not isinstance(t, tuple):
        return str(t)
    if not t:
        return '()'
    if not isinstance(t[0], str):
        return '[' + ', '.join(pp(x) for x in t) + ']'
    k = t[0]
    try:
        if k == 'int':
            return str(t[1])
        if k == 'bool':
            return str(t[1]).lower()
        if k == 'str':
            return repr(t[1])
        if k == 'sym':
            return t[1]
        if k == 'lin':
            s = [] if not t[1] else [str(t[1])]
            for x, c in t[2]:
                s.append(('' if c == 1 else '-' if c == -1 else '%d*' % c) + pp(x))
            return '(' + ' + '.join(s) + ')'
        if k == 'le0':
            from terms import lin_parts, mk_lin
            c, dd = lin_parts(t[1])
            pos = mk_lin(c if c > 0 else 0, {x: v for x, v in dd.items() if v > 0})
            neg = mk_lin(-c if c < 0 else 0, {x: -v for x, v in dd.items() if v < 0})
            return '%s <= %s' % (pp(pos), pp(neg))
        if k == 'eq0':
            return pp(t[1]) + ' == 0'
        if k == 'eq':
            return '%s == %s' % (pp(t[1]), pp(t[2]))
        if k == 'not':
            return '!(' + pp(t[1]) + ')'
        if k == 'is':
            return '%s is %s' % (pp(t[1]), t[2])
        if k == 'fld':
            return pp(t[1]) + '.' + t[2]
        if k == 'pl':
            return '%s<%s>.%s' % (pp(t[1]), t[2], t[3])
        if k == 'idx':
            return '%s[%s]' % (pp(t[1]), pp(t[2]))
        if k == 'len':
            return 'len(' + pp(t[1]) + ')'
        if k == 'slice':
            return '%s[%s..%s]' % (pp(t[1]), pp(t[2]), pp(t[3]))
        if k == 'at':
            return 'occurs(%s in %s at %s)' % (pp(t[3]), pp(t[1]), pp(t[2]))
        if k == 'adt':
            n = t[1].split('::')[-1]
            if t[2]:
                n = n + '::' + t[2] if n not in ('Option', 'Result') else t[2]
            if not t[3]:
                return n
            return n + '{' + ', '.join((f + ': ' if not f.isdigit() else '') + pp(v) for f, v in t[3]) + '}'
        if k == 'tup':
            return '(' + ', '.join(pp(x) for x in t[1]) + ')'
        if k == 'vec':
            return 'vec[' + ', '.join(pp(x) for x in t[1]) + ']'
        if k == 'dyn':
            return 'dyn ' + pp(t[2])
        if k == 'lv':
            return 'L%s.%s' % (t[1], t[2])
        if k == 'elem':
            return 'elem(%s, %s)' % (pp(t[1]), pp(t[2]))
        if k == 'upd':
            return '%s{%s := %s}' % (pp(t[1]), '.'.join(pp(x) for x in t[2][1:]), pp(t[3]))
        if k in ('call', 'rec'):
            n = t[1].split('::')
            return ('' if k == 'call' else 'REC ') + '::'.join(n[-2:]) + '(' + ', '.join(pp(x) for x in t[2:]) + ')'
        if k == 'bsearch':
            return 'binary_search(%s)' % pp(t[1])
        if k == 'mref':
            return '&mut ' + pp(t[1]) + (''.join('.' + pp(x[-1]) for x in t[2]))
        if k == 'clo':
            return 'closure(' + ', '.join(pp(x) for x in t[2]) + ')'
        if k == 'fn':
            return repr(t[1])
        if k == 'and':
            return '(' + ' && '.join(pp(x) for x in t[1:]) + ')'
        if k == 'or':
            return '(' + ' || '.join(pp(x) for x in t[1:]) + ')'
        return k + '(' + ', '.join(pp(x) for x in t[1:]) + ')'
    except Exception:
        return repr(t)
