"""What a condition establishes for the code it guards: facts over syntactically equal, unwritten expressions.
('has', e) e holds a value; ('in', c, k) map c has key k; ('lt', i, c) index i lies inside c; ('type', v, T) variant v holds a T."""
import core
from core import walk
from absint import canon_t, head

def strip(n):
    while isinstance(n, dict) and n.get('k') in ('Cast', 'Paren') and len(n.get('c') or []) == 1: n = n['c'][0]
    return n

def fp(n):
    """fingerprint of an expression without calls other than accessors; None when it may differ between two evaluations"""
    n = strip(n)
    if not isinstance(n, dict): return None
    k = n.get('k')
    if k == 'Ref': return ('v', n.get('d'))
    if k == 'This': return ('this',)
    if k == 'Member':
        c = n.get('c') or []
        b = fp(c[0]) if c else ('this',)
        return None if b is None else ('m', n.get('d'), b)
    if k in ('Int', 'Char', 'Str', 'Bool'): return ('k', str(n.get('v')))
    if k == 'EnumRef': return ('e', n.get('d') or n.get('q'))
    if k == 'Un' and n.get('op') in ('*',) or k == 'Op' and n.get('op') in ('*', '->') and len(n.get('c') or []) == 1:
        b = fp(n['c'][0]); return None if b is None else ('*', b)
    if k == 'Op' and n.get('op') == '[]' or k == 'Index':
        a = [fp(x) for x in n['c']]
        return None if None in a else ('[]',) + tuple(a)
    if k == 'Bin' and n.get('op') in ('+', '-') or k == 'Op' and n.get('op') in ('+', '-'):
        a = [fp(x) for x in n['c']]
        return None if None in a else (n['op'],) + tuple(a)
    if k == 'Ctor' and len(n.get('c') or []) == 1: return fp(n['c'][0])
    return None

def parts(f):
    if isinstance(f, tuple):
        yield f
        for x in f: yield from parts(x)

def is_none(n):
    n = strip(n)
    if n.get('k') == 'Ctor' and n.get('c') and len(n['c']) == 1: n = strip(n['c'][0])
    q = (n.get('q') or n.get('n') or '')
    return q.endswith(('::none', '::nullopt', 'nullopt')) or n.get('k') == 'NullPtr' or head(canon_t(n.get('t') or '')) in ('boost::none_t', 'std::nullopt_t')

def is_opt(t):
    h = head(canon_t(t or '').replace('const ', '').strip())
    return h in ('boost::optional', 'std::optional')

def call(n, *names):
    n = strip(n)
    return n if isinstance(n, dict) and n.get('k') == 'MCall' and (n.get('n') or '') in names else None

def pos(n, vals, d=4):
    """facts when n is true"""
    n = strip(n); out = set()
    if not isinstance(n, dict) or not d: return out
    k = n.get('k'); c = n.get('c') or []
    if k in ('Bin', 'Op') and n.get('op') == '&&': return pos(c[0], vals, d) | pos(c[1], vals, d)
    if k in ('Un', 'Op') and n.get('op') == '!' and len(c) == 1: return neg(c[0], vals, d)
    if k == 'Ref' and n.get('d') in vals: out |= kill(pos(vals[n['d']], vals, d - 1), vals.get('*w'))
    m = call(n, 'operator bool', 'has_value', 'is_initialized')
    if m is not None:
        f = fp(m.get('obj'))
        if f: out.add(('has', f))
        return out
    m = call(n, 'count', 'contains')
    if m is not None and len(m.get('c') or []) == 1:
        a, b = fp(m.get('obj')), fp(m['c'][0])
        if a and b: out.add(('in', a, b))
        return out
    if k == 'Call' and n.get('q') == 'std::holds_alternative' and len(c) == 1:
        f = fp(c[0])
        if f: out.add(('type', f, n.get('u')))
        return out
    op = n.get('op')
    if k in ('Bin', 'Op') and len(c) == 2:
        a, b = c
        if op in ('!=', '>', '<'):
            if op == '<': a, b = b, a
            z = strip(b)
            if op in ('>', '<', '!=') and z.get('k') == 'Int' and str(z.get('v')) == '0': out |= pos(a, vals, d - 1)
            if op == '!=' and strip(a).get('k') == 'Int' and str(strip(a).get('v')) == '0': out |= pos(b, vals, d - 1)
            if op == '!=':
                for x, y in ((a, b), (b, a)):
                    if is_none(y) and fp(x): out.add(('has', fp(x)))
                    g = call(x, 'find')
                    if g is None and strip(x).get('k') == 'Ref' and strip(x).get('d') in vals: g = call(vals[strip(x)['d']], 'find')
                    e = call(y, 'end', 'cend')
                    if g is not None and e is not None and len(g.get('c') or []) == 1 and fp(g.get('obj')) and fp(g.get('obj')) == fp(e.get('obj')) and fp(g['c'][0]):
                        out.add(('in', fp(g['obj']), fp(g['c'][0])))
        if op in ('<', '>', '!='):
            x, y = (c if op != '>' else c[::-1])
            for i, z in ((x, y),) if op != '!=' else ((x, y), (y, x)):
                s = call(z, 'size', 'length')
                if s is not None and fp(i) and fp(s.get('obj')) and (op != '!=' or strip(i).get('k') == 'Ref'): out.add(('lt', fp(i), fp(s['obj'])))
        if op in ('>=', '=='):
            z = strip(b)
            if op == '>=' and z.get('k') == 'Int' and str(z.get('v')) not in ('0',): out |= pos(a, vals, d - 1)
            if op == '==' and z.get('k') == 'Int' and str(z.get('v')) == '1': out |= pos(a, vals, d - 1)
    return out

def neg(n, vals, d=4):
    """facts when n is false"""
    n = strip(n); out = set()
    if not isinstance(n, dict) or not d: return out
    k = n.get('k'); c = n.get('c') or []
    if k in ('Bin', 'Op') and n.get('op') == '||': return neg(c[0], vals, d) | neg(c[1], vals, d)
    if k in ('Un', 'Op') and n.get('op') == '!' and len(c) == 1: return pos(c[0], vals, d)
    if k == 'Ref' and n.get('d') in vals: out |= kill(neg(vals[n['d']], vals, d - 1), vals.get('*w'))
    if k in ('Bin', 'Op') and len(c) == 2 and n.get('op') in ('==', '>=', '<='):
        m = dict(n); m['op'] = {'==': '!=', '>=': '<', '<=': '>'}[n['op']]
        if n['op'] == '==': return pos(m, vals, d)
        s = [call(x, 'size', 'length') for x in c]
        if any(x is not None for x in s): return pos(m, vals, d)
    return out

def leaves(n):
    """control never falls out of the end of n"""
    if not isinstance(n, dict): return False
    k = n.get('k')
    if k in ('Return', 'Throw', 'Break', 'Continue'): return True
    c = n.get('c') or []
    if k == 'Block': return any(leaves(x) for x in c)
    if k == 'If': return len(c) > 2 and c[2] and leaves(c[1]) and leaves(c[2])
    return False

def written(n):
    """fingerprints an expression tree may write; '*' for a call that could write anything reachable"""
    out = set()
    for x in walk(n):
        k = x.get('k'); c = x.get('c') or []
        t = None
        if k == 'Bin' and (x.get('op') or '').endswith('=') and x['op'] not in ('==', '!=', '<=', '>='): t = c[0]
        elif k == 'Un' and x.get('op') in ('++', '--', 'p++', 'p--'): t = c[0]
        elif k == 'Op' and ((x.get('op') or '').endswith('=') and x['op'] not in ('==', '!=', '<=', '>=') or x.get('op') in ('++', '--')): t = c[0]
        elif k == 'MCall' and not x.get('cm') and not (x.get('n') or '') in ('begin', 'end', 'value', 'get', 'at', 'find', 'front', 'back', 'data', 'lower_bound', 'upper_bound', 'c_str'): t = x.get('obj')
        if t is not None:
            f = fp(t); out.add(f if f else None)
            while isinstance(strip(t), dict) and strip(t).get('c') and fp(t) is None:
                t = strip(t)['c'][0]
                if fp(t): out.add(fp(t))
    out.discard(None)
    return out

def kill(known, w):
    """facts that survive writes to w"""
    if not w: return known
    return {f for f in known if not any(p in w for e in f[1:] for p in parts(e))}
