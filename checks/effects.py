"""Which members of its object a method may write (syntactic, with local reference aliases)."""
from core import walk
CONSTISH = {'begin', 'end', 'find', 'at', 'front', 'back', 'data', 'get', 'value', 'lower_bound', 'upper_bound', 'equal_range', 'rbegin', 'rend', 'operator->', 'operator*', 'operator[]'}
SEQ_INDEX = ('std::vector', 'std::array', 'std::basic_string', 'std::deque')

def base_fields(n, alias):
    """members of *this an lvalue expression reaches into"""
    k = n.get('k')
    if k == 'Member':
        b = (n.get('c') or [None])[0]
        while b and b.get('k') in ('Cast', 'Paren'): b = b['c'][0]
        if b is None or b.get('k') == 'This': return {n['n']}
        if b.get('k') == 'Un' and b.get('op') == '*' and b['c'][0].get('k') == 'This': return {n['n']}
        return base_fields(b, alias)
    if k == 'Ref': return alias.get(n.get('d'), set())
    if k in ('Index', 'Cast', 'Paren', 'Un', 'Op', 'MCall'):
        if k == 'MCall': return base_fields(n['obj'], alias) if n.get('obj') and n.get('n') in CONSTISH else set()
        if k == 'Un' and n.get('op') not in ('*', '&', '++', '--'): return set()
        return base_fields(n['c'][0], alias) if n.get('c') else set()
    if k == 'Cond': return base_fields(n['c'][1], alias) | base_fields(n['c'][2], alias)
    return set()
def is_refptr(t): return '&' in (t or '') or '*' in (t or '') or 'iterator' in (t or '')
def const_target(t): return (t or '').strip().startswith('const ') 

def written(fn):
    """members that may be written by the body of fn"""
    out = {}
    alias = {}
    nodes = list(walk(fn['body'])) if fn.get('body') else []
    for _ in range(3):
        for n in nodes:
            if n.get('k') == 'Var' and is_refptr(n.get('t')) and n.get('c') and n['c'][0]:
                s = base_fields(n['c'][0], alias)
                if s and not const_target(n.get('t')):
                    alias.setdefault(n['d'], set()).update(s)
                    for b in n.get('bind') or []: alias.setdefault(b['d'], set()).update(s)
            if n.get('k') == 'ForRange' and is_refptr(n['var'].get('t')) and not const_target(n['var'].get('t')):
                s = base_fields(n['c'][0], alias)
                if s:
                    alias.setdefault(n['var']['d'], set()).update(s)
                    for b in n['var'].get('bind') or []: alias.setdefault(b['d'], set()).update(s)
    def w(x, line):
        for f in base_fields(x, alias): out.setdefault(f, line)
    for n in nodes:
        k = n.get('k'); l = n.get('l')
        if k == 'Bin' and (n.get('op') == '=' or (n.get('op', '').endswith('=') and n['op'] not in ('==', '!=', '<=', '>='))): w(n['c'][0], l)
        elif k == 'Un' and n.get('op') in ('++', '--', 'pre++', 'post++', 'pre--', 'post--'): w(n['c'][0], l)
        elif k in ('Call', 'Ctor', 'MCall', 'Op'):
            if k == 'Call' and str(n.get('q')) in ('std::begin', 'std::end', 'std::rbegin', 'std::rend', 'std::move', 'std::forward', 'std::addressof', 'std::as_const', 'std::make_unique', 'std::make_shared'): continue
            pm = n.get('pm') or ''
            cs = n.get('c') or []
            if k == 'Op':
                if len(cs) == len(pm) + 1:
                    if not n.get('cm', True) or n.get('op') in ('=', '+=', '-=', '*=', '/=', '++', '--', '<<=', '>>=') or (n.get('op') == '[]' and 'map' in str(n.get('q'))): w(cs[0], l)
                    cs = cs[1:]
            if k == 'MCall' and n.get('obj') and not n.get('cm') and n.get('n') not in CONSTISH: w(n['obj'], l)
            for p, x in zip(pm, cs):
                if p in 'rm': w(x, l)
                elif p == 'p' and x.get('k') == 'Un' and x.get('op') == '&': w(x['c'][0], l)
    return out
