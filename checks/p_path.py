"""P05: reset brings state back to where construction left it."""
from absint import *
from loops import SigInterp, subterms
from core import AnalysisError
import effects

def ctors_of(F, cls):
    """constructors other than copying and moving ones"""
    out = []
    for f in F.fn.values():
        if f.get('cls') != cls or f.get('kind') != 'ctor' or f.get('def') or f.get('del'): continue
        ps = f.get('params') or []
        if len(ps) == 1 and canon_t(ps[0]['t']) == canon_t(cls): continue
        if f.get('body') is not None: out.append(f)
    return out
def methods_of(F, cls):
    return [f for f in F.fn.values() if f.get('cls') == cls and f.get('kind') == 'fn' and f.get('body') and not f.get('def')]
def dirty(name): return sym('DIRTY', name)
def is_dirty(v): return any(x.op == 's' and x.a and x.a[0] == 'DIRTY' for x in subterms(v))

class RI(SigInterp):
    """a member or parameter that was moved from holds an unknown value"""
    ptypes = {}
    def __init__(self, *a, **k):
        super().__init__(*a, **k); self.pre = {}
    def havoc(self, s, havoc, n):
        h = super().havoc(s, havoc, n)
        for root, p in havoc:
            v = self.read(h, Loc(root, p))
            if v.op == 'loopv': self.pre[v] = self.read(s, Loc(root, p))
        return h
    def full(self, v, depth=0):
        """what a loop left, with the value it started from in place of a number"""
        if not isinstance(v, V): return tuple(self.full(x, depth) for x in v) if isinstance(v, tuple) else v
        if v.op == 'loopv' and v in self.pre and len(v.a) == 4 and depth < 20: return mk('loopv', v.a[0], 0, v.a[2], v.a[3], self.full(self.pre[v], depth + 1))
        a = tuple(self.full(x, depth) for x in v.a)
        return v if all(x is y for x, y in zip(a, v.a)) else mk(v.op, *a)
    def moved(self, s, fr, l):
        if l.root[0] != 'P' or l.path: return
        for p in owning(self.F, canon_t(self.ptypes.get(l.root[1], ''))): self.write(s, l if not p else Loc(l.root, l.path + p), sym('MOVED', l.root[1], *[x[1] for x in p]))
def owning(F, ct, depth=0):
    """paths of the members a move empties"""
    if depth > 4: return
    r = F.records.get(ct)
    if r is None:
        if ct.startswith('std::') and head(ct) in ('std::map', 'std::vector', 'std::set', 'std::unordered_map', 'std::unique_ptr', 'std::shared_ptr', 'std::basic_string', 'std::string', 'std::function') or ct == 'string': yield ()
        return
    for f in r['fields']:
        for p in owning(F, canon_t(f['t']), depth + 1): yield (F_(f['n']),) + p

def fields(F, cls):
    r = F.record(cls)
    if r is None: raise AnalysisError(f'{cls}: no such class')
    out = list(r['fields'])
    for b in r.get('bases') or []:
        b = b if isinstance(b, str) else b.get('t') or b.get('q')
        if F.records.get(b): out += fields(F, b)
    return out

def written_by_history(F, cls, skip):
    """members some method other than `skip` may change, directly or through the members' own methods"""
    out = {}
    for m in methods_of(F, cls):
        if m['u'] in skip: continue
        for f, l in effects.written(m).items(): out.setdefault(f, (m, l))
    return out

def compare(c, cls, reset, short):
    F = c.F
    fs = fields(F, cls)
    hist = written_by_history(F, cls, {reset['u']})
    resetters = {reset['u']}
    ct = ctors_of(F, cls)
    if not ct: raise AnalysisError(f'{cls}: no constructor found')
    c.count('members', len(fs)); c.count('members changed by other methods', len(hist))
    for k in ct:
        I = RI(F); I.ptypes = {p['n']: p['t'] for p in k['params']}
        this = Loc(('O', 'this'))
        nm = ', '.join(p['t'].replace('parser::', '').split('::')[-1] for p in k['params'])
        start = I.run(k, this=this)
        if not [1 for s, _ in start if not s.ctl]: raise AnalysisError(f'{cls}: constructor has no normal path')
        for s0, _ in start:
            if s0.ctl: continue
            s = s0.copy()
            for f in fs:
                if f['n'] in hist and not f['t'].startswith('const '):
                    for sub_ in leaves(I, s, this + F_(f['n'])): I.write(s, sub_, dirty('.'.join(str(x[1]) for x in sub_.path)))
            for s1, _ in I.run(reset, this=this, s=s):
                if s1.ctl:
                    c.violation(f'{short}:reset:throws', reset['f'], reset['l'], f'{cls}::reset can be left by an exception'); continue
                for f in fs:
                    a = I.read(s0, this + F_(f['n'])); b = I.read(s1, this + F_(f['n']))
                    if same(I, a, b): c.ok(f'{short}: {f["n"]} after reset is what the constructor gives it'); continue
                    if f['n'] not in hist and a is b: continue
                    w = hist.get(f['n'])
                    d = is_dirty(I.full(b))
                    why = 'keeps what earlier lines left in it' if d else f'becomes {show(b)[:120]} instead of {show(a)[:120]}'
                    c.violation(f'{short}:{f["n"]}:{"kept" if d else "differs"}', reset['f'], reset['l'],
                                f'after {reset["q"]} the member {f["n"]} {why}' + (f' (changed by {w[0]["q"]} line {w[1]})' if w else ''))
def leaves(I, s, l):
    v = I.read(s, l)
    if v.op == 'st' and v.a[0] is None: return [x for k, _ in v.a[1] for x in leaves(I, s, l + k)]
    return [l]
def same(I, a, b):
    if a is b: return True
    a, b = I.full(a), I.full(b)
    return a is b or I.canon(a) == I.canon(b)

def method(F, cls, name, n=None):
    m = [f for f in methods_of(F, cls) if f['q'].rsplit('::', 1)[-1] == name and (n is None or len(f['params']) == n)]
    if len(m) != 1: raise AnalysisError(f'{cls}::{name}: {len(m)} definitions')
    return m[0]

def check_P05(c):
    F = c.F
    N = 'parser::fanuc::'
    calc, ren, par = N + 'AttributesPathCalculator', N + 'Renumberer', N + 'AllAttributesParser'
    compare(c, calc, method(F, calc, 'reset'), 'AttributesPathCalculator')
    compare(c, ren, method(F, ren, 'reset'), 'Renumberer')
    this = Loc(('O', 'this'))
    # macro values
    m = method(F, par, 'reset_macro_values')
    mv = this + F_('macro_values')
    if not any(f['n'] == 'macro_values' for f in fields(F, par)): raise AnalysisError('macro_values not found')
    res = {}
    for start in ('A', 'B'):
        for flag in (0, 1):
            I = SigInterp(F); s = State(); I.write(s, mv, sym('DIRTY', start))
            out = []
            for s1, _ in I.run(m, args=[ci(flag)] * len(m['params']), this=this, s=s):
                if s1.ctl: c.violation('reset_macro_values:throws', m['f'], m['l'], f'{m["q"]} can be left by an exception'); continue
                v = I.read(s1, mv)
                if is_dirty(v): c.violation('macro_values:kept', m['f'], m['l'], f'after {m["q"]} macro values assigned before are still there')
                else: c.ok(f'reset_macro_values({flag}): macro values no longer depend on earlier lines')
                out.append(I.canon(v))
            res[start, flag] = sorted(map(repr, out))
    # the parser's own entry points
    m = method(F, par, 'reset_attributes_path_calculator')
    I = SigInterp(F); calls = []
    target = method(F, calc, 'reset')
    def oc(s, fr, n, fn, obj, args):
        if fn['u'] == target['u']:
            t = s.copy(); t.event('reset', obj); return [(t, sym('void'))]
    I.on_call = oc
    for s1, _ in I.run(m, this=this):
        k = [e for e in s1.ev if e[0] == 'reset']
        if s1.ctl: continue
        if len(k) < 1 or 'attr_path_calc' not in repr(k[0][1]): c.violation('reset_attributes_path_calculator', m['f'], m['l'], f'{m["q"]} does not reset the path calculator on every path')
        else: c.ok('reset_attributes_path_calculator resets the calculator in use')
    m = method(F, par, 'renumber_reset')
    I = SigInterp(F)
    k = ctors_of(F, ren)
    s = State()
    rl = this + F_('renumberer')
    fs = fields(F, ren)
    hist = written_by_history(F, ren, {method(F, ren, 'reset')['u']})
    for f in fs:
        if f['n'] in hist: I.write(s, rl + F_(f['n']), dirty(f['n']))
    K = SigInterp(F)
    base = K.run(k[0], this=this)[0][0]
    for s1, _ in I.run(m, this=this, s=s):
        if s1.ctl: continue
        for f in fs:
            if f['n'] not in hist: continue
            a, b = K.read(base, this + F_(f['n'])), I.read(s1, rl + F_(f['n']))
            if a is b: c.ok(f'renumber_reset: {f["n"]}')
            else: c.violation(f'renumber_reset:{f["n"]}', m['f'], m['l'], f'after {m["q"]} the renumberer\'s {f["n"]} is {show(b)[:100]} instead of {show(a)[:100]}')
