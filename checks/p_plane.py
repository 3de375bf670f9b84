"""P07: arcs, helices and drilling in the XZ and YZ planes mirror the XY plane."""
import itertools, re
from absint import *
from words import *
from core import AnalysisError
import p_calc, par
N = 'parser::fanuc::'
# plane code -> (axis letters, centre letters) in the roles first, second, perpendicular
ROLES = {17: ('XYZ', 'IJK'), 18: ('XZY', 'IKJ'), 19: ('YZX', 'JKI')}
PLANE = mk('s', 'PLANE')
def renaming(code, centre=True):
    a, p = ROLES[code]
    if not centre: return dict(zip(a, 'XYZ'))
    return dict(zip(a + p, 'XYZIJK'))

class Class:
    """which length formulas are one and the same function of their arguments"""
    def __init__(self, F): self.F = F; self.memo = {}; self.key = {}; self.eq = {}; self.linear = set()
    def outcomes(self, usr):
        """[(what holds, value)] of the formula with nothing inside it kept"""
        if usr in self.key: return self.key[usr]
        f = self.F.fn.get(usr)
        if f is None or not f.get('body'): raise AnalysisError(f'{usr}: no definition')
        I = p_calc.CI(self.F); I.keep = False; I.unroll = 50; I.max_states = 20000
        args = {}; s = State()
        for i, p in enumerate(f['params']):
            v = sym('arg', str(i))
            if 'pair<' in p['t'] or 'Cycle' in p['t']: v = pair(sym('arg', str(i), '1'), sym('arg', str(i), '2'))
            if is_ref(p['t']): l = Loc(('P', p['n'])); I.write(s, l, v); args[p['n']] = l
            else: args[p['n']] = v
        self.key[usr] = r = [(s.conds, I.val(s, v)) for s, v in I.run(f, args=args, s=s) if not s.ctl]
        if not r: raise AnalysisError(f'{f["q"]}: never returns')
        return r
    def same(self, u, v):
        if u == v: return True
        k = (u, v) if u < v else (v, u)
        if k not in self.eq:
            a, b = self.F.fn.get(u), self.F.fn.get(v)
            self.eq[k] = len(a['params']) == len(b['params']) and agree(self.outcomes(u), self.outcomes(v), lambda x, y: x is y) is None
        return self.eq[k]
    def rep(self, usr):
        """a name for the formula: the first one met it equals"""
        if usr in self.memo: return self.memo[usr]
        for r in dict.fromkeys(self.memo.values()):
            if len(self.F.fn[r]['params']) == len(self.F.fn[usr]['params']) and self.same(usr, r): self.memo[usr] = r; return r
        self.memo[usr] = usr; return usr
def clash(a, b):
    return any(b.get(k, v) != v for k, v in a.items())
def agree(A, B, eq):
    """two path sets of one computation: None, or a pair of paths that can be taken together and differ"""
    idx = {}
    for b in B: idx.setdefault(frozenset(b[0].items()), []).append(b)
    for a in A:
        same = idx.get(frozenset(a[0].items()))
        if same:
            bad = [b for b in same if not eq(a[1], b[1])]
            if bad: return a, bad[0]
            continue
        k = [b for b in B if not clash(a[0], b[0])]
        if not k: return a, None
        for b in k:
            if not eq(a[1], b[1]): return a, b
    return None

class Norm:
    """terms of one plane's run, renamed to the roles they play"""
    def __init__(self, cls, code, centre): self.c = cls; self.m = renaming(code, centre); self.code = code; self.t = {}
    def s(self, x): return self.m.get(x, x) if len(x) <= 1 else self.m[x[0]] + x[1:] if x[0] in self.m and x[1:].islower() else x
    def v(self, v):
        if not isinstance(v, V):
            if isinstance(v, tuple): return tuple(self.v(x) for x in v)
            if isinstance(v, Loc): return v
            return v
        r = self.t.get(v)
        if r is None: r = self.t[v] = self.one(v)
        return r
    def one(self, v):
        o = v.op
        if o == 'c': return cs(self.s(cval(v))) if is_str(v) else v
        if o == 's': return mk('s', *[self.s(x) if isinstance(x, str) else self.v(x) for x in v.a])
        if o == 'calc' and v.a[1] in self.c.linear: return sym('linear')     # straight moves do not depend on the plane
        if o == 'calc':
            u = self.c.rep(v.a[1]); return mk('calc', u, self.v(v.a[2]))
        a = tuple(self.v(x) for x in v.a)
        if o == 'eq': return EQ(*a)
        if o == 'lt': return LT(*a)
        if o == 'ite' and a[0].op == 'not': return mk('ite', a[0].a[0], a[2], a[1])
        if o == 'map': return mk('map', tuple(sorted(a[0], key=lambda kv: repr(kv[0]))))
        if o == 'put': return self.put(a)
        return mk(o, *a)
    def put(self, a):
        m, k, x = a[:3]
        if m.op == 'put' and is_c(m.a[1]) and is_c(k) and repr(k) < repr(m.a[1]): return mk('put', self.put((m.a[0], k, x)), m.a[1], m.a[2])
        return mk('put', *a)

def w(n): return dec(n, value=sym('whole', n), dot='.', value2=sym('part', n))
def g(n): return dec('G', value=str(n))
F_WORD = dec('F', value='100')
class Runs:
    def __init__(self, c, cls):
        self.c = c; self.F = c.F; self.cls = cls
        r = self.F.record(p_calc.CALC)
        en = {k: int(v) for k, v in self.F.enum('parser::EWorkPlane')['e']}
        if sorted(en.values()) != sorted(ROLES): raise AnalysisError('work planes not recognised')
        self.fields = [f for f in r['fields'] if 'Kinematics' not in f['t'] and 'CncDefaultValues' not in f['t'] and 'MachinePointsData' not in f['t'] and not f['t'].startswith('const ')]
        if not any('EWorkPlane' in f['t'] for f in self.fields): raise AnalysisError('no member holds the active plane')
        self.calc = {}
        e = self.start(17, False, 'Mill')
        from loops import subterms
        for m in (90, 91):
            for n in (0, 1):
                for s, _ in e.line([g(17), g(m), g(n), w('X'), w('Y'), w('Z'), F_WORD], s=e.s):
                    cls.linear |= {x.a[1] for v in s.ev if v[0] == 'calc' for x in subterms(v[1]) if x.op == 'calc' and len(x.a[2]) in (3, 6)}
    def start(self, code, default, mt):
        k = (code if default else None, mt)
        if k not in self.calc:
            kin = dict(max_fast_feed=cf(7000.))
            cnc = dict(default_work_plane=ci(code if default else 17), cycle_cancel_starts_rapid_traverse=ci(0))
            if mt == 'Lathe': kin['diameter_programming_2x'] = ci(1)
            cfg = p_calc.Config(self.F, 'plane', machine_type=p_calc.enumv(self.F, 'parser::EMachineToolType', mt), machine=p_calc.enumv(self.F, 'parser::EMachineTool', 'mill_3axis' if mt == 'Mill' else 'lathe_zxcy'), kin=kin, cnc=cnc)
            I = p_calc.CI(self.F); I.fold = True
            self.calc[k] = p_calc.Calc(self.F, cfg, I)
        return self.calc[k]
    def outcomes(self, code, lines, default, mt, centre=True):
        """the results of the lines in one plane, named by role"""
        e = self.start(code, default, mt); e.I.steps = 0; inv = {b: a for a, b in renaming(code, centre).items()}
        S = [e.s]
        for l in lines:
            ws = [x if isinstance(x, V) else w(inv.get(x, x)) for x in l]
            if not default and l is lines[0]: ws = [g(code)] + ws
            T = []
            for s in S:
                s = s.copy(); s.ev = ()
                for s1, _ in e.line(ws, s=s):
                    if l is not lines[-1] and s1.ctl: continue
                    T.append(s1)
            S = T
        nm = Norm(self.cls, code, centre); out = []
        self.c.count('paths', len(S))
        for s in S:
            cond = {}
            for a, b in s.conds.items():
                a = nm.v(a)
                if a.op == 'not': a, b = a.a[0], not b
                cond[a] = b
            if s.ctl:
                val = ('throw', s.ctl[1], message(nm, s.ctl[3]))
            else:
                val = tuple((f['n'], PLANE if 'EWorkPlane' in f['t'] and cval_is(e.get(s, f['n']), code) else nm.v(I_val(e, s, f['n']))) for f in self.fields)
            out.append((cond, val, s.ctl[4] if s.ctl else None))
        return out
def cval_is(v, n): return is_num(v) and cval(v) == n
def I_val(e, s, n): return e.I.val(s, e.get(s, n))
def message(nm, v):
    from loops import subterms
    return tuple(nm.v(x) for x in subterms(v) if x.op == 'msg')

def difference(a, b):
    if b is None: return f'there is no such case in the XY plane (when {cond(a[0])})'
    x, y = a[1], b[1]
    if x[0] == 'throw' or y[0] == 'throw':
        f = lambda v: f'is reported as an error ({show(v[2])[:100]})' if v[0] == 'throw' else 'is computed'
        return f'it {f(y)} in the XY plane and {f(x)} here'
    for (n, p), (_, q) in zip(x, y):
        if p is not q:
            p, q = narrow(p, q)
            return f'{n} would be {plain(q)} in the XY plane and is {plain(p)} here'
def plain(v): return re.sub(r'c:@[^,]*?@F@(\w+)[^,]*', r'\1', show(v))[:200]
def narrow(p, q):
    """the first place two results differ"""
    def first(x, y):
        if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
            for i, j in zip(x, y):
                if i is not j and i != j: return first(i, j)
            return None
        return (x, y) if isinstance(x, V) and isinstance(y, V) else None
    while p.op == q.op and len(p.a) == len(q.a) and p.op in ('st', 'put', '+', 'calc', 'map'):
        d = first(p.a, q.a)
        if d is None: break
        p, q = d
    return p, q
def cond(d): return '; '.join(('' if v else 'not ') + show(k)[:60] for k, v in list(d.items())[:4])

def arcs(deep):
    """(name, lines) in the letters of the XY plane"""
    axes = ['', 'X', 'Y', 'Z', 'XY', 'XZ', 'YZ', 'XYZ']
    par = ['', 'IJ', 'I', 'J', 'R', 'IJK', 'IJR', 'IJQ', 'IJL', 'Q', 'L']
    for d in (2, 3):
        for m in (90, 91):
            for a in axes:
                for p in par: yield f'G{d} G{m} {a}{p}', [[g(m), g(d), *a, *p, 'F']]
    for m in (90, 91):
        for p in ('IJK', 'R'):
            for a in ('Z', 'XYZ', 'XY', 'X', ''):
                for q in ('', 'IJ', 'R'):
                    if (q == 'R' and p != 'R') and not deep: continue
                    yield f'G2 G{m} XYZ{p}, then {a}{q}', [[g(m), g(2), *'XYZ', *p, F_WORD], [*a, *q] or [g(2)]]
    yield 'centre kept', [[g(2), *'XYIJ', F_WORD], [*'XY']]
    yield 'radius kept', [[g(2), *'XYR', F_WORD], [*'XY']]
    yield 'arc after a line', [[g(1), *'XYZ', F_WORD], [g(2), *'XYIJ']]
    yield 'line after an arc', [[g(2), *'XYIJ', F_WORD], [g(1), *'XYZ']]
def drills(deep):
    for n in (81, 83, 74, 76, 73, 87, 85) if not deep else (73, 74, 76, 81, 82, 83, 84, 85, 86, 87, 88, 89):
        q = 'Q' if n in (73, 76, 83, 87) else ''
        for m in (90, 91):
            for r in (98, 99):
                for a in ('XY', '', 'X', 'Y'): yield f'G{n} G{m} G{r} {a}ZR{q}', [[g(m), g(r), g(n), *a, *'ZR', *q, 'F']]
            yield f'G{n} G{m}, second hole', [[g(m), g(n), *'XYZR', *q, F_WORD], [*'XY']]
            yield f'G{n} G{m}, hole, line', [[g(m), g(n), *'XYZR', *q, F_WORD], [g(1), *'XYZ']]
            for k in (0, 2): yield f'G{n} G{m} K{k}', [[g(m), g(n), *'XYZR', *q, dec('K', value=str(k), dot='.', value2='0'), 'F']]
        yield f'G{n} without R', [[g(n), *'XYZ', *q, 'F']]
        yield f'G{n} without depth', [[g(n), *'XYR', *q, 'F']]
    yield 'cycle cancelled', [[g(81), *'XYZR', F_WORD], [g(80)], [g(0), *'XY']]

def todo(thorough):
    out = []
    for what, lines, centre in [(n, l, True) for n, l in arcs(thorough)] + [(n, l, False) for n, l in drills(thorough)]:
        for default in (False, True):
            for mt in ('Mill', 'Lathe'):
                if (default or mt == 'Lathe') and not thorough and hash_of(what) % 11: continue
                out.append((what, lines, centre, default, mt))
    return out
def hash_of(s): return sum(ord(x) * (i + 1) for i, x in enumerate(s))
def share(c, part, of):
    F = c.F; f = p_calc.evaluate_fn(F); cls = Class(F); R = Runs(c, cls)
    out = []
    for what, lines, centre, default, mt in todo(c.thorough)[part::of]:
        base = R.outcomes(17, lines, default, mt, centre)
        if not base: raise AnalysisError(f'{f["q"]}: no path for {what}')
        for code in (18, 19):
            got = R.outcomes(code, lines, default, mt, centre)
            d = agree(got, base, lambda x, y: x == y)
            name = f'{what}{" (default plane)" if default else ""}{" on a lathe" if mt == "Lathe" else ""}'
            if d is None: out.append((None, f'{name} in G{code} as in G17 ({len(got)} paths)', None)); continue
            out.append((f'G{code}:{what}', f'{name}: in the {"XZ" if code == 18 else "YZ"} plane {difference(*d)}', d[0][2]))
    return out, dict(c.counts), sorted(cls.memo.items())
def check_P07(c):
    f = p_calc.evaluate_fn(c.F)
    seen = {}; memo = {}
    for res, counts, m in par.run(c.F, [lambda i=i: share(c, i, 24) for i in range(24)]):
        for k, v in counts.items(): c.count(k, v)
        memo.update(m)
        for key, text, line in res:
            if key is None: c.ok(text); continue
            t = text.split(': ', 1)[1]
            if t in seen: c.count('further differences'); continue
            seen[t] = 1
            c.violation(key, f['f'], line or f['l'], text)
    c.count('formulas', len(memo)); c.count('distinct formulas', len(set(memo.values())))
