"""P08: an optional value or the result of a lookup is read only where it is known to be there."""
import itertools
from absint import *
from words import *
from core import AnalysisError, walk
from loops import subterms
from graph import Graph
import models, p_calc, par
N = 'parser::fanuc::'

# ---------------------------------------------------------------- reads of values that may be absent
def kind_of(n):
    if n.get('k') not in ('Op', 'MCall') or not n.get('q'): return None
    h = models.cls_of(n['q']); nm = n['q'].rsplit('::', 1)[-1]
    if h in models.OPT: return 'opt' if nm in ('operator*', 'operator->') or nm == 'get' and h.startswith('boost') else None
    if nm in ('operator*', 'operator->') and 'terator' in h: return 'it'
    if nm in ('front', 'back') and h.startswith('std::'): return 'elem'
    return None
def sites(n):
    """read nodes of a body; what a range-for does by itself is left out"""
    if isinstance(n, list):
        for x in n: yield from sites(x)
        return
    if not isinstance(n, dict): return
    if n.get('k') == 'ForRange':
        yield from sites(n['c']); return
    if kind_of(n): yield n
    for v in n.values():
        if isinstance(v, (dict, list)): yield from sites(v)
def ours(f): return f.get('body') and not f['q'].startswith(('std::', 'boost::', '__gnu')) and ('/parser/' in f['f'] or '/nclangsrv/' in f['f'])

def present(I, s, kind, term):
    """True: there on this path; False: certainly not; None: not known"""
    def known(a, want=True):
        r = bool(cval(a)) if is_c(a) else I.decide(s, a)
        return None if r is None else r is want
    if kind == 'opt': return known(term)
    if kind == 'elem':
        while term.op == 'put': term = term.a[0]
        if term.op == 'push': return True
        if term.op in ('resized', 'ctor') and len(term.a) > 1 and is_num(term.a[1]): return cval(term.a[1]) > 0
        return known(EMPTY(term), False)
    if term.op == 'it' and term.a[2] is sym('end'): return False
    for a, v in s.conds.items():
        if v is False and a.op == 'eq' and term in a.a and any(y is not term and y.op == 'it' and y.a[2] is sym('end') and (term.op != 'it' or y.a[:2] == term.a[:2]) for y in a.a): return True
    if term.op != 'it': return None
    root, path, key, ismap = term.a
    if key.op in ('found', 'match') or key.op == 's' and key.a and key.a[0] == 'each': return True
    m = I.read(s, Loc(root, path))
    if key is sym('begin') or not ismap and is_c(key) and cval(key) == 0: return known(EMPTY(m), False)
    if m.op == 'map' and is_c(key) and all(is_c(k) for k, _ in m.a[0]): return any(k is key for k, _ in m.a[0])
    return known(IN(key, m))

class Reads:
    """what a run has seen at each read"""
    def __init__(self): self.at = {}
    def see(self, I, s, fr, n, kind, term):
        k = kind_of(n) or ('opt' if kind == 'opt' else None)
        if kind not in ('opt', 'it', 'elem') or k != kind and not (kind == 'opt' and k): return
        if kind == 'elem' and term.op == 'idx': return
        p = present(I, s, kind, term)
        key = (fr.fn['u'] if fr.fn else '?', n.get('l'), nid(n))
        o = self.at.get(key)
        if o is None or (o[0] is True and p is not True) or (o[0] is None and p is False):
            self.at[key] = (p, kind, term, fr.file, s.pathstr()[-300:] if p is not True else '', (fr.fn or {}).get('q', '?'))

class OneI(Interp):
    """one function from arbitrary arguments and object; calls outside `inl` are summarised"""
    max_states = 3000
    def __init__(self, F, inl):
        super().__init__(F); self.reads = Reads(); self.inl = inl; self.max_steps = 500_000
    def on_deref(self, s, fr, n, kind, term): self.reads.see(self, s, fr, n, kind, term)
    def on_call(self, s, fr, n, fn, obj, args):
        if fn['params'] and 'MessageName' in fn['params'][0]['t']: return [(s, sym('msg'))]      # M01 decides the message tables
        if fn['u'] in self.inl or not fn.get('body') or gives_member(fn): return None
        return self.opaque_call(n, fn['q'], obj, args, s, fr, fn)

def gives_member(fn):
    b = fn['body']
    while b.get('k') == 'Block' and len(b.get('c') or b.get('s') or []) == 1: b = (b.get('c') or b.get('s'))[0]
    return b.get('k') == 'Return' and is_ref(fn['rt'])
def run_small(F, f, inl=()):
    """with lists of two elements for arguments"""
    I = OneI(F, {f['u']} | set(inl)); s = State(); args = {}
    for p in f['params']:
        if p['t'].replace('const ', '').startswith('std::vector<'):
            L = Loc(('P', p['n'])); I.write(s, L, mk('list', tuple(sym(p['n'], str(k)) for k in range(2)))); args[p['n']] = L
    try: I.run(f, args=args, this=Loc(('O', 'this')) if f.get('cls') else None, s=s)
    except AnalysisError: return {k[2]: v for k, v in I.reads.at.items() if v[0] is not True}      # what was found missing is missing
    return {k[2]: v for k, v in I.reads.at.items()}
def run_one(F, f, inl):
    I = OneI(F, inl); err = None
    try: I.run(f, this=Loc(('O', 'this')) if f.get('cls') else None)
    except AnalysisError as e: err = str(e)
    return I.reads.at, err

class Library:
    def __init__(self, c):
        self.c = c; self.F = c.F; self.G = Graph(c.F)
        self.fns = {}
        for f in self.F.fn.values():
            if ours(f):
                o = list({nid(n): n for n in sites(f['body'])}.values())
                if o: self.fns[f['u']] = (f, o)
        self.pred = {}
        for f in self.F.fn.values():
            if ours(f) or '/parser/' in f['f'] or '/nclangsrv/' in f['f']:
                for g in self.G.succ(f):
                    if g is not f: self.pred.setdefault(g['u'], {})[f['u']] = f
    def callees(self, f, depth):
        out = set(); cur = [f]
        for _ in range(depth):
            nxt = []
            for x in cur:
                for g in self.G.succ(x):
                    if g.get('body') and g['u'] not in out: out.add(g['u']); nxt.append(g)
            cur = nxt
        return out
    def decide(self, u):
        """(site key -> (state, how, reading)) for one function"""
        f, nodes = self.fns[u]
        mine = {nid(n) for n in nodes}
        res = {}; err = None
        for inl, how in ((set(), 'by itself'), (None, 'with what it calls')):
            if inl is None: inl = self.callees(f, 2)
            at, err = run_one(self.F, f, inl | {f['u']})
            for k, v in at.items():
                if k[2] in mine and (k[2] not in res or res[k[2]][0][0] is not True): res[k[2]] = (v, how)
            if all(x in res and res[x][0][0] is True for x in mine): return res, err
        return res, err
def job(L, us):
    out = []
    for u in us: out.append((u,) + L.decide(u))
    return out
def climb(L, u, todo, ev):
    """reads not settled in a function: each way of calling it, up to three calls away. site -> (True | reading | 'evaluate')"""
    f = L.fns[u][0]; done = {}
    level = {u: f}; reach = {u}; inner = L.callees(f, 1) | {u}
    cur = {x: None for x in todo}
    for depth in range(3):
        up = {}
        for x in level: up.update(L.pred.get(x, {}))
        up = {k: v for k, v in up.items() if k not in reach}
        if not up: break
        if ev in up: return {x: 'evaluate' for x in todo}
        seen = {}
        for k, g in up.items():
            at, err = run_one(L.F, g, inner | reach | {k})
            small = run_small(L.F, g, inner | reach) if any(key[2] in cur and v[0] is not True and murky(v[2]) for key, v in at.items()) and any(p['t'].replace('const ', '').startswith('std::vector<') for p in g['params']) else {}
            for key, v in at.items():
                if key[2] in cur and v[0] is not True and murky(v[2]) and key[2] in small: v = small[key[2]]
                if key[2] in cur: seen.setdefault(key[2], []).append(v)
        reach |= set(up)
        for x, vs in seen.items():
            if all(v[0] is True for v in vs): done[x] = True
            else: cur[x] = [v for v in vs if v[0] is not True][0]
        if all(x in done for x in todo): break
        level = {k: v for k, v in up.items()}
    return {x: done.get(x) or cur[x] for x in todo}

# ---------------------------------------------------------------- the path calculator, on lines of words
class EvI(p_calc.CI):
    def __init__(self, F):
        super().__init__(F); self.reads = Reads(); self.unroll = 200; self.line = ''; self.fold = True
        self.max_states = 4000
    def on_deref(self, s, fr, n, kind, term):
        k = kind_of(n)
        if k not in ('opt', 'it', 'elem'): return
        key = (fr.fn['u'] if fr.fn else '?', n.get('l'), nid(n))
        if k == 'elem' and kind != 'elem' or k == 'it' and kind != 'it': return
        p = present(self, s, k, term)
        o = self.reads.at.get(key)
        if o is None or (p is False and o[0] is not False): self.reads.at[key] = (p, k, term, fr.file, self.line, (fr.fn or {}).get('q', '?'))

def num(word, tag): return dec(word, value=sym('whole', word, tag), dot='.', value2=sym('part', word, tag))
def code(w, n): return dec(w, value=str(n))
def subsets(x): return [''.join(c) for k in range(len(x) + 1) for c in itertools.combinations(x, k)]
def spell(words): return ' '.join(cval(fld(w, 'word')) + (cval(fld(w, 'value').a[0]) if is_str(fld(w, 'value').a[0]) else '..') for w in words)
PL = {17: ('X', 'Y', 'Z', 'I', 'J'), 18: ('X', 'Z', 'Y', 'I', 'K'), 19: ('Y', 'Z', 'X', 'J', 'K')}

def config(F, base, tool='XYZ', lathe=False, **cnc):
    """machine points known for these axes only"""
    cfg = p_calc.Config(F, 'points', machine_type=p_calc.enumv(F, 'parser::EMachineToolType', 'Lathe' if lathe else 'Mill'), machine=p_calc.enumv(F, 'parser::EMachineTool', 'lathe_zx' if lathe else 'mill_3axis'),
                        kin=dict(max_fast_feed=cf(7000.)), cnc=dict(cycle_cancel_starts_rapid_traverse=ci(0), **cnc))
    m = {n: mk('map', tuple((cs(x), sym(n, x)) for x in ax)) for n, ax in (('tool_exchange_point', tool), ('machine_base_point', base))}
    cfg.points = st(None, {F_(k): v for k, v in m.items()})
    return cfg
def starts(plane):
    """[(what, axes with a known position, [lines])]: what the calculator has been through before the line looked at"""
    a, b, c, i, j = PL[plane]
    g = lambda n: code('G', n); w = lambda x: num(x, 'before')
    home = [code('G', plane), g(90), g(0), w('X'), w('Y'), w('Z'), dec('F', value='100')]
    oth = 18 if plane == 17 else 17; o = PL[oth]
    pl = [code('G', plane)]
    out = [('nothing', '', [pl]), ('a full position', 'XYZ', [home]), (f'a position in {a} and {b} only', a + b, [pl]), (f'a position in {c} only', c, [pl]), (f'a position in {a} and {c} only', a + c, [pl])]
    zero = lambda x: dec(x, value='0', dot='.', value2='0'); u = lambda x: num(x, 'helix'); k = ({'I', 'J', 'K'} - {i, j}).pop()
    H = lambda plane_axes, full, m, by: [g(m), g(2)] + [(zero if m == 91 else w) (x) if full else u(x) for x in plane_axes[:2]] + [u(plane_axes[2])] + [u(x) for x in by]
    for m in (90, 91):
        for full in (True, False):
            for by, nm in ((i + j + k, 'centre'), ('R', 'radius')):
                out.append((f'a helix of {"full" if full else "quarter"} turns by {nm} (G{m})', 'XYZ', [home, H((a, b, c), full, m, by)]))
        for by in ('IJK', 'R'):
            out.append((f'a helix by {by} in another plane (G{m})', 'XYZ', [[code('G', oth)] + home[1:], H(o[:3], True, m, by), pl]))
    return out
def arc_lines(deep):
    for g2 in ('', '2'):
        for m in ('90', '91'):
            for a in subsets('XYZ'):
                for p in subsets('IJK') if deep else ('', 'I', 'J', 'IJ', 'IJK'):
                    for r in ('', 'R'):
                        if r and not deep and len(p) == 1: continue
                        for q in ('', 'Q', 'L'):
                            if not deep and q and (r or a not in ('', 'Z', 'XYZ')): continue
                            yield [code('G', m)] + ([code('G', g2)] if g2 else []) + [num(x, '') for x in a + p + r + q]
def drill_lines(deep):
    for n in ('81', '83') if not deep else ('73', '74', '76', '81', '82', '83', '84', '85', '86', '87', '88', '89'):
        for m in ('90', '91'):
            for ret in ('98', '99') if deep else ('98',):
                for a in subsets('XYZRQK'):
                    if 'K' in a and not deep and n == '81' or len(a) % 2 and 'R' in a and 'Z' in a and not deep and n == '81': continue
                    yield [code('G', m), code('G', ret), code('G', n)] + [num(x, '') for x in a]
def other_lines(deep):
    for m in ('90', '91'):
        for a in subsets('XYZ'):
            for n in ('0', '1', ''):
                yield [code('G', m)] + ([code('G', n)] if n else []) + [num(x, '') for x in a]
        for a in subsets('XYZ') if deep else ('', 'X', 'XYZ'):
            for ws in ([code('M', 6)], [code('G', 28)], [code('T', 1)], [code('T', 1), code('M', 6)], [code('M', 6), code('G', 28)], [code('T', 1), code('G', 28)], [code('G', 4), num('P', '')], [code('G', 4)], [code('S', 1000), code('M', 3)], [code('G', 80)], [code('G', 33), num('K', '')],
                       [code('G', 54)], [code('G', 96), code('S', 100)], [code('G', 95)], [code('G', 52)], [code('G', 92)]):
                yield [code('G', m)] + ws + [num(x, '') for x in a]
def plan(F, deep):
    """[(settings, what went before, lines before, the lines looked at)]"""
    out = []
    def chunks(xs, n): return [xs[i:i + n] for i in range(0, len(xs), n)]
    def turned(xs, plane):
        ren = dict(zip('XYZIJK', ROLE[plane])); return [[swap(w, ren) for w in ws] for ws in xs]
    for plane in (17, 18, 19):
        for what, ax, lines in starts(plane):
            if not deep and (plane == 18 or plane == 19 and 'G91' in what): continue
            kw = dict(default_work_plane=ci(plane), default_motion=p_calc.enumv(F, 'parser::EMotion', 'LinearInterpolation')) if what.startswith(('a position', 'nothing')) else {}
            for part in chunks(turned(arc_lines(deep and plane == 17), plane), 100): out.append((dict(base=ax, **kw), what, lines, part))
    for lathe in (False, True):
        for ax in ['XYZ'] + subsets('XYZ')[:-1]:
            if len(ax) == 1 and not deep: continue
            for plane in (17, 18, 19):
                if plane != 17 and not deep and ax != 'XYZ': continue
                for part in chunks(turned(drill_lines(deep and plane == 17 and ax in ('', 'XYZ')), plane), 100): out.append((dict(base=ax, lathe=lathe, default_work_plane=ci(plane)), f'positions {ax or "none"}{" on a lathe without Y" if lathe else ""}', [], part))
    for tool in subsets('XYZ'):
        for base in subsets('XYZ'):
            if not deep and (tool not in ('', 'X', 'YZ', 'XYZ') or base not in ('', 'XY', 'XYZ')): continue
            for ex in (0, 1):
                out.append((dict(base=base, tool=tool, tool_number_executes_exchange=ci(ex)), f'tool exchange point {tool or "none"}, machine base point {base or "none"}', [], list(other_lines(deep))))
    return out
ROLE = {17: 'XYZIJK', 18: 'XZYIKJ', 19: 'YZXJKI'}
def swap(w, ren):
    k = cval(fld(w, 'word'))
    if k not in ren or ren[k] == k: return w
    return num(ren[k], '')
def feature(c, s):
    """what of a calculator's state decides which values are there"""
    r = []
    for f in c.F.record(p_calc.CALC)['fields']:
        if 'Kinematics' in f['t'] or 'CncDefaultValues' in f['t'] or 'MachinePointsData' in f['t']: continue
        v = c.I.read(s, c.loc(f['n']))
        if v.op == 'map': r.append(tuple(k for k, _ in v.a[0]))
        elif is_c(v): r.append(v)
    return (s.ctl[:2] if s.ctl else None,) + tuple(r)
def explore(F, deep, part, of):
    I = EvI(F); calcs = {}; n = 0; notes = []
    for kw, what, lines, last in plan(F, deep)[part::of]:
        c = p_calc.Calc(F, config(F, **kw), I)
        S = [c.s]
        for ln in lines:
            I.line = f'{spell(ln)} (after {what})'; I.steps = 0
            T = {}
            for s in S:
                s = s.copy(); s.ev = (); s.ctl = None
                for s1, _ in c.line(ln, s=s): T.setdefault(feature(c, s1), s1)
            S = list(T.values())
        for s in S: s.ctl = None
        for ws in last:
            I.line = f'{spell(ws)}, with {what}' if ws else what
            for s in S:
                s = s.copy(); s.ev = (); I.steps = 0
                try: n += len(c.line(ws, s=s))
                except AnalysisError as e: notes.append(f'{I.line}: {e}')
    return I.reads.at, n, notes

def rotations(F, reads):
    """the word rotation reads its tables; run it on the words it knows, for each option"""
    import p_rot
    f = one(F, N + 'AxesRotator::operator()')
    class R(Interp):
        def on_deref(self, s, fr, n, kind, term): reads.see(self, s, fr, n, kind, term)
    for ov in sorted(p_rot.options(F)):
        for w in 'XYZIJKG':
            for word in [dec(w, value=sym('number')), dec(w, macro='#', value=sym('number')), dec(w)] + [dec('G', value=str(x)) for x in (2, 3, 17, 18, 19)]:
                I = R(F); L = Loc(('P', f['params'][1]['n'])); s = State()
                I.write(s, L, mk('list', (word,)))
                I.run(f, args=[ci(ov), L], this=Loc(('O', 'this')), s=s)
def library(F, u_list, ev):
    class C: pass
    c = C(); c.F = F; L = Library(c); out = []
    for u in u_list:
        res, err = L.decide(u); f, nodes = L.fns[u]
        todo = [nid(n) for n in nodes if nid(n) in res and res[nid(n)][0][0] is not True]
        up = {}
        if todo:
            try: up = climb(L, u, todo, ev)
            except AnalysisError as e: err = str(e)
        sm = run_small(F, f) if any(x is not None and x is not True and x != 'evaluate' and murky(x[2]) for x in up.values()) else {}
        for k, v in sm.items():
            if k in up and up[k] is not True and murky(up[k][2]): up[k] = True if v[0] is True else v
        out.append((u, [(nid(n), n['l'], True if nid(n) in res and res[nid(n)][0][0] is True else up.get(nid(n)) if nid(n) in res else None, res.get(nid(n), (None, ''))[1]) for n in nodes], err))
    return out
def murky(term):
    return any(x.op in ('loopv', 'out', 'any') for x in subterms(term))
def check_P08(c):
    F = c.F; deep = c.thorough; evf = p_calc.evaluate_fn(F); ev = evf['u']
    par.number_nodes(F)
    L = Library(c); us = sorted(u for u in L.fns if u != ev)
    nj = 6; ne = 96 if deep else 40
    jobs = [lambda i=i: ('lib', library(F, us[i::nj], ev)) for i in range(nj)] + [lambda i=i: ('ev', explore(F, deep, i, ne)) for i in range(ne)]
    lib = []; at = {}
    for kind, r in par.run(F, jobs):
        if kind == 'lib': lib += r; continue
        a, n, notes = r
        c.count('paths of the path calculator', n)
        for x in notes: c.notes.append(x)
        for k, v in a.items():
            o = at.get(k)
            if o is None or v[0] is False and o[0] is not False: at[k] = v
    rot = Reads(); rotations(F, rot); rotat = {}
    for k, v in rot.at.items():
        if k[2] not in rotat or v[0] is not True: rotat[k[2]] = v[0]
    word = lambda v: {'opt': 'an optional value', 'it': 'the result of a lookup', 'elem': 'the first or last element'}[v[1]]
    left = set()
    for u, rows, err in lib:
        f = L.fns[u][0]
        if err: c.notes.append(f'{f["q"]}: {err}')
        for i, l, r, how in rows:
            c.count('reads')
            if r is True: c.ok(f'{f["q"]}:{l}: there on every path ({how})'); continue
            if r is None: c.notes.append(f'{f["q"]}:{l}: no path reaches this read'); continue
            if r == 'evaluate': left.add(i); continue
            if rotat.get(i) is True: c.ok(f'{f["q"]}:{l}: there for every word and option'); continue
            if murky(r[2]): c.notes.append(f'{f["q"]}:{l}: not decided'); continue
            c.violation(f'{f["q"]}:{i_of(L, u, i)}', f['f'], l, f'{f["q"]} reads {word(r)} that {"is not" if r[0] is False else "may not be"} there' + (f' ({r[4][-160:]})' if r[4] else ''))
    mine = {nid(n) for n in L.fns[ev][1]} if ev in L.fns else set()
    seen = set()
    for k, v in sorted(at.items(), key=lambda kv: (kv[0][0], kv[0][1] or 0)):
        seen.add(k[2]); c.count('reads of the path calculator')
        if v[0] is False: c.violation(f'{v[5]}:{k[1]}', v[3], k[1], f'{v[5]} reads {word(v)} that is not there, on the line {v[4]}')
        else: c.ok(f'{v[5]}:{k[1]}: never missing on the lines tried')
    for i in (mine | left) - seen: c.count('reads of the path calculator no line reached')
def i_of(L, u, i): return [nid(n) for n in L.fns[u][1]].index(i)
