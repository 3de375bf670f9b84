"""N08: the log is optional and observation only. N09: parts created on demand exist where they are used."""
import re, core, exc, graph
from absint import *
from core import AnalysisError, walk
from p_server import *

def is_logger_type(t): return bool(t) and 'Logger' in t and ('*' in t or 'unique_ptr' in t or 'shared_ptr' in t or 'optional' in t)
def log_methods(F): return {q for f in F.fn.values() if f.get('cls') == 'nclangsrv::Logger' for q in (f['q'],)}
class OneFunction(Interp):
    """one function of the server, everything it calls a black box"""
    join_at = 24
    max_states = 4000
    max_steps = 6_000_000
    unroll = 0
    def __init__(self, F, world=None):
        super().__init__(F)
        self.world = world          # None unknown, False no log, True log
        self.null = []; self.called = set(); self.mism = []
        self.lg = set(); self.X = exc.Exc(F, lib=False)
    def x_Try(self, n, s, fr):
        # library calls may raise anything: every handler is also entered from the state before the block
        out = super().x_Try(n, s, fr)
        for h in n.get('h') or []:
            t = s.copy(); t.ctl = ('throw', h.get('t') or 'std::exception', (), sym('exc', h.get('t') or '...'), h.get('l'))
            out += self.handle(dict(n, h=[h]), t, fr)
        return self.reduce(out, n)
    def ptr_fact(self, s, p):
        self.lg.add(p)
        if self.world is False: s.conds[EQ(p, NULL)] = True; s.eqc[p] = NULL
        elif self.world is True: s.conds[EQ(p, NULL)] = False
    def on_call(self, s, fr, n, fn, obj, args):
        self.called.add(fn['u'])
        out = self.opaque_call(n, fn['q'], obj, args, s, fr, fn)
        if fn.get('cls') != 'nclangsrv::Logger':
            if self.impure(fn):
                for t, _ in out: t.event('called', fn['q'], tuple(self.val(s, a) for a in args))
            for t, site in self.X.esc(fn).items():
                if '/nclangsrv/' in site[0]:
                    x = s.copy(); x.ctl = ('throw', t, site[3] or self.X.bases(t), sym('exc', t), n.get('l')); out.append((x, None))
        return out
    def impure(self, fn):
        if fn.get('cm'): return False
        if not hasattr(self, 'G'): self.G = graph.Graph(self.F); self.pm = {}
        u = fn['u']
        if u in self.pm: return self.pm[u]
        self.pm[u] = False
        r = False
        for f in self.G.reach([fn]):
            if f.get('cls') == 'nclangsrv::Logger': continue
            for x in self.G.nodes(f):
                if x.get('k') == 'Ref' and x.get('glob') and 'const' not in str(x.get('t')): r = True
        if fn.get('cls') and not fn.get('st') and fn.get('kind') != 'ctor': r = True
        self.pm[u] = r
        return r
    def run_ctor(self, n, fn, l, ct, s, fr):
        if ct.startswith('nclangsrv::') or ct.startswith('parser::'):
            self.called.add(fn['u'])
            out = []
            for t, vs in self.args(n.get('c') or [], n.get('pm') or '', s, fr):
                if not t.ctl: t = t.copy(); self.assign(t, fr, l, mk('object', ct, nid(n), *[self.val(t, v) for v in vs]))
                out.append((t, None))
            return [t for t, _ in out]
        return super().run_ctor(n, fn, l, ct, s, fr)
    def on_deref(self, s, fr, n, kind, term):
        if kind != 'ptr': return
        a = EQ(term, NULL)
        d = bool(cval(a)) if is_c(a) else self.decide(s, a)
        if d is True and (term in self.lg or term is NULL and any('Logger' in str(x.get(k)) for x in [n] + [y for y in n.get('c') or [] if y] for k in ('t', 'ot', 'cls'))): self.null.append((fr.file, n.get('l'), s.pathstr()[-200:]))
    def is_log(self, term):
        return any(x in self.lg for x in self.sub_of(term))
    def sub_of(self, t):
        seen = set(); subterms(t, seen); return seen
    def outcome(self, t, base):
        st = frozenset((r, v) for r, v in t.store.items() if not self.log_root(r) and r[0] != 't')
        ev = tuple(e for e in t.ev[base:] if not self.log_event(e))
        return (st, t.ctl and t.ctl[:2], ev)
    def log_root(self, r):
        return r[0] == 'D' and r[1] in self.lg or r[0] in ('H',) and False
    def log_event(self, e):
        if e[0] == 'out': return e[1] != 'cout' and 'cout' not in str(e[1])
        if e[0] == 'flush': return e[1] != 'cout'
        if e[0] == 'loop': return all(self.log_event(x) for suf in e[2] for x in suf)
        return False

class LogIf(OneFunction):
    """at every branch on the presence of the log, both ways must have the same effects; main: only inside its message loop"""
    def __init__(self, F, only=None):
        super().__init__(F); self.only = only; self.checked = {}
    logvars = frozenset()
    def approx(self, n, s, fr, once):
        if self.logvars:
            s = s.copy()
            for r in list(s.store):
                if r[0] == 'v' and r[2] in self.logvars and not r[3:]:
                    p = sym('LG', r[2]); self.lg.add(p); s.store[r] = p
        return super().approx(n, s, fr, once)
    def x_If(self, n, s, fr):
        if s.ctl: return [s]
        if n.get('init') or n.get('cvar'): return super().x_If(n, s, fr)
        if self.only is not None and nid(n) not in self.only: return super().x_If(n, s, fr)
        conds = self.cond(n['c'][0], s.copy(), fr)
        yes, no, other = [], [], []
        for t, b in conds:
            fact = None
            for a, v in t.conds.items():
                if a.op == 'eq' and a.a[0] in self.lg and a.a[1] is NULL and a not in s.conds: fact = v
            (other if fact is None else no if fact else yes).append((t, b))
        if not yes or not no: return self.reduce(self.branch(n, conds, fr), n)
        A = self.reduce(self.branch(n, yes, fr), n); B = self.reduce(self.branch(n, no, fr), n)
        base = len(s.ev)
        oa = {self.outcome(t, base) for t in A}; ob = {self.outcome(t, base) for t in B}
        C = self.branch(n, other, fr)
        key = (fr.file, n.get('l'))
        if oa == ob:
            self.checked.setdefault(key, True)
            out = []
            for t in B:
                t = t.copy()
                for p in self.lg: t.conds.pop(EQ(p, NULL), None); t.eqc.pop(p, None)
                out.append(t)
            return self.reduce(out + C, n)
        self.checked[key] = False
        self.mism.append((key, oa ^ ob))
        return self.reduce(A + B + C, n)

def setup(I, F, fn):
    """initial state with what is known about the log pointers of this function"""
    s = State()
    cls = fn.get('cls')
    if cls and cls in F.records:
        for f in F.records[cls]['fields']:
            if is_logger_type(f['t']): I.ptr_fact(s, sub(THIS, F_(f['n'])))
    for p in fn.get('params') or []:
        if is_logger_type(p['t']):
            I.ptr_fact(s, sym('P', p['n']))
    return s
def scope(F):
    for f in F.fn.values():
        if '/nclangsrv/' in f['f'] and f.get('body') and f.get('cls') != 'nclangsrv::Logger' and not f.get('dep'): yield f
LOGF = set()
def log_fields(F):
    for q, r in F.records.items():
        if q.startswith('nclangsrv'):
            LOGF.update(f['n'] for f in r['fields'] if is_logger_type(f['t']))
def mentions_log(fn):
    for i in fn.get('inits') or []:
        if i.get('x') and any(is_logger_type(x.get('t')) for x in walk(i['x'])): return True
    return any(is_logger_type(x.get('t')) or is_logger_type(x.get('ot')) or x.get('k') == 'Member' and x.get('n') in LOGF for x in walk(fn['body'])) or any(is_logger_type(p['t']) for p in fn.get('params') or [])

def check_N08(c):
    F = c.F
    G = graph.Graph(F)
    log_fields(F)
    fns = [f for f in scope(F)]
    logf = [f for f in fns if mentions_log(f)]
    if len(logf) < 5: raise AnalysisError('functions that use the log not found')
    # A: without a log, no path reachable from main touches it
    null, reached = {}, {}
    for f in logf:
        c.count('functions analysed without a log')
        if f['q'] == 'main': continue
        I = OneFunction(F, False)
        s = setup(I, F, f)
        I.run(f, s=s)
        null[f['u']] = I.null; reached[f['u']] = I.called
    M = MainNull(F); M.go()
    mf = main_fn(F); null[mf['u']] = M.null; reached[mf['u']] = M.called
    seen, todo = {}, [(mf, None)]
    live = {mf['u']}
    byu = {f['u']: f for f in F.fn.values()}
    parent = {}
    while todo:
        f, _ = todo.pop()
        if f['u'] in seen: continue
        seen[f['u']] = f
        direct = {n.get('u') for n in G.nodes(f) if n.get('k') in ('Call', 'MCall', 'Op', 'Ctor') and n.get('u')}
        for g in G.succ(f):
            if '/nclangsrv/' not in g['f']: continue
            if f['u'] in reached and g['u'] in direct and g['u'] not in reached[f['u']]: continue
            parent.setdefault(g['u'], f); todo.append((g, f))
    for f in logf:
        if f['u'] not in seen: c.ok(f'{f["q"]}: reached only with a log'); continue
        bad = null.get(f['u']) or []
        for file, line, path in bad[:1]:
            c.violation(f'null:{f["q"]}', file, line, f'{f["q"]} uses the log on a path where none is configured ({path})')
        if not bad: c.ok(f'{f["q"]}: does not touch the log when there is none')
    # B: branches on the presence of the log have no other effect
    n = 0
    for f in logf:
        only = None
        if f['q'] == 'main':
            loops = [x for x in walk(f['body']) if x.get('k') in ('While', 'For', 'Do', 'ForRange') and any(y.get('u') == parse_fn(F)['u'] or HANDLER in str(y.get('q')) for y in walk(x))]
            if not loops: loops = [x for x in walk(f['body']) if x.get('k') in ('While', 'For', 'Do')]
            only = {nid(x) for lp in loops for x in walk(lp) if x.get('k') == 'If'}
        I = LogIf(F, only)
        s = setup(I, F, f)
        if f['q'] == 'main': I.logvars = {x['d'] for x in walk(f['body']) if x.get('k') == 'Var' and 'Logger' in str(x.get('t'))}
        I.run(f, s=s)
        for key, okk in I.checked.items():
            n += 1
            if okk: c.ok(f'{f["q"]} line {key[1]}: the branch for the log only writes the log')
        other = [x for x in walk(f['body']) if x.get('k') == 'Cond' and any(is_logger_type(y.get('t')) for y in walk(x['c'][0]))]
        if (I.mism or other) and f['q'] != 'main':
            outs_ = []
            for w in (False, True):
                J = OneFunction(F, w)
                r = J.run(f, s=setup(J, F, f))
                outs_.append({(J.outcome(t, 0), v) for t, v in r})
            if outs_[0] != outs_[1]:
                key = I.mism[0][0] if I.mism else (f['f'], other[0].get('l'))
                c.violation(f'effect:{f["q"]}', key[0], key[1], f'{f["q"]}: what is done when a log is configured differs from what is done without, beyond writing the log: {diff_text(I.mism)}')
            else: c.ok(f'{f["q"]}: same outcomes with and without a log')
        elif I.mism:
            key = I.mism[0][0]
            c.violation(f'effect:{f["q"]}', key[0], key[1], f'{f["q"]}: the branch for the log does more than write it: {diff_text(I.mism)}')
    c.count('branches on the log', n)
    if n < 10: raise AnalysisError('branches on the log not found')
def diff_text(mism):
    if not mism: return '?'
    for st, ctl, ev in mism[0][1]:
        if ctl: return f'it leaves with {ctl[0]}'
        if ev: return f'it does {str(ev[0])[:100]}'
    rs = [dict(o[0]) for o in mism[0][1]]
    if len(rs) >= 2:
        for r in set(rs[0]) | set(rs[1]):
            if rs[0].get(r) is not rs[1].get(r): return f'{str(r)[:60]} is {show(rs[0][r])[:60] if r in rs[0] else "-"} or {show(rs[1][r])[:60] if r in rs[1] else "-"}'
    return '?'
class MainNull(OneFunction):
    """main with an empty log path: the logger it owns stays null"""
    def __init__(self, F):
        super().__init__(F, False)
        self.made = []
    def go(self):
        self.lg = LogPtrs()
        self.run(main_fn(self.F))
class LogPtrs(set):
    pass
def check_N09(c):
    F = c.F
    seen = {}
    fts = field_types(F, HANDLER)
    def lazy(term):
        if term.op == 'sub' and term.a[0] is THIS and term.a[1][0] == '.': return term.a[1][1]
    for m, lg, I, res in all_runs(c):
        for (q, term), (d, file, line, path) in I.derefs.items():
            n = lazy(term)
            if n is None or 'Logger' in fts.get(n, ''): continue
            if d is False: c.ok(f'{m}: {n} is present where {q} uses it (line {line})')
            else: c.violation(f'{q}:{n}', file, line, f'{mname(m)}: {q} uses {n}, which is not known to exist there ({path})')
        for s, _ in res:
            o = this_of(s)
            if escaped(s): continue
            for n, t in fts.items():
                if 'unique_ptr' not in t: continue
                v = sub(o, F_(n))
                if v is fld(n): continue
                c.count('parts created')
    # the settings, grammar and code-group readers of the program checker
    P = F.find('nclangsrv::NCParser::parse', must=True)[0]
    J = PtrUse(F); J.run(P, s=State())
    pf = field_types(F, 'nclangsrv::NCParser')
    for (n, q), (ok, file, line, path) in J.uses.items():
        if 'Logger' in pf.get(n, ''): continue
        if ok: c.ok(f'{q}: {n} is present where it is used (line {line})')
        else: c.violation(f'{q}:{n}', file, line, f'{q} uses {n}, which is not known to exist there ({path})')
    # what is created is filled before it can be used
    for f in scope(F):
        made = {}
        for x in walk(f['body']):
            t = None
            if x.get('k') == 'Call' and str(x.get('q')).startswith('std::make_unique') or x.get('k') == 'New': t = canon_t(x.get('t') or '')
            if not t: continue
            for q, r in F.records.items():
                if q.startswith('nclangsrv::') and re.search(r'\b' + re.escape(q.rsplit('::', 1)[1]) + r'\b', t) and any(m['n'] == 'read' for m in r['methods']): made[q] = x
        if not made or f.get('kind') == 'ctor' or f['q'] == 'main': continue
        K = PtrUse(F); res = K.run(f, s=State())
        for s, _ in res:
            if s.ctl: continue
            for q, x in made.items():
                fields = [fl['n'] for fl in F.records[f['cls']]['fields'] if q.rsplit('::', 1)[1] in fl['t'] and 'ptr' in fl['t']] if f.get('cls') in F.records else []
                changed = [n for n in fields if sub(this_of(s), F_(n)) is not fld(n)]
                if not changed: continue
                reads = sum(1 for e in K.allev(s.ev) if e[0] == 'called' and e[1] == q + '::read')
                if reads < 1: c.violation(f'{f["q"]}:unread', f['f'], x.get('l'), f'{f["q"]} creates {", ".join(changed)} without reading its file')
                else: c.ok(f'{f["q"]}: {", ".join(changed)} created and read')
class PtrUse(OneFunction):
    def __init__(self, F):
        super().__init__(F); self.uses = {}
    def allev(self, ev):
        for e in ev:
            yield e
            if e[0] == 'loop':
                for suf in e[2]: yield from self.allev(suf)
    def on_deref(self, s, fr, n, kind, term):
        if kind != 'ptr': return
        if not (term.op == 'sub' and term.a[0] is THIS and term.a[1][0] == '.'): return
        d = self.decide(s, EQ(term, NULL))
        k = (term.a[1][1], fr.fn['q'] if fr.fn else '?')
        o = self.uses.get(k)
        if o is None or o[0]: self.uses[k] = (d is False, fr.file, n.get('l'), s.pathstr()[-200:])
