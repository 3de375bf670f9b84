"""The path calculator run symbolically on one line of words."""
from absint import *
from words import *
from core import AnalysisError
N = 'parser::fanuc::'
CALC = N + 'AttributesPathCalculator'
THIS = Loc(('O', 'this'))
AXES = 'XYZ'
def evaluate_fn(F): return one(F, CALC + '::evaluate')

class CI(Interp):
    """path and time formulas are kept as terms; derefs of absent values are noted"""
    keep = True
    def on_call(self, s, fr, n, fn, obj, args):
        q = fn['q']
        if self.keep and (q.startswith(N + 'PathCalculator::') or q.startswith(N + 'MathUtils::')):
            v = mk('calc', q.rsplit('::', 1)[1], fn['u'], tuple(self.val(s, a) for a in args)); s.event('calc', v)
            return [(s, v)]
        if q.endswith('::make_message'): return [(s, mk('msg', tuple(self.val(s, a) for a in args)))]
        return None

class Config:
    """settings of a calculator: plain values by member name, unset flags false"""
    def __init__(self, F, name, machine_type=None, machine=None, kin={}, cnc={}, axes=AXES, points=True):
        self.name = name; self.machine_type = machine_type; self.machine = machine; self.axes = axes
        def rec(q, over, deflt):
            r = F.record(q)
            if r is None: raise AnalysisError(f'{q}: no such structure')
            d = {}
            for f in r['fields']:
                if f['n'] in over: d[F_(f['n'])] = over[f['n']]; continue
                d[F_(f['n'])] = deflt(f)
            for k in over:
                if F_(k) not in d: raise AnalysisError(f'anchor vanished: {q}::{k}')
            return st(None, d)
        def of(tag):
            def g(f):
                t = f['t']
                if t == 'bool': return ci(0)
                if 'map' in t and 'AxisParameters' in t: return mk('map', tuple((cs(x), sym(tag, 'axis', x)) for x in axes))
                if 'basic_string' in t: return cs('?' + f['n'])
                return sym(tag, f['n'])
            return g
        en = lambda q, n: ci(dict((k, int(v)) for k, v in F.enum('parser::' + q)['e'])[n])
        cn = dict(default_motion=en('EMotion', 'RapidTraverse'), default_work_plane=ci(17), default_programming=ci(90), default_feed_mode=ci(94), drill_cycle_return_value=ci(98))
        cn.update(cnc)
        self.kin = rec('parser::Kinematics', kin, of('kin'))
        self.cnc = rec('parser::CncDefaultValues', cn, of('cnc'))
        self.points = rec('parser::MachinePointsData', {n: mk('map', tuple((cs(x), sym(n, x)) for x in AXES) if points else ()) for n in ('tool_exchange_point', 'machine_base_point')}, None)

def enumv(F, q, n):
    for k, v in F.enum(q)['e']:
        if k == n: return ci(int(v))
    raise AnalysisError(f'anchor vanished: {q}::{n}')
class Calc:
    """a calculator just constructed with the given settings, and lines run on it"""
    def __init__(self, F, cfg, I=None):
        self.F = F; self.I = I or CI(F); self.I.unroll = 200
        ct = [f for f in F.fn.values() if f['q'] == CALC + '::AttributesPathCalculator' and f.get('body') and len(f['params']) == 6 and '&&' not in f['params'][2]['t']]
        if len(ct) != 1: raise AnalysisError(f'{CALC}: constructor not found')
        ct = ct[0]; s = State(); a = {}
        for p in ct['params']:
            t = p['t']
            v = cfg.kin if 'Kinematics' in t else cfg.cnc if 'CncDefaultValues' in t else cfg.points if 'MachinePointsData' in t else cfg.machine_type if 'EMachineToolType' in t else cfg.machine if 'EMachineTool' in t else None
            if v is None: v = sym('P', p['n'])
            if '&' in t: l = Loc(('P', 'ctor.' + p['n'])); self.I.write(s, l, v); a[p['n']] = l
            else: a[p['n']] = v
        rs = [s for s, _ in self.I.run(ct, args=a, this=THIS, s=s) if not s.ctl]
        if len(rs) != 1: raise AnalysisError(f'{CALC}: {len(rs)} ways through the constructor')
        self.s = rs[0]; self.s.ev = ()
        self.ev = evaluate_fn(F)
    def loc(self, name):
        l = THIS
        for x in name.split('.'): l = l + F_(x)
        return l
    def set(self, name, v):
        r = self.F.record(CALC)
        if name.split('.')[0] not in [f['n'] for f in r['fields']]: raise AnalysisError(f'anchor vanished: {CALC}::{name}')
        self.I.write(self.s, self.loc(name), v)
    def get(self, s, name): return self.I.read(s, self.loc(name))
    def line(self, words, macros=None, line=None, units=None, s=None):
        s = (s or self.s).copy(); a = {}
        for p in self.ev['params']:
            L = Loc(('P', p['n']))
            if 'boost::variant' in p['t']: self.I.write(s, L, mk('list', tuple(words))); a[p['n']] = L
            elif 'macro_map_key' in p['t']: self.I.write(s, L, macros if macros is not None else sym('MACROS')); a[p['n']] = L; self.mloc = L
            elif 'EDriverUnits' in p['t']: a[p['n']] = units if units is not None else sym('UNITS')
            else: a[p['n']] = line if line is not None else sym('LINE')
        return self.I.run(self.ev, args=a, this=THIS, s=s)
    def macros(self, s): return self.I.read(s, self.mloc)
def tool_configs(F):
    for mt in ('Mill', 'Lathe', 'Millturn'):
        for ex in (0, 1):
            yield Config(F, f'{mt}{", T exchanges the tool" if ex else ""}', machine_type=enumv(F, 'parser::EMachineToolType', mt), cnc=dict(tool_number_executes_exchange=ci(ex)))
