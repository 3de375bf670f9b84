"""P16: what each word check of a line accepts and rejects. Every check is interpreted on word forms with symbolic numbers and
limits; the conditions under which it rejects are compared, as linear inequalities, with the stated ones."""
import itertools
from absint import *
from words import *
from core import AnalysisError
import p_calc, exc

NS = 'parser::fanuc::'
def lin(v):
    """linear form {leaf: coefficient} of a number term"""
    if is_num(v): return {None: float(cval(v))} if cval(v) else {}
    if v.op in ('+', '-', '*', 'neg') or (v.op == 'arith' and v.a[0] in '+-*'):
        op, args = (v.a[0], v.a[1:]) if v.op == 'arith' else (v.op, v.a)
        if op == 'neg': return {k: -x for k, x in lin(args[0]).items()}
        if op == '*':
            ls = [lin(a) for a in args]
            for i, l in enumerate(ls):
                if set(l) <= {None} and len(ls) == 2:
                    c = l.get(None, 0.0); return {k: c * x for k, x in ls[1 - i].items() if c * x}
            return {v: 1.0}
        out = {}
        for i, a in enumerate(args):
            sgn = -1 if op == '-' and (i or len(args) == 1) else 1
            for k, x in lin(a).items(): out[k] = out.get(k, 0) + sgn * x
        return {k: x for k, x in out.items() if x}
    if v.op in ('cast', 'conv', 'todouble', 'toint') and len(v.a) == 1 and isinstance(v.a[0], V): return lin(v.a[0])
    return {v: 1.0}
def below(a, b):
    """canonical key of a < b"""
    l = dict(lin(b))
    for k, x in lin(a).items(): l[k] = l.get(k, 0) - x
    return frozenset((k, x) for k, x in l.items() if x)
def known(s):
    """inequalities a path has decided: {key of a<b: True/False}"""
    out = {}
    for a, b in s.conds.items():
        if a.op == 'lt': out[below(*a.a)] = b
        elif a.op == 'le': out[below(a.a[1], a.a[0])] = not b
    return out

class Checker:
    def __init__(self, c, cls, n=None, has=None, meth='operator()'):
        r = [f for f in c.F.fn.values() if f['q'] == f'{NS}{cls}::{meth}' and f.get('body') and (has is None or any(has in p['t'] for p in f['params']))]
        if len(r) != 1: raise AnalysisError(f'{cls}: {len(r)} checks found')
        self.c = c; self.f = r[0]; self.cls = cls; self.E = exc.Exc(c.F)
        self.THIS = Loc(('O', cls))
    def run(self, bind, s=None, setup=None):
        """bind(param) -> value"""
        I = Interp(self.c.F); I.unroll = 100; s = (s or State()).copy(); args = []
        if setup: setup(I, s)
        for p in self.f['params']:
            v = bind(p)
            if is_ref(p['t']): l = Loc(('P', p['n'])); I.write(s, l, v); args.append(l)
            else: args.append(v)
        out = I.run(self.f, args=args, this=self.THIS, s=s)
        self.c.count('paths', len(out))
        if not out: raise AnalysisError(f'{self.f["q"]}: no path found')
        return I, out
    def bad(self, key, text): self.c.violation(f'{self.cls}:{key}', self.f['f'], self.f['l'], f'{self.cls}: {text}')
    def rejects(self, s):
        """did the path end in the check's own exception? None for another one"""
        if not s.ctl: return False
        if s.ctl[0] == 'throw' and str(s.ctl[1]).startswith('parser::'): return True
        return None
    def verdict(self, key, what, out, want):
        """want: True/False; every path must agree"""
        for s, _ in out:
            r = self.rejects(s)
            if r is None: continue      # a number that does not convert: P03
            when = f' when {s.pathstr()[:140]}' if s.conds else ''
            if r != want: self.bad(key, f'{what} is {"rejected" if r else "accepted"}{when}'); return
        self.c.ok(f'{self.cls}: {what} is {"rejected" if want else "accepted"}')
    def limits(self, key, what, out, over, others=()):
        """rejected exactly when one of the inequalities `over` holds"""
        for s, _ in out:
            r = self.rejects(s)
            if r is None: continue
            k = known(s); when = f' when {s.pathstr()[:160]}' if s.conds else ''
            st_ = [k.get(x) for x in over]
            good = any(x is True for x in st_) if r else all(x is False for x in st_)
            if not good:
                self.bad(key, f'{what} is {"rejected" if r else "accepted"}{when or " always"}, not by comparing it with the limit'); return
        if not any(self.rejects(s) for s, _ in out): self.bad(key, f'{what} is never rejected'); return
        self.c.ok(f'{self.cls}: {what} rejected exactly beyond the limit')

def lang(F): return p_calc.enumv(F, 'parser::ELanguage', 'English')
def words_or(F, ws, other):
    def b(p):
        t = p['t']
        if 'boost::variant' in t: return mk('list', tuple(ws))
        if 'ELanguage' in t: return lang(F)
        return other(p)
    return b
def toint(v): return [mk('toint', v), mk('call', 'std::stoi', v)]

def check_P16(c):
    F = c.F
    unique(c); same(c); limits(c); zero(c); groups(c); rotation(c)
n, m, fr = sym('number'), sym('other'), sym('fraction')
def pairs(): return [dict(value=n), dict(value=n, sign='-'), dict(value=n, dot='.', value2=fr), dict(macro='#', value=n), dict(value=n, open_bracket='[', close_bracket=']'), {}]
def unique(c):
    F = c.F; k = Checker(c, 'UniqueCode')
    ty = {a: int(b) for a, b in F.enum('parser::fanuc::WordType')['e']}
    def wg(w, u): return st(None, {F_('word'): cs(w), **{F_(x): sym(x, w) for x in ('range_from', 'range_to', 'decimal_from', 'decimal_to')}, F_('unique'): ci(u), F_('word_type'): ci(ty['misc'])})
    U, R = 'XYFNS', 'GM'
    M = mk('map', tuple((cs(w), wg(w, 1)) for w in U) + tuple((cs(w), wg(w, 0)) for w in R))
    def go(key, what, ws, want): k.verdict(key, what, k.run(words_or(F, ws, lambda p: M if 'WordGrammar' in p['t'] else sym('P', p['n'])))[1], want)
    for w in U:
        for i, a in enumerate(pairs()):
            go(f'twice:{w}:{i}', f'a line with {w} twice', [dec(w, **a), dec(w, value=m)], True)
            go(f'again:{w}:{i}', f'a line with {w} twice, not next to each other', [dec('G', value='1'), dec(w, value=m), dec('M', value='3'), dec(w, **a)], True)
        go(f'once:{w}', f'a line with {w} once', [dec('G', value='1'), dec(w, value=n), dec('M', value=m)], False)
        go(f'text:{w}', f'{w} once and in a comment', [dec(w, value=n), text('(', cs(w)), text(w, m)], False)
    for w in R: go(f'many:{w}', f'a line with {w} several times', [dec(w, value=n), dec(w, value=m), dec(w, value=n)], False)
    go('unknown', 'a word without limits, twice', [dec('W', value=n), dec('W', value=m)], False)
    go('each once', 'every unique word once', [dec(w, value=n) for w in U], False)
    go('third', 'a repeated word at the end of a long line', [dec('N', value=n), dec('X', value=n), dec('Y', value=m), dec('F', value=m), dec('N', value=fr)], True)
    go('none', 'a line without words', [], False)
def same(c):
    F = c.F; k = Checker(c, 'SameWordInBlockVerifier')
    def go(key, what, ws, want): k.verdict(key, what, k.run(words_or(F, ws, lambda p: cs('M') if 'basic_string' in p['t'] else sym('P', p['n'])))[1], want)
    for i, a in enumerate(pairs()):
        go(f'two:{i}', 'a line with two M words', [dec('M', value=m), dec('X', value=n), dec('M', **a)], True)
        go(f'one:{i}', 'a line with one M word', [dec('G', value=m), dec('M', **a), dec('X', value=n)], False)
    go('equal', 'the same M word twice', [dec('M', value=n), dec('M', value=n)], True)
    go('G', 'a line with two G words', [dec('G', value=n), dec('G', value=m), dec('M', value=m)], False)
    go('comment', 'an M word and a comment', [dec('M', value=n), text('(', cs('M')), char('M', sym('ch'))], False)
    go('none', 'a line without words', [], False)
def limits(c):
    F = c.F; k = Checker(c, 'RangeVerifier', has='boost::variant')
    r = F.record('parser::Kinematics')
    KIN = sym('KIN')
    lim = {'S': 'maximum_spindle_speed', 'T': 'numer_of_items_in_the_warehouse', 'F': 'max_working_feed'}
    for f in lim.values():
        if f not in [x['n'] for x in r['fields']]: raise AnalysisError(f'anchor vanished: Kinematics::{f}')
    types = {a: ci(int(b)) for a, b in F.enum('parser::EMachineToolType')['e']}
    def go(ws, mt): return k.run(words_or(F, ws, lambda p: types[mt] if 'EMachineToolType' in p['t'] else KIN if 'Kinematics' in p['t'] else sym('P', p['n'])))[1]
    def over(v, w): return [below(sub(KIN, F_(lim[w])), x) for x in toint(v)]
    def lims(key, what, out, v, w):
        # whichever term denotes the number read from the text
        seen = set().union(*[set(known(s)) for s, _ in out]) if out else set()
        o = [x for x in over(v, w) if x in seen] or over(v, w)[:1]
        k.limits(key, what, out, o)
    for mt in types:
        for w in 'SF':
            for i, (a, what) in enumerate((({}, ''), (dict(dot='.', value2=fr), ' with decimals'))):
                lims(f'{w}:{i}', f'{w}{what} ({mt})', go([dec(w, value=n, **a)], mt), n, w)
            lims(f'{w}:amid', f'{w} among other words ({mt})', go([dec('G', value='1'), dec('X', value=m), dec(w, value=n), dec('M', value='3')], mt), n, w)
            k.verdict(f'{w}:none', f'{w} without a number ({mt})', go([dec(w)], mt), False)
        for t in (('5',) if mt == 'Lathe' else ('5', '101', '0101', '1234')):
            lims(f'T:{t}', f'tool {t} ({mt})', go([dec('T', value=t)], mt), ci(int(t)), 'T') if False else number(k, f'T:{mt}:{t}', f'T{t} ({mt})', go([dec('T', value=t)], mt), int(t), sub(KIN, F_(lim['T'])))
        if mt == 'Lathe':
            for t, tool in (('12', 12), ('0101', 1), ('0907', 9), ('1203', 12), ('001002', 1), ('1234', 12)): number(k, f'T:{mt}:{t}', f'T{t}, which is tool {tool} ({mt})', go([dec('T', value=t)], mt), tool, sub(KIN, F_(lim['T'])))
        k.verdict('T:none', f'T without a number ({mt})', go([dec('T')], mt), False)
        for w in 'ABCDEGHIJKLMNOPQRUVWXYZ#': k.verdict(f'other:{w}', f'{w} ({mt})', go([dec(w, value=n)], mt), False)
        k.verdict('text', f'a comment ({mt})', go([text('(', cs('S')), text('O', n), char('%', m)], mt), False)
def number(k, key, what, out, num, limit):
    k.limits(key, what, out, [below(limit, ci(num))])
def zero(c):
    F = c.F; k = Checker(c, 'RangeVerifier', has='ZeroPoint')
    Z = sym('ZERO'); AX = 'XYZABC'
    for f in 'xyz':
        if f not in [x['n'] for x in F.record('parser::ZeroPoint')['fields']]: raise AnalysisError('anchor vanished: ZeroPoint')
    def kin(axes): return st(sym('KIN'), {F_('cartesian_system_axis'): mk('map', tuple((cs(w), struct(range_min=sym('min', w), range_max=sym('max', w))) for w in axes))})
    def go(axes, ws):
        W = mk('map', tuple((cs(w), tup(sym('from', w), sym('at', w), sym('to', w))) for w in ws))
        return k.run(words_or(F, [], lambda p: kin(axes) if 'Kinematics' in p['t'] else Z if 'ZeroPoint' in p['t'] else W if 'tuple' in p['t'] else sym('P', p['n'])))[1]
    def over(w):
        z = sub(Z, F_(w.lower())) if w in 'XYZ' else ci(0)
        return [below(arith('-', sym('max', w), z), sym('at', w)), below(sym('at', w), arith('-', sym('min', w), z))]
    for w in AX:
        k.limits(f'axis:{w}', f'axis {w} beyond its travel', go(AX, [w]), over(w))
        k.verdict(f'free:{w}', f'axis {w} the machine does not have', go([x for x in AX if x != w], [w]), False)
    for ws in (['X', 'Z'], ['A', 'X', 'Y'], ['B', 'C']):
        k.limits('axes:' + ''.join(ws), f'one of the axes {", ".join(ws)} beyond its travel', go(AX, ws), [x for w in ws for x in over(w)])
    for ws in itertools.permutations(['U', 'X', 'C']): k.limits('foreign:' + ''.join(ws), f'one of the axes {", ".join(ws)} beyond its travel, where the machine has no U', go(AX, ws), [x for w in ws if w != 'U' for x in over(w)])
    k.verdict('axes:none', 'a line before any axis has moved', go(AX, []), False)
def groups(c):
    F = c.F; k = Checker(c, 'CodeGroupsVerifier')
    def m_(d): return mk('map', tuple((struct(code=ci(int(str(a).split('.')[0])), rest=ci(int((str(a) + '.0').split('.')[1]))), mk('map', tuple((cs(g), cs(g)) for g in gs))) for a, gs in d))
    G = m_([(0, 'a'), (1, 'a'), (17, 'b'), (18, 'b'), (90, 'c'), ('5.1', 'd'), (5, 'e'), (61, 'e'), ('61.1', 'd'), (28, ''), (68, 'ab'), (69, 'fb')])
    M = m_([(3, 'a'), (5, 'a'), (8, 'b'), (9, 'b'), (30, 'a')])
    def go(key, what, ws, want, macros=()):
        mm = mk('map', tuple((struct(id=ci(i), line=ci(l)), v) for (i, l), v in macros))
        k.verdict(key, what, k.run(words_or(F, ws, lambda p: mm if 'macro_map_key' in p['t'] else (G if p['n'].lower().startswith('g') else M) if 'CodeGroupValue' in p['t'] else ci(7) if canon_t(p['t']) == 'int' else ci(0) if p['t'] == 'bool' else sym('P', p['n'])))[1], want)
    g = lambda v, v2=None: dec('G', value=v, **(dict(dot='.', value2=v2) if v2 else {}))
    mw = lambda v: dec('M', value=v)
    for a, b in (('0', '1'), ('1', '0'), ('00', '1'), ('1', '1'), ('17', '18'), ('68', '1'), ('68', '17'), ('68', '69'), ('18', '69')): go(f'G{a} G{b}', f'G{a} and G{b} of one group', [g(a), dec('X', value=n), g(b)], True)
    for a, b in (('0', '17'), ('90', '1'), ('28', '28'), ('28', '1'), ('5', '90'), ('1', '69'), ('77', '77'), ('77', '1')): go(f'G{a} G{b}', f'G{a} and G{b} of different groups', [g(a), g(b), dec('X', value=n)], False)
    go('G5.1 G5', 'G5.1 and G5 of different groups', [g('5', '1'), g('5')], False)
    go('G5.1 G61.1', 'G5.1 and G61.1 of one group', [g('5', '1'), g('61', '1')], True)
    go('G61 G5', 'G61 and G5 of one group', [g('61'), g('5')], True)
    go('G61 G61.1', 'G61 and G61.1 of different groups', [g('61'), g('61', '1')], False)
    go('three', 'the third code repeating the group of the first', [g('1'), g('17'), mw('3'), g('0')], True)
    for a, b in (('3', '5'), ('5', '3'), ('8', '9'), ('30', '3'), ('03', '5')): go(f'M{a} M{b}', f'M{a} and M{b} of one group', [mw(a), g('1'), mw(b)], True)
    for a, b in (('3', '8'), ('9', '5'), ('8', '77')): go(f'M{a} M{b}', f'M{a} and M{b} of different groups', [mw(a), mw(b)], False)
    go('G1 M3', 'a G and an M code of equally named groups', [g('1'), mw('3')], False)
    go('M3 G1', 'an M and a G code of equally named groups', [mw('3'), g('0'), mw('8'), g('18')], False)
    go('other', 'equal numbers at other addresses', [g('1'), dec('X', value='0'), dec('T', value='1'), dec('S', value='3'), mw('3')], False)
    go('comment', 'codes in a comment', [g('1'), text('(', cs('G0')), char('G', sym('ch'))], False)
    go('one', 'a single code', [g('1')], False); go('none', 'a line without words', [], False)
def rotation(c):
    F = c.F; k = Checker(c, 'RotationVerifier')
    line = {'S': [dec('S', value=n)], 'M3': [dec('M', value='3')], 'M04': [dec('M', value='04')], 'M5': [dec('M', value='5')], 'G1': [dec('G', value='1'), dec('X', value=n)], 'G0': [dec('G', value='0'), dec('X', value=n)],
            'G83': [dec('G', value='83')], 'S M3': [dec('S', value=n), dec('M', value='3')], 'G1 S M4': [dec('G', value='1'), dec('X', value=m), dec('S', value=n), dec('M', value='4')], 'M30': [dec('M', value='30')],
            'G80': [dec('G', value='80')], 'comment': [text('(', cs('S M3 G1'))], 'G1 S': [dec('G', value='01'), dec('S', value=n)]}
    def eff(w): return ('S' in w.split(), any(x in w.split() for x in ('M3', 'M04', 'M4')), any(x in w.split() for x in ('G1', 'G83')))
    def seqs():
        for a in line: yield (a,)
        for a in line:
            for b in line: yield (a, b)
        short = ('S', 'M3', 'G1', 'G83', 'G0', 'S M3', 'comment', 'M5')
        for a in short:
            for b in short:
                for d in short: yield (a, b, d)
        for a in ('G1', 'S', 'M04'):
            yield (a, 'G1', 'G83', 'G1'); yield (a, 'G1', 'S M3', 'G1')
    cnc = [f['n'] for f in F.record('parser::CncDefaultValues')['fields']]
    if 'operator_turns_on_rotation' not in cnc: raise AnalysisError('anchor vanished: operator_turns_on_rotation')
    memo = {}
    CUT = {1} | set(range(81, 90))
    def single(key, name, seq, want, D):
        s = State(); I = Interp(F); I.write(s, k.THIS, I.zero(NS + 'RotationVerifier')); sts = [(s, ())]
        for ws in seq:
            nx = []
            for s, vs in sts:
                s = s.copy(); s.ctl = None
                nx += [(t, vs + (k.rejects(t),)) for t, _ in k.run(words_or(F, ws, lambda p: D if 'CncDefaultValues' in p['t'] else sym('P', p['n'])), s=s)[1]]
            sts = nx
        for s, vs in sts:
            if None not in vs and list(vs) != want: k.bad(key, f'{name}: {"rejected" if True in vs else "accepted"}'); return
        c.ok(f'RotationVerifier: {name}')
    for op in (0, 1):
        D = st(sym('DEFAULTS'), {F_('operator_turns_on_rotation'): ci(op)})
        def runs(seq):
            """states after the lines of seq, with the verdict on each"""
            if not seq: 
                I = Interp(F); s = State(); I.write(s, k.THIS, I.zero(NS + 'RotationVerifier')); return [(s, ())]
            if (op, seq) in memo: return memo[op, seq]
            out = []
            for s, vs in runs(seq[:-1]):
                s = s.copy(); s.ctl = None
                for t, _ in k.run(words_or(F, line[seq[-1]], lambda p: D if 'CncDefaultValues' in p['t'] else sym('P', p['n'])), s=s)[1]: out.append((t, vs + (k.rejects(t),)))
            memo[op, seq] = out
            return out
        for seq in seqs():
            S = M = G = rep = False; want = []
            for w in seq:
                a, b, d = eff(w); r = False
                if op: r = a or b
                else:
                    S |= a; M |= b; G |= d
                    if G and not (S and M) and not rep: r = rep = True
                want.append(r)
            name = ' / '.join(seq); who = 'operator starts the spindle' if op else 'program starts the spindle'
            for s, vs in runs(seq):
                if None in vs: continue
                if list(vs) != want:
                    i = [x == y for x, y in zip(vs, want)].index(False)
                    k.bad(f'{op}:{seq[i]}', f'lines {name} ({who}): line {i + 1} is {"rejected" if vs[i] else "accepted"}'); break
            else: c.ok(f'RotationVerifier: {name} ({who})')
        for g in list(range(0, 5)) + list(range(72, 100)):
            single(f'{op}:cut G{g}', f'G{g} before the spindle turns ({"operator" if op else "program"} starts it)', [[dec('G', value=str(g))]], [not op and g in CUT], D)
        for mm in list(range(0, 7)) + [13, 30, 34]:
            turn = mm in (3, 4)
            single(f'{op}:start M{mm}', f'G1 after S and M{mm} ({"operator" if op else "program"} starts the spindle)', [[dec('M', value=f'{mm:02}')], [dec('G', value='1')]] if op else [[dec('S', value=n), dec('M', value=f'{mm:02}')], [dec('G', value='1')]], [op and turn, False] if op else [False, not turn], D)
