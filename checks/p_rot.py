"""P06: the rotation applied to each word is the option's proper rotation."""
from absint import *
from words import *
from loops import subterms
from core import AnalysisError

AX = 'XYZ'; CEN = 'IJK'
PLANE = {'17': frozenset('XY'), '18': frozenset('XZ'), '19': frozenset('YZ')}
def rotation(axis, deg):
    """axis word -> (axis word, sign) of a rotation of the coordinate system by deg about axis"""
    a = AX.index(axis); b, c = AX[(a + 1) % 3], AX[(a + 2) % 3]
    m = {axis: (axis, 1)}
    m.update({90: {b: (c, -1), c: (b, 1)}, 180: {b: (b, -1), c: (c, -1)}, 270: {b: (c, 1), c: (b, -1)}}[deg])
    return m
def options(F):
    e = F.enum('parser::AxesRotatingOption')
    out = {}
    for n, v in e['e']:
        m = re.match(r'([XYZ])rotate(90|180|270)degrees$', n)
        if not m: raise AnalysisError(f'rotation option {n} is not named after an axis and an angle')
        out[int(v)] = (n, m.group(1), int(m.group(2)))
    return out
import re

def run_words(F, f, opt, words):
    I = Interp(F); L = Loc(('P', f['params'][1]['n'])); s = State()
    I.write(s, L, mk('list', tuple(words)))
    out = []
    for s1, _ in I.run(f, args=[ci(opt), L], this=Loc(('O', 'this')), s=s):
        out.append((s1, I.read(s1, L)))
    if not out: raise AnalysisError(f'{f["q"]}: no path found')
    return I, out
def expect(m, word, signs, kw):
    w, sg = m
    d = dict(kw); d.pop('sign', None)
    if sg == 1: return dec(w, **kw)
    if signs == '-': return dec(w, **d)
    return dec(w, sign='-', **d)

def check_P06(c):
    F = c.F
    f = one(F, 'parser::fanuc::AxesRotator::operator()')
    opts = options(F)
    if len(opts) != 9: raise AnalysisError(f'{len(opts)} rotation options')
    def same(a, b): return a is b
    for ov, (on, axis, deg) in sorted(opts.items()):
        R = rotation(axis, deg)
        def bad(key, text): c.violation(f'{on}:{key}', f['f'], f['l'], f'{on}: {text}')
        def expect_list(key, words, want, what):
            I, rs = run_words(F, f, ov, words)
            for s, v in rs:
                if s.ctl: bad(key, f"{what}: {s.ctl[1]} leaves the rotation"); return
                if v.op != 'list' or len(v.a[0]) != len(want): raise AnalysisError(f'{f["q"]}: result for {what} is not followed: {show(v)[:150]}')
                for k, (x, y) in enumerate(zip(v.a[0], want)):
                    if x is not y and murky(s): raise AnalysisError(f'{f["q"]}: a path for {what} is not followed: {s.pathstr()[:200]}')
                    if x is not y: bad(key, f'{what} becomes {wtext(x)} instead of {wtext(y)}' + (f' when {s.pathstr()[:160]}' if s.conds else '')); return
            c.ok(f'{on}: {what}')
        val = sym('number'); frac = sym('fraction')
        forms = {'plain': dict(value=val), 'fraction': dict(value=val, dot='.', value2=frac), 'macro': dict(macro='#', value=val), 'bracket': dict(open_bracket='['), 'assigned': dict(assign='=', value=val)}
        for words in (AX, CEN):
            for w in words:
                t, sg = R[AX[words.index(w)]]; t = words[AX.index(t)]
                for fn_, kw in forms.items():
                    for sign in ('', '-', '+'):
                        k2 = dict(kw); 
                        if sign: k2['sign'] = sign
                        expect_list(f'{w}:{fn_}{sign}', [dec(w, **k2)], [expect((t, sg), w, sign, k2)], f'the word {w}{sign} ({fn_})')
        for g, pl in PLANE.items():
            img = frozenset(R[x][0] for x in pl)
            tg = [k for k, v in PLANE.items() if v == img][0]
            expect_list('G' + g, [dec('G', value=g)], [dec('G', value=tg)], f'the plane code G{g}')
        swap = R['Z'][1] < 0
        for g, o in (('2', '3'), ('3', '2')):
            expect_list('G' + g, [dec('G', value=g)], [dec('G', value=o if swap else g)], f'the arc code G{g}')
            I, rs = run_words(F, f, ov, [dec('G', value='0' + g)])
            for s, v in rs:
                got = fld(v.a[0][0], 'value') if v.op == 'list' and not s.ctl else None
                ok = got is not None and got.op == 'opt' and got.a and is_str(got.a[0]) and cval(got.a[0]).lstrip('0') == (o if swap else g)
                if not ok: bad('G0' + g, f'the arc code G0{g} becomes {wtext(v.a[0][0]) if v.op == "list" else v} instead of G{o if swap else g}')
                else: c.ok(f'{on}: the arc code G0{g}')
        for g in list(PLANE) + ['2', '3']:
            expect_list(f'G#{g}', [dec('G', macro='#', value=g)], [dec('G', macro='#', value=g)], f'the macro reference G#{g}')
        # everything else stays
        I, rs = run_words(F, f, ov, [dec('G', value=val)])
        codes = set(PLANE) | {'2', '3'}
        n = 0
        for s, v in rs:
            if s.ctl: bad('G:other', 'an exception leaves the rotation for some G code'); continue
            x = v.a[0][0]
            if x is dec('G', value=val): n += 1; continue
            if s.eqc.get(val) is not None or any(b and a.op == 'eq' for a, b in s.conds.items()): continue   # one of the codes above
            bad('G:other', f'a G code other than planes and arcs becomes {wtext(x)}')
        if not n: bad('G:other', 'no G code is left unchanged')
        else: c.ok(f'{on}: other G codes stay')
        W = sym('word')
        for fn_, kw in list(forms.items()) + [('signed', dict(value=val, sign='-'))]:
            I, rs = run_words(F, f, ov, [dec(W, **kw)])
            n = 0
            for s, v in rs:
                if any(b and a.op == 'eq' and W in a.a and any(is_str(y) and cval(y) in set(AX + CEN + 'G') for y in a.a) for a, b in s.conds.items()) or (W in s.eqc and cval(s.eqc[W]) in set(AX + CEN + 'G')): continue
                if s.ctl: bad(f'other:{fn_}', f'an exception leaves the rotation for a word other than axes, centres and G'); continue
                if v.a[0][0] is not dec(W, **kw): bad(f'other:{fn_}', f'a word other than axes, centres and G becomes {wtext(v.a[0][0])}' + (f' when {s.pathstr()[:160]}' if s.conds else '')); continue
                n += 1
            if n: c.ok(f'{on}: other words stay ({fn_})')
        for x in (text('(', sym('note')), text('O', sym('num')), char('%', sym('ch'))): expect_list('text', [x], [x], 'a comment or program word')
        expect_list('all', [dec('X', value=val), text('(', sym('note')), dec('G', value='17'), dec('K', value=frac)],
                    [expect(R['X'], 'X', '', dict(value=val)), text('(', sym('note')), dec('G', value=[k for k, v in PLANE.items() if v == frozenset(R[x][0] for x in 'XY')][0]),
                     expect((CEN[AX.index(R['Z'][0])], R['Z'][1]), 'K', '', dict(value=frac))], 'a line of several words')
    # the line operation hands over its option and the parsed words
    for g in [g for g in F.fn.values() if g['q'] == 'parser::fanuc::AllAttributesParser::rotate_axes' and g.get('body')]:
        if not any('boost::variant' in p['t'] for p in g['params']): continue
        I = Interp(F); I.opaque = {'simple_parse'}; got = []
        def oc(s, fr, n, fn, obj, args):
            if fn['u'] == f['u']:
                t = s.copy(); t.event('rotate', I.val(s, args[0]), args[1] if isinstance(args[1], Loc) else None); return [(t, sym('void'))]
            if fn['q'].endswith('::simple_parse'):
                t = s.copy(); t.event('parsed'); b = s.copy(); return [(t, ci(1)), (b, ci(0))]
        I.on_call = oc
        op = [p['n'] for p in g['params'] if 'AxesRotatingOption' in p['t']][0]; vp = [p['n'] for p in g['params'] if 'boost::variant' in p['t']][0]
        for s, r in I.run(g):
            if ('parsed',) not in s.ev or s.ctl: continue
            k = [e for e in s.ev if e[0] == 'rotate']
            if len(k) != 1 or k[0][1] is not sym('P', op) or k[0][2] != Loc(('P', vp)): c.violation('rotate_axes', g['f'], g['l'], f'{g["q"]}: a line that parses is rotated {len(k)} time(s), or not by the requested option')
            else: c.ok('rotate_axes applies the requested option once')

def murky(s):
    return any(x.op in ('call', 'strsearch', 'out', 'any') for a in s.conds for x in subterms(a))

def wtext(v):
    if v.op != 'var': return show(v)[:80]
    x = v.a[1]; out = ''
    for p in ('word',) + PARTS:
        y = sub(x, F_(p))
        if y.op == 'opt': y = y.a[0] if y.a else None
        if y is None or y.op == 'sub': continue
        out += chr(cval(y)) if is_num(y) and 32 <= cval(y) < 127 else cval(y) if is_str(y) else f'<{show(y)}>'
    return out
