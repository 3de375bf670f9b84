"""P14: what unit conversion does to each word form."""
from absint import *
from words import *
from loops import subterms
from core import AnalysisError
import math

class UI(Interp):
    """records number formatting and trimming, and what loops compute"""
    def __init__(self, F):
        super().__init__(F); self.loopinfo = {}
    def loop_hook(self, n, fr, h, go, done):
        if not self.quiet: self.loopinfo.setdefault(nid(n), []).append((n, self.loop_pre, h, list(go), list(done)))
    def on_libcall(self, s, fr, n, q, obj, args):
        nm = q.rsplit('::', 1)[-1]
        if nm == 'setprecision' or (nm == 'precision' and args):
            s.event('prec', self.val(s, args[0]))
        elif nm in ('trim_right_if', 'trim_right_copy_if') and len(args) > 1:
            p = self.val(s, args[1])
            s.event('trim', self.val(s, args[0]), frozenset(cval(x) for x in subterms(p) if is_str(x)), n.get('l'))
        return None
def never(I, s, a): return not cval(a) if is_c(a) else I.decide(s, a) is False
def deps(I, v):
    from p_server import closure
    return closure(I, v)

def wt(name, ty, tag): return st(None, {F_('word'): cs(name), F_('range_from'): sym('rf', name, tag), F_('range_to'): sym('rt', name, tag), F_('decimal_from'): sym('df', name, tag),
                                        F_('decimal_to'): sym('dt', name, tag), F_('unique'): sym('un', name, tag), F_('word_type'): ci(ty)})
LETTER = {'misc': 'Q', 'angle': 'A', 'calc': 'C', 'code': 'G', 'feed': 'F', 'length': 'X', 'macro': '#', 'numbering': 'N', 'assignable': 'R'}
def check_P14(c):
    F = c.F
    ty = {n: int(v) for n, v in F.enum('parser::fanuc::WordType')['e']}
    for t in ('length', 'feed'):
        if t not in ty: raise AnalysisError(f'anchor vanished: word type {t}')
    words = []; spare = iter('BDEHKLPSTUVW')
    for t in sorted(ty): words.append((LETTER.get(t) or next(spare), t))
    U = 'parser::fanuc::UnitConverter'
    ctor = [g for g in F.fn.values() if g['q'] == U + '::UnitConverter' and g.get('kind') == 'ctor' and len(g['params']) == 1 and 'FanucWordGrammar' in g['params'][0]['t'] and not g.get('def')]
    if len(ctor) != 1: raise AnalysisError(f'{U}: no constructor from the word limits')
    G = st(None, {F_(u): mk('map', tuple((cs(w), wt(w, ty[t], u)) for w, t in words)) for u in ('metric', 'imperial')})
    for d, (fname, op, here, there) in {'to inches': ('mm_to_inch', '/', '21', '20'), 'to millimetres': ('inch_to_mm', '*', '20', '21')}.items():
        f = one(F, f'{U}::{fname}')
        def bad(key, text): c.violation(f'{fname}:{key}', f['f'], f['l'], f'conversion {d}: {text}')
        def go(ws):
            I = UI(F); s = State(); L = Loc(('P', ctor[0]['params'][0]['n'])); I.write(s, L, G)
            P = Loc(('P', f['params'][0]['n'])); out = []
            for s1, _ in I.run(ctor[0], args=[L], this=Loc(('O', 'this')), s=s):
                if s1.ctl: raise AnalysisError(f'{U}: the constructor does not return')
                s2 = s1.copy(); s2.ev = (); I.write(s2, P, mk('list', tuple(ws)))
                for s3, _ in I.run(f, args=[P], this=Loc(('O', 'this')), s=s2):
                    c.count('paths')
                    v = I.read(s3, P)
                    if not s3.ctl and (v.op != 'list' or len(v.a[0]) != len(ws)):
                        if v.op == 'list': bad('words', f'a line of {len(ws)} word(s) becomes one of {len(v.a[0])}'); continue
                        raise AnalysisError(f'{f["q"]}: the words written are not followed: {show(v)[:200]}')
                    out.append((I, s3, v))
            if not out and not c.viol: raise AnalysisError(f'{f["q"]}: no path found')
            return out
        val, fr, W = sym('number'), sym('fraction'), sym('word')
        def same(key, ws, want, what):
            for I, s, v in go(ws):
                if s.ctl: bad(key, f'{what}: {s.ctl[1] if len(s.ctl) > 1 else s.ctl[0]} leaves the conversion'); return
                for x, y in zip(v.a[0], want):
                    if y is not None and x is not y: bad(key, f'{what}: {wtext(y)} expected, {wtext(x)} left' + (f' when {s.pathstr()[:160]}' if s.conds else '')); return
            c.ok(f'{d}: {what}')
        def scaled(key, w, kw, what, before=(), idx=0):
            parts = [kw[k] if not isinstance(kw[k], str) else cs(kw[k]) for k in ('value', 'dot', 'value2') if k in kw]
            src = mk('tofloat', CAT(*parts) if len(parts) > 1 else parts[0])
            for I, s, v in go(list(before) + [dec(w, **kw)]):
                if s.ctl: bad(key, f'{what}: {s.ctl[1] if len(s.ctl) > 1 else s.ctl[0]} leaves the conversion'); return
                x = v.a[0][-1]; old = dec(w, **kw)
                for p in ('word', 'assign', 'sign', 'open_bracket', 'macro', 'close_bracket'):
                    if fld(x, p) is not fld(old, p): bad(key, f'{what}: its {p} becomes {show(fld(x, p))[:80]}'); return
                pv = [fld(x, p) for p in ('value', 'dot', 'value2')]
                if not pv[0].a: bad(key, f'{what}: no value is left'); return
                cl = deps(I, pv[0].a[0] if pv[0].op == 'opt' else pv[0])
                sc = [y for y in cl if y.op in ('*', '/') and any(is_num(z) for z in y.a)]
                raw = [y for y in cl if y.op == 'tofloat']
                if not raw: bad(key, f'{what}: the value left, {show(pv[0])[:100]}, is not computed from its number' + (f' when {s.pathstr()[:120]}' if s.conds else '')); return
                if any(y is not src for y in raw): bad(key, f'{what}: converted from {show(raw[0])[:100]} instead of the number written'); return
                good = [y for y in sc if (y.op == op and any(is_num(z) and cval(z) == 25.4 for z in y.a) and src in y.a and (op == '*' or y.a[0] is src))
                        or (op == '/' and y.op == '*' and src in y.a and any(is_num(z) and abs(cval(z) - 1 / 25.4) < 1e-17 for z in y.a))]
                if not good: bad(key, f'{what}: the value is {show(sc[0])[:80] if sc else "not scaled"}, expected the number {"divided" if op == "/" else "multiplied"} by 25.4'); return
                if len([y for y in sc if src in deps(I, y)]) > 1: bad(key, f'{what}: the value is scaled more than once'); return
                # how the converted number is laid out
                if pv[0].op == 'opt' and pv[0].a[0].op == 'substr' and pv[2].op == 'opt' and pv[2].a and pv[2].a[0].op == 'substr':
                    a, b = pv[0].a[0], pv[2].a[0]
                    pos = mk('strfind', a.a[0], cs('.'), ci(0))
                    if a.a[0] is b.a[0] and (a.a[1] is not ci(0)): bad(key + ':split', f'{what}: the digits before the point do not start at the beginning'); return
                    if a.a[0] is b.a[0] and len(a.a) > 2 and a.a[2].op == 'strfind' and b.a[1] is not arith('+', a.a[2], ci(1)): bad(key + ':split', f'{what}: the digits after the point are taken from {show(b.a[1])[-40:]}, not from right after it'); return
                    if pv[1] is not some(ci(ord('.'))): bad(key + ':split', f'{what}: digits after the point, but the point is {show(pv[1])[:40]}'); return
                elif pv[2].op == 'opt' and not pv[2].a and pv[1].a and not any(b and a.op == 'empty' for a, b in s.conds.items()): bad(key + ':split', f'{what}: a point without digits after it'); return
                prec = [e[1] for e in s.ev if e[0] == 'prec']
                for e in s.ev:
                    if e[0] == 'trim' and '0' in ''.join(e[2]) and prec and never(I, s, LT(ci(0), prec[-1])):
                        c.violation(f'{fname}:trim', f['f'], e[3], f'conversion {d}: {what}: zeros are cut off the end of a number written without decimals'); return
            c.ok(f'{d}: {what} is scaled by 25.4')
        forms = {'plain': dict(value=val), 'fraction': dict(value=val, dot='.', value2=fr), 'point': dict(value=val, dot='.'), 'no whole part': dict(dot='.', value2=fr)}
        for w, t in words:
            if t in ('length', 'feed'):
                for k, kw in forms.items():
                    for sg in ('', '-', '+'):
                        k2 = dict(kw)
                        if sg: k2['sign'] = sg
                        scaled(f'{t}:{k}{sg}', w, k2, f'a {t} word ({k}{", signed " + sg if sg else ""})')
                scaled(f'{t}:assign', w, dict(assign='=', value=val), f'a {t} word with an assignment sign')
                scaled(f'{t}:later', w, dict(value=val), f'a {t} word after other words', [text('(', sym('note')), dec('M', value='3'), dec('G', value='1')])
                for k, kw in {'macro': dict(macro='#', value=val), 'bracket': dict(open_bracket='['), 'bracketed macro': dict(open_bracket='[', macro='#', value=val), 'close': dict(value=val, close_bracket=']')}.items():
                    same(f'{t}:{k}', [dec(w, **kw)], [dec(w, **kw)], f'a {t} word with an expression ({k}) stays')
            elif w != 'G':
                for k, kw in list(forms.items()) + [('signed', dict(sign='-', value=val))]:
                    same(f'{t}:{k}', [dec(w, **kw)], [dec(w, **kw)], f'a word of type {t} stays ({k})')
        # unit codes
        for z in ('', '0'):
            same(f'G{z}{here}', [dec('G', value=z + here)], [dec('G', value=there)], f'G{z}{here} becomes G{there}')
            same(f'G{z}{there}', [dec('G', value=z + there)], [dec('G', value=z + there)], f'G{z}{there} stays')
        for g in ('0', '1', '2', '3', '17', '28', '54', '90', '91', '98'):
            same(f'G{g}', [dec('G', value=g)], [dec('G', value=g)], f'G{g} stays')
            scaled(f'G{g}:X', 'X', dict(value=val), f'a length word after G{g}', [dec('G', value=g)])
        for h in ('20', '21'): same(f'G#{h}', [dec('G', macro='#', value=h)], [dec('G', macro='#', value=h)], f'the macro reference G#{h} stays')
        for h in ('4', '68', '20'): scaled(f'G#{h}:X', 'X', dict(value=val), f'a length word after the macro reference G#{h}', [dec('G', macro='#', value=h)])
        # dwell, optional blocks, text
        rest = [dec('X', value=val, dot='.', value2=fr), dec('F', value=val), dec('G', value=here)]
        for g in ('4', '04'): same(f'dwell{g}', [dec('G', value=g)] + rest, [dec('G', value=g)] + rest, f'a dwell line (G{g}) stays')
        same('dwell:N', [dec('N', value=val), dec('G', value='4')] + rest, [dec('N', value=val), dec('G', value='4')] + rest, 'a numbered dwell line stays')
        for k, o in {'plain': dec('/'), 'numbered': dec('/', value='2')}.items(): same(f'optional:{k}', [o] + rest, [o] + rest, f'an optional-block line stays ({k})')
        for x in (text('(', sym('note')), text('O', sym('num')), char('%', sym('ch'))): same('text', [x], [x], 'a comment or program word stays')
        n = 0
        for I, s, v in go([dec(W, value=val)]):
            known = [cval(s.eqc[W])] if W in s.eqc and is_str(s.eqc[W]) else [cval(y) for a, b in s.conds.items() if b and a.op == 'eq' and W in a.a for y in a.a if is_str(y)]
            if any(k in [w for w, t in words if t in ('length', 'feed')] + ['G', '/'] for k in known): continue
            if s.ctl: bad('other', f'an exception leaves the conversion for a word it does not convert')
            elif v.a[0][0] is not dec(W, value=val): bad('other', f'a word without limits becomes {wtext(v.a[0][0])} when {s.pathstr()[:160]}')
            else: n += 1
        if n: c.ok(f'{d}: words without limits stay')
    # the line operation
    fs = [g for g in F.fn.values() if g['q'] == 'parser::fanuc::AllAttributesParser::convert_length' and g.get('body') and any('boost::variant' in p['t'] for p in g['params'])]
    if len(fs) != 1: raise AnalysisError('anchor vanished: AllAttributesParser::convert_length')
    g = fs[0]; opn = [p['n'] for p in g['params'] if 'UnitConversionType' in p['t']]; vp = [p['n'] for p in g['params'] if 'boost::variant' in p['t']]
    if len(opn) != 1: raise AnalysisError('anchor vanished: the direction of convert_length')
    for en, ev in F.enum('parser::UnitConversionType')['e']:
        for ok in (1, 0):
            I = Interp(F); hits = 0
            def oc(s, fr, n, fn, obj, args):
                if fn['q'].startswith(U + '::') and fn['q'].rsplit('::', 1)[1] in ('mm_to_inch', 'inch_to_mm'):
                    s.event('convert', fn['q'].rsplit('::', 1)[1], args[0] if isinstance(args[0], Loc) else None); return [(s, sym('void'))]
                if fn['q'].endswith('::simple_parse'): s.event('parse', ok); return [(s, ci(ok))]
            I.on_call = oc
            s = State()
            for t, r in I.run(g, args={opn[0]: ci(int(ev))}, s=s):
                if t.ctl: continue
                hits += 1
                cv = [e for e in t.ev if e[0] == 'convert']
                want = {'metric_to_imperial': 'mm_to_inch', 'imperial_to_metric': 'inch_to_mm'}.get(en)
                r = I.val(t, r)
                if not any(e[0] == 'parse' for e in t.ev): c.violation(f'line:{en}:parse', g['f'], g['l'], f'{g["q"]}: a line is converted without being parsed first')
                elif not ok and (cv or r is not FALSE): c.violation(f'line:{en}:failed', g['f'], g['l'], f'{g["q"]}: a line that does not parse is ' + ('converted' if cv else 'reported as converted'))
                elif ok and ([e[1] for e in cv] != [want] or cv[0][2] != Loc(('P', vp[0]))): c.violation(f'line:{en}', g['f'], g['l'], f'{g["q"]}: for {en} the words of the line are handed to {[e[1] for e in cv]}')
                elif ok and r is not TRUE: c.violation(f'line:{en}:result', g['f'], g['l'], f'{g["q"]}: a converted line is reported as {show(r)[:40]}')
                else: c.ok(f'convert_length {en}: ' + (f'{want} applied once to a line that parses' if ok else 'nothing done to a line that does not parse'))
            if not hits: raise AnalysisError(f'{g["q"]}: no path found for {en}')
from p_rot import wtext
