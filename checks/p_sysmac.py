"""P10: which system macros a line's words set, and to what."""
from absint import *
from words import *
from loops import subterms
from core import AnalysisError
import p_calc

GROUPS = {'B': 2, 'D': 7, 'E': 8, 'F': 9, 'H': 11, 'M': 13, 'N': 14, 'S': 19}
TOOL = 20
def ids(g): return {4100 + g, 4300 + g, 4500 + g}

def entries(v, base):
    """assignments made to the macro values: [(id, line, value)] in order"""
    out = []
    while v is not base:
        if v.op != 'put': raise AnalysisError(f'the macro values written are not followed: {show(v)[:200]}')
        m, k, x = v.a[:3]
        out.append((sub(k, F_('id')), sub(k, F_('line')), x)); v = m
    out.reverse(); return out
def signed(parts, sign):
    """the number a word is written with, as the term its text denotes"""
    t = ([cs(sign)] if sign else []) + parts
    r = [mk('tofloat', CAT(*t) if len(t) > 1 else t[0])]
    if sign == '-': r.append(NEG(mk('tofloat', CAT(*parts) if len(parts) > 1 else parts[0])))
    if sign == '+': r.append(mk('tofloat', CAT(*parts) if len(parts) > 1 else parts[0]))
    return r
def check_P10(c):
    F = c.F
    f = one(F, 'parser::fanuc::SystemMacroAssigner::operator()')
    mp = [p['n'] for p in f['params'] if 'macro_map_key' in p['t']]; lp = [p['n'] for p in f['params'] if p['t'].replace('const ', '').strip() == 'int']; wp = [p['n'] for p in f['params'] if 'boost::variant' in p['t']]
    if len(mp) != 1 or len(lp) != 1 or len(wp) != 1: raise AnalysisError('parameters of SystemMacroAssigner not recognised')
    line = sym('LINE')
    def bad(key, text, g=f): c.violation(key, g['f'], g['l'], text)
    def go(ws):
        I = Interp(F); I.unroll = 200; s = State(); M, W = Loc(('P', mp[0])), Loc(('P', wp[0]))
        base = sym('MACROS'); I.write(s, M, base); I.write(s, W, mk('list', tuple(ws)))
        out = []
        for s1, _ in I.run(f, args={mp[0]: M, lp[0]: line, wp[0]: W}, this=Loc(('O', 'this')), s=s):
            c.count('paths')
            if s1.ctl: out.append((s1, None)); continue
            out.append((s1, entries(I.read(s1, M), base)))
        if not out: raise AnalysisError(f'{f["q"]}: no path found')
        return out
    def expect(key, ws, want, what):
        """want: macro number -> acceptable value terms"""
        for s, es in go(ws):
            when = f' when {s.pathstr()[:140]}' if s.conds else ''
            if es is None: bad(key, f'{what}: an exception leaves the assignment{when}'); return
            got = {}
            for i, l, v in es:
                if not is_num(i): raise AnalysisError(f'{f["q"]}: the macro number {show(i)[:80]} is not constant')
                if l is not line: bad(key, f'{what}: macro #{cval(i)} is recorded for line {show(l)[:60]} instead of the line being checked{when}'); return
                got[int(cval(i))] = v
            miss = sorted(set(want) - set(got)); more = sorted(set(got) - set(want))
            if miss: bad(key, f'{what}: system macro #{miss[0]} is not set{when}'); return
            if more: bad(key, f'{what}: system macro #{more[0]} is set{when}'); return
            for i, v in got.items():
                if v not in want[i]:
                    if not any(x.op == 'tofloat' for x in subterms(v)) and not is_num(v): raise AnalysisError(f'{f["q"]}: the value of macro #{i}, {show(v)[:100]}, is not followed')
                    bad(key, f'{what}: system macro #{i} becomes {show(v)[:80]} instead of {show(want[i][0])[:80]}{when}'); return
        c.ok(what)
    val, fr, v2 = sym('number'), sym('fraction'), sym('number2')
    forms = {'whole': (dict(value=val), [val]), 'fraction': (dict(value=val, dot='.', value2=fr), [val, cs('.'), fr]), 'point': (dict(value=val, dot='.'), [val, cs('.')]),
             'no whole part': (dict(dot='.', value2=fr), [cs('.'), fr])}
    for w, g in GROUPS.items():
        for k, (kw, parts) in forms.items():
            for sg in ('', '-', '+'):
                d = dict(kw)
                if sg: d['sign'] = sg
                expect(f'{w}:{k}{sg}', [dec(w, **d)], {i: signed(parts, sg) for i in ids(g)}, f'{w} word ({k}{", signed " + sg if sg else ""})')
        expect(f'{w}:last', [dec(w, value=val), dec(w, value=v2)], {i: signed([v2], '') for i in ids(g)}, f'two {w} words: the last one counts')
        expect(f'{w}:amid', [text('(', sym('note')), dec('G', value='1'), dec(w, value=val), dec('X', value=v2)], {i: signed([val], '') for i in ids(g)}, f'{w} word among others')
    for w in 'ACGIJKLPQRTUVWXYZ':
        expect(f'{w}:none', [dec(w, value=val)], {}, f'{w} word sets no system macro')
    expect('#:none', [dec('#', value=val)], {}, 'a macro word sets no system macro')
    every = [dec(w, value=sym('number', w)) for w in GROUPS]
    expect('all', every, {i: signed([sym('number', w)], '') for w, g in GROUPS.items() for i in ids(g)}, 'all modal words in one line')
    for x in (text('(', sym('note')), text('O', sym('num')), char('%', sym('ch'))): expect('text', [x], {}, 'a comment or program word sets no system macro')
    W = sym('word')
    for s, es in go([dec(W, value=val)]):
        known = [cval(y) for a, b in s.conds.items() if b and a.op == 'eq' and W in a.a for y in a.a if is_str(y)] + ([cval(s.eqc[W])] if W in s.eqc and is_str(s.eqc[W]) else [])
        if any(k in GROUPS or k == 'O' for k in known) or any(b and a.op == 'in' for a, b in s.conds.items()): continue
        if es: bad('other', f'an arbitrary word sets system macro {show(es[0][0])[:60]} when {s.pathstr()[:140]}')
        elif es is None: bad('other', f'an arbitrary word makes an exception leave when {s.pathstr()[:140]}')
        else: c.ok('any other word sets no system macro')
    # selecting a tool
    g = p_calc.evaluate_fn(F); tool = sym('tool'); want = ids(TOOL); hits = 0
    for cfg in p_calc.tool_configs(F):
        for what, ws in {'T': [dec('T', value=tool)], 'T M6': [dec('T', value=tool), dec('M', value='6')], 'M6 T': [dec('M', value='6'), dec('T', value=tool)], 'T with motion': [dec('T', value=tool), dec('G', value='0'), dec('X', value=val)],
                         'no tool': [dec('G', value='1'), dec('X', value=val), dec('F', value=fr)], 'two T': [dec('T', value=tool), dec('T', value=v2)], 'two T M6': [dec('T', value=tool), dec('T', value=v2), dec('M', value='6')]}.items():
            e = p_calc.Calc(F, cfg); before = sym('TOOL0'); e.set('active_t', before)
            base = sym('MACROS')
            for s, _ in e.line(ws, macros=base, line=line):
                c.count('paths')
                if s.ctl: continue
                t = e.get(s, 'active_t'); got = {}
                when = f' ({cfg.name})' + (f' when {s.pathstr()[:140]}' if s.conds else '')
                for i, l, v in entries(e.macros(s), base):
                    if not is_num(i): raise AnalysisError(f'{g["q"]}: the macro number {show(i)[:80]} is not constant')
                    if l is not line: bad(f'T:{what}:line', f'selecting a tool records macro #{cval(i)} for line {show(l)[:60]}{when}', g); continue
                    got[int(cval(i))] = v
                if t is before:
                    if got: bad(f'T:{what}', f'a line ({what}) that selects no tool sets system macro #{sorted(got)[0]}{when}', g)
                    else: c.ok(f'no tool change: no macro ({what})')
                    continue
                hits += 1
                if set(got) != want:
                    d = sorted(want - set(got)) or sorted(set(got) - want)
                    bad(f'T:{what}', f'selecting a tool ({what}): system macro #{d[0]} is {"not " if d[0] in want else ""}set{when}', g); continue
                for i, v in got.items():
                    if v is not mk('tofloat', t): bad(f'T:{what}:value', f'selecting a tool ({what}): system macro #{i} becomes {show(v)[:80]}, the tool selected is {show(t)[:60]}{when}', g); break
                else: c.ok(f'tool macros ({what})')
    if not hits: raise AnalysisError(f'{g["q"]}: no path selecting a tool found')
