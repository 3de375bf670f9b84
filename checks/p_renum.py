"""P15: renumbering one line, case by case."""
from absint import *
from words import *
from loops import subterms
from core import AnalysisError, walk
from p_rot import wtext
from p_unit import UI, wt, deps
R = 'parser::fanuc::Renumberer'
SETTINGS = 'parser::RenumberSettings'

def literals(fs):
    out = set()
    for f in fs:
        for n in walk([f.get('body'), f.get('inits') or []]):
            if n.get('k') == 'Int':
                try: out.add(int(n['v']))
                except ValueError: pass
    return out

def check_P15(c):
    F = c.F
    ty = {n: int(v) for n, v in F.enum('parser::fanuc::WordType')['e']}
    rec = F.record(SETTINGS)
    need = {'word', 'step', 'frequency', 'max_number', 'existing_only', 'leading_zeroes'}
    if {x['n'] for x in rec['fields']} != need: raise AnalysisError('anchor vanished: the renumber settings have other fields')
    f = one(F, R + '::renumber'); rm = one(F, R + '::remove'); start = one(F, R + '::set_start_value'); reset = one(F, R + '::reset')
    ctor = [g for g in F.fn.values() if g['q'] == R + '::Renumberer' and g.get('kind') == 'ctor' and len(g['params']) == 1 and 'FanucWordGrammar' in g['params'][0]['t'] and not g.get('def')]
    if len(ctor) != 1: raise AnalysisError('anchor vanished: the constructor of Renumberer')
    words = [('N', 'numbering'), (':', 'numbering'), ('X', 'length'), ('G', 'code')]
    G = st(None, {F_(u): mk('map', tuple((cs(w), wt(w, ty[t], u)) for w, t in words)) for u in ('metric', 'imperial')})
    THISL = Loc(('O', 'this')); VL = Loc(('P', f['params'][0]['n'])); SL = Loc(('P', f['params'][1]['n']))
    I0 = UI(F); s0 = State(); GL = Loc(('P', ctor[0]['params'][0]['n'])); I0.write(s0, GL, G)
    base = [s for s, _ in I0.run(ctor[0], args=[GL], this=THISL, s=s0)]
    if len(base) != 1 or base[0].ctl: raise AnalysisError('Renumberer: the constructor is not followed')
    base = base[0]
    # which members are the counter and the position within the frequency
    def state(s): return I0.read(s, THISL)
    cnt = sym('counter')
    r = I0.run(start, args=[cnt], this=THISL, s=base.copy())
    members = [x['n'] for x in F.record(R)['fields']]
    if len(r) != 1: raise AnalysisError('set_start_value is not followed')
    CN = [m for m in members if sub(state(r[0][0]), F_(m)) is cnt]
    if len(CN) != 1:
        c.violation('start', start['f'], start['l'], 'setting the start value does not store it as the next line number'); return
    CN = CN[0]; c.ok('the start value becomes the next number')
    ints = [x['n'] for x in F.record(R)['fields'] if x['t'] in ('unsigned int', 'int', 'size_t', 'unsigned long', 'unsigned') and x['n'] != CN]
    if len(ints) != 1: raise AnalysisError('Renumberer: no single member counts lines for the frequency')
    FN = ints[0]
    r = I0.run(reset, args=[], this=THISL, s=base.copy())
    if sub(state(r[0][0]), F_(CN)) is not sub(state(base), F_(CN)) or sub(state(r[0][0]), F_(FN)) is not sub(state(base), F_(FN)): c.violation('reset', reset['f'], reset['l'], 'numbering does not restart after a reset')
    else: c.ok('reset restores the initial number and frequency position')
    if sub(state(base), F_(CN)) is not ci(1) or sub(state(base), F_(FN)) is not ci(0): c.violation('initial', ctor[0]['f'], ctor[0]['l'], f'numbering starts at {show(sub(state(base), F_(CN)))}, position {show(sub(state(base), F_(FN)))}')
    else: c.ok('numbering starts at 1')
    def go(words_, cfg, counter, pos, fn=f):
        s = base.copy(); I = UI(F)
        I.write(s, VL, mk('list', tuple(words_)))
        I.write(s, SL, st(None, {F_(k): v for k, v in cfg.items()}))
        I.write(s, THISL + F_(CN), counter); I.write(s, THISL + F_(FN), pos)
        out = []
        vl = Loc(('P', fn['params'][0]['n']))
        if fn is not f: I.write(s, vl, mk('list', tuple(words_)))
        for t, _ in I.run(fn, args=[vl, SL][:len(fn['params'])], this=THISL, s=s):
            c.count('paths')
            v = I.read(t, vl)
            if not t.ctl and v.op != 'list': raise AnalysisError(f'{fn["q"]}: the words written are not followed: {show(v)[:160]}')
            out.append((I, t, v))
        if not out: raise AnalysisError(f'{fn["q"]}: no path found')
        return out
    val, fr = sym('number'), sym('fraction')
    rest = [dec('G', value='1'), dec('X', sign='-', value=val, dot='.', value2=fr), text('(', sym('note'))]
    def cfg(**k):
        d = dict(word=cs('N'), step=sym('step'), frequency=ci(0), max_number=sym('max'), existing_only=FALSE, leading_zeroes=FALSE); d.update(k); return d
    lits = sorted({x for x in literals([f]) if 0 < x < 50})
    freqs = sorted({0, 1, 2, 3, 5} | {x + d for x in lits for d in (-1, 0, 1) if x + d >= 0})
    def bad(key, text): c.violation(key, f['f'], f['l'], f'renumbering: {text}')
    lines = {'a line with a number word': ([dec('N', value=val)] + rest, True), 'a line with another number word': ([dec(':', value=val)] + rest, True), 'a line of a number word alone': ([dec('N', value=val)], True),
             'a line without number word': (rest, False), 'a line with a number word later': ([rest[0], dec('N', value=val)], False), 'a line of other text': ([text('IF', sym('cond'))], False),
             'a word with a macro': ([dec('X', macro='#', value=val)], False)}
    skipped = {'an optional block': [dec('/'), dec('N', value=val)] + rest, 'a numbered optional block': [dec('/', value='1')] + rest, 'a percent line': [char('%', sym('ch'))],
               'a program name': [text('O', sym('num'))] + rest, 'a comment line': [text('(', sym('note'))] + rest, 'an empty line': []}
    n0 = sym('n'); 
    for what, ws in skipped.items():
        for ex in (0, 1):
            for fq in (0, 2):
                for I, t, v in go(ws, cfg(existing_only=ci(ex), frequency=ci(fq)), n0, ci(0)):
                    key = f'skip:{what}'
                    if t.ctl: bad(key, f'{what}: an exception leaves')
                    elif v.a[0] != tuple(ws): bad(key, f'{what} becomes {" ".join(wtext(x) for x in v.a[0])}')
                    elif sub(state(t), F_(CN)) is not n0 or sub(state(t), F_(FN)) is not ci(0): bad(key, f'{what} uses up a number')
                    else: c.ok(f'{what} is left alone and uses no number')
    for what, (ws, has) in lines.items():
        tail = ws[1:] if has else ws
        for ex in (0, 1):
            for fq in freqs:
                for pos in range(max(fq, 1)) if fq > 1 else [0]:
                    key = f'{"number" if has else "plain"}:{"existing" if ex else "all"}:{what}:{fq}:{pos}'
                    w = f'{what} (frequency {fq}, position {pos}{", existing numbers only" if ex else ""})'
                    good = True
                    for I, t, v in go(ws, cfg(existing_only=ci(ex), frequency=ci(fq)), n0, ci(pos)):
                        if t.ctl: bad(key, f'{w}: an exception leaves'); good = False; continue
                        o = list(v.a[0]); C2, P2 = sub(state(t), F_(CN)), sub(state(t), F_(FN))
                        if ex and not has:
                            if tuple(o) != tuple(ws): bad(key, f'{w} becomes {" ".join(wtext(x) for x in o)}'); good = False
                            elif C2 is not n0 or P2 is not ci(pos): bad(key, f'{w} uses up a number'); good = False
                            continue
                        numbered = fq < 2 or pos == 0
                        want = ([dec('N', value=mk('tostr', n0))] if numbered else []) + tail
                        if numbered and has and o and len(o) == len(want) and o[0].op == 'var' and fld(o[0], 'value') is some(TOSTR(n0)) and fld(o[0], 'word') is cs('N') and all(fld(o[0], p) is NONE for p in PARTS if p != 'value') and o[1:] == tail: pass
                        elif o != [dec('N', value=TOSTR(n0))] * numbered + tail:
                            bad(key, f'{w} becomes "{" ".join(wtext(x) for x in o)}" instead of "{" ".join(wtext(x) for x in want)}"'); good = False; continue
                        if numbered:
                            nx = arith('+', n0, sym('step'))
                            over = LT(sym('max'), nx)
                            d = I.decide(t, over) if not is_c(over) else bool(cval(over))
                            if C2 is nx:
                                if d is not False: bad(key, f'{w}: the next number is not compared with the maximum'); good = False
                            elif C2 in (sym('rf', 'N', 'metric'), sym('rf', 'N', 'imperial')):
                                if d is not True: bad(key, f'{w}: numbering starts over before the maximum is passed'); good = False
                            else: bad(key, f'{w}: the next number is {show(C2)[:80]}, not one step further'); good = False
                        elif C2 is not n0: bad(key, f'{w}: the next number changes to {show(C2)[:60]} although none was used'); good = False
                        if fq > 1 and P2 is not ci((pos + 1) % fq): bad(key, f'{w}: the position within the frequency becomes {show(P2)[:40]} instead of {(pos + 1) % fq}'); good = False
                        if fq < 2 and P2 is not ci(pos): bad(key, f'{w}: the position within the frequency changes'); good = False
                    if good: c.ok(w)
    # the wrap, at its boundary
    for n_, st_, mx in ((10, 5, 14), (10, 5, 15), (10, 5, 16), (1, 1, 1), (1, 1, 2), (99, 1, 99), (99990, 10, 99999)):
        for I, t, v in go(rest, cfg(step=ci(st_), max_number=ci(mx)), ci(n_), ci(0)):
            C2 = sub(state(t), F_(CN)); exp = ci(n_ + st_) if n_ + st_ <= mx else sym('rf', 'N', 'metric')
            if C2 is not exp: bad('wrap', f'after number {n_} with step {st_} and maximum {mx} comes {show(C2)[:40]}')
            else: c.ok(f'after {n_}, step {st_}, maximum {mx}')
    for I, t, v in go(rest, cfg(word=cs('Q'), step=ci(1), max_number=ci(5)), ci(5), ci(0)):
        C2 = sub(state(t), F_(CN))
        if C2 is not ci(1): bad('wrap:unknown', f'for a word without limits numbering starts over at {show(C2)[:40]}')
        else: c.ok('a word without limits starts over at 1')
    # leading zeroes
    for has, ws in ((True, [dec('N', value=val)] + rest), (False, rest)):
        for I, t, v in go(ws, cfg(leading_zeroes=TRUE), n0, ci(0)):
            x = fld(v.a[0][0], 'value'); cl = deps(I, x)
            w = 'with leading zeroes'
            if len(v.a[0]) != len(rest) + 1 or list(v.a[0][1:]) != rest: bad('zeroes', f'{w} a line becomes {" ".join(wtext(y) for y in v.a[0])}')
            elif n0 not in cl: bad('zeroes', f'{w} the number written is {show(x)[:80]}')
            else: c.ok(f'{w}: the number written is the next one')
    # removing numbers
    vl = rm['params'][0]['n']
    for what, (ws, has) in list(lines.items()) + [(k, (w, False)) for k, w in skipped.items()]:
        for I, t, v in go(ws, cfg(), n0, ci(0), rm):
            want = ws[1:] if has else ws
            if t.ctl or list(v.a[0]) != want: c.violation(f'remove:{what}', rm['f'], rm['l'], f'removing numbers: {what} becomes {" ".join(wtext(x) for x in v.a[0]) if not t.ctl else "an exception"}')
            elif sub(state(t), F_(CN)) is not n0: c.violation(f'remove:{what}', rm['f'], rm['l'], f'removing numbers: {what} changes the next number')
            else: c.ok(f'removing numbers: {what}')
    # settings the library itself makes
    fl = [x['n'] for x in rec['fields']]
    for g in F.fn.values():
        if not g.get('body') or '/parser/' not in g['f'] or 'Wrapper' in g['f']: continue
        for n in walk(g['body']):
            if n.get('k') != 'InitList' or SETTINGS not in str(n.get('t')): continue
            kv = dict(zip(n.get('fields') or fl, n.get('c') or []))
            def iv(k):
                x = kv.get(k)
                while x is not None and x.get('k') == 'Cast': x = x['c'][0]
                return int(x['v']) if x is not None and x.get('k') == 'Int' else None
            stp, mx = iv('step'), iv('max_number')
            if stp == 0: c.violation(f'settings:{g["q"]}:step', g['f'], n.get('l'), f'{g["q"]} numbers lines with step 0')
            elif mx is not None and stp is not None and mx < 1 + stp: c.violation(f'settings:{g["q"]}:max', g['f'], n.get('l'), f'{g["q"]} numbers lines up to {mx}: every line gets the same number')
            else: c.ok(f'{g["q"]}: step {stp}, maximum {mx}')
    # the line operation
    fs = [g for g in F.fn.values() if g['q'] == 'parser::fanuc::AllAttributesParser::renumber' and g.get('body') and any('boost::variant' in p['t'] for p in g['params'])]
    if len(fs) != 1: raise AnalysisError('anchor vanished: AllAttributesParser::renumber')
    line_op(c, F, fs[0], f, 'RenumberSettings')
    fs = [g for g in F.fn.values() if g['q'] == 'parser::fanuc::AllAttributesParser::remove_numbering' and g.get('body') and any('boost::variant' in p['t'] for p in g['params'])]
    if len(fs) != 1: raise AnalysisError('anchor vanished: AllAttributesParser::remove_numbering')
    line_op(c, F, fs[0], rm, None)

def line_op(c, F, g, target, setting):
    vp = [p['n'] for p in g['params'] if 'boost::variant' in p['t']][0]
    sp = [p['n'] for p in g['params'] if setting and setting in p['t']]
    for ok in (1, 0):
        I = Interp(F)
        def oc(s, fr, n, fn, obj, args):
            if fn['u'] == target['u']: s.event('op', args[0] if isinstance(args[0], Loc) else None, args[1] if len(args) > 1 else None); return [(s, sym('void'))]
            if fn['q'].endswith('::simple_parse'): s.event('parse'); return [(s, ci(ok))]
        I.on_call = oc
        k = 0
        for t, r in I.run(g):
            if t.ctl: continue
            k += 1
            ops = [e for e in t.ev if e[0] == 'op']
            nm = target['q'].rsplit('::', 1)[1]
            if ok and (len(ops) != 1 or ops[0][1] != Loc(('P', vp)) or (setting and ops[0][2] != Loc(('P', sp[0])))): c.violation(f'line:{nm}', g['f'], g['l'], f'{g["q"]}: a line that parses is handed to {nm} {len(ops)} time(s), or with other settings')
            elif not any(e[0] == 'parse' for e in t.ev): c.violation(f'line:{nm}:parse', g['f'], g['l'], f'{g["q"]}: the line is not parsed first')
            elif (r is not None) and I.val(t, r) is not ci(ok): c.violation(f'line:{nm}:result', g['f'], g['l'], f'{g["q"]}: the result for a line that {"parses" if ok else "does not parse"} is {show(I.val(t, r))[:40]}')
            else: c.ok(f'{g["q"]}: {nm} once on a line that {"parses" if ok else "does not parse"}')
        if not k: raise AnalysisError(f'{g["q"]}: no path found')
