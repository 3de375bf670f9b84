"""M01: message tables, formatters and the places that issue messages."""
from absint import *
import models
from core import walk, AnalysisError

def short(q): return q.rsplit('::', 1)[-1]
def tables(F, I):
    out = {}
    for u, v in F.vars.items():
        if 'MessageText[' in (v.get('t') or '') and v.get('x') is not None:
            val = I.val(State(), Loc(('G', u)))
            if val.op != 'list': raise AnalysisError(f'the message table {v["q"]} has no constant value')
            out[v['q']] = (v, val)
    return out
def strip(v):
    while v.op in ('chr', 'tostr') and isinstance(v.a[0], V): v = v.a[0]
    return v
def holes(p):
    """(before the first piece, between pieces, after the last piece): True, False or None (either)"""
    lead = p[0].startswith(' ')
    x = p[-1]
    trail = True if x.endswith(' ') else None if x.endswith('#') or x[-2:-1] == ' ' else False    # "... address G" may be followed by the number
    return lead, len(p) - 1, trail
def expected(p, args):
    lead, inner, trail = holes(p)
    out = []
    for tr in ((True, False) if trail is None else (trail,)):
        if lead + inner + tr != len(args): continue
        parts = []; a = list(args)
        if lead: parts.append(a.pop(0))
        for i, x in enumerate(p):
            parts.append(cs(x))
            if a and (i < len(p) - 1 or tr): parts.append(a.pop(0))
        out.append(CAT(*parts))
    return out

def check_M01(c):
    F = c.F; I = Interp(F); I.unroll = 80
    names = F.enum('parser::fanuc::MessageName'); langs = F.enum('parser::ELanguage')
    nm = {int(v): n for n, v in names['e']}
    count = [int(v) for n, v in names['e'] if n == 'COUNT']
    lang = {int(v): n for n, v in langs['e']}
    T = tables(F, I)
    if len(T) < 2: raise AnalysisError('fewer than two message tables found')
    pieces = {}
    for q, (var, val) in T.items():
        d = {}
        for e in val.a[0]:
            k = sub(e, F_('msg_name')); l = sub(e, F_('msg_list'))
            if not is_num(k) or l.op != 'list' or not all(is_str(x) for x in l.a[0]): raise AnalysisError(f'{q}: an entry is not constant')
            d.setdefault(int(cval(k)), []).append([cval(x) for x in l.a[0]])
        f, ln = var.get('f'), var.get('l')
        for v, n in nm.items():
            if v in count or n == 'COUNT': continue
            k = len(d.get(v, []))
            if k != 1: c.violation(f'{q}:{n}:entries', f, ln, f'{q} has {k} texts for {n}, exactly one expected')
            elif not d[v][0] or not ''.join(d[v][0]).strip(): c.violation(f'{q}:{n}:blank', f, ln, f'{q}: the text for {n} is empty')
            else: c.ok(f'{q} has one text for {n}')
        pieces[q] = {v: x[0] for v, x in d.items() if len(x) == 1 and x[0]}
    qs = sorted(pieces)
    for v, n in nm.items():
        hs = {q: holes(pieces[q][v]) for q in qs if v in pieces[q]}
        if len(hs) < len(qs): continue
        poss = [{h[0] + h[1] + t for t in ((0, 1) if h[2] is None else (h[2],))} for h in hs.values()]
        if not set.intersection(*poss): c.violation(f'{n}:holes', T[qs[0]][0].get('f'), T[qs[0]][0].get('l'), f'{n}: the texts insert different numbers of arguments: ' + ', '.join(f'{short(q)} {pieces[q][v]}' for q in qs))
        else: c.ok(f'{n}: same number of inserted arguments in {len(qs)} languages')
    # formatters: functions taking (MessageName, ELanguage, arguments...)
    def is_fmt(f):
        p = f.get('params') or []
        return len(p) >= 2 and 'MessageName' in p[0]['t'] and 'ELanguage' in p[1]['t'] and 'basic_string' in (f.get('rt') or '')
    fmts = {u: f for u, f in F.fn.items() if is_fmt(f) and f.get('body') and not f.get('dep')}
    if not fmts: raise AnalysisError('no message formatter found')
    memo = {}
    def text(f, name, lg):
        k = (f['u'], name, lg)
        if k not in memo:
            args = [sym('arg', i) for i in range(len(f['params']) - 2)]
            rs = {I.val(t, r) for t, r in I.run(f, args=[ci(name), ci(lg)] + args, s=State()) if not t.ctl and r is not None}
            memo[k] = (args, rs)
        return memo[k]
    # which table serves which language: by what the formatter without arguments (or with one) returns
    used = {}
    for lg, ln_ in lang.items():
        cand = set(qs)
        f0 = sorted(fmts.values(), key=lambda f: len(f['params']))[0]
        for v in nm:
            if v in count: continue
            a, rs = text(f0, v, lg)
            if len(rs) != 1: raise AnalysisError(f'{f0["q"]}: no single result for {nm[v]}')
            flat = [x for x in (lambda r: r.a if r.op == 'cat' else (r,))(next(iter(rs)))]
            got = ''.join(cval(x) for x in flat if is_str(x))
            cand = {q for q in cand if v not in pieces[q] or ''.join(pieces[q][v]) == got}
        if not cand:
            c.violation(f'language:{ln_}', f0['f'], f0['l'], f'{f0["q"]}: messages in {ln_} do not come from a message table'); continue
        used[lg] = sorted(cand)[0]
    inv = {}
    for lg, q in used.items(): inv.setdefault(q, []).append(lang[lg])
    for q, ls in inv.items():
        if len(ls) > 1: c.violation(f'{q}:shared', T[q][0].get('f'), T[q][0].get('l'), f'languages {", ".join(ls)} use the same table {q}')
    # places that issue a message
    seen = set(); unresolved = 0; sites = 0
    for g in F.fn.values():
        if g.get('dep') or is_fmt(g) or g['u'] in fmts: continue
        for root in [g.get('body')] + [i.get('x') for i in g.get('inits') or []]:
            for n in walk(root or {}, False):
                if n.get('k') != 'Call' or n.get('u') not in fmts: continue
                f = fmts[n['u']]
                sites += 1
                x = n['c'][0]
                cands = [y for y in walk(x, False) if y.get('k') == 'EnumRef' and 'MessageName' in y.get('q', '')]
                if not cands: unresolved += 1; continue
                for e in cands:
                    v = int(e['v'])
                    for lg in used:
                        key = f'{short(g["q"])}:{e["n"]}:{len(f["params"]) - 2}:{lang[lg]}'
                        if (g['f'], n['l'], key) in seen: continue
                        seen.add((g['f'], n['l'], key))
                        p = pieces[used[lg]].get(v)
                        if not p: continue
                        args, rs = text(f, v, lg)
                        if len(rs) != 1: raise AnalysisError(f'{f["q"]}: no single result')
                        r = next(iter(rs))
                        r = CAT(*[strip(y) if not is_str(y) else y for y in (r.a if r.op == 'cat' else (r,))])
                        if any('loopv' in repr(y) for y in (r.a if r.op == 'cat' else (r,))): raise AnalysisError(f'{f["q"]}: result not followed: {show(r)[:100]}')
                        if r in expected(p, args): c.ok(f'{g["q"]}:{n["l"]} {e["n"]} in {lang[lg]}: {len(args)} arguments')
                        else: c.violation(key, g['f'], n['l'], f'{g["q"]} issues {e["n"]} with {len(args)} arguments; the text in {lang[lg]} is {p}; the result reads {show(r)[:200]}')
    c.count('places that issue a message', sites); c.count('formatter instances', len(fmts)); c.count('places whose message is not a constant', unresolved)
    if sites < 20: raise AnalysisError(f'only {sites} places that issue messages found')
