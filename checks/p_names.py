"""C04: enumerator <-> text conversions agree."""
import re
from absint import *
import models
from core import AnalysisError

def short(q): return q.rsplit('::', 1)[-1]
def enum_of(F, t):
    t = t.replace('const ', '').replace('enum ', '').replace('&', '').strip()
    return F.enums.get(t) if isinstance(F.enums, dict) else None
def rebuild(v, m):
    """v with terms replaced, simplified again"""
    if not isinstance(v, V): return tuple(rebuild(x, m) for x in v) if isinstance(v, tuple) else v
    if v in m: return m[v]
    if v.op in ('c', 's'): return v
    a = tuple(rebuild(x, m) for x in v.a)
    f = {'eq': EQ, 'lt': LT, 'not': NOT, 'empty': EMPTY, 'cat': CAT, 'size': SIZE, 'substr': SUBSTR, 'in': IN, 'sub': sub}.get(v.op)
    if f: return f(*a)
    if v.op in ('and', 'or'):
        cs_ = [x for x in a]
        if v.op == 'and':
            if any(x is FALSE for x in cs_): return FALSE
            if all(x is TRUE for x in cs_): return TRUE
        else:
            if any(x is TRUE for x in cs_): return TRUE
            if all(x is FALSE for x in cs_): return FALSE
    if v.op == 'strfind' and all(is_c(x) for x in a):
        i = cval(a[0]).find(cval(a[1]), cval(a[2])); return ci(i if i >= 0 else (1 << 64) - 1)
    if v.op == 'strcmp' and all(is_c(x) for x in a): return ci((cval(a[0]) > cval(a[1])) - (cval(a[0]) < cval(a[1])))
    return mk(v.op, *a)
def mentions(v, x):
    if v is x: return True
    if isinstance(v, V): return any(mentions(y, x) for y in v.a)
    if isinstance(v, tuple): return any(mentions(y, x) for y in v)
    return False
def consts(v, x, out):
    if isinstance(v, V):
        if v.op == 'eq' and (v.a[0] is x or v.a[1] is x):
            o = v.a[1] if v.a[0] is x else v.a[0]
            if is_str(o): out.add(cval(o))
        for y in v.a: consts(y, x, out)
    elif isinstance(v, tuple):
        for y in v: consts(y, x, out)

def consistent(s, x, t):
    """is the path possible when the text is t?  True / False / None"""
    unk = False
    for a, b in s.conds.items():
        if not mentions(a, x): continue
        r = rebuild(a, {x: cs(t)})
        if is_c(r):
            if bool(cval(r)) != b: return False
        else: unk = True
    for a, b in s.eqc.items():
        if a is x and not (is_str(b) and cval(b) == t): return False
    return None if unk else True

def reader_paths(c, f, E):
    """paths of a text -> value function or operator>>: (text term, [(state, value | 'throw')])"""
    I = Interp(c.F); I.unroll = 200
    if len(f['params']) == 1:
        x = sym('P', 'text')
        rs = I.run(f, args=[x], s=State())
        return I, [(s, x, None if s.ctl else I.val(s, r)) for s, r in rs]
    out = []
    tl = Loc(('P', 'target'))
    rs = I.run(f, args=[Loc(('P', 'stream')), tl], s=State())
    seen = set()
    for s, r in rs:
        for a in list(s.conds): find_out(a, seen)
    xs = sorted(seen, key=repr)
    if len(xs) != 1: raise AnalysisError(f'{f["q"]}({E["q"]}): the text read from the stream is not followed ({len(xs)} texts)')
    return I, [(s, xs[0], None if s.ctl else I.read(s, tl)) for s, r in rs]
def find_out(v, seen):
    if isinstance(v, V):
        if v.op == 'out' or (v.op in ('read', 'extract')): seen.add(v); return
        for y in v.a: find_out(y, seen)
    elif isinstance(v, tuple):
        for y in v: find_out(y, seen)

def check_C04(c):
    F = c.F
    E = {q: e for q, e in F.enums.items()}
    n_en = 0
    for q, e in sorted(E.items()):
        def takes(f, k, ref): return len(f.get('params') or []) > k and f['params'][k]['t'].replace('const ', '').replace('enum ', '').replace('&', '').strip() == q and (('&' in f['params'][k]['t']) == ref or not ref)
        to_s = [f for f in F.fn.values() if short(f['q']) == 'to_string' and takes(f, 0, False) and f.get('body') and len(f['params']) == 1]
        lshift = [f for f in F.fn.values() if f['q'].endswith('operator<<') and takes(f, 1, False) and f.get('body') and len(f['params']) == 2]
        rshift = [f for f in F.fn.values() if f['q'].endswith('operator>>') and takes(f, 1, True) and f.get('body') and len(f['params']) == 2]
        from_s = [f for f in F.fn.values() if f.get('body') and f.get('rt', '').replace('enum ', '').strip() == q and len(f.get('params') or []) == 1 and 'basic_string' in f['params'][0]['t']]
        if not to_s and not rshift: continue
        if not to_s or not (rshift or from_s): continue
        n_en += 1
        vals = {}
        for n, v in e['e']: vals.setdefault(int(v), n)
        texts = {}
        I = Interp(F)
        for v, n in vals.items():
            rs = I.run(to_s[0], args=[ci(v)], s=State())
            got = {('throw' if s.ctl else cval(I.val(s, r)) if is_str(I.val(s, r)) else None) for s, r in rs}
            if len(got) != 1 or None in got: raise AnalysisError(f'{to_s[0]["q"]}({q}): the text of {n} is not constant')
            t = got.pop()
            if t == 'throw' or not t.split():
                c.violation(f'{short(q)}:{n}:text', to_s[0]['f'], to_s[0]['l'], f'{q}::{n} has no usable text form ({t!r})'); continue
            if t.split()[0] in [x.split()[0] for x in texts.values()]:
                o = [vals[k] for k, x in texts.items() if x.split()[0] == t.split()[0]][0]
                c.violation(f'{short(q)}:{n}:distinct', to_s[0]['f'], to_s[0]['l'], f'{q}::{n} and {q}::{o} have texts that are read alike, {t!r}')
            else: c.ok(f'{short(q)}::{n} is written {t!r}')
            texts[v] = t
            for f in lshift:
                w = set()
                for s, r in I.run(f, args=[Loc(('P', 'ostr')), ci(v)], s=State()):
                    if s.ctl: w.add('throw'); continue
                    o = [x for ev in s.ev if ev[0] == 'out' for x in ev[2:]]
                    w.add(''.join(cval(x) for x in flatten(o) if is_str(x)) if o else str_of(I, s))
                if w != {t}: c.violation(f'{short(q)}:{n}:<<', f['f'], f['l'], f'operator<< writes {sorted(map(str, w))} for {q}::{n}, its text is {t!r}')
                else: c.ok(f'operator<< of {short(q)}::{n}')
        for f in from_s + rshift:
            I2, paths = reader_paths(c, f, e)
            known = set()
            for s, x, r in paths:
                for a in s.conds: consts(a, x, known)
            for v, t in texts.items():
                t = t.split()[0]            # a stream reads up to the next blank
                res = set()
                for s, x, r in paths:
                    k = consistent(s, x, t)
                    if k is False: continue
                    if k is None: raise AnalysisError(f'{f["q"]}({q}): a test on the text is not understood: {s.pathstr()[:200]}')
                    r2 = 'throw' if r is None else rebuild(r, {x: cs(t)})
                    res.add(r2)
                if res != {ci(v)}:
                    c.violation(f'{short(q)}:{vals[v]}:{short(f["q"])}', f['f'], f['l'], f'{f["q"]} gives {sorted(vals.get(cval(z), str(z)) if isinstance(z, V) and is_c(z) else str(z) for z in res)} for the text {t!r} of {q}::{vals[v]}')
                else: c.ok(f'{short(f["q"])}({t!r}) is {short(q)}::{vals[v]}')
            # a text that is none of the names
            probe = '\x00no such name'
            bad = None
            for s, x, r in paths:
                k = consistent(s, x, probe)
                if k is False or r is None: continue
                bad = s
            extra = []
            for t in sorted(known - set(texts.values())):
                for s, x, r in paths:
                    if consistent(s, x, t) is not False and r is not None:
                        w = texts.get(cval(r)) if is_c(r) else None
                        if w is None or t not in re.split(r'[\s()]+', w): extra.append(t)     # a word of the full text is fine
            if bad is not None: c.violation(f'{short(q)}:reject:{short(f["q"])}', f['f'], f['l'], f'{f["q"]} accepts a text that names no {q}; path: {bad.pathstr()[:200]}')
            elif extra: c.violation(f'{short(q)}:alias:{short(f["q"])}', f['f'], f['l'], f'{f["q"]} accepts {extra}, which is the text of no {q}')
            else: c.ok(f'{short(f["q"])} rejects other texts')
    c.count('enumerations with text forms', n_en)
    if n_en < 10: raise AnalysisError(f'only {n_en} enumerations with text forms found')
def flatten(o):
    for x in o:
        if isinstance(x, V):
            yield from (x.a if x.op == 'cat' else (x,))
        elif isinstance(x, tuple): yield from flatten(x)
def str_of(I, s):
    v = I.read(s, Loc(('P', 'ostr')))
    out = []
    def w(v):
        if isinstance(v, V):
            if is_str(v): out.append(cval(v))
            else:
                for y in v.a: w(y)
        elif isinstance(v, tuple):
            for y in v: w(y)
    w(v)
    return ''.join(out)
