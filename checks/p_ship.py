"""C03: every control driver the server accepts has its directory of configuration files, and the readers accept them completely.
The readers are interpreted over a symbolic document to learn which entries, of which type, they ask for; the places that make the
readers are interpreted for each driver to learn which files are asked for; the shipped files are then compared with both."""
import json, os, re
from absint import *
import core, models
from core import AnalysisError, walk
from loops import subterms
from p_conf import Conf, Check, fresh_check, once, fresh, READERS, N, S, scalar, STDX
import p_names
DESC = [S + 'CodesReader', S + 'MacrosDescReader']
ALL = READERS + DESC
DRIVER = N + 'EFanucParserType'

# ------------------------------------------------------------------------------------------------ text forms of an enumeration
def text_forms(c, q):
    """(texts written: value -> text, accepted: text -> value | None)"""
    F = c.F; e = F.enums.get(q)
    if not e: raise AnalysisError(f'anchor vanished: enumeration {q}')
    def takes(f, k): return len(f.get('params') or []) > k and f['params'][k]['t'].replace('const ', '').replace('enum ', '').replace('&', '').strip() == q
    wr = [f for f in F.fn.values() if f['q'].endswith('operator<<') and takes(f, 1) and f.get('body')]
    rd = [f for f in F.fn.values() if f['q'].endswith('operator>>') and takes(f, 1) and f.get('body')]
    if len(rd) != 1: raise AnalysisError(f'anchor vanished: operator>> of {q}')
    out = {}
    for n, v in e['e']:
        for f in wr[:1]:
            I = Interp(F); w = set()
            for s, r in I.run(f, args=[Loc(('P', 'ostr')), ci(int(v))], s=State()):
                if s.ctl: continue
                o = [x for ev in s.ev if ev[0] == 'out' for x in ev[2:]]
                w.add(''.join(cval(x) for x in p_names.flatten(o) if is_str(x)) if o else p_names.str_of(I, s))
            if len(w) == 1: out[int(v)] = w.pop()
    I, paths = p_names.reader_paths(c, rd[0], e)
    known = set()
    for s, x, r in paths:
        for a in s.conds: p_names.consts(a, x, known)
    def accept(t):
        t = t.split()[0] if t.split() else ''
        res = set()
        for s, x, r in paths:
            k = p_names.consistent(s, x, t)
            if k is False: continue
            if k is None: raise AnalysisError(f'{rd[0]["q"]}({q}): a test on the text is not understood')
            if r is not None:
                r2 = p_names.rebuild(r, {x: cs(t)}); res.add(cval(r2) if is_c(r2) else None)
        return res.pop() if len(res) == 1 else None
    return out, accept, {int(v): n for n, v in e['e']}, known

# ------------------------------------------------------------------------------------------------ which entries the readers ask for
class Asked(Conf):
    def __init__(self, F):
        super().__init__(F, False, 1); self.asked = {}; self.needed = set()
    def on_libcall(self, s, fr, n, q, obj, vs):
        if q.endswith('read_json'): self.n_docs = getattr(self, 'n_docs', 0) + 1
        r = super().on_libcall(s, fr, n, q, obj, vs)
        if r is not None and q.startswith('boost::property_tree::') and obj is not None:
            h = q.rsplit('::', 1)[-1]
            opt = h.endswith('_optional') or h.startswith('get') and h != 'get_value' and len([x for x in (n.get('c') or [])[:3] if x and x.get('k') != 'DefArg']) > 1
            def put(k, t):
                if not opt: self.needed.add(k)
                self.asked[k] = t
            for t, v in r:
                v = self.val(t, v) if v is not None else None
                if v is not None and v.op == 'some': v = v.a[0]
                if v is not None and v.op == 's' and v.a[0] == 'CFG': put(v.a[1], v.a[2])
                elif v is not None and v.op == 'ptree': put(v.a[0], self.asked.get(v.a[0], 'tree'))
                elif v is not None and is_num(v):
                    import p_conf
                    k = p_conf.NAMES.get(cval(v))
                    if k: put(re.sub(r'^groups\.shared', 'groups.*.#0', k[0]), scalar(n.get('t')))
        return r
def asked(F, cls):
    I = Asked(F); L, ct, S0 = fresh(F, I, cls)
    fn = next((f for f in F.fn.values() if f['q'] == cls + '::read' and f.get('body')), None)
    if fn is None: raise AnalysisError(f'anchor vanished: {cls}::read')
    I.opaque |= {cls + '::readRanges'} if cls.endswith('MacrosDescReader') else set()
    for s, _ in S0:
        if s.ctl: continue
        for t, r in I.run(fn, this=L, s=s): pass
    if not I.asked: raise AnalysisError(f'{fn["q"]}: no entry of the document is asked for')
    return fn, I.asked, I.needed

# ------------------------------------------------------------------------------------------------ which files are asked for
class Files(Check):
    driver = None; lang = None
    def __init__(self, F): super().__init__(F); self.named = {}; self.opened = {}
    def cls_of(self, fn): return next((x for x in ALL if fn['q'].startswith(x + '::')), None)
    def ctor_body(self, fn, l, ct, vs, s, fr, n):
        k = fn['q'].rsplit('::', 1)[0]
        if k in ALL and not fn.get('copy') and not fn.get('move'):
            v = mk('reader', k, *[self.val(s, x) for x in vs]); self.opened[v] = (fr.file, n.get('l') or getattr(fr, 'line', 0))
            s = s.copy(); self.write(s, l, v); return [s]
        return super().ctor_body(fn, l, ct, vs, s, fr, n)
    def on_call(self, s, fr, n, fn, obj, vs):
        h = fn['q'].rsplit('::', 1)[-1]
        if h == 'getFanucParserType' and fn.get('cls') == S + 'NCSettingsReader': return [(s, ci(self.driver))]
        if (h in ('operator<<', 'to_string')) and any('EFanucParserType' in p['t'] or 'ELanguage' in p['t'] for p in fn['params']): return None
        return super().on_call(s, fr, n, fn, obj, vs)
    def inl(self, fn): return '/nclangsrv/' in fn['f'] and fn.get('cls') != S + 'Logger' and not fn['q'].rsplit('::', 1)[-1] in ('write_message',)
ROOT = '<server>'
def path_text(v):
    """the text of a path term, None if not understood"""
    if isinstance(v, V):
        if is_str(v): return cval(v)
        if v.op == 's' and v.a[0] == 'P' and 'oot' in str(v.a[1]): return ROOT
        if v.op == 'init' or v.op == 'sub' or v.op == 's': return ROOT if 'oot' in show(v) else None
        if v.op == 'path/' and len(v.a) == 2:
            a, b = path_text(v.a[0]), path_text(v.a[1]); return None if a is None or b is None else a.rstrip('/') + '/' + b
        if v.op in ('cat',):
            p = [path_text(x) for x in v.a]; return None if None in p else ''.join(p)
        if v.op in ('text', 'ostr', 'some'): return path_text(v.a[0]) if v.a else ''
        if v.op == 'ctor' and 'path' in str(v.a[0]) and len(v.a) == 2: return path_text(v.a[1])
        if v.op == 'call' and 'std::filesystem' in str(v.a[0]) and len(v.a) >= 2: return path_text(v.a[1])
        if v.op == 'out':
            p = [path_text(x) for x in v.a if isinstance(x, V)]; return None if None in p else ''.join(p)
    return None
def files_asked(c, driver):
    """{(reader class, path): (file, line)} for one driver"""
    F = c.F; out = {}
    I, L, P, states = fresh_check(F)
    J = Files(F); J.driver = driver
    for s, r, ev in once(J, L, P, states): c.count('paths', 1)
    for v, w in J.opened.items(): out[v] = w
    eng = dict(F.enums[N + 'ELanguage']['e'])['English'] if isinstance(F.enums[N + 'ELanguage']['e'], list) else 0
    for f in sorted(F.fn.values(), key=lambda f: f['u']):
        if not f['q'].startswith(S + 'JsonMessageHandler::') or not f.get('body') or f.get('kind') == 'ctor': continue
        if not any(d.rsplit('::', 1)[-1] in str(x.get('t')) + str(x.get('q')) and x.get('k') in ('Call', 'Ctor', 'New') for d in DESC for x in walk(f['body'])): continue
        J = Files(F); J.driver = driver; s = State(); J.write(s, Loc(('O', 'this')) + F_('mLanguage'), ci(int(eng)))
        for t, r in J.run(f, s=s): c.count('paths', 1)
        for v, w in J.opened.items():
            if v.a[0] in DESC: out[v] = w
    res = {}
    for v, w in out.items():
        p = path_text(v.a[1]) if isinstance(v.a[1], V) else None
        if v.a[0] == S + 'NCSettingsReader': continue
        if p is None: raise AnalysisError(f'the file a {v.a[0]} reads is not understood: {show(v.a[1])[:200]}')
        res[(v.a[0], p)] = w
    return res

# ------------------------------------------------------------------------------------------------ the shipped files
class Obj(list): pass          # members in order, duplicates kept
def load(path):
    raw = lambda t: ('num', t)
    return json.load(open(path, encoding='utf-8-sig'), parse_float=raw, parse_int=raw, parse_constant=lambda t: ('bad', t), object_pairs_hook=Obj)
def leaf(x):
    if isinstance(x, tuple): return x[1]
    if isinstance(x, bool): return 'true' if x else 'false'
    if x is None: return 'null'
    return x if isinstance(x, str) else None
def kids(x):
    if isinstance(x, Obj): return [(k, v) for k, v in x]
    if isinstance(x, list): return [('', v) for v in x]
    return []
def select(doc, path):
    """[(where, node)] of the entries an access path stands for; None for a missing one"""
    cur = [('', doc)]
    for step in path.split('.') if path else []:
        nxt = []
        for w, x in cur:
            if x is None: continue
            if step == '*' or step.startswith('#'): nxt += [(f'{w}.{k}' if k else f'{w}[{i}]', v) for i, (k, v) in enumerate(kids(x))]
            else:
                m = [v for k, v in kids(x) if k == step]
                nxt.append((f'{w}.{step}', m[0] if m else None))
        cur = nxt
    return [(w.lstrip('.'), x) for w, x in cur]
INT = re.compile(r'\s*[+-]?\d+\s*\Z'); FLT = re.compile(r'\s*[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?\s*\Z')
def accepts(x, t, forms):
    """why a reader asking for a t does not accept the entry"""
    if t == 'tree': return None
    s = leaf(x)
    if s is None: return 'is not a single value' if t != 'string' else None
    if t == 'string': return None
    if t in ('bool',): return None if s.strip() in ('true', 'false', '0', '1') else f'is {s!r}, not true or false'
    bits = {'int': 32, 'long': 64, 'long long': 64, 'short': 16}.get(t.replace('unsigned ', '').replace('unsigned', 'int'))
    if bits and t.startswith('unsigned'): return None if INT.match(s) and 0 <= int(s) < 1 << bits else f'is {s!r}, not a whole number from 0 to {(1 << bits) - 1}'
    if bits: return None if INT.match(s) and -(1 << bits - 1) <= int(s) < 1 << bits - 1 else f'is {s!r}, not a whole number'
    if t in ('double', 'float', 'long double'): return None if FLT.match(s) else f'is {s!r}, not a number'
    if t in forms: return None if forms[t](s) is not None else f'is {s!r}, not one of the known names'
    return f'is read as {t}'
def as_int(x):
    s = leaf(x); return int(s) if s is not None and INT.match(s) else None
def well_formed(kind, doc):
    """faults of the entries beyond being readable"""
    if kind.endswith('WordGrammarReader'):
        for unit in ('metric', 'imperial'):
            names = [k for k, _ in kids(dict(kids(doc)).get(unit))]
            if not names: yield f'{unit} lists no words'
            for n in sorted({x for x in names if names.count(x) > 1}): yield f'{unit} lists {n} twice'
            for w, x in kids(dict(kids(doc)).get(unit)):
                m = dict(kids(x)); a, b = as_int(m.get('range_from')), as_int(m.get('range_to'))
                if a is not None and b is not None and a > b: yield f'{unit}.{w}: range from {a} to {b}'
                if leaf(m.get('word')) != w: yield f'{unit}.{w} describes the word {leaf(m.get("word"))}'
        me, im = ({k for k, _ in kids(dict(kids(doc)).get(u))} for u in ('metric', 'imperial'))
        for w in sorted(me ^ im): yield f'{w} is a word in one unit system only'
        ops = [leaf(v) for _, v in kids(dict(kids(doc)).get('operations'))]
        for o in ops:
            if not o or not re.fullmatch(r'[A-Z]+', o): yield f'operations lists {o!r}'
    elif kind.endswith('CodeGroupsReader'):
        for g, arr in kids(dict(kids(doc)).get('groups')):
            if not kids(arr): yield f'group {g} lists no codes'
            if not g.strip(): yield 'a group has no name'
    else:
        for k, x in kids(dict(kids(doc)).get('descriptions')):
            if not re.fullmatch(r'\d+(\.\d+)?', k): yield f'{k!r} is not a code'
            if not kids(x): yield f'{k} has no description'

def check_C03(c):
    F = c.F
    written, accept, names, known = text_forms(c, DRIVER)
    forms = {}
    rules = {}
    for cls in ALL:
        if cls.endswith('NCSettingsReader'): continue
        fn, a, need = asked(F, cls); rules[cls] = (fn, a, need); c.count('entries the readers ask for', len(a))
        for t in a.values():
            if t in F.enums and t not in forms:
                forms[t] = text_forms(c, t)[1]
    f0 = next(f for f in F.fn.values() if f['q'].endswith('operator>>') and any('EFanucParserType' in p['t'] for p in f['params']))
    drivers = {v: t for v, t in written.items() if accept(t) is not None}
    for t in sorted(known):
        if accept(t) is None: continue
        if t not in drivers.values(): c.violation(f'driver:{t}', f0['f'], f0['l'], f'the server accepts the driver {t!r} but writes it differently: its configuration is not found')
    if len(drivers) < 5: raise AnalysisError(f'only {len(drivers)} drivers are accepted')
    made = {}
    docs = {}
    for v, t in sorted(drivers.items()):
        c.count('drivers', 1); name = names[v]
        got = files_asked(c, v)
        kinds = sorted(k for k, _ in got)
        want = sorted([S + 'WordGrammarReader', S + 'CodeGroupsReader', S + 'CodeGroupsReader'] + [DESC[0], DESC[0], DESC[1]])
        if kinds != want: raise AnalysisError(f'{name}: the files asked for are not the six expected ({kinds})')
        for (kind, p), (wf, wl) in sorted(got.items()):
            short = kind.rsplit('::', 1)[-1]; rel = p.replace(ROOT + '/', '', 1)
            if not p.startswith(ROOT + '/conf/'): c.violation(f'{t}:{short}:{rel}', wf, wl, f'{short} for the driver {t} reads {p}, outside the configuration directory'); continue
            if rel.split('/')[1] != t: c.violation(f'{t}:{short}:dir:{rel}', wf, wl, f'{short} for the driver {t} reads {rel}, which belongs to {rel.split("/")[1]}'); continue
            full = os.path.join(core.REPO, rel)
            if not os.path.isfile(full): c.violation(f'{t}:{short}:missing:{rel}', wf, wl, f'{short} for the driver {t} ({name}) reads {rel}, which is not shipped'); continue
            try: doc = load(full)
            except (ValueError, UnicodeDecodeError) as e: c.violation(f'{t}:{rel}:json', rel, 1, f'{rel} is not JSON the reader accepts: {e}'); continue
            fn, a, need = rules[kind]; bad = []; n = 0
            for path, ty in sorted(a.items()):
                for where, x in select(doc, path):
                    n += 1
                    if x is None and path not in need: continue
                    if x is None: bad.append((where, f'{where} is missing, {fn["q"].rsplit("::", 2)[-2]} asks for it')); continue
                    w = accepts(x, ty, forms)
                    if w: bad.append((where, f'{where} {w}'))
            for w in well_formed(kind, doc): bad.append((w[:40], w))
            c.count('entries compared', n)
            for k, b in bad[:8]: c.violation(f'{rel}:{k}', rel, 1, f'{rel}: {b}')
            if not bad: c.ok(f'{rel}: {n} entries accepted by {short}')
            if n < 10 and not bad and kind != S + 'CodesReader': raise AnalysisError(f'{rel}: only {n} entries compared')
    # the control family of each driver
    import p_conf
    for v, t in sorted(drivers.items()):
        I, L, P, states = fresh_check(F); J = Files(F); J.driver = v; kinds = set()
        for s, r, ev in once(J, L, P, states):
            for e in ev:
                if e[0] == 'made': kinds.add((e[1], tuple(show(x) for pn, pt, x in e[2] if 'EFanucParserType' in pt)))
            for e in ev:
                if e[0] == 'set' and not any(x[0] == 'made' for x in ev): kinds.add(('none', ()))
        good = {(N + 'fanuc::AllAttributesParser::AllAttributesParser', (show(ci(v)),))}
        if kinds != good: c.violation(f'family:{t}', P['f'], P['l'], f'the driver {t} ({names[v]}) is checked by {sorted(kinds) or "no parser"}')
        else: c.ok(f'{t} is checked by the ISO parser for {names[v]}')
