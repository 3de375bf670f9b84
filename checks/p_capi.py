"""P11, A01, A02, A03: the C interface and the text words are turned back into. Each exported function is interpreted over the
wrapper of each control family with the parser itself as a black box; the memory it hands out is then inspected."""
import re
from absint import *
from words import *
from core import AnalysisError, walk
from loops import subterms
import models
N = 'parser::'
BASEFILE = 'parser/AllAttributesParserWrapperBase.cpp'
FAM = {'Fanuc': 'parser::fanuc::', 'Heidenhain': 'parser::heidenhain::'}
WR = Loc(('O', 'wrapper')); PA = Loc(('O', 'parser'))
DBG = False
OPS = re.compile(r'^parser::(\w+::)?AllAttributesParser(Base)?$')

class Api(Interp):
    max_states = 4000; max_steps = 10_000_000
    def __init__(self, F, fam, words=(), files=(), said=True, data=None):
        super().__init__(F); self.fam = fam; self.words = list(words); self.files = files; self.said = said; self.unroll = 40; self.data = data or {}
    # --- a call of a function only declared here goes to what the control family overrides it with
    def fn_of(self, n):
        f = super().fn_of(n); u = n.get('u')
        if f is None and u:
            r = [g for g in self.F.fn.values() if u in (g.get('ov') or ()) and g['q'].startswith(self.fam) and g.get('body')]
            if len(r) == 1: return r[0]
        return f
    def dispatch(self, fn, s, fr, n, obj):
        r = [g for g in self.F.fn.values() if fn['u'] in (g.get('ov') or ()) and g['q'].startswith(self.fam) and g.get('body')]
        return r[0] if len(r) == 1 else None
    def deref(self, s, fr, n, p):
        k = ci(0); q = p
        if p.op == '+' and p.a[0].op == 'addr': q, k = p.a[0], p.a[1]
        if q.op == 'addr' and q.a[0][0] == 'H' and not q.a[1]:
            b = s.store.get(q.a[0])
            while b is not None and b.op in ('put', 'copied'): b = b.a[0]
            if b is not None and b.op == 'arr': return Loc(q.a[0], (('[', k),))
        return super().deref(s, fr, n, p)
    def is_op(self, q): return OPS.match(q.rsplit('::', 1)[0]) is not None
    def on_call(self, s, fr, n, fn, obj, vs):
        if self.is_op(fn['q']) and fn.get('kind') not in ('ctor', 'dtor'): return self.op(s, fr, n, fn, obj, vs)
        return None
    def on_libcall(self, s, fr, n, q, obj, vs):
        h = q.rsplit('::', 1)[-1]
        fn = self.fn_of(n)
        if self.is_op(q): return self.op(s, fr, n, fn, obj, vs)
        if h == 'pop_back' and q.startswith('std::basic_string') and isinstance(obj, Loc):
            v = self.val(s, obj); ps = list(v.a) if v.op == 'cat' else [v]; x = const_text(ps[-1])
            if x:
                s = s.copy(); self.assign(s, fr, obj, CAT(*ps[:-1], cs(x[:-1]))); return [(s, None)]
        if h in ('operator[]', 'front') and q.startswith('std::basic_string') and isinstance(obj, Loc):
            i = self.val(s, vs[0]) if vs else ci(0)
            if is_num(i) and cval(i) == 0 and self.val(s, obj).op in ('c', 'cat', 's'): return [(s, obj + ('[', ci(0)))]
        if h in ('memcpy', 'memmove', 'strcpy', 'strncpy', 'copy', 'copy_n') and (q == h or q in ('std::' + h, '__builtin_' + h)):
            if h in ('copy', 'copy_n'):
                if not (len(vs) == 3 and self.at_heap(s, self.val(s, vs[2]))): return None
                a, b, d = vs if h == 'copy' else (vs[0], vs[1], vs[2])
                return self.copied(s, fr, n, d, a, None if h == 'copy' else self.val(s, b), self.val(s, d), b if h == 'copy' else None)
            return self.copied(s, fr, n, vs[0], vs[1], self.val(s, vs[2]) if len(vs) > 2 else 'all', self.val(s, vs[0]), None)
        return None
    def at_heap(self, s, d):
        l = self.target(s, d); return l is not None and l.root[0] == 'H'
    def target(self, s, d):
        """the place a pointer value points at"""
        if isinstance(d, Loc): return d
        if d.op == 'addr': return Loc(d.a[0], d.a[1]) if len(d.a) == 2 else None
        return None
    def copied(self, s, fr, n, dst, src, count, ret, end):
        s = s.copy(); d = self.val(s, dst) if not isinstance(dst, Loc) else dst
        l = self.target(s, self.val(s, dst))
        if l is None: raise AnalysisError(f'{(fr.fn or {}).get("q")}:{n.get("l")}: where a text is copied to is not followed ({show(self.val(s, dst))[:80]})')
        off = ci(0)
        if l.path and l.path[-1][0] == '[': off = l.path[-1][1]; l = Loc(l.root, l.path[:-1])
        t = self.text_at(s, src)
        if t is None: raise AnalysisError(f'{(fr.fn or {}).get("q")}:{n.get("l")}: what is copied is not followed ({show(self.val(s, src))[:80]})')
        o = self.read(s, l)
        self.write(s, l, mk('copied', o, off, t, arith('+', SIZE(t), ci(1)) if count == 'all' else count if count is not None else SIZE(t)))
        return [(s, ret)]
    def text_at(self, s, src):
        v = self.val(s, src)
        if DBG: print('SRC', src, v)
        if v.op == 'addr':
            l = Loc(v.a[0], v.a[1])
            if l.path and l.path[-1] == ('[', ci(0)): l = Loc(l.root, l.path[:-1])
            return self.read(s, l)
        if v.op == 'it': return self.read(s, Loc(v.a[0], v.a[1])) if v.a[2] is sym('begin') or is_num(v.a[2]) and cval(v.a[2]) == 0 else None
        return v
    def op(self, s, fr, n, fn, obj, vs):
        h = fn['q'].rsplit('::', 1)[-1] if fn is not None else (n.get('q') or '').rsplit('::', 1)[-1]
        ps = fn['params'] if fn is not None else []
        s = s.copy(); got = []; nodes = n.get('c') or []
        for i, (p, v) in enumerate(zip(ps, vs)):
            t = p['t']; x = self.val(s, v)
            if i < len(nodes) and (nodes[i] or {}).get('k') == 'DefArg': continue
            if isinstance(v, Loc) and not t.startswith('const ') and t.endswith('&') and not t.endswith('&&'):
                got.append((p['n'], t, None))
                if fn.get('body') and not any(x.get('k') == 'Ref' and x.get('d') == p.get('d') for x in walk(fn['body'])): continue    # an operation that is not there leaves it as it is
                if 'string' in t and 'vector' not in t: self.assign(s, fr, v, sym('MSG') if self.said else cs(''))
                elif 'vector<std::vector' in t.replace(' ', ''): self.assign(s, fr, v, self.files)
                elif 'AttributeVariantData' in t: self.assign(s, fr, v + F_('value'), mk('list', tuple(self.words)))
                elif 'vector' in t: self.assign(s, fr, v, mk('list', tuple(self.words)))
                else: raise AnalysisError(f'{fn["q"]}: what becomes of {p["n"]} is not known')
            else: got.append((p['n'], t, x))
        s.event('op', h, tuple(got), n.get('l'))
        rt = (fn or {}).get('rt') or n.get('t') or 'void'
        if h in self.data:
            v = self.data[h]
            if is_ref(rt):
                l = Loc(('O', h)); 
                if l.root not in s.store: s.store[l.root] = v
                return [(s, l)]
            return [(s, v)]
        if rt == 'void': return [(s, None)]
        if is_ref(rt): return [(s, Loc(('O', h)))]
        return [(s, sym('RET', h))]

def exported(F):
    """the functions of the C interface"""
    r = [f for f in F.fn.values() if f['f'].endswith(BASEFILE) and f.get('body') and f.get('kind') == 'fn' and any((N + 'AllAttributesParserWrapperBase *') == p['t'] for p in f['params'][:1])]
    if len(r) < 10: raise AnalysisError('anchor vanished: functions of the C interface')
    return sorted(r, key=lambda f: f['l'])
def start(I, f, lists=2, given=None):
    s = State(); args = {}
    s.store[WR.root] = st(None, {F_('parser'): addr(PA)})
    for p in f['params']:
        t = p['t'].replace('const ', ''); L = Loc(('P', p['n']))
        if t == N + 'AllAttributesParserWrapperBase *': args[p['n']] = addr(WR); continue
        if t.endswith('* *') or t.endswith('* * *') or t.endswith('* &') or t in ('int *', 'double *'):
            if p['n'] in ('data',) : args[p['n']] = sym('P', p['n']); continue
            args[p['n']] = L if t.endswith('&') else addr(L); I.write(s, L, sym('BEFORE', p['n'])); continue
        if t == 'int' and p['n'].endswith('length'): args[p['n']] = ci(lists); continue
        args[p['n']] = (given or {}).get(p['n']) or sym('P', p['n'])
    return s, args
def entry(F, f, fam, words=(), files=(), said=True, data=None, lists=2, given=None):
    I = Api(F, fam, words, files, said, data); s, args = start(I, f, lists, given)
    return I, I.run(f, args=args, s=s)

# ---------------------------------------------------------------------------------------------------------------- P11
CONST = dict(assign='=', sign='-', open_bracket='[', macro='#', value='12', dot='.', value2='34', close_bracket=']')
def combos():
    import itertools
    for k in range(2 ** len(PARTS)):
        have = [p for i, p in enumerate(PARTS) if k >> i & 1]
        yield {p: CONST[p] for p in have}
def all_words():
    """(the word, the text it has in a program, what to call it)"""
    out = []
    for kw in combos(): out.append((dec('X', **kw), 'X' + ''.join(kw[p] for p in PARTS if p in kw), 'with ' + (', '.join(kw) or 'no part')))
    for kw in (dict(sign='+', value='5'), dict(value='0'), dict(value='007'), dict(sign='-', dot='.', value2='000')):
        for w in ('N', 'G', 'GOTO', '#', 'R'): out.append((dec(w, **kw), w + ''.join(kw[p] for p in PARTS if p in kw), 'with ' + ', '.join(kw)))
    for w, v in (('(', 'text'), ('(', 'T'), ('(', ''), ('[', 'A1+2]'), ('IF', 'x'), ('O', 'x y'), ('', 'x'), (',C', '1')):
        out.append((text(w, v), w + v + (')' if w == '(' else ''), 'as a comment' if w == '(' else 'as a text'))
    for w, v in (('%', ''), ('/', ''), ('/', '2'), ('/', '9')):
        out.append((char(w, v) if v else mk('var', C_, st(None, {F_('word'): cs(w), F_('value'): ci(0)})), w + v, 'of one character' + (' and a digit' if v else '')))
    return out
def plain(v):
    """the text a C string in memory holds: (text, position of its end, size of its buffer) - None where it is not a text"""
    pieces = {}; w = v; chars = {}
    while w.op in ('put', 'copied'):
        if w.op == 'put': chars.setdefault(w.a[1], w.a[2]); w = w.a[0]
        else:
            pieces.setdefault(w.a[1], (w.a[2], w.a[3])); w = w.a[0]
    if w.op != 'arr': return None
    return chars, pieces, w.a[0]
def same(a, b): return a is b or a == b or EQ(a, b) is TRUE
def c_string(I, s, p):
    """(text, why it is not a proper C string) of what pointer p points at"""
    if p.op == 'c' or p.op != 'addr': return None, 'it does not point at anything'
    root = p.a[0]
    v = s.store.get(root)
    if root[0] != 'H' or v is None or p.a[1]: return None, 'it does not point at a buffer of its own'
    r = plain(v)
    if r is None: return None, 'what it holds is not followed'
    chars, pieces, size = r
    pos = ci(0); out = []
    for _ in range(4000):
        hit = next((k for k in pieces if same(k, pos) and not (is_num(pieces[k][1]) and cval(pieces[k][1]) == 0)), None)
        ch = next((k for k in chars if same(k, pos)), None)
        if hit is not None and not (ch is not None):
            t, n = pieces[hit]
            if not same(n, SIZE(t)):
                if same(n, arith('+', SIZE(t), ci(1))): out.append(t); return end(I, s, out, arith('+', pos, SIZE(t)), size)
                return None, f'{show(n)} characters are copied of a text of {show(SIZE(t))}'
            out.append(t); pos = arith('+', pos, n); continue
        if ch is not None:
            x = chars[ch]
            if x.op == 'sub' and const_text(x.a[0]) is not None and x.a[1][0] == '[' and is_num(x.a[1][1]):
                k = int(cval(x.a[1][1])); tx = const_text(x.a[0]); x = ci(ord(tx[k]) if k < len(tx) else 0)
            if is_num(x) and cval(x) == 0: return end(I, s, out, pos, size)
            out.append(cs(chr(int(cval(x)))) if is_num(x) else x); pos = arith('+', pos, ci(1)); continue
        return None, 'it is not terminated'
    return None, 'it is not terminated'
def end(I, s, out, pos, size):
    need = arith('+', pos, ci(1)); d = LE(need, size)
    if d is not TRUE and I.decide(s, d) is not True: return None, f'its buffer has room for {show(size)} characters, its text needs {show(need)}'
    return CAT(*out) if out else cs(''), None
def LE(a, b):
    if a is b or same(a, b): return TRUE
    d = arith('-', b, a)
    if is_num(d): return TRUE if cval(d) >= 0 else FALSE
    return NOT(LT(b, a))
def const_text(t): return t.a[1] if t.op == 'c' and t.a[0] == 's' else None

def server_sites(F):
    r = [f for f in F.fn.values() if f['f'].endswith('nclangsrv/NCParser.cpp') and f.get('body') and f.get('kind') == 'fn' and f['q'].startswith('parser::fanuc::') and len(f['params']) == 2
         and any('vector<' in p['t'] and 'variant' in p['t'] for p in f['params']) and any(p['t'].startswith('std::basic_string') and p['t'].endswith('&') for p in f['params'])]
    return r

def ptr_list(I, s, root_ptr, n):
    """the n elements of the array a pointer points at"""
    if root_ptr.op != 'addr' or root_ptr.a[0][0] != 'H': return None
    v = s.store.get(root_ptr.a[0])
    return [sub(v, ('[', ci(i))) for i in range(n)]
def judge_text(c, key, f, what, got, words, sep, end_=''):
    """got: the text of all words one after another"""
    g = const_text(got)
    if g is None: raise AnalysisError(f'{f["q"]}: the text of the words is not followed ({show(got)[:120]})')
    at = 0
    for i, (w, t, name) in enumerate(words):
        x = t + (sep if i + 1 < len(words) or sep == end_ else end_)
        if not g.startswith(x, at):
            c.violation(f'{key}:{name}', f['f'], f['l'], f'{what}: a word {name} is written {g[at:at + len(t) + 4]!r}…, it is {t!r} in the program'); return
        at += len(x)
        c.count('words compared', 1)
    if at != len(g): c.violation(f'{key}:rest', f['f'], f['l'], f'{what}: {g[at:at+20]!r} is written after the words')
    else: c.ok(f'{what}: {len(words)} words written as they are in the program')
def p11(c):
    F = c.F; words = all_words(); W = [w for w, _, _ in words]
    # 1. the server
    fs = server_sites(F)
    if not fs: raise AnalysisError('anchor vanished: how the server writes words')
    for f in fs:
        I = Api(F, FAM['Fanuc']); I.unroll = 400; s = State(); args = {}
        for p in f['params']:
            L = Loc(('P', p['n'])); args[p['n']] = L
            if 'vector<' in p['t']: I.write(s, L, mk('list', tuple(W)))
            else: I.write(s, L, cs('')); T = L
        rs = I.run(f, args=args, s=s)
        if not rs: raise AnalysisError(f'{f["q"]}: no path')
        for s1, _ in rs:
            if s1.ctl: c.violation('server:thrown', f['f'], f['l'], f'{f["q"]}: ends with an exception'); continue
            judge_text(c, 'server', f, 'the server', I.val(s1, T), words, ' ', ' ')
    # 2. the C interface
    fam = FAM['Fanuc']; n = 0
    for f in exported(F):
        outs = [p for p in f['params'] if 'WordValueWrapper' in p['t'] and p['t'].replace(' ', '').endswith('**')]
        texts = [p for p in f['params'] if p['t'].replace(' ', '') == 'char***']
        if not outs and not texts: continue
        short = f['q'].rsplit('::', 1)[-1]
        I = Api(F, fam, W, mk('list', (mk('list', (mk('list', tuple(W)),)),)), said=False); I.unroll = 400
        s, args = start(I, f); rs = I.run(f, args=args, s=s); n += 1
        if not rs: raise AnalysisError(f'{f["q"]}: no path')
        for s1, _ in rs:
            if s1.ctl: c.violation(f'{short}:thrown', f['f'], f['l'], f'{f["q"]}: ends with an exception'); continue
            if outs:
                els = ptr_list(I, s1, s1.store.get(('P', outs[0]['n'])), len(words))
                if els is None: c.violation(f'{short}:nothing', f['f'], f['l'], f'{f["q"]}: no words are handed out'); continue
                bad = 0
                for (w, t, name), e in zip(words, els):
                    a, why1 = c_string(I, s1, sub(e, F_('word'))); b, why2 = c_string(I, s1, sub(e, F_('value')))
                    if why1 or why2:
                        if not why1 or 'not followed' in why1 or why2 and 'not followed' in why2: pass
                        c.violation(f'{short}:{name}', f['f'], f['l'], f'{f["q"]}: a word {name} is not handed out as text: {why1 or why2}'); bad = 1; break
                    g = const_text(CAT(a, b)); wd = const_text(fld(w, 'word'))
                    if g is None: raise AnalysisError(f'{f["q"]}: the text of a word is not followed ({show(CAT(a, b))[:100]})')
                    c.count('words compared', 1)
                    if g != t or const_text(a) != wd:
                        c.violation(f'{short}:{name}', f['f'], f['l'], f'{f["q"]}: a word {name} is handed out as {const_text(a)!r} and {const_text(b)!r}, it is {t!r} in the program'); bad = 1; break
                if not bad: c.ok(f'{short}: {len(words)} words handed out as they are in the program')
            else:
                els = ptr_list(I, s1, s1.store.get(('P', texts[0]['n'])), 1)
                if els is None: c.violation(f'{short}:nothing', f['f'], f['l'], f'{f["q"]}: no text is handed out'); continue
                a, why = c_string(I, s1, els[0])
                if why: c.violation(f'{short}:text', f['f'], f['l'], f'{f["q"]}: the text is not handed out: {why}'); continue
                judge_text(c, short, f, f['q'], a, words, ' ', '\r\n')
    if n < 5: raise AnalysisError('anchor vanished: functions of the C interface that hand out words')
    substituted(c)
def substituted(c):
    """a line whose macro references are replaced by their values"""
    F = c.F; q = N + 'fanuc::MacroEvaluatedCodeVerifier::operator()'; f = one(F, q)
    names = {}
    for p in f['params']:
        if 'variant' in p['t']: names['words'] = p
        elif 'map<' in p['t'] or 'MacroKey' in p['t']: names['macros'] = p
        elif 'vector<' in p['t']: names['ops'] = p
    if len(names) != 3: raise AnalysisError(f'{q}: parameters not recognised')
    this = Loc(('O', 'this'))
    cases = []
    for kw in combos():
        if any(k in kw for k in ('dot', 'value2')) and 'macro' in kw: continue
        if 'macro' in kw and 'value' not in kw: continue
        cases.append(('X', kw))
        if kw.get('sign'): cases.append(('X', {**kw, 'sign': '+'}))
    plainw = [(dec(w, **kw), w + ''.join(kw[p] for p in PARTS if p in kw), kw) for w, kw in cases if 'macro' not in kw]
    def run(ws):
        I = Api(F, FAM['Fanuc']); I.unroll = 400; s = State(); args = {}
        def oc(s, fr, n, fn, obj, vs):
            if fn['q'].rsplit('::', 1)[-1] == 'to_string_trunc': return [(s, mk('NUM', I.val(s, vs[0])))]
            return None
        I.on_call = oc
        for p in f['params']:
            L = Loc(('P', p['n'])); args[p['n']] = L
            if p is names['words']: I.write(s, L, mk('list', tuple(ws)))
            elif p is names['ops']: I.write(s, L, mk('list', ()))
            else: I.write(s, L, sym('P', p['n']))
        return I, [(s1, r) for s1, r in I.run(f, args=args, this=this, s=s)]
    first = dec('Z', macro='#', value=cs('9'))
    # words without a reference are written as they are, behind one that has been replaced
    I, rs = run([first] + [w for w, _, _ in plainw])
    done = 0
    for s1, r in rs:
        if s1.ctl: continue
        v = I.val(s1, r)
        parts = list(v.a) if v.op == 'cat' else [v]
        k = next((i for i, p in enumerate(parts) if p.op == 'NUM'), None)
        if k is None: c.violation('substituted:first', f['f'], f['l'], f'{q}: a reference is not replaced by its value ({show(v)[:80]})'); continue
        tail = CAT(*parts[k + 1:]); 
        judge_text(c, 'substituted', f, 'a line with macro references', tail, [(w, t, 'with ' + (', '.join(kw) or 'no part')) for w, t, kw in plainw], '', ''); done += 1
    if not done: raise AnalysisError(f'{q}: no path replaces a reference')
    for w, kw in cases:
        if 'macro' not in kw: continue
        I, rs = run([dec(w, **kw)]); seen = 0; what = 'a reference with ' + ', '.join(f'{k} {kw[k]!r}' for k in kw if k not in ('macro', 'value')) if len(kw) > 2 else 'a reference'
        for s1, r in rs:
            if s1.ctl: continue
            v = I.val(s1, r); parts = list(v.a) if v.op == 'cat' else [v]
            nums = [p for p in parts if p.op == 'NUM']
            if len(nums) != 1: c.violation(f'substituted:{what}', f['f'], f['l'], f'{q}: {what} is not replaced by its value once ({show(v)[:80]})'); continue
            x = nums[0].a[0]; neg = False
            if x.op == 'neg' or (x.op == '-' and is_num(x.a[0]) and cval(x.a[0]) == 0): neg = True; x = x.a[-1]
            elif x.op == '*' and any(is_num(y) and cval(y) == -1 for y in x.a): neg = True; x = next(y for y in x.a if not is_num(y))
            elif x.op in ('abs', 'm:abs', 'm:fabs'): x = x.a[0]; neg = 'abs'
            if x.op == 'neg': neg = True; x = x.a[0]
            less = I.decide(s1, LT(x, cf(0.0)))
            if neg == 'abs': neg = less is True
            i = parts.index(nums[0]); before = const_text(CAT(*parts[:i])) if i else ''; after = const_text(CAT(*parts[i + 1:])) if parts[i + 1:] else ''
            if before is None or after is None: raise AnalysisError(f'{q}: the text of a line is not followed ({show(v)[:120]})')
            a = w + kw.get('assign', ''); sg = kw.get('sign', ''); o, cl = kw.get('open_bracket', ''), kw.get('close_bracket', '')
            good = after == cl and (before == a + sg + o and not neg and (not sg or o or less is False) or
                    sg and not o and less is not False and (before == a and neg == (sg == '-')))
            # with neither sign nor bracket nothing is to be decided about the value
            if not good:
                c.violation(f'substituted:{what}', f['f'], f['l'], f'{q}: {what} is written as {before}{"-" if neg else ""}value{after}' + (' when the value is negative' if less is True else ' when it is not' if less is False else '')); break
            seen += 1; c.count('references replaced', 1)
        if seen: c.ok(f'{what}: {seen} paths replace it by its value, its sign applied')
def check_P11(c): p11(c)

# ---------------------------------------------------------------------------------------------------------------- A01, A02
def key(i, l): return st(None, {F_('id'): ci(i), F_('line'): ci(l)})
def three(*x): return tup(*[sym('N', str(v)) for v in x])
def result(tool): return st(None, {F_('tool_id'): cs(tool)})
WORDS = [dec('X', sign='-', value=some(cs('1')), dot='.', value2=some(cs('5'))), text('(', 'note'), char('/', '2'), text('(', ''), mk('var', C_, st(None, {F_('word'): cs('%'), F_('value'): ci(0)}))]
def scenarios(thorough=False):
    """what the black-boxed operations hand over: (name, settings of Api)"""
    L = lambda *x: mk('list', tuple(x))
    w, e = L(*WORDS), L()
    macros = [mk('map', ()), mk('map', ((key(1, 5), sym('N', '1.5')), (key(2, 3), sym('N', '2.5')), (key(3, 5), sym('N', '3.5')))), mk('map', ((key(2, 3), sym('N', '2.5')),))]
    ranges = [mk('map', ()), mk('map', ((cs('X'), three(1.0, 2.0, 3.0)), (cs('YY'), three(4.0, 5.0, 6.0)))), mk('map', ((cs(''), three(1.0, 2.0, 3.0)),))]
    files = [L(), L(L(w, L(WORDS[0]))), L(e, L(w)), L(L(w, e), e, L(e), L(L(WORDS[1])))]
    tools = ['', 'T10']
    lists = [[], WORDS, WORDS[:1]]
    n = 4
    for i in range(n):
        for said in (True, False):
            yield dict(words=lists[i % len(lists)], files=files[i], said=said,
                       data={'get_macro_values': macros[i % 3], 'get_word_range': ranges[i % 3], 'get_path_result': result(tools[i % 2]), 'get_time_result': result(tools[(i + said) % 2])},
                       given={'macro_line': ci(5)})
def undefined(e):
    """whether a value read from memory never was given one"""
    w = e; steps = []
    while w.op == 'sub': w = w.a[0]
    if w.op == 'undef': return True
    return w.op == 'arr' and is_num(w.a[1]) and cval(w.a[1]) == 0
def sound_value(I, s, F, e, where, ty=None):
    """why the value e a caller gets is not proper, None if it is"""
    if undefined(e): return f'{where} is not initialised'
    if e.op == 'addr':
        v = s.store.get(e.a[0])
        if v is None or e.a[0][0] != 'H': return f'{where} points at something that is gone after the call ({show(e)})'
        if v.op in ('arr', 'put', 'copied'):
            b = v
            while b.op in ('put', 'copied'): b = b.a[0]
            t, why = c_string(I, s, e)
            return f'{where}: {why}' if why else None
        return sound_struct(I, s, F, v, where, made_of(s, e.a[0]))
    if e.op == 'st' or e.op == 'put': return sound_struct(I, s, F, e, where, ty)
    if e.op == 'sym' and e.a[:1] == ('BEFORE',): return f'{where} is left as it was'
    return None
def made_of(s, root): return next((e[2] for e in s.ev if e[0] in ('new', 'new[]') and e[1] == root), None)
def sound_struct(I, s, F, v, where, ty=None):
    fs = v.a[1] if v.op == 'st' else ()
    for k, x in fs:
        w = sound_value(I, s, F, x, f'{where}.{k[1] if isinstance(k, tuple) else k}')
        if w: return w
    if v.op == 'st' and v.a[0] is not None and undefined(v.a[0]):
        r = F.records.get(ty) if isinstance(ty, str) else None
        if r is None: raise AnalysisError(f'the members of {where} are not known ({ty})')
        for x in r['fields']:
            if F_(x['n']) not in {k for k, _ in fs} and not x.get('ini'): return f'{where}.{x["n"]} is not initialised'
    return None
def arrays(f):
    """(parameters handing out lengths of parts, innermost first; parameters handing out arrays; of single objects; messages)"""
    lens, arrs, objs, msg = [], [], [], []
    for p in f['params']:
        t = p['t'].replace(' ', '')
        if p['n'] == 'message' and t == 'char**': msg.append(p['n'])
        elif t.endswith('**') and not t.startswith('const') and p['n'].endswith('length'): lens.append(p['n'])
        elif t.endswith('*&'): objs.append(p['n'])
        elif t.endswith('**') and not t.startswith('const') and not p['n'].endswith(('_keys', '_vals')): arrs.append(p['n'])
    return lens, arrs, objs, msg
def handed(I, s, F, f):
    """violations (key, text) in what one call hands out; and the number of elements looked at"""
    lens, arrs, objs, msg = arrays(f); got = []; k = 0
    P = lambda n: s.store.get(('P', n))
    L = P('length') if any(p['n'] == 'length' for p in f['params']) else None
    before = lambda v: v is None or v.op == 's' and v.a[:1] == ('BEFORE',)
    for m in msg:
        if not before(P(m)):
            k += 1; t, why = c_string(I, s, P(m)) if not is_num(P(m)) else (None, None)
            if why: got.append((m, f'the {m}: {why}'))
    for o in objs:
        if before(P(o)): continue
        k += 1; why = sound_value(I, s, F, P(o), o)
        if why: got.append((o, why))
    if L is None or before(L):
        for a in arrs + lens:
            if not before(P(a)) and not (is_num(P(a)) and cval(P(a)) == 0): got.append((a, f'{a} is handed out without its length'))
        return got, k
    if not is_num(L): raise AnalysisError(f'{f["q"]}: the length handed out is not followed ({show(L)[:80]})')
    counts = [int(cval(L))]
    def elements(name, n):
        nonlocal k
        p = P(name)
        if n == 0 and (before(p) or is_num(p)): return []
        if before(p) or p.op != 'addr' or p.a[0][0] != 'H': got.append((name, f'{name} is not handed out though {n} elements are announced')); return None
        v = s.store[p.a[0]]; b = v
        while b.op in ('put', 'copied'): b = b.a[0]
        if b.op != 'arr': raise AnalysisError(f'{f["q"]}: what {name} points at is not followed ({show(v)[:80]})')
        if not is_num(b.a[0]): raise AnalysisError(f'{f["q"]}: the size of {name} is not followed')
        if cval(b.a[0]) < n: got.append((name, f'{name} has room for {show(b.a[0])} elements, {n} are announced')); return None
        out = [sub(v, ('[', ci(i))) for i in range(n)]; k += n
        for i, e in enumerate(out):
            why = sound_value(I, s, F, e, f'{name}[{i}]', made_of(s, p.a[0]))
            if why: got.append((name, why)); return None
        return out
    for a in reversed(lens):
        r = elements(a, sum(counts))
        if r is None: return got, k
        if not all(is_num(x) for x in r): raise AnalysisError(f'{f["q"]}: the lengths in {a} are not followed')
        counts = [int(cval(x)) for x in r]
    for a in arrs: elements(a, sum(counts))
    return got, k
def check_A02(c):
    F = c.F; seen = 0
    for f in exported(F):
        lens, arrs, objs, msg = arrays(f)
        if not (lens or arrs or objs or msg): continue
        for fam, q in FAM.items():
            short = f['q'].rsplit('::', 1)[-1]; n = 0; bad = set()
            for sc in scenarios(c.thorough):
                I, rs = entry(F, f, q, lists=2, **sc)
                if not rs: raise AnalysisError(f'{f["q"]}: no path')
                for s, r in rs:
                    if s.ctl: continue
                    g, k = handed(I, s, F, f); n += k; c.count('paths', 1)
                    for key_, why in g:
                        if key_ in bad: continue
                        bad.add(key_); c.violation(f'{short}:{fam}:{key_}', f['f'], f['l'], f'{f["q"]} ({fam}): {why}; {s.pathstr()[:120]}')
            if not bad: c.ok(f'{short} ({fam}): {n} elements, strings and objects handed out, all initialised and inside their buffers')
            c.count('elements', n); seen += 1
    if seen < 20: raise AnalysisError('anchor vanished: functions of the C interface that hand out memory')
def disposers(F):
    r = [f for f in F.fn.values() if f['f'].endswith(BASEFILE) and f.get('body') and f.get('kind') == 'fn' and f['q'].rsplit('::', 1)[-1].startswith('Dispose')]
    if len(r) < 5: raise AnalysisError('anchor vanished: dispose functions of the C interface')
    return r
def lower(t):
    """the type of what an output parameter hands out"""
    t = t.replace(' ', ''); return t[:-1]
def counterpart(F, f):
    """[(dispose function, {its parameter: output parameter of f | None})] that take everything f hands out"""
    lens, arrs, objs, msg = arrays(f); types = {p['n']: lower(p['t']) for p in f['params']}
    out = []; ds = disposers(F)
    def fit(outs, lengths):
        best = None
        for d in ds:
            m = {}; left = list(outs); okay = True
            for p in d['params']:
                t = p['t'].replace(' ', '')
                if t == 'int': m[p['n']] = 'length' if lengths else None; okay = okay and lengths; continue
                hit = p['n'] if p['n'] in left and types[p['n']] == t else None
                if hit is None:
                    c = [o for o in left if types[o] == t and not any(q['n'] == o for q in d['params'])]
                    hit = c[0] if len(c) == 1 and not any(o == p['n'] for o in outs) else None
                m[p['n']] = hit
                if hit: left.remove(hit)
            if left or not okay: continue
            extra = sum(v is None for v in m.values())
            if best is None or extra < best[0]: best = (extra, d, m)
        return best
    for group, lengths in ((msg, False), (arrs + lens + objs, bool(arrs or lens))):
        if not group: continue
        b = fit(group, lengths)
        if b is None: return None
        out.append((b[1], b[2]))
    return out
def check_A01(c):
    F = c.F; seen = 0
    for f in exported(F):
        lens, arrs, objs, msg = arrays(f); short = f['q'].rsplit('::', 1)[-1]
        if not (lens or arrs or objs or msg): continue
        ds = counterpart(F, f)
        if ds is None: c.violation(f'{short}:counterpart', f['f'], f['l'], f'{f["q"]}: no dispose function takes what it hands out'); continue
        for fam, q in FAM.items():
            bad = set(); n = 0
            for sc in scenarios(c.thorough):
                I, rs = entry(F, f, q, lists=2, **sc)
                for s, _ in rs:
                    if s.ctl: continue
                    made = [(e[0], e[1], e[-1]) for e in s.ev if e[0] in ('new', 'new[]')]; cur = [s]
                    for d, m in ds:
                        nxt = []
                        for t in cur:
                            args = {}
                            for p in d['params']:
                                v = t.store.get(('P', m[p['n']])) if m[p['n']] else ci(0)
                                if v is None or v.op == 's' and v.a[:1] == ('BEFORE',): v = ci(0)
                                args[p['n']] = v
                            J = Api(F, q); J.unroll = 60; J.seen_fns |= I.seen_fns
                            nxt += [t2 for t2, _ in J.run(d, args=args, s=t.copy())]
                        cur = nxt
                    for t in cur:
                        c.count('paths', 1); rel = {}
                        for e in t.ev:
                            if e[0] not in ('delete', 'delete[]'): continue
                            v = e[1]
                            if is_num(v) and cval(v) == 0: continue
                            if v.op != 'addr' or v.a[1]: 
                                if v.op == 'sub' and v.a[0].op == 'arr' and not undefined(v): continue      # a null pointer of an array made with {}
                                if undefined(v): k = ('garbage', 'a pointer that was never set is released')
                                else: raise AnalysisError(f'{short}: what is released is not followed ({show(v)[:80]})')
                                if k[0] not in bad: bad.add(k[0]); c.violation(f'{short}:{fam}:{k[0]}', f['f'], f['l'], f'{f["q"]} ({fam}) and {ds[-1][0]["q"]}: {k[1]} (line {e[-1]})')
                                continue
                            rel.setdefault(v.a[0], []).append(e)
                        for how, root, line in made:
                            es = rel.pop(root, []); why = None; n += 1
                            if not es: why = 'is never released'
                            elif len(es) > 1: why = f'is released {len(es)} times'
                            elif (es[0][0] == 'delete[]') != (how == 'new[]'): why = f'is made with {how} and released with {es[0][0]}'
                            if why and (line, why) not in bad:
                                bad.add((line, why)); c.violation(f'{short}:{fam}:{why}:{made_of(t, root)}', f['f'], line, f'{f["q"]} ({fam}): what is allocated at line {line} {why} by {", ".join(d["q"].rsplit("::", 1)[-1] for d, _ in ds)}; {t.pathstr()[:100]}')
                        for root in rel:
                            if 'other' not in bad: bad.add('other'); c.violation(f'{short}:{fam}:other', f['f'], f['l'], f'{f["q"]} ({fam}): something it did not allocate is released ({root})')
            if not bad: c.ok(f'{short} ({fam}): {n} allocations, each released once by {", ".join(d["q"].rsplit("::", 1)[-1] for d, _ in ds)}')
            c.count('allocations', n); seen += 1
    if seen < 20: raise AnalysisError('anchor vanished: functions of the C interface that hand out memory')
    # the wrapper itself
    d = next((x for x in disposers(F) if any(p['t'] == N + 'AllAttributesParserWrapperBase *' for p in x['params'])), None)
    if d is None: raise AnalysisError('anchor vanished: how a parser is disposed of')
    for v, what in ((addr(Loc(('H', 'w', 0))), 'a parser'), (ci(0), 'no parser')):
        I = Api(F, FAM['Fanuc']); s = State(); s.store[('H', 'w', 0)] = st(None, {})
        for t, _ in I.run(d, args={d['params'][0]['n']: v}, s=s):
            es = [e for e in t.ev if e[0] in ('delete', 'delete[]') and not (is_num(e[1]) and cval(e[1]) == 0)]
            if (len(es) == 1 and es[0][0] == 'delete' and es[0][1] is v) if v.op == 'addr' else not es: c.ok(f'{d["q"]}: releases {what} once')
            else: c.violation(f'wrapper:{what}', d['f'], d['l'], f'{d["q"]}: given {what}, it releases {len(es)} objects')
    for name in ('AllAttributesParserWrapperBase', 'AllAttributesParserBase'):
        r = F.record(N + name); m = [x for x in (r or {}).get('methods', []) if x['n'].startswith('~')]
        if m and m[0].get('virt'): c.ok(f'{name} has a virtual destructor')
        else: c.violation(f'virtual:{name}', (r or {}).get('f', ''), (r or {}).get('l', 0), f'{N}{name} is deleted through its base but its destructor is not virtual')

# ---------------------------------------------------------------------------------------------------------------- A03
def snake(x): return re.sub(r'(?<=[a-z])([A-Z])', r'_\1', x).replace('NCS', 'NCS').lower().replace('nc_settings', 'ncsettings')
SAME_AS = {'ResetPathValues': ['reset_attributes_path_calculator'], 'ParseValue': ['parse'], 'GetLineMacroValues': ['get_macro_values'],
           'GetPathValues': ['get_path_result', 'get_time_result', 'get_word_range', 'get_unit_system'], 'SplitFileString': ['split_file']}
def ops_of(name): return SAME_AS.get(name) or [snake(name).replace('ncsettings', 'ncsettings')]
def inputs(f):
    lens, arrs, objs, msg = arrays(f); out = []
    for p in f['params']:
        t = p['t'].replace(' ', '')
        if p['n'] in lens + arrs + objs + msg or t.endswith('AllAttributesParserWrapperBase*'): continue
        if t == 'int*' : continue
        if t == 'int' and p['n'].endswith('_length'): continue
        out.append(p)
    return out
def given_args(F, f):
    """what the arrays and structures passed in hold: every element has a value of its own"""
    g = {}
    for p in f['params']:
        t = p['t'].replace(' ', '').replace('const', '')
        if p['n'].endswith('_keys'): g[p['n']] = mk('list', tuple(cs(f'{p["n"]}#{i}') for i in range(2)))
        elif p['n'].endswith('_vals'): g[p['n']] = mk('list', tuple(sym('E', p['n'], str(i)) for i in range(2)))
        elif t.endswith('*') and any(q['n'] == p['n'] + '_length' for q in f['params']):
            r = F.records.get(t[:-1])
            if r: g[p['n']] = mk('list', tuple(st(None, {F_(x['n']): cs(f'{p["n"]}#{i}') if 'char' in x['t'] else sym('E', p['n'], str(i), x['n']) for x in r['fields']}) for i in range(2)))
    return g
def sources(v):
    """the parameters of the C function a value is made of"""
    r = set()
    for x in subterms(v):
        if x.op == 's' and x.a[:1] in (('P',), ('E',)): r.add(x.a[1])
        t = const_text(x)
        if t is not None and '#' in t: r.add(t.split('#')[0])
    return r
def whole(v, p):
    """v is what parameter p is or points at"""
    P = sym('P', p)
    if v is P: return True
    if v.op == 'st' or v.op in ('list', 'map', 'put'): return False
    return show(v) == f'deref(P:{p})'
def judge_struct(F, v, p, where):
    """why the structure v does not carry the members of the structure p points at, like-named, None if it does"""
    if v.op != 'st': return f'{where} is {show(v)[:60]}'
    for k, x in v.a[1]:
        name = k[1]
        if x.op == 'sub' and isinstance(x.a[1], tuple) and x.a[1] == k and sources(x) == {p}: continue
        if x.op in ('map', 'st'): continue        # judged on its own
        if x.op == 'sub' and sources(x) == {p}: return f'{where}.{name} gets {x.a[1][1]}'
        return f'{where}.{name} gets {show(x)[:60]}'
    return None
def judge_map(v, name, where):
    es = v.a[0]; seen = []
    for k, x in es:
        kt = const_text(k)
        if kt is None or '#' not in kt: return f'{where} has a key that is not one passed in ({show(k)[:40]})'
        p, i = kt.split('#'); seen.append(i)
        if p.endswith('_keys'):
            q = p[:-5] + '_vals'
            if not (x.op == 's' and x.a == ('E', q, i)): return f'{where}: the value of {p}[{i}] is {show(x)[:60]}'
            if not p.startswith(name): return f'{where} is filled from {p}'
        else:
            if x.op != 'st': return f'{where}: the value of {p}[{i}] is {show(x)[:60]}'
            for f, y in x.a[1]:
                if not (y.op == 's' and y.a == ('E', p, i, f[1])): return f'{where}: {f[1]} of {p}[{i}] is {show(y)[:60]}'
    if sorted(seen) != ['0', '1']: return f'{where} has {len(seen)} of the 2 elements passed in'
    return None
def judge_op(c, F, f, q, e):
    """violations of one call of an operation; and the parameters it passes on"""
    bad = []; used = {}; ins = inputs(f); names = {p['n'] for p in ins}
    for (pn, pt, v) in e[2]:
        if v is None: continue
        src = sources(v)
        if v.op == 'map' or v.op == 'st' and not src: pass
        if len(src) == 0:
            bad.append(f'{e[1]}: argument {pn} is {show(v)[:60]}, not one that was passed in'); continue
        if v.op == 'st':
            simple = {s2 for k, x in v.a[1] if x.op not in ('map', 'st') for s2 in sources(x)}
            if len(simple) > 1: bad.append(f'{e[1]}: {pn} is made of {", ".join(sorted(simple))}'); continue
            if simple:
                p = next(iter(simple)); why = judge_struct(F, v, p, pn)
                if why: bad.append(f'{e[1]}: {why}')
            r = F.records.get(pt.replace('const ', '').replace('&', '').strip())
            if r and v.a[0] is None:
                miss = [x['n'] for x in r['fields'] if F_(x['n']) not in {k for k, _ in v.a[1]}]
                if miss: bad.append(f'{e[1]}: {pn}.{miss[0]} is not set')
            for k, x in v.a[1]:
                if x.op == 'map':
                    why = judge_map(x, k[1], f'{pn}.{k[1]}')
                    if why: bad.append(f'{e[1]}: {why}')
        elif len(src) != 1: bad.append(f'{e[1]}: {pn} is made of {", ".join(sorted(src))}')
        else:
            p = next(iter(src))
            if not whole(v, p):
                els = [sub(v, ('[', ci(i))) for i in range(2)]
                if not all(show(x) == f'P:{p}[{i}]' for i, x in enumerate(els)): bad.append(f'{e[1]}: {pn} is {show(v)[:80]}')
            if pn in names and pn != p: bad.append(f'{e[1]}: argument {pn} gets {p}')
            norm = lambda x: {w for w in re.split('_|(?=settings)', x) if w}
        for s2 in src: used.setdefault(s2, []).append(pn)
    return bad, used
def order_kept(f, e):
    """two arguments of the same type come in the order they are passed in"""
    pos = {p['n']: i for i, p in enumerate(f['params'])}; last = {}
    for (pn, pt, v) in e[2]:
        if v is None: continue
        src = sources(v)
        if len(src) != 1: continue
        p = next(iter(src)); t = f['params'][pos[p]]['t'] if p in pos else None
        if t in last and last[t][0] > pos[p]: return f'{e[1]}: {last[t][1]} and {p} are exchanged'
        if t: last[t] = (pos[p], p)
    return None
def check_A03(c, only=None):
    F = c.F; seen = 0
    for f in exported(F):
        short = f['q'].rsplit('::', 1)[-1]
        if short.startswith('Dispose') or short.startswith('Create') or only and not only(f): continue
        want = ops_of(short); g = given_args(F, f); seen += 1
        for fam, q in FAM.items():
            exist = [w for w in want if any(x['q'] in (f'{q}AllAttributesParser::{w}', f'{N}AllAttributesParserBase::{w}') for x in F.fn.values()) or any(m['n'] == w for m in (F.record(f'{q}AllAttributesParser') or {}).get('methods', []) + (F.record(N + 'AllAttributesParserBase') or {}).get('methods', []))]
            for sc in list(scenarios(c.thorough))[:4]:
                I = Api(F, q, sc['words'], sc['files'], sc['said'], sc['data'])
                s, args = start(I, f, 2, sc['given'] if short == 'GetLineMacroValues' else None)
                for n_, v in g.items():
                    L = Loc(('P', n_)); I.write(s, L, v); args[n_] = addr(L)
                rs = I.run(f, args=args, s=s); bad = []
                if not rs: raise AnalysisError(f'{f["q"]}: no path')
                for s1, r in rs:
                    if s1.ctl: bad.append(f'ends with an exception'); continue
                    ev = [e for e in s1.ev if e[0] == 'op' and e[1] != 'get_parser']; c.count('paths', 1)
                    called = [e[1] for e in ev]
                    for w in exist:
                        if w not in called and not (w in ('get_macro_values', 'get_word_range', 'reset_macro_values') and fam == 'Heidenhain'): bad.append(f'does not perform {w}')
                    for x in called:
                        if x not in want: bad.append(f'performs {x}')
                        elif called.count(x) > 1 and not x.startswith('get_'): bad.append(f'performs {x} {called.count(x)} times')
                    used = {}
                    for e in ev:
                        if e[1] not in want: continue
                        b, u = judge_op(c, F, f, q, e); bad += b; used.update(u); c.count('arguments', len(e[2]))
                        w = order_kept(f, e)
                        if w: bad.append(w)
                    if ev and not called[0].startswith('get_'):
                        for p in inputs(f):
                            if p['n'] not in used: bad.append(f'{p["n"]} is not passed on')
                    if f['rt'] == 'bool' and ev:
                        v = I.val(s1, r)
                        if v is not sym('RET', ev[-1][1]): bad.append(f'returns {show(v)[:60]}, not what {ev[-1][1]} returns')
                    bad += results(I, s1, f, short, sc, fam)
                for b in dict.fromkeys(bad): c.violation(f'{short}:{fam}:{b[:60]}', f['f'], f['l'], f'{f["q"]} ({fam}): {b}')
                if not bad: c.ok(f'{short} ({fam}): performs {", ".join(want)} with its arguments in their places')
    if seen < (15 if not only else 2): raise AnalysisError('anchor vanished: functions of the C interface')
def results(I, s, f, short, sc, fam):
    """what the call hands out next to words: message, macro values, path values"""
    bad = []; P = lambda n: s.store.get(('P', n))
    def arr(n, k):
        p = P(n)
        return [sub(s.store[p.a[0]], ('[', ci(i))) for i in range(k)] if p is not None and p.op == 'addr' and p.a[0] in s.store else None
    if any(p['n'] == 'message' for p in f['params']) and P('message') is not None and P('message').op == 'addr':
        t, why = c_string(I, s, P('message'))
        if not why and t is not sym('MSG'): bad.append(f'the message handed out is {show(t)[:60]}')
    said = sc['said']
    if any(p['n'] == 'message' for p in f['params']) and said and P('message') is not None and P('message').op != 'addr' and I.decide(s, EMPTY(sym('MSG'))) is not True:
        called = next((e for e in s.ev if e[0] == 'op' and e[1] != 'get_parser'), None)
        if called and any(n == 'message' for n, _, _ in called[2]) and not stub(I, called, fam): bad.append('the message of the operation is not handed out')
    if fam == 'Heidenhain': return bad
    mv = sc['data']['get_macro_values'].a[0]
    if short == 'GetMacroValues': rows = mv
    elif short == 'GetLineMacroValues': rows = [(k, v) for k, v in mv if sub(k, F_('line')) is ci(5)]
    else: rows = None
    if rows is not None:
        L = P('length')
        if not is_num(L) or cval(L) != len(rows): bad.append(f'{show(L)} macro values are handed out, there are {len(rows)}')
        elif rows:
            for n, get in (('macro_ids', lambda k, v: sub(k, F_('id'))), ('macro_lines', lambda k, v: sub(k, F_('line'))), ('macro_values', lambda k, v: v)):
                if not any(p['n'] == n for p in f['params']): continue
                a = arr(n, len(rows))
                if a is None or any(x is not get(k, v) for x, (k, v) in zip(a, rows)): bad.append(f'{n} handed out are {[show(x) for x in a or []]}, not those of the macros')
    if short == 'GetPathValues':
        for n, op in (('path_result', 'get_path_result'), ('time_result', 'get_time_result')):
            p = P(n); v = s.store.get(p.a[0]) if p is not None and p.op == 'addr' else None
            if v is None or v.op != 'st': bad.append(f'{n} is not handed out'); continue
            for k, x in v.a[1]:
                if x.op == 'addr': 
                    t, why = c_string(I, s, x)
                    if not why and t is not sub(sc['data'][op], k): bad.append(f'{n}.{k[1]} is {show(t)[:40]}')
                elif x is not sub(sc['data'][op], k): bad.append(f'{n}.{k[1]} is {show(x)[:60]}')
        rg = sc['data']['get_word_range'].a[0]; L = P('length')
        if not is_num(L) or cval(L) != len(rg): bad.append(f'{show(L)} word ranges are handed out, there are {len(rg)}')
        elif rg:
            for (w, v), x in zip(rg, arr('word_result_range', len(rg)) or []):
                t, why = c_string(I, s, sub(x, F_('word')))
                if not why and t is not w: bad.append(f'a word range is handed out for {show(t)[:40]}')
                for i, n in enumerate(('value_min', 'value', 'value_max')):
                    if show(sub(x, F_(n))) != show(sub(v, F_(str(i)))): bad.append(f'{n} of a word range is {show(sub(x, F_(n)))[:40]}')
    return bad
def stub(I, e, fam):
    """the operation does not set its message at all"""
    q = FAM[fam]
    for g in I.F.fn.values():
        if g['q'] == f'{q}AllAttributesParser::{e[1]}' and g.get('body') and len(g['params']) == len(e[2]):
            p = next((p for p in g['params'] if p['n'] == 'message'), None)
            if p and not any(x.get('k') == 'Ref' and x.get('d') == p.get('d') for x in walk(g['body'])): return True
    return False
