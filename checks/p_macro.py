"""P09, P12, P13: macro expressions, macro lookups, integer division."""
import math
from absint import *
from words import *
from core import AnalysisError, walk
from loops import subterms
import models, p_opt, par
N = 'parser::fanuc::'
THIS = Loc(('O', 'this'))
RHS = sym('operand'); LHS = sym('left')
def opv(t): return mk('var', 'double', t)

# ---------------------------------------------------------------- P09
class Names(Interp):
    """what a just constructed calculator accepts as function names"""
    def __init__(self, F): super().__init__(F); self.names = {}; self.lost = False
    def on_libcall(self, s, fr, n, q, obj, args):
        if q.startswith('boost::spirit::qi::symbols'):
            a = [self.val(s, x) for x in args]
            if len(a) == 2:
                if is_str(a[0]) and is_str(a[1]): self.names[cval(a[0])] = (cval(a[1]), n.get('l'))
                else: self.lost = True
        return None
def function_names(F):
    ct = [f for f in F.fn.values() if f['q'] == N + 'ValueCalculator::ValueCalculator' and f.get('body') and f.get('kind') == 'ctor' and not f['params']]
    if len(ct) != 1: raise AnalysisError('ValueCalculator: constructor not found')
    I = Names(F); I.unroll = 200; I.run(ct[0], this=THIS)
    if I.lost: raise AnalysisError('ValueCalculator: a function name is not followed')
    if not I.names: raise AnalysisError('anchor vanished: function names of macro expressions')
    return I.names, ct[0]

def arm_texts(n):
    """texts of the terminals of a grammar expression, what is under omit[] left out"""
    if isinstance(n, list):
        for x in n: yield from arm_texts(x)
        return
    if not isinstance(n, dict): return
    k = n.get('k')
    if k == 'DefArg': return
    if k == 'Op' and n.get('op') == '[]' and any(x.get('n') in ('omit', 'lit') for x in walk(n['c'][0])): return
    if k == 'Char': yield chr(n['v'])
    elif k == 'Str': yield n['v']
    for v in n.values():
        if isinstance(v, (dict, list)): yield from arm_texts(v)
def grammar(F):
    """rule -> (texts of its terminals, rules it names)"""
    out = {}
    for f in F.fn.values():
        if f['q'] != N + 'calculator::calculator' or not f.get('body') or '<' in f['q']: continue
        for n in walk(f['body']):
            if n.get('k') in ('Op', 'Bin') and n.get('op') in ('=', '%='):
                l, r = n['c'][-2], n['c'][-1]
                if l.get('k') != 'Member': continue
                out[l['n']] = (set(arm_texts(r)), {x['n'] for x in walk(r) if x.get('k') == 'Member'}, n.get('l'), f, any(x.get('n') == 'double_' for x in walk(r)))
    if not out: raise AnalysisError('anchor vanished: the rules of macro expressions')
    return out

def factor_of(t, x):
    """k when t is x times the constant k"""
    if t is x: return 1.0
    if t.op == 'tofloat': return factor_of(t.a[0], x)
    if t.op == '*':
        for a, b in (t.a, t.a[::-1]):
            if is_num(a):
                k = factor_of(b, x); return None if k is None else k * cval(a)
    if t.op == '/' and is_num(t.a[1]) and cval(t.a[1]):
        k = factor_of(t.a[0], x); return None if k is None else k / cval(t.a[1])
    if t.op == 'neg':
        k = factor_of(t.a[0], x); return None if k is None else -k
    return None
DEG = math.pi / 180
PLAIN = {'ABS': ('abs', 'fabs'), 'FUP': ('ceil',), 'FIX': ('floor', 'trunc'), 'EXP': ('exp',), 'LOG': ('log',), 'LN': ('log',), 'LOG10': ('log10',), 'SQRT': ('sqrt',), 'ROUND': ('round',)}
TRIG = {'SIN', 'COS', 'TAN'}; ARC = {'ASIN', 'ACOS', 'ATAN'}; HYP = {'SINH', 'COSH', 'TANH'}
def close(a, b): return a is not None and abs(a - b) < 1e-9 * max(1, abs(b))
def right_function(name, t):
    """None, or what is wrong with the value t of a function of RHS"""
    def inner(f):
        for g in f:
            for x in subterms(t):
                if x.op == 'm:' + g: return x
        return None
    if name in PLAIN:
        x = inner(PLAIN[name])
        return None if x is t and factor_of(x.a[0], RHS) == 1.0 else f'is not {PLAIN[name][0]} of the operand'
    if name in TRIG:
        x = inner([name.lower()])
        return None if x is t and close(factor_of(x.a[0], RHS), DEG) else f'is not the {name.lower()} of the operand taken in degrees'
    if name in ARC:
        x = inner([name.lower()])
        return None if x is not None and factor_of(x.a[0], RHS) == 1.0 and close(factor_of(t, x), 1 / DEG) else f'is not the {name.lower()} of the operand in degrees'
    if name in HYP:
        x = inner([name.lower()])
        return None if x is t and factor_of(x.a[0], RHS) else f'is not the {name.lower()} of the operand'
    return None
def eval_fn(F, what):
    r = [f for f in F.fn.values() if f['q'].rsplit('::', 1)[-1] == 'operator()' and f.get('body') and f['q'].startswith(N) and f['params'] and what in f['params'][0]['t'] and f['rt'] == 'double']
    if len(r) != 1: raise AnalysisError(f'anchor vanished: the evaluation of {what}')
    return r[0]
def run_eval(F, what, field, text, more=()):
    f = eval_fn(F, what); I = Interp(F); s = State(); L = Loc(('P', 'x'))
    I.write(s, L + F_(field), text); I.write(s, L + F_('operand'), opv(RHS))
    return f, [(s1, None if r is None else I.val(s1, r)) for s1, r in I.run(f, args=[L] + list(more), this=THIS, s=s)]
def ints(t):
    """a term with conversions between numbers taken off"""
    while t.op in ('trunc', 'cast', 'tofloat', 'conv', 'toint') and len(t.a) >= 1 and isinstance(t.a[0], V): t = t.a[0]
    return t
def right_operator(name, t):
    def two(o, a, b, both=False): return t.op == o and len(t.a) == 2 and (ints(t.a[0]) is a and ints(t.a[1]) is b or both and ints(t.a[1]) is a and ints(t.a[0]) is b)
    if name == '+': return two('+', LHS, RHS, True)
    if name == '-': return two('-', LHS, RHS) or t.op == '+' and t is arith('-', LHS, RHS)
    if name == '*': return two('*', LHS, RHS, True)
    if name == '/': return two('/', LHS, RHS)
    b = [x for x in subterms(t)]
    o = {'AND': '&', 'OR': '|', 'XOR': '^'}.get(name)
    if o:
        t = ints(t); return two(o, LHS, RHS, True)
    if name == 'MOD':
        for x in b:
            if x.op in ('%', 'm:fmod', 'm:remainder') and len(x.a) == 2: return x.op != 'm:remainder' and whole(x.a[0], LHS) and whole(x.a[1], RHS)
        return False
    return None
def whole(t, x):
    """t is x without its fraction"""
    return ints(t) is x or t.op == 'm:trunc' and t.a[0] is x
def check_P09(c):
    F = c.F
    names, ct = function_names(F)
    for acc, (name, l) in sorted(names.items()):
        f, rs = run_eval(F, '::function_type', 'name', cs(name))
        if not rs: raise AnalysisError(f'{f["q"]}: no path for {name}')
        for s, v in rs:
            if s.ctl: c.violation(f'function:{acc}', f['f'], s.ctl[4] or f['l'], f'the function {acc}, which expressions accept, is not evaluated ({s.ctl[1].rsplit("::", 1)[-1]} is thrown)'); continue
            bad = right_function(acc, v)
            if not any(x is RHS for x in subterms(v)) and not any(x.op == 'loopv' for x in subterms(v)): bad = 'does not depend on the operand'
            if bad and any(x.op in ('call', 'loopv', 'out') for x in subterms(v)): raise AnalysisError(f'{f["q"]}: the value of {acc} is not followed: {show(v)[:120]}')
            if bad: c.violation(f'function:{acc}', f['f'], f['l'], f'the value of the function {acc} {bad}: {show(v)[:120]}')
            else: c.ok(f'{acc} -> {show(v)[:80]}')
    need = set(PLAIN) - {'LN'} | TRIG | ARC
    for x in sorted(need - set(names)): c.violation(f'missing:{x}', ct['f'], ct['l'], f'the function {x} is not accepted in expressions')
    G = grammar(F)
    binary = {}; unary = {}
    for rule, (texts, refs, l, f, number) in G.items():
        for t in texts: (unary if number else binary)[t] = (rule, l, f)
    if not binary: raise AnalysisError('anchor vanished: binary operators of macro expressions')
    for t, (rule, l, gf) in sorted(binary.items()):
        f, rs = run_eval(F, '::operation', 'operator_name', cs(t), [LHS])
        n = 0
        for s, v in rs:
            if s.ctl:
                if t == 'MOD' and any(x is RHS for a in s.conds for x in subterms(a)): continue          # a divisor without a remainder is refused
                c.violation(f'operator:{t}', f['f'], s.ctl[4] or f['l'], f'the operator {t}, which expressions accept, is not evaluated ({s.ctl[1].rsplit("::", 1)[-1]} is thrown)'); continue
            n += 1; r = right_operator(t, v)
            if not r and any(x.op in ('call', 'loopv', 'out') for x in subterms(v)): raise AnalysisError(f'{f["q"]}: the value of {t} is not followed: {show(v)[:120]}')
            if r is None: c.ok(f'operator {t} is evaluated')
            elif r: c.ok(f'{t} -> {show(v)[:80]}')
            else: c.violation(f'operator:{t}', f['f'], f['l'], f'the value of left {t} right is {show(v)[:120]}')
        if not n and not any(k == f'operator:{t}' for k in c.viol): c.violation(f'operator:{t}', f['f'], f['l'], f'the operator {t} never has a value')
    for t in ('+', '-', '*', '/', 'AND', 'OR', 'XOR', 'MOD'):
        if t not in binary: c.violation(f'missing:{t}', ct['f'], ct['l'], f'the operator {t} is not accepted in expressions')
    # binding: multiplication, division, AND and MOD before addition, subtraction, OR and XOR
    if all(t in binary for t in ('+', '*')):
        lo, hi = binary['+'], binary['*']
        for t, want in (('-', lo), ('OR', lo), ('XOR', lo), ('/', hi), ('AND', hi), ('MOD', hi)):
            if t in binary:
                if binary[t][0] == want[0]: c.ok(f'{t} binds like {"+" if want is lo else "*"}')
                else: c.violation(f'binding:{t}', binary[t][2]['f'], binary[t][1], f'the operator {t} does not bind like {"+" if want is lo else "*"}')
        if lo[0] == hi[0] or hi[0] not in G[lo[0]][1]: c.violation('binding', lo[2]['f'], lo[1], 'multiplication does not bind before addition')
        else: c.ok('* binds before +')
    for t, (rule, l, gf) in sorted(unary.items()):
        if t == '#': continue
        f, rs = run_eval(F, '::signed_type', 'sign', ci(ord(t)))
        for s, v in rs:
            if s.ctl: c.violation(f'sign:{t}', f['f'], s.ctl[4] or f['l'], f'the sign {t}, which expressions accept, is not evaluated'); continue
            if v is (NEG(RHS) if t == '-' else RHS) or factor_of(v, RHS) == (-1.0 if t == '-' else 1.0): c.ok(f'sign {t}')
            else: c.violation(f'sign:{t}', f['f'], f['l'], f'the value of {t}operand is {show(v)[:100]}')
    # operators of the same binding are applied from left to right
    f = eval_fn(F, '::program'); I = Interp(F); I.unroll = 20; s = State(); L = Loc(('P', 'x'))
    def oper(i, t): return st(None, {F_('operator_name'): cs(t), F_('operand'): opv(sym(i))})
    I.write(s, L + F_('first'), opv(sym('a'))); I.write(s, L + F_('rest'), mk('list', (oper('b', '-'), oper('c', '/'))))
    want = arith('/', arith('-', sym('a'), sym('b')), sym('c'))
    for s1, r in I.run(f, args=[L], this=THIS, s=s):
        v = None if r is None else I.val(s1, r)
        if s1.ctl: c.violation('order', f['f'], f['l'], 'a sequence of operators is not evaluated')
        elif v is want: c.ok('operators are applied from left to right')
        elif any(x.op in ('call', 'loopv', 'out') for x in subterms(v)): raise AnalysisError(f'{f["q"]}: not followed: {show(v)[:120]}')
        else: c.violation('order', f['f'], f['l'], f'a - b / c at one level is evaluated as {show(v)[:120]}')

# ---------------------------------------------------------------- P13
def integral(t): return t is not None and canon_t(t.replace('const ', '')).split(' ')[0] in ('int', 'unsigned', 'long', 'short', 'char', 'signed', 'size_t', 'std::size_t', 'uint64_t', 'uint32_t', 'int64_t', 'int32_t', 'std::uint64_t', 'std::uint32_t')
def unsign(t): return 'unsigned' in t or 'uint' in t or 'size_t' in t
def ntype(I, n):
    t = I.ntype(n)
    if t: return t
    return {'Int': 'int', 'Char': 'char', 'Bool': 'int', 'Sizeof': 'unsigned long'}.get(n.get('k'))
def divisions(I, f):
    for n in walk(f['body']):
        if n.get('k') == 'Bin' and n.get('op') in ('/', '%', '/=', '%='):
            a, b = n['c']; ta, tb = ntype(I, a), ntype(I, b)
            if integral(ta) and integral(tb): yield n, ta, tb
def nonzero(I, s, y):
    if is_num(y): return cval(y) != 0
    if y.op == 'sizeof': return True
    r = I.decide(s, EQ(y, ci(0)))
    if r is not None: return r is False
    for a, v in s.conds.items():                                              # x > 0, x >= 1, x < 0
        if a.op == 'lt':
            p, q = a.a
            if v and (q is y and is_num(p) and cval(p) >= 0 or p is y and is_num(q) and cval(q) <= 0): return True
            if not v and (p is y and is_num(q) and cval(q) > 0 or q is y and is_num(p) and cval(p) < 0): return True
    return None
class Div(p_opt.OneI):
    def __init__(self, F, inl): super().__init__(F, inl); self.div = {}
    def on_div(self, s, fr, n, x, y):
        ok = nonzero(self, s, y)
        if ok:
            # the one quotient that does not fit: the smallest number divided by -1
            ta, tb = ntype(self, n['c'][0]), ntype(self, n['c'][1])
            if not (unsign(ta or '') or unsign(tb or '') or is_num(y) and cval(y) != -1 or is_num(x)) and self.decide(s, EQ(y, ci(-1))) is not False and self.decide(s, LT(y, ci(0))) is not False and self.decide(s, LT(x, ci(0))) is not False: ok = 'min'
        o = self.div.get(nid(n))
        rank = lambda z: 0 if z is None or z is False else 1 if z == 'min' else 2
        if o is None or rank(ok) < rank(o[0]): self.div[nid(n)] = (ok, y, s.pathstr()[-200:])
def run_evs(f, J):
    """an operator of an expression: its operands may have any value"""
    s = State(); L = Loc(('P', 'x'))
    J.write(s, L + F_('operand'), opv(RHS)); J.run(f, args=[L, LHS], this=THIS, s=s)
def check_P13(c):
    F = c.F; I = Interp(F); par.number_nodes(F); L = p_opt.Library(c)
    evs = {f['u']: f for f in [eval_fn(F, '::operation')]}
    for f in list(F.fn.values()):
        if not p_opt.ours(f): continue
        ds = [(n, ta, tb) for n, ta, tb in divisions(I, f)]
        if not ds: continue
        todo = {}
        for n, ta, tb in ds:
            c.count('integer divisions'); y = n['c'][1]
            while y.get('k') in ('Cast', 'Paren') and y.get('c'): y = y['c'][0]
            if y.get('k') == 'Int' and int(y['v']) > 0 or y.get('k') == 'Sizeof': c.ok(f'{f["q"]}:{n["l"]}: the divisor is a constant'); continue
            todo[nid(n)] = n
        cur = {f['u']: f}; reach = {f['u']}
        for depth in range(3):
            if not todo or not cur: break
            seen = {}
            for g in cur.values():
                J = Div(F, reach | L.callees(f, 1) | {g['u']})
                try:
                    if g['u'] in evs: run_evs(g, J)
                    else: J.run(g, this=THIS if g.get('cls') else None)
                except AnalysisError as e: c.notes.append(f'{g["q"]}: {e}')
                for k, v in J.div.items():
                    if k in todo: seen.setdefault(k, []).append(v)
            for k, vs in seen.items():
                bad = [v for v in vs if v[0] is not True]
                if not bad: c.ok(f'{f["q"]}:{todo[k]["l"]}: the divisor is not zero'); del todo[k]; continue
                if not todo[k].get('sure'): todo[k]['bad'] = bad[0]
                if not p_opt.murky(bad[0][1]) and depth == 0 and f['u'] in evs: todo[k]['sure'] = 1
            up = {}
            for x in cur: up.update(L.pred.get(x, {}))
            cur = {k: v for k, v in up.items() if k not in reach}; reach |= set(cur)
        for k, n in todo.items():
            v = n.pop('bad', None); n.pop('sure', None)
            if v is None: c.notes.append(f'{f["q"]}:{n["l"]}: not reached'); continue
            if p_opt.murky(v[1]) and v[0] is not False and v[0] != 'min': c.notes.append(f'{f["q"]}:{n["l"]}: not decided'); continue
            what = 'the smallest number may be divided by -1' if v[0] == 'min' else 'the divisor may be zero'
            c.violation(f'{f["q"]}:{n["op"]}', f['f'], n['l'], f'{f["q"]}: {what} in this integer {"remainder" if "%" in n["op"] else "division"}' + (f' ({v[2][-120:]})' if v[2] else ''))

# ---------------------------------------------------------------- P12
CMP = N + 'macro_map_key_cmp'; KEY = 'macro_map_key'
def key_of(i, l): return st(None, {F_('id'): i, F_('line'): l})
def is_macro_map(t): return t is not None and CMP in t
class Seek:
    """mixin: which entries of the macro values are read, and what is known of them at that moment"""
    def seek(self): self.reads = []; self.looks = {}
    def on_libcall(self, s, fr, n, q, obj, args):
        h = q.rsplit('::', 1)[-1]
        if KEY in q or is_macro_map(str(n.get('q'))):
            if h in ('find', 'at', 'operator[]', 'count', 'contains', 'upper_bound', 'equal_range', 'lower_bound'): self.looks[nid(n)] = (h, fr.file, n.get('l'))
        return super().on_libcall(s, fr, n, q, obj, args)
    def read(self, s, loc):
        for i, x in enumerate(loc.path):
            if x[0] in ('[', 'kv') and isinstance(x[1], V) and self.mkey(x[1]):
                if x[0] == '[' or i + 1 < len(loc.path) and loc.path[i + 1] == F_('second'): self.reads.append((x[1], s.copy()))
        return super().read(s, loc)
    def mkey(self, k):
        if k.op in ('lb', 'ub') and len(k.a) == 2: k = k.a[1]
        return k.op == 'st' and {p for p, _ in k.a[1]} == {F_('id'), F_('line')}
class SeekI(Seek, Interp):
    def __init__(self, F): super().__init__(F); self.seek()
    def on_call(self, s, fr, n, fn, obj, args):
        if fn['params'] and 'MessageName' in fn['params'][0]['t']: return [(s, sym('msg'))]
        return None
def num_of(t):
    """the text a number is made from, or the term itself, with conversions between numbers taken off"""
    t = ints(t)
    while t.op in ('toint', 'tofloat', 'conv', 'cast', 'stoi') and isinstance(t.a[0], V): t = ints(t.a[0])
    return t
def judge_reads(c, I, what, f, number, lines, line_text):
    """every entry read is the one of the number asked for, at or before the line"""
    bad = None; n = 0
    for k, s in I.reads:
        n += 1; key = k
        if k.op in ('lb', 'ub'):
            key = k.a[1]
            if k.op == 'ub': bad = 'the entry after the requested one is read'; continue
            if any(x.op == 'it' for x in subterms(k)) or any(isinstance(y, V) and y.op == '+' for y in (k,)): bad = 'not the entry found is read'; continue
        i, l = sub(key, F_('id')), sub(key, F_('line'))
        if k.op == 'lb' and I.decide(s, IN(k, k.a[0])) is not True: bad = f'the place behind the last entry may be read ({s.pathstr()[-140:]})'; continue
        if k.op == 'lb':
            d = I.decide(s, EQ(sub(k, F_('id')), i))
            if d is not True: bad = f'the value of the entry found is used although it may be of another macro number ({s.pathstr()[-140:]})'; continue
        else: bad = f'only a value assigned on the line itself is found (key {show(key)[:60]})'; continue
        if not number(i): bad = f'the macro looked up is {show(i)[:80]}, not the number of the reference'; continue
        if not any(l is x for x in lines): bad = f'the value looked up is the one as of line {show(l)[:60]}, not {line_text}'; continue
    if bad: c.violation(what, f['f'], f['l'], f'{f["q"]}: {bad}'); return n
    if n: c.ok(f'{what}: {n} reading(s) of the entry of the number and line asked for'); c.count('macro values read', n)
    return n
def check_P12(c):
    F = c.F; LINE = sym('LINE'); INTMAX = ci(2**31 - 1)
    # 1. order of the entries: by number, the latest line first
    r = [f for f in F.fn.values() if f['q'] == CMP + '::operator()' and f.get('body')]
    if not r: raise AnalysisError('anchor vanished: order of the macro values')
    f = r[0]; V3 = [(i, l) for i in (1, 2, 3101) for l in (-1, 0, 1, 2, 70000)]; tab = {}
    for a in V3:
        for b in V3:
            I = Interp(F); s = State(); A, B = Loc(('P', 'a')), Loc(('P', 'b'))
            I.write(s, A, key_of(ci(a[0]), ci(a[1]))); I.write(s, B, key_of(ci(b[0]), ci(b[1])))
            rs = I.run(f, args=[A, B], s=s)
            vs = {cval(I.val(t, v)) if is_num(I.val(t, v)) else None for t, v in rs}
            if len(vs) != 1 or None in vs: raise AnalysisError(f'{f["q"]}: the order of {a} and {b} is not followed')
            tab[a, b] = bool(vs.pop())
    bad = None
    for a in V3:
        for b in V3:
            x = tab[a, b]
            if a[0] == b[0]:
                if x != (a[1] > b[1]): bad = f'of two values of one macro, line {a[1]} {"comes" if x else "does not come"} before line {b[1]}'
            elif x == tab[b, a] or x != tab[(a[0], 0), (b[0], 0)]: bad = f'values of different macros are not ordered by number ({a}, {b})'
    c.count('pairs of entries ordered', len(tab))
    if bad: c.violation('order', f['f'], f['l'], f'the macro values are not kept by number, latest line first: {bad}')
    else: c.ok('macro values are ordered by number, latest line first')
    # 2. references in words: the substitution and the code groups
    def words_site(q, mk_args, want_throw):
        f = one(F, q); got = 0
        mp = [p['n'] for p in f['params'] if KEY in p['t'] and 'map' in p['t']]; lp = [p['n'] for p in f['params'] if p['t'].replace('const ', '').strip() == 'int']; wp = [p['n'] for p in f['params'] if 'boost::variant' in p['t']]
        if len(mp) != 1 or len(lp) != 1 or len(wp) != 1: raise AnalysisError(f'{q}: parameters not recognised')
        for word in ('G', 'M', 'X'):
            for kw in (dict(), dict(sign='-'), dict(open_bracket='[', close_bracket=']')):
                if word in ('G', 'M') and kw: continue
                I = SeekI(F); I.unroll = 60; s = State(); M, W = Loc(('P', mp[0])), Loc(('P', wp[0])); T = mk('s', 'number'); 
                I.write(s, M, sym('MACROS')); I.write(s, W, mk('list', (dec(word, macro='#', value=some(T), **kw),)))
                rs = I.run(f, args={mp[0]: M, lp[0]: LINE, wp[0]: W, **mk_args(I, s)}, this=THIS, s=s)
                if not rs: raise AnalysisError(f'{q}: no path')
                n = judge_reads(c, I, f'{q.rsplit("::", 2)[-2]}:{word}{"".join(kw)}', f, lambda i: num_of(i) is T, [LINE], 'of the line of the reference'); got += n
                if n and not any(s1.ctl for s1, _ in rs): c.violation(f'missing:{q}', f['f'], f['l'], f'{q}: a macro without a value is not reported as missing')
                if not n and any(CMP in str(x.get('q')) for x in walk(f['body'])): raise AnalysisError(f'{q}: how a macro value is found is not followed')
                for s1, _ in rs:
                    if s1.ctl: continue
                    ts = set(); [ts.update(subterms(x)) for x in list(s1.conds)]
        if not got: raise AnalysisError(f'anchor vanished: macro references in {q}')
    def groups(I, s):
        f = one(F, N + 'CodeGroupsVerifier::operator()'); out = {}
        for p in f['params']:
            if 'CodeGroupValue' in p['t'] and 'map' in p['t']:
                L = Loc(('P', p['n'])); I.write(s, L, sym(p['n'])); out[p['n']] = L
        return out
    def ops(I, s):
        f = one(F, N + 'MacroEvaluatedCodeVerifier::operator()'); out = {}
        for p in f['params']:
            if 'vector' in p['t'] and 'boost::variant' not in p['t']:
                L = Loc(('P', p['n'])); I.write(s, L, mk('list', ())); out[p['n']] = L
        return out
    words_site(N + 'MacroEvaluatedCodeVerifier::operator()', ops, True)
    words_site(N + 'CodeGroupsVerifier::operator()', groups, True)
    # 3. references in expressions
    f = eval_fn(F, '::signed_type'); I = SeekI(F); s = State(); L = Loc(('P', 'x'))
    I.write(s, L + F_('sign'), ci(ord('#'))); I.write(s, L + F_('operand'), opv(RHS))
    rs = I.run(f, args=[L], this=THIS, s=s)
    lines = [INTMAX] + [sub(THIS_, F_(x)) for x in ('line',) for THIS_ in (sym('O', 'this'),)]
    if not judge_reads(c, I, 'expression', f, lambda i: ints(i) is RHS, lines, 'the latest one'): raise AnalysisError(f'{f["q"]}: how a macro value is found is not followed')
    if not any(s1.ctl for s1, _ in rs): c.violation('missing:expression', f['f'], f['l'], 'a macro without a value is not reported as missing in an expression')
    # 4. hover
    hover(c)
    # 5. assignment
    assign(c, LINE)
def hover(c):
    import p_server as S
    class H(Seek, S.ServerInterp):
        def __init__(self, F): super().__init__(F); self.seek()
    I, res = S.run_method(c.F, 'textDocument/hover', False, cls=H)
    f = S.parse_fn(c.F); f = dict(f, q='textDocument/hover')
    LN = mk('jint', S.member(S.REQ, 'params', 'position', 'line'))
    c._lines = [x for x in {k.a[1] for k, _ in I.reads if k.op == 'lb'}]
    if not judge_reads(c, I, 'hover', f, lambda i: number_in_line(i), [arith('+', LN, ci(1))], 'of the line pointed at'): raise AnalysisError('hover: how a macro value is found is not followed')
def number_in_line(i): return not is_num(i) and any(x.op in ('loopv', 'substr', 'jstr', 'call', 'out') for x in subterms(i))
def assign(c, LINE):
    F = c.F; f = one(F, N + 'MacroEvaluator::evaluate')
    mp = [p['n'] for p in f['params'] if KEY in p['t'] and 'map' in p['t']]; lp = [p['n'] for p in f['params'] if p['t'].replace('const ', '').strip() == 'int']; wp = [p['n'] for p in f['params'] if 'boost::variant' in p['t']]
    if len(mp) != 1 or len(lp) != 1 or len(wp) != 1: raise AnalysisError('parameters of MacroEvaluator::evaluate not recognised')
    class A(SeekI):
        def on_call(self, s, fr, n, fn, obj, vs):
            if fn['q'] == N + 'ValueCalculator::parse':
                out = []
                for ok in (0, 1):
                    t = s.copy()
                    for p, v in zip(fn['params'], vs):
                        if p['t'].replace(' ', '') == 'double&' and isinstance(v, Loc): self.assign(t, fr, v, sym('RESULT'))
                    t.event('calc', [self.val(s, v) for v in vs][0], ok); out.append((t, ci(ok)))
                return out
            return super().on_call(s, fr, n, fn, obj, vs)
    T = mk('s', 'number'); base = sym('MACROS')
    for name, ws, target, expr in (
        ('#1=', [dec('#', value=some(T)), dec('=', value=some(mk('s', 'val')))], T, True),
        ('#1=-5.0', [dec('#', value=some(T)), dec('=', sign='-', value=some(mk('s', 'val')), dot='.', value2=some(mk('s', 'val2')))], T, True),
        ('N10 #1=5', [dec('N', value='10'), dec('#', value=some(T)), dec('=', value=some(mk('s', 'val')))], T, True),
        ('X5', [dec('X', value=some(mk('s', 'val')))], None, False)):
        I = A(F); I.unroll = 60; s = State(); M, W = Loc(('P', mp[0])), Loc(('P', wp[0]))
        I.write(s, M, base); I.write(s, W, mk('list', tuple(ws)))
        rs = I.run(f, args={mp[0]: M, lp[0]: LINE, wp[0]: W}, this=THIS, s=s)
        bad = None; n = 0
        for t, r in rs:
            if t.ctl: continue                                               # a number too big for a macro
            m = I.read(t, M); ret = I.val(t, r)
            calc = [e for e in t.ev if e[0] == 'calc']
            if not expr:
                if m is not base or calc: bad = 'a line without an assignment changes the macro values'
                n += 1; continue
            if not calc:
                if m is not base: bad = 'a value is assigned without an evaluated expression'
                if any(I.decide(t, EQ(num_of_x, ci(-1))) for num_of_x in [mk('toint', T)]): n += 1; continue
                if cval(ret) if is_num(ret) else True: bad = bad or f'an assignment is left out ({t.pathstr()[-120:]})'
                continue
            if not calc[-1][2]:
                if m is not base: bad = 'a value is assigned although the expression is wrong'
                continue
            n += 1
            v = None; x = m
            while x.op == 'put':
                k = x.a[1]; i, l = sub(k, F_('id')), sub(k, F_('line'))
                if num_of(i) is T and l is LINE: v = x.a[2]; break
                bad = bad or f'the value is assigned to macro {show(i)[:60]} on line {show(l)[:40]}'; x = x.a[0]
            if v is not sym('RESULT'): bad = bad or f'after the assignment the macro keeps another value ({t.pathstr()[-120:]})'
        if bad: c.violation(f'assign:{name}', f['f'], f['l'], f'{f["q"]}: {name}: {bad}')
        elif n: c.ok(f'{name}: the value is recorded for the macro and the line')
        else: raise AnalysisError(f'{f["q"]}: {name}: not followed')
