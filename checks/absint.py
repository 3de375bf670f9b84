"""Abstract interpretation of the extracted program: values are Herbrand terms over constants and symbols, states are
partitioned by the branch conditions taken (trace partitioning), loops are approximated by havocking what their body changes.
Nothing is executed and no solver is asked; conditions are decided by rewriting and by what was assumed on the path."""
import sys
from core import AnalysisError, walk
sys.setrecursionlimit(20000)

# ---------------------------------------------------------------- terms
class V:
    __slots__ = ('op', 'a', 'h', 'sz')
    def __repr__(self): return show(self)
    def __hash__(self): return self.h
    def __lt__(self, o): return repr(self) < repr(o)
_tab = {}
_big = [0]
def mk(op, *a):
    k = (op, a)
    v = _tab.get(k)
    if v is None:
        v = V(); v.op = op; v.a = a; v.h = hash(k)
        v.sz = 1 + sum(_size(x) for x in a)
        if v.sz > 20000:
            _big[0] += 1
            v = mk('big', _big[0]); _tab[k] = v
            return v
        _tab[k] = v
    return v
def _size(x):
    if isinstance(x, V): return x.sz
    if isinstance(x, tuple): return sum(_size(y) for y in x)
    return 1

def ci(n): return mk('c', 'i', int(n))
def cf(x): return mk('c', 'f', float(x))
def cs(x): return mk('c', 's', x)
def sym(*n): return mk('s', *n)
TRUE, FALSE, NULL = ci(1), ci(0), ci(0)
NONE = mk('opt')
def some(v): return mk('opt', v)
def is_c(v): return v.op == 'c'
def cval(v): return v.a[1]
def is_str(v): return v.op == 'c' and v.a[0] == 's'
def is_num(v): return v.op == 'c' and v.a[0] in 'if'
EMPTYS = cs('')

def stepstr(st):
    if st[0] == '.': return '.' + st[1].split('::')[-1]
    if st[0] == '[': return f'[{show(st[1])}]'
    if st[0] == 'kv': return f'<{show(st[1])}>'
    if st[0] == '*': return '.*'
    if st[0] == 'as': return f'.as<{st[1]}>'
    return str(st)
def rootstr(r):
    if r[0] == 'D': return f'*({show(r[1])})'
    if r[0] == 'v': return f'local {r[2]}'
    return ':'.join(str(x) for x in r)
def show(v, d=0):
    if not isinstance(v, V):
        if isinstance(v, Loc): return '&' + rootstr(v.root) + ''.join(stepstr(x) for x in v.path)
        if isinstance(v, tuple): return '(' + ', '.join(show(x, d + 1) for x in v) + ')'
        return str(v)
    if d > 12: return '…'
    o, a = v.op, v.a
    if o == 'c': return repr(a[1]) if a[0] == 's' else str(a[1])
    if o == 's': return ':'.join(str(x) for x in a)
    if o == 'sub': return show(a[0], d + 1) + stepstr(a[1])
    if o == 'addr': return '&' + rootstr(a[0]) + ''.join(stepstr(x) for x in a[1])
    if o == 'opt': return 'none' if not a else f'some({show(a[0], d+1)})'
    if o == 'st':
        return '{' + (show(a[0], d + 1) + ' with ' if a[0] else '') + ', '.join(stepstr(k) + '=' + show(x, d + 1) for k, x in a[1]) + '}'
    if o == 'lam': return 'lambda'
    return o + '(' + ', '.join(show(x, d + 1) for x in a) + ')'

class Loc:
    __slots__ = ('root', 'path')
    def __init__(self, root, path=()): self.root = root; self.path = path
    def __add__(self, step): return Loc(self.root, self.path + (step,))
    def __repr__(self): return show(self)
    def __eq__(self, o): return isinstance(o, Loc) and self.root == o.root and self.path == o.path
    def __hash__(self): return hash((self.root, self.path))
def addr(l): return mk('addr', l.root, l.path)
def F_(n): return ('.', n)
STAR = ('*',)

def st(base, items):
    """struct value; items: dict step->V"""
    if base is not None and base.op == 'st':
        d = dict(base.a[1]); d.update(items); return mk('st', base.a[0], tuple(sorted(d.items(), key=lambda x: repr(x[0]))))
    return mk('st', base, tuple(sorted(items.items(), key=lambda x: repr(x[0]))))
def struct(**kw): return st(None, {F_(k): v for k, v in kw.items()})
def pair(a, b): return struct(first=a, second=b)
def tup(*vs): return st(None, {F_(str(i)): v for i, v in enumerate(vs)})

def same_const(a, b):
    """both constants: equal? None when not both constants"""
    if a is b: return True
    if is_c(a) and is_c(b):
        x, y = a.a, b.a
        if x[0] == 's' or y[0] == 's':
            return x == y
        return x[1] == y[1]
    return None

def keq(a, b):
    """True / False / None (may alias)"""
    r = same_const(a, b)
    if r is not None: return r
    if a.op == 'st' and b.op == 'st' and a.a[0] is None and b.a[0] is None:
        da, db = dict(a.a[1]), dict(b.a[1])
        if set(da) == set(db):
            rs = [keq(da[k], db[k]) for k in da]
            if False in rs: return False
            if all(x is True for x in rs): return True
    return None

def sub(v, step):
    o = v.op
    if o == 'st':
        for k, x in v.a[1]:
            if k == step: return x
        if v.a[0] is not None: return sub(v.a[0], step)
        return mk('sub', v, step)
    if step[0] == 'jm': return struct(name=step[1], value=sub(v, ('[', step[1])))
    if step[0] == 'kv':
        return pair(step[1], sub(v, ('[', step[1])))
    if step[0] == '[':
        k = step[1]
        if o == 'put':
            r = keq(v.a[1], k)
            if r is True: return v.a[2]
            if r is False: return sub(v.a[0], step)
            return mk('sub', v, step)
        if o == 'erased' and len(v.a) == 2 and keq(v.a[1], k) is False: return sub(v.a[0], step)
        if o == 'list':
            if k.op == 'c':
                i = cval(k)
                if 0 <= i < len(v.a[0]): return v.a[0][i]
            if k.op == 's' and k.a == ('back',) and v.a[0]: return v.a[0][-1]
            return mk('sub', v, step)
        if o == 'map':
            for kk, x in v.a[0]:
                if keq(kk, k): return x
            return mk('sub', v, step)
        if o == 'push':
            if k.op == 's' and k.a == ('back',): return v.a[1]
    if step == STAR:
        if o == 'opt' and v.a: return v.a[0]
    if step[0] == 'as' and o == 'var':
        if v.a[0] == step[1]: return v.a[1]
    return mk('sub', v, step)

def put(v, path, val):
    if not path: return val
    step = path[0]
    new = put(sub(v, step), path[1:], val)
    if step[0] == '[':
        k = step[1]
        if v.op == 'list' and k.op == 'c' and 0 <= cval(k) < len(v.a[0]):
            l = list(v.a[0]); l[cval(k)] = new; return mk('list', tuple(l))
        if v.op == 'map' and all(keq(kk, k) is not None for kk, _ in v.a[0]):
            if any(keq(kk, k) for kk, _ in v.a[0]):
                return mk('map', tuple((kk, new if keq(kk, k) else x) for kk, x in v.a[0]))
            return mk('map', v.a[0] + ((k, new),))
        if v.op == 'put' and keq(v.a[1], k):
            return mk('put', v.a[0], k, new)
        if v.op == 'erased' and len(v.a) == 2 and keq(v.a[1], k): return put(v.a[0], path[:1], new)
        if v.op == 'push' and k.op == 's' and k.a == ('back',):
            return mk('push', v.a[0], new)
        return mk('put', v, k, new)
    if step == STAR and v.op == 'opt':
        return some(new)
    if step[0] == 'as' and v.op == 'var':
        return mk('var', step[1], new)
    return st(v, {step: new})

def it_shift(v, d):
    import models
    return models.it_shift(v, d)
def it_eq(I, s, a, b):
    import models
    return models.it_eq(I, s, a, b)

# ---------------------------------------------------------------- booleans
def NOT(v):
    if v.op == 'c': return ci(not cval(v))
    if v.op == 'not': return v.a[0]
    return mk('not', v)
def EQ(a, b):
    r = keq(a, b)
    if r is not None: return ci(r)
    if a.op == 'addr' and is_c(b): return FALSE
    if b.op == 'addr' and is_c(a): return FALSE
    if a.op == 'addr' and b.op == 'addr':
        if a.a[0][0] != 'D' and b.a[0][0] != 'D': return ci(a.a == b.a)
    r = ptr_diff(a, b)
    if r is not None: return ci(r == 0)
    if a.op == 'opt' and b.op == 'opt':
        if bool(a.a) != bool(b.a): return FALSE
        return EQ(a.a[0], b.a[0]) if a.a else TRUE
    if a.op == 'cat' and is_c(b) or b.op == 'cat' and is_c(a):
        c, k = (a, b) if a.op == 'cat' else (b, a)
        if is_str(k):
            t = cval(k)
            if is_str(c.a[0]) and not t.startswith(cval(c.a[0])): return FALSE
            if is_str(c.a[-1]) and not t.endswith(cval(c.a[-1])): return FALSE
    for x, y in ((a, b), (b, a)):
        if x.op == 'size' and is_num(y):
            if cval(y) == 0: return EMPTY(x.a[0])
    if isinstance(a, V) and a.op in BOOLS and is_num(b) and cval(b) in (0, 1):
        return a if cval(b) else NOT(a)
    if isinstance(b, V) and b.op in BOOLS and is_num(a) and cval(a) in (0, 1):
        return b if cval(a) else NOT(b)
    if is_c(a) or (not is_c(b) and repr(b) < repr(a)): a, b = b, a
    return mk('eq', a, b)
BOOLS = ('eq', 'lt', 'not', 'has', 'in', 'is', 'empty', 'nz', 'and', 'or')
def ptr_diff(a, b):
    """distance of two pointers into one array, when known"""
    def base(v):
        if v.op == '+' and is_num(v.a[1]) and isinstance(cval(v.a[1]), int): return v.a[0], cval(v.a[1])
        return v, 0
    (p, i), (q, k) = base(a), base(b)
    return i - k if p is q and p.op == 'addr' else None
def LT(a, b):
    if is_num(a) and is_num(b): return ci(cval(a) < cval(b))
    r = ptr_diff(a, b)
    if r is not None: return ci(r < 0)
    if is_str(a) and is_str(b): return ci(cval(a) < cval(b))
    if a is b: return FALSE
    # 0 < size(x)
    if is_num(a) and cval(a) == 0 and b.op == 'size': return NOT(EMPTY(b.a[0]))
    if is_num(b) and cval(b) == 1 and a.op == 'size': return EMPTY(a.a[0])
    if is_num(b) and cval(b) == 0 and a.op == 'size': return FALSE
    return mk('lt', a, b)
def EMPTY(v):
    if is_str(v): return ci(cval(v) == '')
    if v.op == 'cat':
        if any(is_str(x) and cval(x) for x in v.a): return FALSE
        if any(x.op == 'tostr' for x in v.a): return FALSE
    if v.op == 'tostr': return FALSE
    if v.op in ('list', 'map'): return ci(not v.a[0])
    if v.op == 'push': return FALSE
    if v.op == 'put': return FALSE if v.a[0].op in ('map', 'put') else mk('empty', v)
    return mk('empty', v)
def HAS(v):
    if v.op == 'opt': return ci(bool(v.a))
    if v.op == 'st':
        if v.a[0] is None: return TRUE
        return HAS(v.a[0])
    return mk('has', v)
def IN(k, m):
    if m.op == 'map':
        rs = [keq(kk, k) for kk, _ in m.a[0]]
        if True in rs: return TRUE
        if all(r is False for r in rs): return FALSE
        return mk('in', k, m)
    if m.op == 'put':
        r = keq(m.a[1], k)
        if r is True: return TRUE
        if r is False: return IN(k, m.a[0])
    if m.op == 'erased' and len(m.a) == 2:
        r = keq(m.a[1], k)
        if r is True: return FALSE
        if r is False: return IN(k, m.a[0])
    return mk('in', k, m)
def IS(v, T):
    if v.op == 'var': return ci(v.a[0] == T)
    if v.op == 'st' and v.a[0] is not None and any(k[0] == 'as' for k, _ in v.a[1]): return IS(v.a[0], T)
    return mk('is', v, T)

def CAT(*parts):
    out = []
    for p in parts:
        for q in (p.a if p.op == 'cat' else (p,)):
            if is_str(q) and cval(q) == '': continue
            if is_str(q) and out and is_str(out[-1]): out[-1] = cs(cval(out[-1]) + cval(q))
            else: out.append(q)
    if not out: return EMPTYS
    if len(out) == 1: return out[0]
    return mk('cat', *out)
def TOSTR(v):
    if v.op == 'c' and v.a[0] == 'i': return cs(str(cval(v)))
    if v.op == 'c' and v.a[0] == 's': return v
    return mk('tostr', v)
def CHSTR(v):
    if v.op == 'c' and v.a[0] == 'i': return cs(chr(cval(v) & 255))
    return mk('chr', v)
def AT0(v, i):
    if is_str(v) and is_c(i) and isinstance(cval(i), int):
        t = cval(v)
        if 0 <= cval(i) < len(t): return ci(ord(t[cval(i)]))
        if cval(i) == len(t): return ci(0)
    if v.op == 'cat' and is_c(i) and is_str(v.a[0]) and 0 <= cval(i) < len(cval(v.a[0])):
        return ci(ord(cval(v.a[0])[cval(i)]))
    return sub(v, ('[', i))
def SIZE(v):
    if is_str(v): return ci(len(cval(v).encode('utf-8', 'surrogateescape')))
    if v.op in ('list', 'map'): return ci(len(v.a[0]))
    return mk('size', v)
def SUBSTR(v, pos, n=None):
    if is_str(v) and is_c(pos) and (n is None or is_c(n)):
        t = cval(v)[cval(pos):]
        return cs(t if n is None or cval(n) < 0 or cval(n) >= 1 << 60 else t[:cval(n)])
    if v.op == 'cat' and n is None and is_c(pos) and is_str(v.a[0]) and cval(pos) <= len(cval(v.a[0])):
        return CAT(cs(cval(v.a[0])[cval(pos):]), *v.a[1:])
    if v.op == 'cat' and n is not None and is_c(pos) and is_c(n) and is_str(v.a[0]) and 0 <= cval(n) and cval(pos) + cval(n) <= len(cval(v.a[0])):
        return cs(cval(v.a[0])[cval(pos):cval(pos) + cval(n)])
    if is_c(pos) and cval(pos) == 0 and n is None: return v
    return mk('substr', v, pos) if n is None else mk('substr', v, pos, n)

def arith(op, a, b):
    if is_num(a) and is_num(b):
        x, y = cval(a), cval(b)
        fl = a.a[0] == 'f' or b.a[0] == 'f'
        try:
            if op == '+': r = x + y
            elif op == '-': r = x - y
            elif op == '*': r = x * y
            elif op == '/':
                if y == 0: return mk('/', a, b)
                r = x / y if fl else int(x / y)
            elif op == '%':
                if y == 0: return mk('%', a, b)
                r = x - y * int(x / y)
            elif op == '<<': r = x << y
            elif op == '>>': r = x >> y
            elif op == '&': r = x & y
            elif op == '|': r = x | y
            elif op == '^': r = x ^ y
            else: return mk(op, a, b)
        except Exception:
            return mk(op, a, b)
        return cf(r) if fl else ci(r)
    if op == '-' and is_num(b) and b.a[0] == 'i': op, b = '+', ci(-cval(b))
    if op == '+':
        if is_num(a): a, b = b, a
        if is_num(b):
            if cval(b) == 0: return a
            if a.op == '+' and is_num(a.a[1]):
                return arith('+', a.a[0], arith('+', a.a[1], b))
        elif repr(b) < repr(a): a, b = b, a
    if op == '*':
        if is_num(a): a, b = b, a
        if is_num(b) and cval(b) == 1: return a
        if not is_num(b) and repr(b) < repr(a): a, b = b, a
    if op == '/' and is_num(b) and cval(b) == 1: return a
    if op == '-' and a is b: return ci(0)
    return mk(op, a, b)
def NEG(a):
    if is_num(a): return cf(-cval(a)) if a.a[0] == 'f' else ci(-cval(a))
    if a.op == 'neg': return a.a[0]
    return mk('neg', a)

# ---------------------------------------------------------------- types
def split_targs(t):
    i = t.find('<')
    if i < 0: return []
    d, cur, out = 0, '', []
    for ch in t[i + 1:]:
        if ch == '<': d += 1
        if ch == '>':
            if d == 0: break
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip()); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out
_ct = {}
def canon_t(t):
    """type without qualifiers, references and defaulted arguments"""
    r = _ct.get(t)
    if r is not None: return r
    x = t.strip()
    while True:
        if x.startswith('const '): x = x[6:]
        elif x.startswith('struct '): x = x[7:]
        elif x.startswith('class '): x = x[6:]
        elif x.startswith('enum '): x = x[5:]
        elif x.endswith('&'): x = x[:-1].strip()
        elif x.endswith(' const'): x = x[:-6]
        else: break
    p = ''
    while x.endswith('*') or x.endswith('*const'):
        x = x[:x.rindex('*')].strip(); p += '*'
    if x.startswith('const '): x = x[6:]
    i = x.find('<')
    if i >= 0:
        h = x[:i]; a = [canon_t(y) for y in split_targs(x)]
        if h in ('std::basic_string', 'std::__cxx11::basic_string') : x = 'string'
        elif h == 'std::basic_string_view': x = 'string_view'
        elif h in ('std::map', 'std::unordered_map'): x = f'{h}<{", ".join(a[:2])}>'
        elif h in ('std::vector', 'std::set', 'std::unordered_set', 'std::list', 'std::deque', 'std::unique_ptr'): x = f'{h}<{a[0]}>'
        else: x = f'{h}<{", ".join(a)}>'
    elif x == 'std::basic_string': x = 'string'
    elif x == 'std::basic_string_view': x = 'string_view'
    r = x + p
    _ct[t] = r
    return r
def head(t):
    return t.split('<')[0]
def is_ref(t): return t is not None and t.rstrip().endswith('&')
def is_rref(t): return t is not None and t.rstrip().endswith('&&')
SCALARS = {'int', 'unsigned int', 'long', 'unsigned long', 'bool', 'char', 'short', 'unsigned short', 'long long', 'unsigned long long',
           'unsigned char', 'signed char', 'size_t', 'int32_t', 'uint32_t', 'int64_t', 'uint64_t'}

# ---------------------------------------------------------------- state
class State:
    __slots__ = ('store', 'refs', 'conds', 'eqc', 'ev', 'ctl', 'n', 'lines')
    def __init__(self):
        self.store = {}; self.refs = {}; self.conds = {}; self.eqc = {}; self.ev = (); self.ctl = None; self.n = 0; self.lines = {}
    def copy(self):
        s = State.__new__(State)
        s.store = dict(self.store); s.refs = dict(self.refs); s.conds = dict(self.conds); s.eqc = dict(self.eqc)
        s.ev = self.ev; s.ctl = self.ctl; s.n = self.n; s.lines = self.lines
        return s
    def key(self):
        return (frozenset(self.store.items()), frozenset(self.conds.items()), self.ev, self.ctl, frozenset(self.refs.items()))
    def event(self, *e): self.ev = self.ev + (e,)
    def pathstr(self):
        return '; '.join((show(a) if v else 'not ' + show(a)) + (f' [line {self.lines[a]}]' if a in self.lines else '') for a, v in self.conds.items())

class Frame:
    __slots__ = ('id', 'this', 'fn', 'depth', 'parent', 'file')
    def __init__(self, id, this, fn, depth, parent):
        self.id = id; self.this = this; self.fn = fn; self.depth = depth; self.parent = parent
        self.file = fn.get('f') if fn else (parent.file if parent else '?')

class TooBig(AnalysisError): pass

_nid = [0]
_keep = {}
def one_var(x): return x['c'][0] if x.get('k') == 'Decl' else x
def nid(n):
    i = n.get('_i')
    if i is None:
        i = _nid[0]; _nid[0] += 1; _keep[i] = n; n['_i'] = i
    return i

MODELS = {}
def model(*names):
    def deco(f):
        for x in names: MODELS[x] = f
        return f
    return deco

ENDS = {p + x for p in ('', 'std::') for x in ('exit', 'abort', '_exit', '_Exit', 'quick_exit', 'terminate')}
class Interp:
    max_states = 3000
    join_at = None           # join states after a statement when more than this many
    max_depth = 30
    unroll = 80
    def __init__(self, F):
        self.F = F
        self.ftype = {}
        for r in F.records.values():
            for f in r.get('fields', []):
                self.ftype[f['d']] = f['t']
        self.rec = {r['q']: r for r in F.records.values()}
        self.over = {}
        for f in F.fn.values():
            for o in f.get('ov') or []:
                self.over.setdefault(o, []).append(f)
        self.opaque = set()        # qualified-name suffixes not inlined
        self.inlined = set()
        self.cur = None
        self.steps = 0
        self.max_steps = 3_000_000
        self.globals_const = {}
        self.seen_fns = set()

    # ---- hooks
    def is_opaque(self, fn): return any(fn['q'] == o or fn['q'].endswith('::' + o) for o in self.opaque)
    def on_call(self, s, fr, n, fn, obj, args): return None     # return list of (s, v) to replace the call
    def on_div(self, s, fr, n, x, y): pass                      # x / y or x % y is computed
    def on_deref(self, s, fr, n, kind, term): pass               # kind: opt / ptr / it ; term: what must hold
    def on_write(self, s, fr, loc, val): pass
    def on_libcall(self, s, fr, n, q, obj, args): return None
    def throws(self, s, fr, n, q, obj, args): return []          # extra exceptional exits [(state, type, bases)]
    def dispatch(self, fn, s, fr, n, obj): return None

    # ---- memory
    def initial(self, s, root):
        k = root[0]
        if k == 'G':
            return self.global_value(root[1])
        if k == 'D': return mk('deref', root[1])
        if k == 'v': return mk('undef', *root[1:])
        return sym(*root)
    def only_read(self, u):
        """a variable no function changes: every use is a reading one"""
        tab = getattr(self.F, '_read_only', None)
        if tab is None:
            tab = self.F._read_only = {}
            READ = {'find', 'count', 'begin', 'end', 'cbegin', 'cend', 'at', 'size', 'empty', 'contains', 'front', 'back', 'equal_range', 'lower_bound', 'upper_bound'}
            for f in self.F.fn.values():
                for n in walk([f.get('body'), f.get('inits') or []]):
                    k = n.get('k'); good = []
                    if k == 'Ref' and n.get('glob'): tab.setdefault(n.get('d'), [0, 0])[0] += 1; continue
                    if k == 'MCall' and (n.get('cm') or n.get('n') in READ): good = [n.get('obj')]
                    if k in ('Call', 'Ctor', 'MCall'):
                        cs_ = n.get('c') or []
                        good = good + [x for p, x in zip(n.get('pm') or '', cs_) if p in 'cv' or str(n.get('q')) in ('std::begin', 'std::end', 'std::size', 'std::empty', 'std::cbegin', 'std::cend')]
                    elif k == 'ForRange' and ('&' not in n['var'].get('t', '&') or n['var']['t'].startswith('const ')): good = [n['c'][0]]
                    elif k == 'Cast' and 'LValueToRValue' in str(n.get('ck')): good = n['c']
                    for x in good:
                        while x and x.get('k') in ('Paren', 'Cast'): x = x['c'][0]
                        if x and x.get('k') == 'Ref' and x.get('glob'): tab.setdefault(x.get('d'), [0, 0])[1] += 1
        a = tab.get(u)
        return a is None or a[0] <= a[1]
    def global_value(self, u):
        if u in self.globals_const: return self.globals_const[u]
        var = self.F.vars.get(u)
        if var is None:
            for k, x in self.F.vars.items():
                if x.get('u') == u: var = x; break
        v = sym('global', u.split('@')[-1])
        if u.endswith('@npos') and 'basic_string' in u: v = ci((1 << 64) - 1)
        self.globals_const[u] = v
        if var is not None and var.get('x') and (var.get('const') or var.get('constexpr') or (not var.get('staticlocal') and self.only_read(u))):
            try:
                s = State(); fr = Frame('G', None, None, 0, None)
                rs = self.ev(var['x'], s, fr)
                if len(rs) == 1 and rs[0][0].ctl is None:
                    v = self.conv_init(rs[0][1], var['t'])
            except AnalysisError:
                pass
        self.globals_const[u] = v
        return v
    def read(self, s, loc):
        v = s.store.get(loc.root)
        if v is None:
            v = self.initial(s, loc.root)
        for st_ in loc.path: v = sub(v, st_)
        return v
    def write(self, s, loc, val):
        path = loc.path
        if path and path[-1][0] == 'kv': return
        if path:
            base = s.store.get(loc.root)
            if base is None: base = self.initial(s, loc.root)
            val2 = put(base, self.fixpath(path), val)
        else: val2 = val
        s.store[loc.root] = val2
    def fixpath(self, path):
        """kv steps followed by .second become element steps"""
        out = []
        i = 0
        while i < len(path):
            if path[i][0] == 'kv' and i + 1 < len(path) and path[i + 1] == F_('second'):
                out.append(('[', path[i][1])); i += 2
            else:
                out.append(path[i]); i += 1
        return tuple(out)
    def assign(self, s, fr, loc, val):
        self.on_write(s, fr, loc, val)
        self.write(s, loc, val)
    def val(self, s, x):
        return self.read(s, x) if isinstance(x, Loc) else x
    def loc(self, s, fr, n, x):
        """location of x, materialising a value"""
        if isinstance(x, Loc): return x
        l = Loc(('t', fr.id, nid(n)))
        s.store[l.root] = x
        return l
    def deref(self, s, fr, n, p):
        """location a pointer value points to"""
        if p.op == 'addr': return Loc(p.a[0], p.a[1])
        if p.op == 'it':
            x = self.it_deref(s, fr, n, p)
            return x if isinstance(x, Loc) else self.loc(s, fr, n, x)
        self.on_deref(s, fr, n, 'ptr', p)
        return Loc(('D', p))

    # ---- conditions
    def bounds(self, s, x):
        lo = hi = None
        for a, v in s.conds.items():
            if a.op == 'lt':
                p, q = a.a
                if p is x and is_num(q):
                    c = cval(q)
                    if v: hi = (c, 1) if hi is None or c <= hi[0] else hi
                    else: lo = (c, 0) if lo is None or c > lo[0] else lo
                elif q is x and is_num(p):
                    c = cval(p)
                    if v: lo = (c, 1) if lo is None or c >= lo[0] else lo
                    else: hi = (c, 0) if hi is None or c < hi[0] else hi
        return lo, hi
    def decide(self, s, a):
        r = s.conds.get(a)
        if r is not None: return r
        if a.op == 'eq':
            x, c = a.a
            if is_c(c):
                k = s.eqc.get(x)
                if k is not None:
                    e = same_const(k, c)
                    if e is not None: return e
                if is_num(c):
                    lo, hi = self.bounds(s, x)
                    if lo and (cval(c) < lo[0] or (lo[1] and cval(c) == lo[0])): return False
                    if hi and (cval(c) > hi[0] or (hi[1] and cval(c) == hi[0])): return False
            else:
                kx, kc = s.eqc.get(x), s.eqc.get(c)
                if kx is not None and kc is not None: return same_const(kx, kc)
                if kx is not None: return self.decide(s, EQ(c, kx)) if not is_c(EQ(c, kx)) else bool(cval(EQ(c, kx)))
                if kc is not None: return self.decide(s, EQ(x, kc)) if not is_c(EQ(x, kc)) else bool(cval(EQ(x, kc)))
        elif a.op == 'empty':
            k = s.eqc.get(a.a[0])
            if k is not None and is_str(k): return cval(k) == ''
            x = a.a[0]
            for i in (0, 1):
                y = s.eqc.get(mk('sub', x, ('[', ci(i))))
                if y is not None and cval(y) not in (0, ''): return False
            lo, hi = self.bounds(s, mk('size', x))
            if lo and lo[0] + lo[1] >= 1: return False
        elif a.op == 'lt':
            p, q = a.a
            kp, kq = s.eqc.get(p), s.eqc.get(q)
            if kp is not None or kq is not None:
                r = LT(kp or p, kq or q)
                if is_c(r): return bool(cval(r))
                if r is not a and r.op == 'lt':
                    r = self.decide(s, r)
                    if r is not None: return r
            if is_num(q):
                lo, hi = self.bounds(s, p)
                if hi and (hi[0] < cval(q) or (hi[0] == cval(q) and hi[1])): return True
                if lo and lo[0] >= cval(q): return False
            if is_num(p):
                lo, hi = self.bounds(s, q)
                if lo and (lo[0] > cval(p) or (lo[0] == cval(p) and lo[1])): return True
                if hi and hi[0] <= cval(p): return False
            r = s.conds.get(mk('lt', q, p))
            if r: return False
        elif a.op == 'is':
            for b, v in s.conds.items():
                if b.op == 'is' and v and b.a[0] is a.a[0]: return b.a[1] == a.a[1]
        return None
    def assume(self, s, a, v, line=None):
        """s extended with atom a = v (no copy), or None if contradictory"""
        while a.op == 'not': a, v = a.a[0], not v
        if a.op == 'c': return s if bool(cval(a)) == v else None
        if a.op == 'and' and v or a.op == 'or' and not v:
            for x in a.a:
                if self.assume(s, x, v, line) is None: return None
            return s
        r = self.decide(s, a)
        if r is not None: return s if r == v else None
        s.conds[a] = v
        if line:
            s.lines = dict(s.lines); s.lines[a] = line
        if a.op == 'eq' and v:
            x, c = a.a
            if is_c(c): s.eqc[x] = c
        if a.op == 'empty' and v: s.eqc[mk('size', a.a[0])] = ci(0)
        return s
    def atom(self, v):
        if v.op in ('c', 'not', 'eq', 'lt', 'has', 'in', 'is', 'empty', 'nz', 'and', 'or'): return v
        if v.op == 'addr' or v.op == 'lam' or v.op == 'fn': return TRUE
        if v.op == 'opt': return HAS(v)
        if v.op == 'c': return v
        return NOT(EQ(v, ci(0)))
    def truth(self, s, v, line=None):
        v = self.atom(v)
        if v.op == 'c': return [(s, bool(cval(v)))]
        if v.op == 'not': return [(t, not b) for t, b in self.truth(s, v.a[0], line)]
        if v.op in ('and', 'or'):
            out = []; cur = [s]
            stop = v.op == 'or'
            for x in v.a:
                nxt = []
                for c in cur:
                    for t, b in self.truth(c, x, line):
                        if b == stop: out.append((t, stop))
                        else: nxt.append(t)
                cur = nxt
            return out + [(t, not stop) for t in cur]
        r = self.decide(s, v)
        if r is not None: return [(s, r)]
        out = []
        for b in (True, False):
            t = self.assume(s.copy(), v, b, line)
            if t is not None: out.append((t, b))
        return out
    def cond(self, n, s, fr):
        """evaluate a condition expression: list of (state, bool|None); None when the state has left"""
        k = n.get('k')
        if k == 'Bin' and n.get('op') in ('&&', '||'):
            out = []
            for t, b in self.cond(n['c'][0], s, fr):
                if t.ctl or b is None: out.append((t, None))
                elif b == (n['op'] == '||'): out.append((t, b))
                else: out += self.cond(n['c'][1], t, fr)
            return out
        if k == 'Un' and n.get('op') == '!':
            return [(t, None if b is None else not b) for t, b in self.cond(n['c'][0], s, fr)]
        if k == 'Cast' and n.get('ck') in ('NoOp', 'IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean', 'UserDefinedConversion', 'LValueToRValue'):
            return self.cond(n['c'][0], s, fr)
        out = []
        for t, v in self.ev(n, s, fr):
            if t.ctl: out.append((t, None))
            else: out += self.truth(t, v, n.get('l'))
        return out

    # ---- expressions
    def ev(self, n, s, fr):
        return [(t, None if t.ctl else self.val(t, x)) for t, x in self.e(n, s, fr)]
    def lv(self, n, s, fr):
        return [(t, None if t.ctl else self.loc(t, fr, n, x)) for t, x in self.e(n, s, fr)]
    def e(self, n, s, fr):
        self.steps += 1
        if self.steps > self.max_steps: raise TooBig('analysis budget exceeded')
        m = getattr(self, 'e_' + n['k'], None)
        if m is None: return self.e_other(n, s, fr)
        self.cur = (fr.file, n.get('l'))
        return m(n, s, fr)
    def seq(self, nodes, s, fr, how=None):
        """evaluate nodes in order; how: string of v (value) / l (location) per node"""
        cur = [(s, ())]
        for i, x in enumerate(nodes):
            h = how[i] if how and i < len(how) else 'v'
            nxt = []
            for t, vs in cur:
                if t.ctl: nxt.append((t, vs)); continue
                for t2, v in (self.lv(x, t, fr) if h == 'l' else self.ev(x, t, fr)):
                    nxt.append((t2, vs + (v,)))
            cur = nxt
            self.check(len(cur))
        return cur
    def check(self, k):
        if k > self.max_states: raise TooBig(f'more than {self.max_states} partitions at {self.cur}')
    def e_other(self, n, s, fr):
        c = [x for x in (n.get('c') or []) if isinstance(x, dict)]
        if len(c) == 1 and n['k'] in ('Expr', 'DefInit', 'DefArg'): return self.e(c[0], s, fr)
        return [(t, None if t.ctl else mk('expr', n['k'], n.get('cls', ''), nid(n) if not c else 0, *vs)) for t, vs in self.seq(c, s, fr)]
    def e_DefArg(self, n, s, fr): return self.e(n['c'][0], s, fr) if n.get('c') else [(s, sym('defarg'))]
    e_DefInit = e_DefArg
    def e_Int(self, n, s, fr): return [(s, ci(int(n['v'])))]
    def e_Char(self, n, s, fr): return [(s, ci(int(n['v'])))]
    def e_Bool(self, n, s, fr): return [(s, ci(int(n['v'])))]
    def e_Float(self, n, s, fr): return [(s, cf(float(n['v'])))]
    def e_Str(self, n, s, fr): return [(s, cs(n['v']))]
    def e_NullPtr(self, n, s, fr): return [(s, NULL)]
    def e_Zero(self, n, s, fr): return [(s, self.zero(n.get('t')))]
    def e_EnumRef(self, n, s, fr): return [(s, ci(int(n['v'])))]
    def e_Sizeof(self, n, s, fr): return [(s, ci(int(n['v'])) if n.get('v') is not None else sym('sizeof', nid(n)))]
    def e_FnRef(self, n, s, fr): return [(s, mk('fn', n['q'], n.get('u')))]
    def e_This(self, n, s, fr): return [(s, addr(fr.this) if fr.this else sym('this'))]
    def e_Ref(self, n, s, fr):
        d = n.get('d')
        if n.get('glob'):
            if n['q'] in ('boost::none', 'std::nullopt'): return [(s, NONE)]
            return [(s, Loc(('G', d)))]
        l = self.varloc(s, fr, d)
        return [(s, l)]
    def varloc(self, s, fr, d):
        l = s.refs.get((fr.id, d))
        if l is not None: return l
        return Loc(('v', fr.id, d))
    def e_Member(self, n, s, fr):
        c = n.get('c') or []
        if not c: return [(s, Loc(('G', n.get('d'))))]
        out = []
        if n.get('pm') is not None or n.get('own'):       # bound member function
            return [(t, mk('fn', n.get('q'), n.get('u'))) for t, _ in self.e(c[0], s, fr)]
        for t, x in self.e(c[0], s, fr):
            if t.ctl: out.append((t, None)); continue
            if n.get('arrow'):
                x = self.deref(t, fr, n, self.val(t, x))
            out.append((t, self.field(t, fr, n, x, n['n'], n.get('d'))))
        return out
    def field(self, s, fr, n, x, name, usr=None):
        if isinstance(x, V):
            r = sub(x, F_(name))
        else:
            if x.path and x.path[-1][0] == 'kv':
                if name == 'first': return x.path[-1][1]
                if name == 'second': return Loc(x.root, x.path[:-1] + (('[', x.path[-1][1]),))
            r = x + F_(name)
        ft = self.ftype.get(usr)
        if is_ref(ft):
            v = self.val(s, r)
            return Loc(v.a[0], v.a[1]) if v.op == 'addr' else Loc(('D', v))
        return r
    def e_Un(self, n, s, fr):
        op = n['op']; x = n['c'][0]
        if op == '!':
            return [(t, None if b is None else ci(b)) for t, b in self.cond(x, s, fr)] if self.needs_split(x) else \
                   [(t, None if t.ctl else NOT(self.atom(v))) for t, v in self.ev(x, s, fr)]
        if op == '*':
            out = []
            for t, v in self.ev(x, s, fr):
                if t.ctl: out.append((t, None)); continue
                if v.op == 'it': out.append((t, self.it_deref(t, fr, n, v)))
                elif v.op == 'fn' or v.op == 'lam': out.append((t, v))
                elif v.op == 'c' and v.a[0] == 's': out.append((t, AT0(v, ci(0))))
                else: out.append((t, self.deref(t, fr, n, v)))
            return out
        if op == '&':
            b = x
            while b.get('k') in ('Paren', 'Cast') and b.get('c'): b = b['c'][0]
            if b.get('k') == 'FnRef': return self.e(b, s, fr)
            if b.get('k') == 'Member' and b.get('n') == 'first' and b.get('c'):
                out = []
                for t, l in self.e(b['c'][0], s, fr):
                    if t.ctl: out.append((t, None)); continue
                    if b.get('arrow'): l = self.deref(t, fr, b, self.val(t, l))
                    if not (isinstance(l, Loc) and l.path and l.path[-1][0] == 'kv'): break
                    out.append((t, addr(l + F_('first'))))
                else: return out
            return [(t, None if t.ctl else addr(l)) for t, l in self.lv(x, s, fr)]
        if op in ('++', '--', '++post', '--post', 'post++', 'post--'):
            out = []
            for t, l in self.lv(x, s, fr):
                if t.ctl: out.append((t, None)); continue
                old = self.read(t, l)
                new = it_shift(old, ci(1 if '++' in op else -1)) if old.op == 'it' else arith('+' if '++' in op else '-', old, ci(1))
                self.assign(t, fr, l, new)
                out.append((t, old if 'post' in op else l))
            return out
        out = []
        for t, v in self.ev(x, s, fr):
            if t.ctl: out.append((t, None)); continue
            if op == '-': v = NEG(v)
            elif op == '+': pass
            else: v = mk('un' + op, v)
            out.append((t, v))
        return out
    def needs_split(self, n):
        return n.get('k') == 'Bin' and n.get('op') in ('&&', '||')
    def e_Bin(self, n, s, fr):
        op = n['op']; a, b = n['c']
        if op in ('&&', '||'):
            return [(t, None if v is None else ci(v)) for t, v in self.cond(n, s, fr)]
        if op == ',':
            out = []
            for t, _ in self.e(a, s, fr):
                out += [(t, None)] if t.ctl else self.e(b, t, fr)
            return out
        if op == '=':
            out = []
            for t, v in self.ev(b, s, fr):
                if t.ctl: out.append((t, None)); continue
                for t2, l in self.lv(a, t, fr):
                    if t2.ctl: out.append((t2, None)); continue
                    self.assign(t2, fr, l, v); out.append((t2, l))
            return out
        if op.endswith('=') and op not in ('==', '!=', '<=', '>='):
            out = []
            for t, v in self.ev(b, s, fr):
                if t.ctl: out.append((t, None)); continue
                for t2, l in self.lv(a, t, fr):
                    if t2.ctl: out.append((t2, None)); continue
                    if op in ('/=', '%='): self.on_div(t2, fr, n, self.read(t2, l), v)
                    self.assign(t2, fr, l, arith(op[:-1], self.read(t2, l), v)); out.append((t2, l))
            return out
        out = []
        for t, (x, y) in [(t, vs if len(vs) == 2 else (None, None)) for t, vs in self.seq([a, b], s, fr)]:
            if t.ctl: out.append((t, None)); continue
            if op in ('==', '!=') and x.op == 'it' and y.op == 'it':
                r = it_eq(self, t, x, y); out.append((t, r if op == '==' else NOT(r))); continue
            if op in ('+', '-') and x.op == 'it' and y.op != 'it':
                out.append((t, it_shift(x, y if op == '+' else NEG(y)))); continue
            if op in ('<', '>', '<=', '>='):
                # what cannot be negative is zero or above it
                if is_num(y) and cval(y) == 0 and op in ('>', '<=') and self.unsigned(a): out.append((t, self.binop('!=' if op == '>' else '==', x, y))); continue
                if is_num(x) and cval(x) == 0 and op in ('<', '>=') and self.unsigned(b): out.append((t, self.binop('!=' if op == '<' else '==', x, y))); continue
            if op in ('/', '%'): self.on_div(t, fr, n, x, y)
            out.append((t, self.binop(op, x, y)))
        return out
    def unsigned(self, n):
        while n.get('k') in ('Paren', 'Cast') and n.get('c'): n = n['c'][0]
        t = canon_t(self.ntype(n) or '')
        return t in ('unsigned int', 'unsigned long', 'unsigned', 'unsigned long long', 'size_t', 'std::size_t', 'unsigned short')
    def binop(self, op, x, y):
        if op == '==': return EQ(x, y)
        if op == '!=': return NOT(EQ(x, y))
        if op == '<': return LT(x, y)
        if op == '>': return LT(y, x)
        if op == '<=': return NOT(LT(y, x))
        if op == '>=': return NOT(LT(x, y))
        return arith(op, x, y)
    def e_Cond(self, n, s, fr):
        out = []
        for t, b in self.cond(n['c'][0], s, fr):
            if t.ctl or b is None: out.append((t, None))
            else: out += self.e(n['c'][1 if b else 2], t, fr)
        return out
    def e_Index(self, n, s, fr):
        out = []
        for t, vs in self.seq(n['c'], s, fr, 'lv'):
            if t.ctl: out.append((t, None)); continue
            base, i = vs
            bv = self.read(t, base)
            if bv.op == 'addr': out.append((t, Loc(bv.a[0], bv.a[1]) + ('[', i)))
            elif is_str(bv): out.append((t, AT0(bv, i)))
            elif bv.op in ('list', 'put', 'st'): out.append((t, base + ('[', i)))
            else: out.append((t, Loc(('D', bv)) + ('[', i)) if self.ptr_like(bv) else (t, base + ('[', i)))
        return out
    def ptr_like(self, v): return False
    def e_Cast(self, n, s, fr):
        ck = n.get('ck'); x = n['c'][0]
        if ck in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'LValueToRValue', 'ArrayToPointerDecay', 'ConstructorConversion',
                  'UserDefinedConversion', 'BitCast', 'LValueBitCast', 'Dynamic', 'FunctionToPointerDecay', 'Dependent'):
            return self.e(x, s, fr)
        out = []
        if ck in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean'):
            return [(t, None if t.ctl else self.atom(v)) for t, v in self.ev(x, s, fr)]
        for t, v in self.ev(x, s, fr):
            if t.ctl: out.append((t, None)); continue
            if ck == 'FloatingToIntegral':
                v = ci(int(cval(v))) if is_num(v) else mk('trunc', v)
            elif ck == 'IntegralToFloating':
                if is_num(v): v = cf(cval(v))
            elif ck == 'IntegralCast':
                if n.get('t') == 'char' and is_num(v): v = ci((cval(v) + 128) % 256 - 128)
                elif is_num(v) and cval(v) < 0 and 'unsigned' in (n.get('t') or ''):
                    v = ci(cval(v) % (1 << (64 if 'long' in n['t'] else 32)))
                elif n.get('w', 64) < min(32, n.get('fw', 0)) and n.get('t') != 'char' and not is_num(v):
                    v = mk('narrow', v, n['w'])     # 64 -> 32 bits counts as exact: sizes and positions stay below 2^31
            elif ck == 'FloatingCast':
                if 'float' == (n.get('t') or '').replace('const ', '') and not is_num(v): v = mk('narrow', v, 'float')
            elif ck == 'NullToPointer': v = NULL
            elif ck == 'ToVoid': v = sym('void')
            out.append((t, v))
        return out
    def e_Throw(self, n, s, fr):
        c = [x for x in (n.get('c') or []) if x]
        if not c:
            s = s.copy(); s.ctl = ('throw', 'rethrow', (), None, n.get('l')); return [(s, None)]
        out = []
        for t, v in self.ev(c[0], s, fr):
            if not t.ctl:
                t = t.copy(); t.ctl = ('throw', n.get('t'), tuple(n.get('bases') or ()), v, n.get('l'))
            out.append((t, None))
        return out
    def e_Lambda(self, n, s, fr):
        caps = []
        cur = [(s, ())]
        for c in n.get('caps') or []:
            nxt = []
            for t, vs in cur:
                if c.get('this'):
                    nxt.append((t, vs + (('this', addr(fr.this) if fr.this else None),))); continue
                d = c.get('d')
                x = c.get('x')
                if c.get('ref') or x is None:
                    nxt.append((t, vs + (('ref', d, addr(self.varloc(t, fr, d)) if d else None),)))
                else:
                    for t2, v in self.ev(x, t, fr):
                        nxt.append((t2, vs + (('val', d, v),)))
            cur = nxt
        th = addr(fr.this) if fr.this else None
        return [(t, mk('lam', nid(n), fr.id, vs, th)) for t, vs in cur]
    def e_New(self, n, s, fr):
        out = []
        c = [x for x in (n.get('c') or []) if x]
        sz = n.get('size')
        nodes = ([sz] if isinstance(sz, dict) else [])
        for t, vs in self.seq(nodes, s, fr):
            if t.ctl: out.append((t, None)); continue
            t = t.copy(); t.n += 1
            l = Loc(('H', nid(n), t.n))
            if n.get('arr'):
                ini = bool(n.get('ini') or c)
                if c and c[0].get('k') == 'Ctor' and c[0].get('triv') and not c[0].get('zi'): ini = False
                t.store[l.root] = mk('arr', vs[0] if vs else sym('?'), ci(1 if ini else 0))
                t.event('new[]', l.root, n.get('t'), vs[0] if vs else None, n.get('l'))
                given = [x for x in (c[0].get('c') or []) if x] if c and c[0].get('k') == 'InitList' else []
                if not given: out.append((t, addr(l))); continue
                for t2, gs in self.seq(given, t, fr):
                    if t2.ctl: out.append((t2, None)); continue
                    t2 = t2.copy()
                    for i, g in enumerate(gs): self.assign(t2, fr, l + ('[', ci(i)), g)
                    out.append((t2, addr(l)))
                continue
            if c:
                for t2 in self.construct_into(c[0], l, n.get('t'), t, fr):
                    t2.event('new', l.root, n.get('t'), n.get('l')); out.append((t2, addr(l)))
            else:
                t.store[l.root] = mk('undef', 'new', nid(n)) if not n.get('ini') else self.zero(n.get('t'))
                t.event('new', l.root, n.get('t'), n.get('l'))
                out.append((t, addr(l)))
        return out
    def e_Delete(self, n, s, fr):
        out = []
        for t, v in self.ev(n['c'][0], s, fr):
            if not t.ctl:
                t = t.copy(); t.event('delete[]' if n.get('arr') else 'delete', v, n.get('l'))
            out.append((t, sym('void')))
        return out
    def e_InitList(self, n, s, fr):
        t0 = n.get('t'); ct = canon_t(t0) if t0 else ''
        c = [x for x in (n.get('c') or []) if x]
        fields = n.get('fields')
        out = []
        if fields is None and len(c) == 1 and (ct in SCALARS or ct.endswith('*') or ct == 'double'):
            return self.ev(c[0], s, fr)
        cur = [(s, ())]
        for i, x in enumerate(c):
            isr = bool(fields and i < len(fields) and is_ref(self.field_t(ct, fields[i])))
            nxt = []
            for t, vs in cur:
                if t.ctl: nxt.append((t, vs)); continue
                for t2, v in (self.lv(x, t, fr) if isr else self.ev(x, t, fr)):
                    nxt.append((t2, vs + ((addr(v) if isr and v is not None else v),)))
            cur = nxt
        for t, vs in cur:
            if t.ctl: out.append((t, None)); continue
            if fields == ['_M_elems']: out.append((t, vs[0] if vs else mk('list', ())))
            elif fields:
                d = {F_(f): v for f, v in zip(fields, vs)}
                out.append((t, st(None, d)))
            elif not c:
                out.append((t, self.zero(t0)))
            elif ct.endswith(']') or head(ct) in ('std::initializer_list', 'std::vector', 'std::array') or fields is None:
                out.append((t, mk('list', tuple(vs))))
            else: out.append((t, mk('list', tuple(vs))))
        return out
    def field_t(self, ct, f):
        r = self.rec.get(ct)
        if r:
            for x in r['fields']:
                if x['n'] == f: return x['t']
        return None

    # ---- defaults
    def zero(self, t, depth=0):
        ct = canon_t(t or '')
        if ct in SCALARS or ct.endswith('*') or ct in self.F.enums: return ci(0)
        if ct in ('double', 'float', 'long double'): return cf(0.0)
        if ct in ('string', 'string_view'): return EMPTYS
        h = head(ct)
        if h in ('boost::optional', 'std::optional'): return NONE
        if h in ('std::map', 'std::unordered_map', 'std::set', 'std::unordered_set', 'std::multimap'): return mk('map', ())
        if h in ('std::vector', 'std::list', 'std::deque'): return mk('list', ())
        if h in ('std::unique_ptr', 'std::shared_ptr', 'std::function'): return NULL
        if h in ('std::basic_ostringstream', 'std::basic_stringstream'): return mk('ostr', EMPTYS)
        if h in ('std::pair',):
            a = split_targs(ct); return pair(self.zero(a[0]), self.zero(a[1]))
        if h == 'std::tuple':
            return tup(*[self.zero(a) for a in split_targs(ct)])
        if h == 'boost::variant':
            a = split_targs(ct)
            return mk('var', a[0], self.zero(a[0])) if a else mk('def', ct)
        if h == 'std::array':
            a = split_targs(ct)
            try:
                k = int(a[1])
                if k <= 64: return mk('list', tuple(self.zero(a[0]) for _ in range(k)))
            except Exception: pass
        r = self.rec.get(ct)
        if r and depth < 8 and r.get('fields') is not None and not self.user_ctor(ct):
            d = {}
            for f in r['fields']:
                d[F_(f['n'])] = self.field_default(f, depth)
            return st(None, d)
        return mk('def', ct)
    def field_default(self, f, depth=0):
        if f.get('x'):
            rs = self.ev(f['x'], State(), Frame('D', None, None, 0, None))
            if len(rs) == 1 and not rs[0][0].ctl: return self.conv_init(rs[0][1], f['t'])
        return self.zero(f['t'], depth + 1)
    def user_ctor(self, ct):
        return None
    def conv_init(self, v, t):
        """value v used to initialise something of type t (braced lists for containers / optionals)"""
        ct = canon_t(t or ''); h = head(ct)
        if h in ('std::map', 'std::unordered_map', 'std::multimap') and v.op == 'list':
            if all(x.op == 'st' for x in v.a[0]):
                return mk('map', tuple((sub(x, F_('first')), sub(x, F_('second'))) for x in v.a[0]))
            if not v.a[0]: return mk('map', ())
        if h in ('std::set', 'std::unordered_set') and v.op == 'list':
            return mk('map', tuple((x, x) for x in v.a[0]))
        if h in ('boost::optional', 'std::optional'):
            if v.op in ('opt',): return v
        if h == 'boost::variant' and v.op != 'var' : pass
        return v

    # ---- constructors
    def e_Ctor(self, n, s, fr):
        t0 = n.get('t'); ct = canon_t(t0 or ''); c = n.get('c') or []
        fn = self.fn_of(n)
        if fn is not None and fn.get('body') and not fn.get('def'):
            s = s.copy(); s.n += 1
            l = Loc(('t', fr.id, nid(n), s.n))
            return [(t, l if not t.ctl else None) for t in self.run_ctor(n, fn, l, ct, s, fr)]
        return self.lib_ctor(n, ct, s, fr)
    def construct_into(self, n, l, t, s, fr):
        """construct the object described by expression n in location l; list of states"""
        while n.get('k') in ('Cast', 'DefInit') and n.get('ck') in ('NoOp', 'ConstructorConversion', None) and n.get('c') and n['c'][0].get('k') in ('Ctor', 'InitList', 'Cast'):
            n = n['c'][0]
        if n.get('k') == 'Ctor':
            fn = self.fn_of(n)
            if fn is not None and fn.get('body') and not fn.get('def'):
                return self.run_ctor(n, fn, l, canon_t(n.get('t') or t or ''), s, fr)
        out = []
        for t2, v in self.ev(n, s, fr):
            if not t2.ctl:
                self.write(t2, l, self.conv_init(v, t))
            out.append(t2)
        return out
    def run_ctor(self, n, fn, l, ct, s, fr):
        self.inlined.add(fn['u'])
        out = []
        pm = n.get('pm') or ''
        for t, vs in self.args(n.get('c') or [], pm, s, fr):
            if t.ctl: out.append(t); continue
            out += self.ctor_body(fn, l, ct, vs, t, fr, n)
        return out
    def ctor_body(self, fn, l, ct, vs, s, fr, n):
        if self.opaque and self.is_opaque(fn):
            self.write(s, l, mk('ctor', fn['q'], *[self.val(s, v) for v in vs])); return [s]
        nf = Frame((fr.id, nid(n)), l, fn, fr.depth + 1, fr)
        if nf.depth > self.max_depth: raise TooBig('constructor nesting')
        self.seen_fns.add(fn['u'])
        s = s.copy()
        self.bind(fn, vs, s, nf, n)
        cls = fn.get('cls') or ct
        r = self.rec.get(cls) or self.rec.get(cls.split('<')[0])
        inits = {}
        deleg = None; bases = []
        for i in fn.get('inits') or []:
            if i.get('deleg'): deleg = i
            elif i.get('m'): inits[i['m']] = i
            elif i.get('b'): bases.append(i)
        cur = [s]
        if deleg:
            nxt = []
            for t in cur: nxt += self.construct_into(deleg['x'], l, ct, t, nf)
            cur = nxt
        else:
            for b in bases:
                nxt = []
                for t in cur:
                    if t.ctl: nxt.append(t); continue
                    if b.get('x') and b['x'].get('k') == 'Ctor' and self.fn_of(b['x']) and self.fn_of(b['x']).get('body') and not self.fn_of(b['x']).get('def'):
                        nxt += self.run_ctor(b['x'], self.fn_of(b['x']), l, b.get('b') or '', t, nf)
                    elif b.get('x'):
                        for t2, v in self.ev(b['x'], t, nf):
                            if not t2.ctl and v is not None: self.write(t2, l + ('base', b.get('b')), v)
                            nxt.append(t2)
                    else: nxt.append(t)
                cur = nxt
            for f in (r or {}).get('fields', []):
                i = inits.get(f['n'])
                fl = l + F_(f['n'])
                nxt = []
                for t in cur:
                    if t.ctl: nxt.append(t); continue
                    if i is not None and i.get('x') is not None:
                        x = i['x']
                        if is_ref(f['t']):
                            for t2, loc in self.lv(x, t, nf):
                                if not t2.ctl:
                                    self.write(t2, fl, addr(loc))
                                nxt.append(t2)
                        else:
                            nxt += self.construct_into(x, fl, f['t'], t, nf)
                    else:
                        if f.get('x'): v = self.field_default(f)
                        elif self.nontrivial(f['t']): v = self.zero(f['t'])
                        else: v = mk('undef', 'field', f['n'])
                        self.write(t, fl, v); nxt.append(t)
                cur = nxt
        out = []
        for t in cur:
            if t.ctl: out.append(t); continue
            for t2 in (self.ex(fn['body'], t, nf) if fn.get('body') else [t]):
                if t2.ctl and t2.ctl[0] == 'ret': t2.ctl = None
                self.drop_frame(t2, nf); out.append(t2)
        return out
    def nontrivial(self, t):
        ct = canon_t(t)
        return not (ct in SCALARS or ct.endswith('*') or ct in self.F.enums or ct in ('double', 'float'))
    def args(self, c, pm, s, fr):
        """evaluate call arguments: reference parameters as locations"""
        how = ''.join('l' if i < len(pm) and pm[i] in 'rcm' else 'v' for i in range(len(c)))
        return self.seq(c, s, fr, how)
    def bind(self, fn, vs, s, nf, n):
        if not hasattr(self, 'vartype'): self.vartype = {}
        for i, p in enumerate(fn.get('params') or []):
            if i >= len(vs): break
            x = vs[i]
            self.vartype[p['d']] = p['t']
            if is_ref(p['t']):
                l = x if isinstance(x, Loc) else self.loc(s, nf, n, x)
                if not isinstance(x, Loc):
                    l = Loc(('a', nf.id, i)); s.store[l.root] = x
                s.refs[(nf.id, p['d'])] = l
            else:
                s.store[('v', nf.id, p['d'])] = self.conv_init(self.val(s, x), p['t'])
    def drop_frame(self, s, nf):
        fid = nf.id
        for k in [k for k in s.store if k[0] in ('v', 'a') and (k[1] == fid)]: del s.store[k]
        for k in [k for k in s.refs if k[0] == fid]: del s.refs[k]
    def fn_of(self, n):
        u = n.get('u')
        if u is None: return None
        f = self.F.fn.get(u)
        if f is None:
            f = self.int_fn(u)
        return f
    def int_fn(self, u):
        m = getattr(self, '_int', None)
        if m is None:
            m = self._int = {}
            for k, f in self.F.fn.items():
                if f.get('internal'): m.setdefault(f['u'], f)
        return m.get(u)
    def lib_ctor(self, n, ct, s, fr):
        c = n.get('c') or []; pm = n.get('pm') or ''; h = head(ct)
        out = []
        real = [(i, x) for i, x in enumerate(c) if x.get('k') != 'DefArg']
        if n.get('copy') or n.get('move'):
            out = []
            for t, l in self.lv(c[0], s, fr):
                if t.ctl: out.append((t, None)); continue
                v = self.read(t, l)
                if n.get('move'): self.moved(t, fr, l)
                out.append((t, v))
            return out
        for t, vs in self.args(c, pm, s, fr):
            if t.ctl: out.append((t, None)); continue
            v = self.lib_ctor_val(t, fr, n, ct, h, [vs[i] for i, _ in real], [x for _, x in real])
            if isinstance(v, list): out += v
            else: out.append((t, v))
        return out
    def moved(self, s, fr, l):
        """value moved out of l"""
        pass
    def lib_ctor_val(self, s, fr, n, ct, h, vs, nodes):
        g = lambda i: self.val(s, vs[i])
        k = len(vs)
        q = n.get('q') or ''
        if k == 0: return self.zero(n.get('t'))
        if ct in ('string', 'string_view') or q.startswith('std::basic_string'):
            a = g(0)
            if k == 1 or (k == 2 and vs[1] is not None and g(1).op in ('s', 'ctor', 'def')): return self.cstr(a)
            if k >= 2:
                b = g(1)
                if a.op == 'it' or b.op == 'it': return mk('strrange', a, b)
                if b.op == 'size' and b.a[0] is self.cstr(a): return self.cstr(a)
                if b.op == 'jlen' and a.op == 'jstr' and b.a[0] is a.a[0]: return self.cstr(a)
                if is_num(a) and not is_str(a):
                    if a.op == 'c' and b.op == 'c' and a.a[0] == 'i' == b.a[0] and 0 <= a.a[1] <= 64 and 0 < b.a[1] < 128: return cs(chr(b.a[1]) * a.a[1])
                    return mk('fill', a, b)
                if 'char *' in (pm_t(nodes[0]) or '') or is_str(a): 
                    return SUBSTR(self.cstr(a), ci(0), b) if k == 2 else SUBSTR(self.cstr(a), b, g(2))
                return SUBSTR(self.cstr(a), b, g(2)) if k > 2 else SUBSTR(self.cstr(a), b)
        if h in ('boost::optional', 'std::optional'):
            a = g(0)
            if a is NONE or a.op == 'opt': return a
            if q.endswith('none_t'): return NONE
            if head(canon_t(self.ntype(nodes[0]) or '')) in ('boost::optional', 'std::optional'): return a
            if canon_t(self.ntype(nodes[0]) or '') in ('boost::none_t', 'std::nullopt_t'): return NONE
            if k == 2: return mk('optif', a, g(1))
            return some(a)
        if h in ('std::unique_ptr', 'std::shared_ptr'): return g(0)
        if h in ('std::function',): return g(0)
        if h == 'std::pair' and k == 2: return pair(g(0), g(1))
        if h == 'std::tuple': return tup(*[g(i) for i in range(k)])
        if h == 'boost::variant':
            a = g(0)
            at = canon_t(self.ntype(nodes[0]) or '')
            alts = [canon_t(x) for x in split_targs(ct)]
            if at in alts: return mk('var', at, a)
            if head(at) == 'boost::variant': return a
            return mk('ctor', q, a)
        if h in ('std::vector', 'std::map', 'std::unordered_map', 'std::set', 'std::unordered_set', 'std::deque', 'std::list', 'std::array'):
            a = g(0)
            if n.get('list') or a.op == 'list': return self.conv_init(a, ct) if a.op == 'list' else (self.conv_init(mk('list', tuple(g(i) for i in range(k))), ct))
            if k >= 2 and a.op == 'it' : return mk('range', a, g(1))
            return mk('ctor', h, *[g(i) for i in range(k)])
        if h in ('std::basic_ostringstream', 'std::basic_stringstream', 'std::basic_istringstream'):
            a = g(0)
            return mk('ostr', a if a.op != 'c' or is_str(a) else EMPTYS)
        if q.startswith('rapidjson::'): return self.json_ctor(s, fr, n, ct, vs, nodes)
        if 'iterator' in ct and k == 1: return g(0)
        return mk('ctor', q, *[g(i) for i in range(k)])
    def cstr(self, a):
        return a.a[0] if a.op == 'cstr' else a
    def ntype(self, n):
        """static type of an expression node, if recorded"""
        if n is None: return None
        if n.get('t'): return n['t']
        if n.get('k') == 'Member': return self.ftype.get(n.get('d'))
        if n.get('k') == 'Ref': return self.vartype.get(n.get('d')) if hasattr(self, 'vartype') else None
        if n.get('k') in ('DefArg', 'DefInit'): return self.ntype(n['c'][0]) if n.get('c') else None
        return None
    def json_ctor(self, s, fr, n, ct, vs, nodes):
        return mk('ctor', n.get('q'), *[self.val(s, v) for v in vs])

    # ---- calls
    def e_Call(self, n, s, fr):
        c = n.get('c') or []
        fn = self.fn_of(n)
        if n.get('u') is None and isinstance(n.get('fn'), dict):
            out = []
            for t, f in self.ev(n['fn'], s, fr):
                if t.ctl: out.append((t, None)); continue
                for t2, vs in self.seq(c, t, fr):
                    if t2.ctl: out.append((t2, None)); continue
                    out += self.apply(f, list(vs), t2, fr, n)
            return out
        if fn is not None and fn.get('body'):
            return self.own_call(n, fn, None, c, s, fr)
        return self.lib_call(n, n.get('q') or '', None, c, s, fr)
    def e_MCall(self, n, s, fr):
        c = n.get('c') or []
        ob = n.get('obj')
        if ob is None: return self.e_Call(n, s, fr)
        out = []
        for t, x in self.e(ob, s, fr):
            if t.ctl: out.append((t, None)); continue
            if n.get('arrow'):
                x = self.deref(t, fr, n, self.val(t, x))
            elif not isinstance(x, Loc): x = self.loc(t, fr, ob, x)
            fn = self.fn_of(n)
            d = self.dispatch(fn, t, fr, n, x) if fn is not None else None
            if d is not None: fn = d
            if fn is not None and fn.get('body') and not fn.get('def'):
                out += self.own_call(n, fn, x, c, t, fr)
            else:
                out += self.lib_call(n, n.get('q') or '', x, c, t, fr)
        return out
    def e_Op(self, n, s, fr):
        c = n.get('c') or []; pm = n.get('pm') or ''
        fn = self.fn_of(n)
        q = n.get('q') or ''
        member = len(c) == len(pm) + 1
        op = n['op']
        if op == '()' and fn is None or (fn is not None and fn.get('body') is None and op == '()'):
            out = []
            for t, f in self.e(c[0], s, fr):
                if t.ctl: out.append((t, None)); continue
                fv = self.val(t, f)
                for t2, vs in self.args(c[1:], pm, t, fr):
                    if t2.ctl: out.append((t2, None)); continue
                    if fv.op in ('lam', 'fn'): out += self.apply(fv, list(vs), t2, fr, n)
                    else: out += self.lib_apply(n, q, f if isinstance(f, Loc) else None, vs, t2, fr)
            return out
        if fn is not None and fn.get('body') and not fn.get('def'):
            if member:
                out = []
                # C++17: right operand of assignment is sequenced first; irrelevant for our purposes
                for t, l in self.lv(c[0], s, fr):
                    if t.ctl: out.append((t, None)); continue
                    out += self.own_call(n, fn, l, c[1:], t, fr)
                return out
            return self.own_call(n, fn, None, c, s, fr)
        return self.op_lib(n, op, q, c, pm, member, s, fr)
    def own_call(self, n, fn, obj, c, s, fr):
        out = []
        if any(p['t'] for p in ()): pass
        pm = n.get('pm') or ''
        for t, vs in self.args(c, pm, s, fr):
            if t.ctl: out.append((t, None)); continue
            r = self.on_call(t, fr, n, fn, obj, list(vs))
            if r is not None: out += r; continue
            out += self.invoke(fn, obj, list(vs), t, fr, n)
        return out
    def recursing(self, fn, fr):
        k = 0; f = fr
        while f is not None:
            if f.fn is fn: k += 1
            f = f.parent
        return k
    def invoke(self, fn, obj, vs, s, fr, n):
        if fr.depth >= self.max_depth or self.recursing(fn, fr) >= 1 or self.is_opaque(fn) or not fn.get('body'):
            return self.opaque_call(n, fn['q'], obj, vs, s, fr, fn)
        self.seen_fns.add(fn['u'])
        nf = Frame((fr.id, nid(n)), obj, fn, fr.depth + 1, fr)
        s = s.copy()
        self.bind(fn, vs, s, nf, n)
        rref = is_ref(fn.get('rt'))
        out = []
        for t in self.ex(fn['body'], s, nf):
            v = sym('void')
            if t.ctl and t.ctl[0] == 'ret':
                v = t.ctl[1]; t.ctl = None
                if isinstance(v, Loc) and not rref: v = self.read(t, v)
                if not isinstance(v, Loc) and v is not None: v = self.conv_init(v, fn.get('rt'))
            if t.ctl and t.ctl[0] in ('brk', 'cont'): raise AnalysisError('stray break in ' + fn['q'])
            self.drop_frame(t, nf)
            out.append((t, None if t.ctl else v))
        out = self.dedupe_v(out)
        self.check(len(out))
        return out
    def dedupe_v(self, out):
        if len(out) < 2: return out
        seen = {}; res = []
        for t, v in out:
            k = (t.key(), v)
            if k not in seen: seen[k] = 1; res.append((t, v))
        return res
    def apply(self, f, vs, s, fr, n):
        """call a function value (lambda or function reference)"""
        if f.op == 'lam':
            ln = _keep[f.a[0]]
            nf = Frame((fr.id, nid(n), 'lam', f.a[0]), Loc(f.a[3].a[0], f.a[3].a[1]) if f.a[3] is not None else None, None, fr.depth + 1, fr)
            nf.file = fr.file
            if nf.depth > self.max_depth: return [(s, mk('applied', f, *[self.val(s, v) for v in vs]))]
            s = s.copy()
            for cp in f.a[2]:
                if cp[0] == 'ref' and cp[2] is not None: s.refs[(nf.id, cp[1])] = Loc(cp[2].a[0], cp[2].a[1])
                elif cp[0] == 'val' and cp[1]: s.store[('v', nf.id, cp[1])] = cp[2]
            ps = ln.get('params') or []
            fake = {'params': ps}
            self.bind(fake, vs, s, nf, n)
            # init-capture-free variables of the enclosing frame used implicitly
            out = []
            outer = f.a[1]
            for (fid, d), l in list(s.refs.items()):
                if fid == outer and (nf.id, d) not in s.refs: s.refs[(nf.id, d)] = l
            for t in self.ex(ln['body'], s, nf):
                v = sym('void')
                if t.ctl and t.ctl[0] == 'ret': v = t.ctl[1]; t.ctl = None
                if isinstance(v, Loc) and not is_ref(ln.get('rt')): v = self.read(t, v)
                self.drop_frame(t, nf)
                out.append((t, None if t.ctl else v))
            return self.dedupe_v(out)
        if f.op == 'fn':
            fn = self.F.fn.get(f.a[1]) or self.int_fn(f.a[1])
            if fn is not None and fn.get('body'):
                r = self.on_call(s, fr, n, fn, None, list(vs))
                return r if r is not None else self.invoke(fn, None, vs, s, fr, n)
            return self.lib_apply(n, f.a[0], None, vs, s, fr)
        return [(s, mk('applied', f, *[self.val(s, v) for v in vs]))]
    def lib_call(self, n, q, obj, c, s, fr):
        out = []
        for t, vs in self.args(c, n.get('pm') or '', s, fr):
            if t.ctl: out.append((t, None)); continue
            out += self.lib_apply(n, q, obj, list(vs), t, fr)
        return out
    def lib_apply(self, n, q, obj, vs, s, fr):
        fn = self.fn_of(n)
        if fn is not None:
            r = self.on_call(s, fr, n, fn, obj, list(vs))
            if r is not None: return r
        if q in ENDS:
            s = s.copy(); s.ctl = ('exit', q, n.get('l')); return [(s, None)]
        r = self.on_libcall(s, fr, n, q, obj, vs)
        if r is not None: return r
        extra = []
        for t, ty, bases in self.throws(s, fr, n, q, obj, vs):
            t.ctl = ('throw', ty, tuple(bases), sym('lib-exception'), n.get('l')); extra.append((t, None))
        m = MODELS.get(q)
        if m is None and '::' in q:
            m = MODELS.get('*::' + q.rsplit('::', 1)[1]) if q.startswith(('std::', 'boost::')) else None
        if m is not None:
            r = m(self, s, fr, n, obj, vs)
            if r is not None: return extra + (r if isinstance(r, list) else [(s, r)])
        return extra + self.opaque_call(n, q, obj, vs, s, fr, fn)
    PURE_PREFIX = ()
    def opaque_call(self, n, q, obj, vs, s, fr, fn=None):
        vals = [self.val(s, v) for v in vs]
        ov = self.read(s, obj) if obj is not None else None
        s = s.copy()
        base = (q,) + ((ov,) if ov is not None else ()) + tuple(vals)
        pm = n.get('pm') or ''
        if fn is not None and len(pm) != len(vs):
            pm = ''.join(('c' if 'const' in p['t'] else ('m' if is_rref(p['t']) else 'r')) if is_ref(p['t']) else
                         ('p' if p['t'].endswith('*') and not p['t'].startswith('const') else 'v') for p in fn.get('params') or [])
        for i, v in enumerate(vs):
            if i < len(pm):
                if pm[i] == 'r' and isinstance(v, Loc): self.assign(s, fr, v, mk('out', i, *base))
                elif pm[i] == 'p' and vals[i].op == 'addr':
                    self.assign(s, fr, Loc(vals[i].a[0], vals[i].a[1]), mk('out', i, *base))
        cm = n.get('cm') or (fn or {}).get('cm') or (fn or {}).get('st')
        if obj is not None and not cm:
            self.assign(s, fr, obj, mk('eff', *base))
        self.note_opaque(s, fr, n, q, obj, vals)
        return [(s, mk('call', *base))]
    def note_opaque(self, s, fr, n, q, obj, vals): pass

    def op_lib(self, n, op, q, c, pm, member, s, fr):
        from models import op_model
        return op_model(self, n, op, q, c, pm, member, s, fr)

    # ---- statements
    def ex(self, n, s, fr):
        if n is None: return [s]
        if s.ctl: return [s]
        self.cur = (fr.file, n.get('l'))
        m = getattr(self, 'x_' + n['k'], None)
        if m is None:
            return [t for t, _ in self.e(n, s, fr)]
        return m(n, s, fr)
    def exs(self, stmts, s, fr):
        cur = [s]
        for x in stmts:
            if x is None: continue
            nxt = []
            moved = False
            for t in cur:
                if t.ctl: nxt.append(t)
                else:
                    nxt += self.ex(x, t, fr); moved = True
            cur = self.reduce(nxt, x)
            if not moved: break
        return cur
    def reduce(self, states, n):
        if len(states) > 4:
            seen = {}
            for t in states: seen.setdefault(t.key(), t)
            states = list(seen.values())
        if self.join_at and len(states) > self.join_at:
            states = self.join(states, n)
        self.check(len(states))
        return states
    def join_key(self, s):
        return ()
    def join(self, states, n):
        groups = {}
        for t in states: groups.setdefault((t.ctl, t.ev, self.join_key(t), frozenset(t.refs.items())), []).append(t)
        out = []
        for g in groups.values():
            out.append(g[0] if len(g) == 1 else self.merge(g, n))
        return out
    def merge(self, g, n):
        r = g[0].copy()
        r.n = max(t.n for t in g) + 1
        r.conds = {a: v for a, v in r.conds.items() if all(t.conds.get(a) is v for t in g[1:])}
        r.eqc = {a: v for a, v in r.eqc.items() if all(t.eqc.get(a) is v for t in g[1:])}
        roots = set()
        for t in g: roots |= set(t.store)
        for root in roots:
            vals = []
            for t in g:
                v = t.store.get(root)
                vals.append(v if v is not None else self.initial(t, root))
            r.store[root] = self.phi(vals, ('phi', nid(n) if n else 0, r.n), root, (), (g, r))
        return r
    def keep_facts(self, vals, p, g, r):
        for f in (lambda x: EQ(x, NULL), HAS, EMPTY):
            a = f(p)
            if is_c(a): continue
            res = None
            for t, v in zip(g, vals):
                if v.op == 'st' and v.a[0] is None: res = None; break
                b = f(v)
                neg = False
                while b.op == 'not': b = b.a[0]; neg = not neg
                d = bool(cval(b)) if is_c(b) else self.decide(t, b)
                if d is not None and neg: d = not d
                if d is None or (res is not None and d != res): res = None; break
                res = d
            if res is not None: self.assume(r, a, res)
    def phi(self, vals, tag, root, path, ctx=None):
        v0 = vals[0]
        if all(v is v0 for v in vals): return v0
        if all(v.op == 'st' for v in vals):
            bases = {v.a[0] for v in vals}
            keys = {k for v in vals for k, _ in v.a[1]}
            if len(bases) == 1:
                return st(vals[0].a[0], {k: self.phi([sub(v, k) for v in vals], tag, root, path + (k,), ctx) for k in keys})
        if any(v.op == 'st' and v.a[0] is not None for v in vals):
            base = next(v.a[0] for v in vals if v.op == 'st' and v.a[0] is not None)
            if all(v is base or (v.op == 'st' and v.a[0] is base) for v in vals):
                keys = {k for v in vals if v.op == 'st' for k, _ in v.a[1]}
                return st(base, {k: self.phi([sub(v, k) for v in vals], tag, root, path + (k,), ctx) for k in keys})
        if v0.op == 'put' and all(v.op == 'put' and v.a[0] is v0.a[0] and v.a[1] is v0.a[1] for v in vals):
            return mk('put', v0.a[0], v0.a[1], self.phi([v.a[2] for v in vals], tag, root, path + (('[', v0.a[1]),), ctx))
        p = mk(*tag, root, path)
        if ctx is not None: self.keep_facts(vals, p, *ctx)
        return p
    def x_Block(self, n, s, fr):
        cur = self.exs(n['c'], s, fr)
        ds = [v for x in n['c'] if x and x.get('k') == 'Decl' for v in x['c'] if v and v.get('k') == 'Var']
        for v in reversed(ds):
            cur = self.destroy(v, cur, fr)
        return cur
    def dtor_of(self, t):
        if is_ref(t) or t is None: return None
        c = getattr(self, '_dt', None)
        if c is None:
            c = self._dt = {}
            for f in self.F.fn.values():
                if f.get('kind') == 'dtor' and f.get('body') and not f.get('def'): c.setdefault(f.get('cls'), f)
        ct = canon_t(t)
        return c.get(ct) or c.get(head(ct))
    def destroy(self, v, states, fr):
        d = self.dtor_of(v.get('t'))
        if d is None: return states
        out = []
        for t in states:
            l = Loc(('v', fr.id, v['d']))
            if l.root not in t.store: out.append(t); continue
            ctl = t.ctl; t = t.copy(); t.ctl = None
            if ctl and ctl[0] == 'ret' and isinstance(ctl[1], Loc) and not is_ref((fr.fn or {}).get('rt')):
                ctl = (ctl[0], self.read(t, ctl[1])) + tuple(ctl[2:])
            for t2, _ in self.invoke(d, l, [], t, fr, v):
                if not t2.ctl: t2.ctl = ctl
                out.append(t2)
        return out
    def x_Decl(self, n, s, fr):
        cur = [s]
        for v in n['c']:
            if v is None or v.get('k') != 'Var': continue
            nxt = []
            for t in cur: nxt += [t] if t.ctl else self.decl(v, t, fr)
            cur = nxt
        return cur
    def decl(self, v, s, fr):
        d = v['d']; t0 = v.get('t')
        if not hasattr(self, 'vartype'): self.vartype = {}
        self.vartype[d] = t0
        c = [x for x in (v.get('c') or []) if x]
        s = s.copy()
        s.refs.pop((fr.id, d), None)
        out = []
        if v.get('static') and not (c and c[0]['k'] in ('Lambda',)):
            pass
        l = Loc(('v', fr.id, d))
        if is_ref(t0):
            for t, x in self.lv(c[0], s, fr):
                if not t.ctl: t.refs[(fr.id, d)] = x
                out.append(t)
        elif not c:
            s.store[l.root] = self.zero(t0) if self.nontrivial(t0) else mk('undef', d)
            out.append(s)
        else:
            out = self.construct_into(c[0], l, t0, s, fr)
        if v.get('bind'):
            res = []
            for t in out:
                if not t.ctl:
                    base = t.refs.get((fr.id, d)) or l
                    bv = self.read(t, base)
                    two = len(v['bind']) == 2
                    for i, b in enumerate(v['bind']):
                        nm = self.bind_field(t0, i, bv, two)
                        x = self.field(t, fr, v, base, nm)
                        if isinstance(x, V):
                            bl = Loc(('v', fr.id, b['d'])); t.store[bl.root] = x
                        else:
                            t.refs[(fr.id, b['d'])] = x
                res.append(t)
            out = res
        return out
    def bind_field(self, t0, i, bv, two):
        ct = canon_t(t0 or '')
        h = head(ct)
        if h == 'std::tuple': return str(i)
        if h == 'std::pair': return ('first', 'second')[i]
        r = self.rec.get(ct)
        if r and len(r['fields']) > i: return r['fields'][i]['n']
        if bv.op == 'st' and dict(bv.a[1]).get(F_('first')) is not None or two and bv.op != 'st': return ('first', 'second')[i] if i < 2 else str(i)
        return str(i)
    def x_If(self, n, s, fr):
        cur = [s]
        if n.get('init'): cur = self.ex(n['init'], s, fr)
        out = []
        for t in cur:
            if t.ctl: out.append(t); continue
            if n.get('cvar'):
                cv = one_var(n['cvar'])
                for t2 in self.decl(cv, t, fr):
                    if t2.ctl: out.append(t2); continue
                    cn = n['c'][0]
                    conds = self.cond(cn, t2, fr) if cn else self.truth(t2, self.read(t2, self.varloc(t2, fr, cv['d'])), n.get('l'))
                    out += self.branch(n, conds, fr)
            else:
                out += self.branch(n, self.cond(n['c'][0], t, fr), fr)
        return self.reduce(out, n)
    fold = False             # keep one state after an if both ways of which differ in numbers only
    def branch(self, n, conds, fr):
        if self.fold and len(conds) == 2 and not conds[0][0].ctl and not conds[1][0].ctl:
            (a, x), (b, y) = conds
            if x is not None and y is not None and x != y:
                A = self.branch1(n, [conds[0]], fr); B = self.branch1(n, [conds[1]], fr)
                if len(A) == 1 and len(B) == 1:
                    m = self.ite(A[0], B[0], a, b)
                    if m is not None: return [m]
                return A + B
        return self.branch1(n, conds, fr)
    def ite(self, a, b, a0, b0):
        """one state for both, values that differ becoming conditional ones; None where they differ in more than numbers"""
        if a.ctl or b.ctl or a.ev != b.ev: return None
        k = [x for x in a0.conds if x not in b0.conds or b0.conds[x] is not a0.conds[x]]
        if len(k) != 1 or set(a0.conds) != set(b0.conds) or k[0].op != 'lt' and k[0].op != 'eq': return None
        k = k[0]; yes = a0.conds[k]
        ex = [x for x in list(a.conds) + list(b.conds) if x is not k and (x not in a.conds or x not in b.conds or a.conds[x] is not b.conds[x])]
        if ex or k not in a.conds or k not in b.conds: return None
        r = a.copy(); del r.conds[k]; r.n = max(a.n, b.n)
        r.eqc = {x: v for x, v in a.eqc.items() if b.eqc.get(x) is v}
        for root in set(a.store) | set(b.store):
            u, v = a.store.get(root), b.store.get(root)
            if u is v: continue
            if u is None or v is None:
                if root[0] in ('v', 't'): r.store.pop(root, None); continue
                return None
            w = self.ite_v(k, u if yes else v, v if yes else u)
            if w is None: return None
            r.store[root] = w
        for x in set(a.refs) | set(b.refs):
            if a.refs.get(x) != b.refs.get(x):
                if x in a.refs and x in b.refs: return None
                r.refs.pop(x, None)
        return r
    def ite_v(self, k, u, v):
        if u is v: return u
        if u.op == 'st' and v.op == 'st' and u.a[0] is v.a[0]:
            d, e = dict(u.a[1]), dict(v.a[1])
            if set(d) != set(e): return None
            o = {}
            for x in d:
                o[x] = self.ite_v(k, d[x], e[x])
                if o[x] is None: return None
            return st(u.a[0], o)
        if u.op == v.op == 'map' and [x for x, _ in u.a[0]] == [x for x, _ in v.a[0]]:
            o = [(x, self.ite_v(k, p, q)) for (x, p), (_, q) in zip(u.a[0], v.a[0])]
            return None if any(q is None for _, q in o) else mk('map', tuple(o))
        num = ('c', '+', '-', '*', '/', 'calc', 's', 'tofloat', 'ite', 'call', 'sub', 'neg')
        if u.op in num and v.op in num and not is_str(u) and not is_str(v): return mk('ite', k, u, v)
        return None
    def branch1(self, n, conds, fr):
        out = []
        for t, b in conds:
            if t.ctl or b is None: out.append(t); continue
            x = n['c'][1 if b else 2] if len(n['c']) > (1 if b else 2) else None
            if x and x.get('k') == 'Decl': out += self.x_Block({'c': [x]}, t, fr)      # the branch is a scope of its own
            else: out += self.ex(x, t, fr) if x else [t]
        return out
    def x_Return(self, n, s, fr):
        c = [x for x in (n.get('c') or []) if x]
        if not c:
            s = s.copy(); s.ctl = ('ret', sym('void'), n.get('l')); return [s]
        out = []
        x = c[0]
        for t, v in self.e(x, s, fr):
            if not t.ctl:
                t = t.copy()
                if isinstance(v, Loc) and fr.fn is not None and not is_ref(fr.fn.get('rt')): v = self.read(t, v)
                t.ctl = ('ret', v, n.get('l'))
            out.append(t)
        return out
    def x_Break(self, n, s, fr): s = s.copy(); s.ctl = ('brk',); return [s]
    def x_Continue(self, n, s, fr): s = s.copy(); s.ctl = ('cont',); return [s]
    def x_Null(self, n, s, fr): return [s]
    def x_Try(self, n, s, fr):
        out = []
        for t in self.ex(n['c'][0], s, fr):
            if t.ctl and t.ctl[0] == 'throw':
                out += self.handle(n, t, fr)
            else: out.append(t)
        return self.reduce(out, n)
    def catches(self, h, ctl):
        ct = h.get('t')
        if ct is None or ct == '...': return True
        if ctl[1] == 'any': return None
        names = {canon_t(ctl[1] or ''), *[canon_t(b) for b in ctl[2]]}
        return canon_t(ct) in names
    def handle(self, n, t, fr):
        ctl = t.ctl
        for h in n.get('h') or []:
            c = self.catches(h, ctl)
            if c:
                t = t.copy(); t.ctl = None
                if h.get('d'):
                    t.store[('v', fr.id, h['d'])] = ctl[3] if ctl[3] is not None else sym('exc')
                t.event('caught', ctl[1], h.get('t'), h.get('l'))
                res = self.ex(h['c'][0] if h.get('c') else None, t, fr)
                for r in res:
                    if r.ctl and r.ctl[0] == 'throw' and r.ctl[1] == 'rethrow':
                        r.ctl = ctl
                return res
        return [t]
    def x_Switch(self, n, s, fr):
        cur = [s]
        if n.get('init'): cur = self.ex(n['init'], s, fr)
        out = []
        for t in cur:
            if t.ctl: out.append(t); continue
            for t2, v in self.ev(n['c'][0], t, fr):
                if t2.ctl: out.append(t2); continue
                out += self.switch_body(n['c'][1], v, t2, fr)
        return self.reduce(out, n)
    def switch_body(self, body, v, s, fr):
        stmts = body['c'] if body.get('k') == 'Block' else [body]
        flat = []      # ('case', lhs) / ('default',) / stmt
        for x in stmts:
            self.flat_case(x, flat)
        out = []
        rest = [s]
        entries = []
        for i, x in enumerate(flat):
            if isinstance(x, tuple) and x[0] == 'case':
                nr = []
                for t in rest:
                    for t1, cv in self.ev(x[1], t, fr):
                        for t2, b in self.truth(t1, EQ(v, cv), x[2]):
                            (entries.append((i, t2)) if b else nr.append(t2))
                rest = nr
        for i, x in enumerate(flat):
            if isinstance(x, tuple) and x[0] == 'default':
                entries += [(i, t) for t in rest]; rest = []
        out += rest
        for i, t in entries:
            todo = [x for x in flat[i:] if not isinstance(x, tuple)]
            for r in self.exs(todo, t, fr):
                if r.ctl == ('brk',): r = r.copy(); r.ctl = None
                out.append(r)
        return out
    def flat_case(self, x, flat):
        if x is None: return
        if x.get('k') == 'Case':
            flat.append(('case', x['c'][0], x.get('l')))
            self.flat_case(x['c'][2] if len(x['c']) > 2 else None, flat)
        elif x.get('k') == 'Default':
            flat.append(('default',)); self.flat_case(x['c'][0] if x['c'] else None, flat)
        else: flat.append(x)

    # ---- loops
    def x_While(self, n, s, fr): return self.loop(n, s, fr, n['c'][0], n['c'][1], None, cvar=n.get('cvar'))
    def x_Do(self, n, s, fr): return self.loop(n, s, fr, n['c'][1], n['c'][0], None, do=True)
    def x_For(self, n, s, fr):
        out = []
        init, cond, inc, body = (n['c'] + [None] * 4)[:4]
        for t in (self.ex(init, s, fr) if init else [s]):
            if t.ctl: out.append(t); continue
            out += self.loop(n, t, fr, cond, body, inc)
        return out
    def iter_once(self, n, s, fr, cond, body, inc, cvar=None, do=False):
        """one iteration from s: (continuing states, exiting states)"""
        go, done = [], []
        if do:
            tests = [(s, True)]
        elif cvar is not None:
            cvar = one_var(cvar)
            tests = []
            for t in self.decl(cvar, s, fr):
                if t.ctl: tests.append((t, None)); continue
                tests += self.cond(cond, t, fr) if cond else self.truth(t, self.read(t, self.varloc(t, fr, cvar['d'])))
        else:
            tests = self.cond(cond, s, fr) if cond else [(s, True)]
        for t, b in tests:
            if t.ctl: done.append(t); continue
            if not b: done.append(t); continue
            for r in (self.ex(body, t, fr) if body else [t]):
                if r.ctl == ('brk',): r = r.copy(); r.ctl = None; done.append(r); continue
                if r.ctl == ('cont',): r = r.copy(); r.ctl = None
                if r.ctl: done.append(r); continue
                if do and cond is not None:
                    for r2, b2 in self.cond(cond, r, fr):
                        if r2.ctl or not b2: done.append(r2)
                        else: go.append(r2)
                    continue
                if inc is not None:
                    go += [x for x, _ in self.e(inc, r, fr)]
                else: go.append(r)
        return go, done
    def loop(self, n, s, fr, cond, body, inc, cvar=None, do=False):
        # concrete unrolling while the condition is decided
        if cond is not None or do:
            done, cur = [], [s]
            ok = True; work = 0
            for k in range(self.unroll):
                nxt = []
                for t in cur:
                    tests = [(t, True)] if do else (self.cond(cond, t.copy(), fr) if cvar is None else None)
                    if tests is None or len(tests) != 1 or (tests[0][0].conds.keys() != t.conds.keys()): ok = False; break
                    if do: ok = False; break
                    if tests[0][1] is False: done.append(tests[0][0]); continue
                    g, d = self.iter_once(n, t, fr, cond, body, inc, cvar, do)
                    nxt += g; done += d; work += len(g)
                    if work > 400: ok = False; break
                if not ok: break
                cur = self.reduce(nxt, n)
                if not cur: return self.reduce(done, n)
            else: ok = False
            # fall through to the approximation from the initial state
        return self.approx(n, s, fr, lambda t: self.iter_once(n, t, fr, cond, body, inc, cvar, do))
    def diff(self, old, new, path, out):
        if old is new: return
        if new.op == 'st' and (old.op == 'st' or new.a[0] is old):
            keys = {k for k, _ in new.a[1]} | ({k for k, _ in old.a[1]} if old.op == 'st' else set())
            if old.op != 'st' or old.a[0] is new.a[0]:
                for k in keys: self.diff(sub(old, k), sub(new, k), path + (k,), out)
                return
        out.add(path)
    def approx(self, n, s, fr, once):
        havoc = set()
        h = s
        saved_hook = self.quiet
        self.quiet += 1
        try:
            for _ in range(6):
                go, done = once(h.copy())
                ch = set()
                for t in go:
                    for root, v in t.store.items():
                        if root[0] == 't' : continue
                        o = h.store.get(root)
                        if o is None:
                            if root[0] in ('v', 'a', 'H'): continue
                            o = self.initial(h, root)
                        d = set(); self.diff(o, v, (), d)
                        for p in d: ch.add((root, p))
                new = {x for x in ch if x not in havoc}
                if not new: break
                havoc |= new
                if len(havoc) > 60:
                    havoc = {(r, ()) for r, _ in havoc}
                h = self.havoc(s, havoc, n)
            else:
                havoc = {(r, ()) for r, _ in havoc}
                h = self.havoc(s, havoc, n)
        finally:
            self.quiet = saved_hook
        base = len(h.ev)
        go, done = once(h.copy())
        self.loop_pre = s
        self.loop_hook(n, fr, h, go, done)
        suff = []
        for t in go:
            x = t.ev[base:]
            if x and x not in suff: suff.append(x)
        out = []
        for t in done:
            if suff:
                t = t.copy(); t.ev = t.ev[:base] + (('loop', nid(n), tuple(suff)),) + t.ev[base:]
            out.append(t)
        return self.reduce(out, n)
    quiet = 0
    def loop_hook(self, n, fr, h, go, done): pass
    def havoc(self, s, havoc, n):
        h = s.copy(); h.n += 1
        for root, p in sorted(havoc, key=lambda x: (len(x[1]), repr(x))):
            self.write(h, Loc(root, p), mk('loopv', nid(n), h.n, root, p))
        return h
    def x_ForRange(self, n, s, fr):
        out = []
        cur = self.ex(n['init'], s, fr) if n.get('init') else [s]
        rng, body = n['c'][0], n['c'][1]
        var = n['var']
        for t in cur:
            if t.ctl: out.append(t); continue
            for t2, x in self.e(rng, t, fr):
                if t2.ctl: out.append(t2); continue
                out += self.for_range(n, t2, fr, x, rng, var, body)
        return out
    def elem_is_map(self, rng, v):
        if v.op in ('map',): return True
        t = canon_t(self.ntype(rng) or '')
        return head(t) in ('std::map', 'std::unordered_map', 'std::multimap')
    def bind_elem(self, var, s, fr, el, n):
        """bind the loop variable to element location/value"""
        s = s.copy(); d = var['d']
        if not hasattr(self, 'vartype'): self.vartype = {}
        self.vartype[d] = var.get('t')
        s.refs.pop((fr.id, d), None)
        if is_ref(var.get('t')):
            s.refs[(fr.id, d)] = el if isinstance(el, Loc) else self.loc(s, fr, var, el)
        else:
            s.store[('v', fr.id, d)] = self.val(s, el)
        if var.get('bind'):
            base = s.refs.get((fr.id, d)) or Loc(('v', fr.id, d))
            for i, b in enumerate(var['bind']):
                nm = self.bind_field(var.get('t'), i, self.read(s, base), len(var['bind']) == 2)
                x = self.field(s, fr, var, base, nm)
                if isinstance(x, V): s.store[('v', fr.id, b['d'])] = x; s.refs.pop((fr.id, b['d']), None)
                else: s.refs[(fr.id, b['d'])] = x
        return s
    def for_range(self, n, s, fr, x, rng, var, body):
        v = self.val(s, x)
        if v.op in ('list', 'map'):
            items = [('[', ci(i)) for i in range(len(v.a[0]))] if v.op == 'list' else [('kv', k) for k, _ in v.a[0]]
            l = x if isinstance(x, Loc) else self.loc(s, fr, n, x)
            done, cur = [], [s]
            rh = head(canon_t(self.ntype(rng) or ''))
            vt = canon_t(var.get('t') or '')
            is_set = rh in ('std::set', 'std::unordered_set') or (v.op == 'map' and rh not in ('std::map', 'std::unordered_map', 'std::multimap') and not var.get('bind') and 'pair' not in vt and 'value_type' not in vt and 'auto' not in vt)
            for it in items:
                nxt = []
                for t in cur:
                    el = it[1] if is_set else l + it
                    b = self.bind_elem(var, t, fr, el, n)
                    for r in self.ex(body, b, fr):
                        if r.ctl == ('brk',): r = r.copy(); r.ctl = None; done.append(r); continue
                        if r.ctl == ('cont',): r = r.copy(); r.ctl = None
                        if r.ctl: done.append(r); continue
                        nxt.append(r)
                cur = self.reduce(nxt, n)
            return self.reduce(done + cur, n)
        l = x if isinstance(x, Loc) else self.loc(s, fr, n, x)
        ismap = self.elem_is_map(rng, v)
        def once(h):
            key = sym('each', nid(n), h.n)
            el = l + (('kv', key) if ismap else ('[', key))
            end = h.copy()
            b = self.bind_elem(var, h, fr, el, n)
            self.iterating(b, fr, l, key, ismap, v)
            go, done = [], [end]
            for r in self.ex(body, b, fr):
                if r.ctl == ('brk',): r = r.copy(); r.ctl = None; done.append(r); continue
                if r.ctl == ('cont',): r = r.copy(); r.ctl = None
                (done if r.ctl else go).append(r)
            return go, done
        return self.approx(n, s, fr, once)
    def iterating(self, s, fr, l, key, ismap, v):
        if ismap: s.conds[IN(key, v)] = True if IN(key, v).op == 'in' else True
    # ---- iterators
    def it_deref(self, s, fr, n, v):
        root, path, key, ismap = v.a
        self.on_deref(s, fr, n, 'it', v)
        if ismap in (1, 2) and key is sym('begin'):
            m = self.read(s, Loc(root, path))
            if m.op == 'map' and m.a[0] and (ismap == 1 or all(is_c(k) for k, _ in m.a[0])): key = models.map_order(m)[0]
        if ismap == 2: return key
        if ismap == 4: return Loc(root, path + (('jm', key),))
        return Loc(root, path + (('kv', key) if ismap else ('[', key),))

    # ---- entry
    def run(self, fn, args=None, this=None, s=None, ctor=False):
        """analyse fn from symbolic (or given) arguments; list of (state, return value)"""
        s = s or State()
        fr = Frame('top', None, None, 0, None)
        vs = []
        for i, p in enumerate(fn.get('params') or []):
            a = (args or {}).get(p['n']) if not isinstance(args, (list, tuple)) else (args[i] if i < len(args) else None)
            if a is None:
                a = Loc(('P', p['n'])) if is_ref(p['t']) else sym('P', p['n'])
            vs.append(a)
        n = {'k': 'entry', 'l': fn.get('l')}
        if this is None and fn.get('cls') and not fn.get('st'): this = Loc(('O', 'this'))
        if fn.get('kind') == 'ctor':
            return [(t, None) for t in self.ctor_body(fn, this, fn.get('cls'), vs, s, fr, n)]
        return self.invoke(fn, this, vs, s, fr, n)

def pm_t(n): return n.get('t')

import models  # registers library models
