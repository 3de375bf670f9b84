"""Abstract semantics of the library classes and functions the repository uses."""
import absint
from absint import *
from absint import MODELS, model, pm_t

END = sym('end')
MAPS = ('std::map', 'std::unordered_map', 'std::multimap')
SETS = ('std::set', 'std::unordered_set')
STREAMQ = ('std::basic_ostream', 'std::basic_ostringstream', 'std::basic_stringstream', 'std::basic_ofstream', 'std::basic_iostream', 'std::basic_istream', 'std::basic_ifstream')

def cls_of(q): return q.rsplit('::', 1)[0] if '::' in q else ''

# ---------------------------------------------------------------- known maps, unknown keys
def select(I, s, m, k):
    """fork on which entry of a known map the key is: [(state, entry index | None)]; None when the map is not known"""
    if m.op != 'map' or len(m.a[0]) > 64: return None
    out = []; cur = s
    for i, (kk, _) in enumerate(m.a[0]):
        c = EQK(kk, k)
        r = I.truth(cur, c)
        nxt = None
        for t, b in r:
            if b: out.append((t, i))
            else: nxt = t
        if nxt is None: return out
        cur = nxt
    out.append((cur, None))
    return out
def EQK(a, b):
    """equality of keys, componentwise for structures"""
    if a.op == 'st' and b.op == 'st' and a.a[0] is None and b.a[0] is None:
        da, db = dict(a.a[1]), dict(b.a[1])
        if set(da) == set(db):
            cs_ = [EQK(da[k], db[k]) for k in sorted(da, key=repr)]
            if any(c is FALSE for c in cs_): return FALSE
            cs_ = [c for c in cs_ if c is not TRUE]
            if not cs_: return TRUE
            return cs_[0] if len(cs_) == 1 else mk('and', *cs_)
    return EQ(a, b)

def it(l, key, ismap): return mk('it', l.root, l.path, key, ismap)
def kind_of(I, v, q='', t=''):
    """0 sequence, 1 map, 2 set"""
    h = cls_of(q)
    x = (h or '') + ' ' + (t or '')
    if h in MAPS: return 1
    if h in SETS: return 2
    if 'std::pair<const' in x and ('_Rb_tree' in x or '_Node_' in x): return 1
    if '_Rb_tree' in x or '_Node_' in x: return 2
    if v is not None and v.op == 'map': return 1
    return 0

def lookup(I, s, fr, obj, k):
    """[(state, present?, Loc)] for key k of the map at obj"""
    m = I.read(s, obj)
    r = select(I, s, m, k)
    if r is not None:
        return [(t, i is not None, obj + ('[', m.a[0][i][0] if i is not None else k)) for t, i in r]
    out = []
    for t, b in I.truth(s, IN(k, m)):
        out.append((t, b, obj + ('[', k)))
    return out

# ---------------------------------------------------------------- container members
def m_find(I, s, fr, n, obj, vs):
    q = n['q']; h = cls_of(q)
    if h in MAPS or h in SETS:
        k = I.val(s, vs[0]); m = I.read(s, obj); km = 1 if h in MAPS else 2
        r = select(I, s, m, k)
        if r is not None:
            return [(t, it(obj, m.a[0][i][0] if i is not None else END, km)) for t, i in r]
        return it(obj, k, km)
    if h == 'std::basic_string' or h == 'std::basic_string_view':
        a, b = I.read(s, obj), I.cstr(I.val(s, vs[0]))
        if n.get('pm', '').startswith('v') and is_num(b): b = CHSTR(b)
        p = I.val(s, vs[1]) if len(vs) > 1 else ci(0)
        if is_str(a) and is_str(b) and is_num(p):
            i = cval(a).find(cval(b), cval(p)); return ci(i if i >= 0 else (1 << 64) - 1)
        if a.op == 'cat' and is_str(a.a[0]) and is_str(b) and is_num(p):
            i = cval(a.a[0]).find(cval(b), cval(p))
            if i >= 0: return ci(i)
        return mk('strfind', a, b, p)
    return None
MODELS['*::find'] = m_find
NPOS = (1 << 64) - 1
def strsearch(meth):
    def f(I, s, fr, n, obj, vs):
        h = cls_of(n['q'])
        if h not in ('std::basic_string', 'std::basic_string_view') or not vs: return None
        a, b = I.read(s, obj), I.cstr(I.val(s, vs[0]))
        if is_num(b): b = CHSTR(b)
        real = [x for i, x in enumerate(vs) if not (i < len(n['c']) and n['c'][i].get('k') == 'DefArg')]
        p = I.val(s, real[1]) if len(real) > 1 else None
        if is_str(a) and is_str(b) and (p is None or is_num(p)):
            x, y = cval(a), cval(b); P = cval(p) if p is not None else None
            if meth in ('starts_with', 'ends_with'): return ci(int(getattr(x, meth.replace('_', ''))(y)))
            if meth == 'rfind': i = x.rfind(y) if P is None or P >= len(x) else x.rfind(y, 0, P + len(y)); return ci(i if i >= 0 else NPOS)
            inn = 'not' not in meth
            idx = [i for i, ch in enumerate(x) if (ch in y) == inn]
            if 'first' in meth: idx = [i for i in idx if i >= (P or 0)]; return ci(idx[0] if idx else NPOS)
            idx = [i for i in idx if P is None or i <= P]; return ci(idx[-1] if idx else NPOS)
        if a.op == 'cat' and is_str(a.a[0]) and is_str(b) and (p is None or is_num(p)):
            # decided within the part of the text that is known
            x, y, P = cval(a.a[0]), cval(b), cval(p) if p is not None else 0
            if meth == 'starts_with' and len(y) <= len(x): return ci(int(x.startswith(y)))
            if 'first' in meth:
                idx = [i for i, ch in enumerate(x) if (ch in y) == ('not' not in meth) and i >= P]
                if idx: return ci(idx[0])
        return mk('strsearch', meth, a, b, p if p is not None else ci(0))
    return f
for _m in ('find_first_of', 'find_first_not_of', 'find_last_of', 'find_last_not_of', 'rfind', 'starts_with', 'ends_with'): MODELS['*::' + _m] = strsearch(_m)
@model('*::lower_bound', '*::upper_bound')
def m_lb(I, s, fr, n, obj, vs):
    h = cls_of(n['q'])
    if h in MAPS and obj is not None:
        return it(obj, mk('lb' if n['q'].endswith('lower_bound') else 'ub', I.read(s, obj), I.val(s, vs[0])), 1)
    return None
def member(I, s, obj, k):
    """[(state, is k an element/key of the container at obj)]"""
    m = I.read(s, obj)
    r = select(I, s, m, k)
    if r is not None: return [(t, i is not None) for t, i in r]
    return I.truth(s, IN(k, m))
@model('*::count', '*::contains')
def m_count(I, s, fr, n, obj, vs):
    h = cls_of(n['q'])
    if (h in MAPS or h in SETS) and obj is not None:
        m = I.read(s, obj); k = I.val(s, vs[0])
        r = select(I, s, m, k)
        if r is not None: return [(t, ci(i is not None)) for t, i in r]
        return IN(k, m)
    return None
@model('*::at')
def m_at(I, s, fr, n, obj, vs):
    h = cls_of(n['q'])
    k = I.val(s, vs[0])
    if h in MAPS:
        out = []
        for t, b, l in lookup(I, s, fr, obj, k):
            if b: out.append((t, l))
            else:
                t = t.copy(); t.ctl = ('throw', 'std::out_of_range', ('std::logic_error', 'std::exception'), sym('map::at'), n.get('l'))
                out.append((t, None))
        return out
    return [(s, obj + ('[', k))]
@model('*::size', '*::length')
def m_size(I, s, fr, n, obj, vs):
    if obj is None: return SIZE(I.val(s, vs[0]))
    return SIZE(I.read(s, obj))
@model('*::empty')
def m_empty(I, s, fr, n, obj, vs):
    return EMPTY(I.read(s, obj) if obj is not None else I.val(s, vs[0]))
@model('*::clear')
def m_clear(I, s, fr, n, obj, vs):
    h = cls_of(n['q']); v = I.read(s, obj)
    s = s.copy()
    I.assign(s, fr, obj, EMPTYS if h == 'std::basic_string' else mk('map', ()) if h in MAPS + SETS else mk('list', ()) if h in ('std::vector', 'std::list', 'std::deque') else mk('eff', n['q'], v))
    return [(s, sym('void'))]
def push(I, s, fr, obj, v):
    c = I.read(s, obj)
    I.assign(s, fr, obj, mk('list', c.a[0] + (v,)) if c.op == 'list' and len(c.a[0]) < 64 else mk('push', c, v))
@model('*::push_back', '*::emplace_back')
def m_push(I, s, fr, n, obj, vs):
    s = s.copy()
    h = cls_of(n['q'])
    if h == 'std::basic_string':
        I.assign(s, fr, obj, CAT(I.read(s, obj), CHSTR(I.val(s, vs[0])))); return [(s, sym('void'))]
    if len(vs) == 1 and not (n['q'].endswith('emplace_back') and False):
        v = I.val(s, vs[0])
        if isinstance(vs[0], Loc) and n.get('c') and n['c'][0].get('k') == 'Call' and n['c'][0].get('q') == 'std::move': I.moved(s, fr, vs[0])
    elif not vs: v = I.zero((split_targs(canon_t(n.get('ot') or '')) or [''])[0])
    else: v = mk('ctor', 'emplaced', *[I.val(s, x) for x in vs])
    push(I, s, fr, obj, v)
    return [(s, obj + ('[', sym('back')))]
@model('*::back')
def m_back(I, s, fr, n, obj, vs):
    c = I.read(s, obj)
    if is_str(c) or c.op == 'cat': return mk('lastch', c)
    I.on_deref(s, fr, n, 'elem', c)
    return [(s, obj + ('[', ci(len(c.a[0]) - 1) if c.op == 'list' and c.a[0] else sym('back')))]
@model('*::front')
def m_front(I, s, fr, n, obj, vs):
    I.on_deref(s, fr, n, 'elem', I.read(s, obj))
    return [(s, obj + ('[', ci(0)))]
@model('*::resize')
def m_resize(I, s, fr, n, obj, vs):
    s = s.copy(); c = I.read(s, obj); k = I.val(s, vs[0])
    I.assign(s, fr, obj, mk('resized', c, k)); return [(s, sym('void'))]
@model('*::reserve', '*::shrink_to_fit')
def m_nop(I, s, fr, n, obj, vs): return sym('void')
@model('*::emplace', '*::insert', '*::insert_or_assign', '*::try_emplace')
def m_insert(I, s, fr, n, obj, vs):
    h = cls_of(n['q'])
    if h in OPT and len(vs) == 1 and obj is not None:
        s = s.copy(); I.assign(s, fr, obj, some(I.val(s, vs[0])))
        return [(s, obj + STAR)]
    if h in MAPS:
        meth = n['q'].rsplit('::', 1)[1]
        if len(vs) == 1:
            p = I.val(s, vs[0]); k, v = sub(p, F_('first')), sub(p, F_('second'))
        elif len(vs) == 2:
            k, v = I.val(s, vs[0]), I.val(s, vs[1])
            if k.op == 'it': return None
        else: return None
        out = []
        m = I.read(s, obj)
        if meth == 'insert_or_assign':
            r = member(I, s, obj, k)
            was = ci(r[0][1]) if len(r) == 1 else IN(k, m)
            s = s.copy(); I.assign(s, fr, obj + ('[', k), v); put_known(I, s, obj, k, v)
            return [(s, pair(it(obj, k, 1), NOT(was)))]
        for t, b, l in lookup(I, s, fr, obj, k):
            t = t.copy()
            if not b: I.assign(t, fr, obj + ('[', k), v)
            out.append((t, pair(it(obj, k, 1), ci(not b))))
        return out
    if h in SETS and len(vs) == 1:
        k = I.val(s, vs[0]); r = member(I, s, obj, k)
        was = ci(r[0][1]) if len(r) == 1 else IN(k, I.read(s, obj))
        s = s.copy(); I.assign(s, fr, obj + ('[', k), k)
        return [(s, pair(it(obj, k, 2), NOT(was)))]
    if h in ('std::vector', 'std::deque') and len(vs) == 2:
        m, k, x = I.read(s, obj), I.val(s, vs[0]), I.val(s, vs[1])
        if k.op != 'it' or k.a[:2] != (obj.root, obj.path): return None
        i = k.a[2] if k.a[2] is not END else SIZE(m)
        et = canon_t(split_targs(canon_t(n.get('ot') or ''))[0]) if '<' in str(n.get('ot')) else ''
        if head(et) == 'boost::variant' and x.op != 'var':
            at = canon_t(I.ntype(n['c'][1]) or '')
            if at and head(at) != 'boost::variant': x = mk('var', at, x)
        s = s.copy()
        if m.op == 'list' and is_num(i): m2 = mk('list', m.a[0][:cval(i)] + (x,) + m.a[0][cval(i):])
        else: m2 = mk('inserted', m, i, x)
        I.assign(s, fr, obj, m2)
        return [(s, it(obj, i, 0))]
    return None
def put_known(I, s, obj, k, v): pass
@model('*::erase')
def m_erase(I, s, fr, n, obj, vs):
    h = cls_of(n['q']); k = I.val(s, vs[0])
    m = I.read(s, obj)
    s = s.copy()
    if h in MAPS + SETS:
        key = k.a[2] if k.op == 'it' else k
        if m.op == 'map' and all(keq(kk, key) is not None for kk, _ in m.a[0]):
            nm = mk('map', tuple((kk, x) for kk, x in m.a[0] if not keq(kk, key)))
        else:
            b = m
            while b.op in ('put', 'erased') and len(b.a) in (2, 3) and keq(b.a[1], key) is not None:
                if keq(b.a[1], key) is False: break
                b = b.a[0]
            nm = mk('erased', b, key)
        I.assign(s, fr, obj, nm)
        return [(s, it(obj, mk('next', key), 1) if k.op == 'it' else mk('erasedcount', m, key))]
    if k.op == 'it' and len(vs) == 1:
        if m.op == 'list' and is_num(k.a[2]) and cval(k.a[2]) < len(m.a[0]): m2 = mk('list', m.a[0][:cval(k.a[2])] + m.a[0][cval(k.a[2]) + 1:])
        else: m2 = mk('erased', m, k.a[2])
        I.assign(s, fr, obj, m2)
        return [(s, it(obj, k.a[2], 0))]
    I.assign(s, fr, obj, mk('erased', m, *[I.val(s, x) for x in vs]))
    return [(s, mk('call', n['q'], m, k))]
def begin_like(end):
    def f(I, s, fr, n, obj, vs):
        if obj is None:
            if not vs or not isinstance(vs[0], Loc): return None
            obj = vs[0]
        v = I.read(s, obj)
        k = kind_of(I, v, n['q'] if n.get('obj') else '', n.get('t') or '')
        return it(obj, END if end else (ci(0) if k == 0 else sym('begin')), k)
    return f
MODELS['*::begin'] = MODELS['*::cbegin'] = begin_like(False)
MODELS['*::end'] = MODELS['*::cend'] = begin_like(True)
@model('*::rbegin', '*::crbegin')
def m_rbegin(I, s, fr, n, obj, vs):
    return it(obj if obj is not None else vs[0], mk('rev', ci(0)), 3)
@model('*::rend', '*::crend')
def m_rend(I, s, fr, n, obj, vs):
    return it(obj if obj is not None else vs[0], mk('rev', END), 3)
@model('*::next')
def m_next(I, s, fr, n, obj, vs):
    v = I.val(s, vs[0])
    if v.op == 'it': return it_shift(v, I.val(s, vs[1]) if len(vs) > 1 else ci(1))
    return None
@model('*::prev')
def m_prev(I, s, fr, n, obj, vs):
    v = I.val(s, vs[0])
    if v.op == 'it': return it_shift(v, NEG(I.val(s, vs[1]) if len(vs) > 1 else ci(1)))
    return None
@model('std::advance')
def m_adv(I, s, fr, n, obj, vs):
    v = I.val(s, vs[0])
    if v.op == 'it':
        s = s.copy(); I.assign(s, fr, vs[0], it_shift(v, I.val(s, vs[1]))); return [(s, sym('void'))]
    return None
def it_shift(v, d):
    root, path, k, m = v.a
    if m == 0: k2 = arith('+', k, d) if k is not END else mk('+', END, d)
    else: k2 = k if is_c(d) and cval(d) == 0 else mk('next', k, d)
    return mk('it', root, path, k2, m)
def map_next(I, s, a):
    """the iterator after a, where a stands at an element of a map whose elements are all known"""
    if a.op != 'it' or a.a[3] != 1 or a.a[2] is END: return None
    m = I.read(s, Loc(a.a[0], a.a[1]))
    if m.op != 'map': return None
    ks = map_order(m)
    for i, k in enumerate(ks):
        if k is a.a[2] or i == 0 and a.a[2] is sym('begin'): return mk('it', a.a[0], a.a[1], ks[i + 1] if i + 1 < len(ks) else END, 1)
    return None
def map_order(m):
    ks = [k for k, _ in m.a[0]]
    return sorted(ks, key=cval) if ks and all(is_c(k) for k in ks) and len({type(cval(k)) for k in ks}) == 1 else ks
def it_eq(I, s, a, b):
    if a is b: return TRUE
    if a.a[:2] == b.a[:2]:
        for x, y in ((a, b), (b, a)):
            if y.a[2] is END:
                c = I.read(s, Loc(x.a[0], x.a[1]))
                if x.a[3] == 4: return FALSE
                if x.a[3] in (1, 2):
                    if x.a[2] is sym('begin'): return EMPTY(c)
                    return NOT(IN(x.a[2], c))
                if x.a[3] == 0:
                    if x.a[2].op == 'found': return FALSE
                    if is_num(x.a[2]) and cval(x.a[2]) == 0: return EMPTY(c)
                    return NOT(LT(x.a[2], SIZE(c)))
        if a.a[3] == 0 and b.a[3] == 0: return EQ(a.a[2], b.a[2])
    return EQ(a, b)

# ---------------------------------------------------------------- strings
@model('*::c_str', '*::data')
def m_cstr(I, s, fr, n, obj, vs):
    return I.read(s, obj) if obj is not None and cls_of(n['q']) in ('std::basic_string', 'std::basic_string_view') else None
@model('*::substr')
def m_substr(I, s, fr, n, obj, vs):
    a = I.read(s, obj)
    p = I.val(s, vs[0]) if vs else ci(0)
    k = I.val(s, vs[1]) if len(vs) > 1 else None
    if k is not None and is_num(k) and cval(k) >= (1 << 60): k = None
    if k is not None and not is_num(k) and 'npos' in repr(k): k = None
    if k is not None and n['c'][1].get('k') == 'DefArg': k = None
    return SUBSTR(a, p, k)
@model('*::append')
def m_append(I, s, fr, n, obj, vs):
    s = s.copy()
    if len(vs) == 1: I.assign(s, fr, obj, CAT(I.read(s, obj), I.cstr(I.val(s, vs[0]))))
    else: I.assign(s, fr, obj, CAT(I.read(s, obj), mk('appended', *[I.val(s, v) for v in vs])))
    return [(s, obj)]
@model('*::assign')
def m_assign(I, s, fr, n, obj, vs):
    if len(vs) != 1: return None
    s = s.copy(); I.assign(s, fr, obj, I.val(s, vs[0])); return [(s, obj)]
@model('*::compare')
def m_compare(I, s, fr, n, obj, vs):
    if len(vs) == 1:
        e = EQ(I.read(s, obj), I.val(s, vs[0]))
        return ci(0) if e is TRUE else ci(1) if e is FALSE else mk('strcmp', *([I.read(s, obj), I.val(s, vs[0])]))
    return None
@model('std::to_string')
def m_tostr(I, s, fr, n, obj, vs): return TOSTR(I.val(s, vs[0]))
def num_parse(kind):
    def f(I, s, fr, n, obj, vs):
        v = I.val(s, vs[0])
        if is_str(v):
            import re
            m = re.match(r'\s*[+-]?\d+' if kind == 'int' else r'\s*[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?', cval(v))
            if m: return ci(int(m.group(0))) if kind == 'int' else cf(float(m.group(0)))
        if v.op == 'cat' and is_str(v.a[0]) and kind == 'int':
            import re
            m = re.match(r'\s*[+-]?\d+', cval(v.a[0]))
            if m and m.end() < len(cval(v.a[0])): return ci(int(m.group(0)))
        if v.op == 'tostr' and kind == 'int': return v.a[0]
        return mk('to' + kind, v)
    return f
for _x, _k in (('stoi', 'int'), ('stol', 'int'), ('stoul', 'int'), ('stoll', 'int'), ('atoi', 'int'), ('atol', 'int'), ('stod', 'float'), ('atof', 'float'), ('stof', 'float')):
    MODELS['std::' + _x] = num_parse(_k); MODELS[_x] = num_parse(_k)
MODELS['std::__cxx11::to_string'] = MODELS['std::to_string']

# ---------------------------------------------------------------- optionals and pointers
OPT = ('boost::optional', 'std::optional', 'std::_Optional_base_impl', 'std::_Optional_base', 'std::_Optional_payload_base', 'std::_Optional_payload', 'boost::optional_detail::optional_base', 'boost::optional_detail::tc_optional_base')
PTR = ('std::unique_ptr', 'std::shared_ptr', 'std::__shared_ptr', 'std::__shared_ptr_access')
def opt_deref(I, s, fr, n, obj):
    v = I.read(s, obj)
    h = HAS(v)
    I.on_deref(s, fr, n, 'opt', h)
    return obj + STAR
@model('*::operator bool', '*::has_value', '*::is_initialized')
def m_has(I, s, fr, n, obj, vs):
    h = cls_of(n['q'])
    if obj is None: return None
    v = I.read(s, obj)
    if h in OPT: return HAS(v)
    if h in PTR or h == 'std::function': return I.atom(v)
    return mk('nz', mk('state', v))
@model('*::get', '*::value', '*::release')
def m_get(I, s, fr, n, obj, vs):
    h = cls_of(n['q'])
    if obj is None: return m_getfree(I, s, fr, n, obj, vs)
    if h in PTR:
        v = I.read(s, obj)
        if n['q'].endswith('release'):
            s = s.copy(); I.assign(s, fr, obj, NULL); return [(s, v)]
        return v
    if h in OPT:
        if n['q'].endswith('value'):
            out = []
            for t, b in I.truth(s, HAS(I.read(s, obj))):
                if b: out.append((t, obj + STAR))
                else:
                    t = t.copy(); t.ctl = ('throw', 'std::bad_optional_access' if h.startswith('std') else 'boost::bad_optional_access', ('std::logic_error', 'std::exception'), sym('value()'), n.get('l'))
                    out.append((t, None))
            return out
        return [(s, opt_deref(I, s, fr, n, obj))]
    return None
@model('*::value_or', '*::get_value_or')
def m_value_or(I, s, fr, n, obj, vs):
    if obj is None: return None
    out = []
    for t, b in I.truth(s, HAS(I.read(s, obj))):
        out.append((t, I.read(t, obj + STAR) if b else I.val(t, vs[0])))
    return out
@model('boost::get_optional_value_or')
def m_govo(I, s, fr, n, obj, vs):
    out = []
    for t, b in I.truth(s, HAS(I.val(s, vs[0]))):
        out.append((t, sub(I.val(t, vs[0]), STAR) if b else I.val(t, vs[1])))
    return out
@model('*::reset')
def m_reset(I, s, fr, n, obj, vs):
    h = cls_of(n['q'])
    s = s.copy()
    if h in OPT: I.assign(s, fr, obj, NONE if not vs else some(I.val(s, vs[0])))
    elif h in PTR: I.assign(s, fr, obj, I.val(s, vs[0]) if vs and n['c'][0].get('k') != 'DefArg' else NULL)
    else: return None
    return [(s, sym('void'))]
@model('boost::make_optional', 'std::make_optional')
def m_mkopt(I, s, fr, n, obj, vs):
    if len(vs) == 2:
        out = []
        for t, b in I.truth(s, I.atom(I.val(s, vs[0]))):
            out.append((t, some(I.val(t, vs[1])) if b else NONE))
        return out
    return some(I.val(s, vs[0]))
@model('std::make_unique', 'std::make_shared')
def m_mku(I, s, fr, n, obj, vs):
    t0 = (split_targs(n.get('t') or '') or [''])[0]
    ct = canon_t(t0)
    s = s.copy(); s.n += 1
    l = Loc(('H', nid(n), s.n))
    ctors = [f for f in I.F.fn.values() if f.get('kind') == 'ctor' and f.get('cls') in (ct, head(ct)) and f.get('body') and len(f.get('params') or []) == len(vs) and not f.get('def')]
    pmv = n.get('pm') or ''
    if len(ctors) > 1: ctors = pick_ctor(I, ctors, n)
    I.note_new(s, fr, n, ct, l, vs) if hasattr(I, 'note_new') else None
    if len(ctors) >= 1 and not I.is_opaque(ctors[0]):
        return [(t, addr(l) if not t.ctl else None) for t in I.ctor_body(ctors[0], l, ctors[0].get('cls'), list(vs), s, fr, n)]
    s.store[l.root] = mk('ctor', ct, *[I.val(s, v) for v in vs])
    return [(s, addr(l))]
def pick_ctor(I, ctors, n):
    args = [canon_t(I.ntype(x) or '?') for x in n.get('c') or []]
    best, score = ctors[0], -1
    for f in ctors:
        sc = 0
        for p, a, x in zip(f['params'], args, n.get('c') or []):
            if canon_t(p['t']) == a: sc += 2
            mv = x.get('k') == 'Call' and x.get('q') == 'std::move'
            if is_rref(p['t']) == mv: sc += 1
            elif is_rref(p['t']) and not mv: sc -= 5
        if sc > score: best, score = f, sc
    return [best]
@model('std::move')
def m_move(I, s, fr, n, obj, vs):
    if len(vs) != 1: return None
    return [(s, vs[0])]
@model('std::forward', 'std::ref', 'std::cref', 'boost::ref', 'boost::cref', 'std::as_const')
def m_fwd(I, s, fr, n, obj, vs): return [(s, vs[0])]
@model('std::addressof')
def m_addr(I, s, fr, n, obj, vs): return addr(vs[0])
@model('*::operator basic_string_view')
def m_sv(I, s, fr, n, obj, vs): return [(s, I.val(s, obj))]
@model('std::make_pair')
def m_mkpair(I, s, fr, n, obj, vs): return pair(I.val(s, vs[0]), I.val(s, vs[1]))
@model('std::make_tuple')
def m_mktup(I, s, fr, n, obj, vs): return tup(*[I.val(s, v) for v in vs])
@model('std::tie')
def m_tie(I, s, fr, n, obj, vs): return mk('tie', *[addr(v) if isinstance(v, Loc) else v for v in vs])
@model('std::swap', '*::swap')
def m_swap(I, s, fr, n, obj, vs):
    a, b = (vs[0], vs[1]) if len(vs) == 2 else (obj, vs[0])
    if not (isinstance(a, Loc) and isinstance(b, Loc)): return None
    s = s.copy(); x, y = I.read(s, a), I.read(s, b)
    I.assign(s, fr, a, y); I.assign(s, fr, b, x)
    return [(s, sym('void'))]
@model('std::exchange')
def m_exch(I, s, fr, n, obj, vs):
    s = s.copy(); x = I.read(s, vs[0]); I.assign(s, fr, vs[0], I.val(s, vs[1])); return [(s, x)]
def m_getfree(I, s, fr, n, obj, vs):
    q = n['q']; x = vs[0]
    t = n.get('t') or ''
    if q == 'boost::get' or q == 'std::get_if' or q == 'boost::strict_get' or q == 'boost::relaxed_get':
        v = I.val(s, x) if not isinstance(x, Loc) else None
        if n.get('pm', '')[:1] in 'pq' and v is not None:       # pointer form
            T = canon_t(t); T = T[:-1] if T.endswith('*') else T
            if v.op == 'addr':
                l = Loc(v.a[0], v.a[1]); out = []
                for t2, b in I.truth(s, IS(I.read(s, l), T), n.get('l')):
                    out.append((t2, addr(l + ('as', T)) if b else NULL))
                return out
            return None
        T = canon_t(t)
        l = I.loc(s, fr, n, x); out = []
        for t2, b in I.truth(s, IS(I.read(s, l), T), n.get('l')):
            if b: out.append((t2, l + ('as', T)))
            else:
                t2 = t2.copy(); t2.ctl = ('throw', 'boost::bad_get', ('std::exception',), sym('get'), n.get('l')); out.append((t2, None))
        return out
    if q == 'std::get':
        u = n.get('u') or ''
        import re
        m = re.search(r'@F@get<#V[a-z]*(\d+)#', u)
        if m:
            i = int(m.group(1))
            l = I.loc(s, fr, n, x)
            v = I.read(s, l)
            if '@S@pair>' in u and '@S@tuple>' not in u.split('#p')[0][:0] + u: return [(s, l + F_(('first', 'second')[i]))]
            return [(s, l + F_(str(i)))]
    return None

# ---------------------------------------------------------------- variants
@model('boost::variant::apply_visitor')
def m_visit_member(I, s, fr, n, obj, vs):
    if obj is None or len(vs) != 1: return None
    return m_visit(I, s, fr, dict(n, c=[n['c'][0], n.get('obj')], ot=n.get('ot')), None, [vs[0], obj])

@model('boost::apply_visitor', 'std::visit')
def m_visit(I, s, fr, n, obj, vs):
    nodes = n['c']
    vt = canon_t(I.ntype(nodes[1]) or n.get('ot') or '')
    if head(vt) not in ('boost::variant', 'std::variant'):
        for t in (n.get('u') or ''),: pass
        vt = I.variant_type(n) if hasattr(I, 'variant_type') else vt
    alts = [canon_t(a) for a in split_targs(vt)]
    vis = vs[0]; var = I.loc(s, fr, n, vs[1])
    cls = canon_t(I.ntype(nodes[0]) or '')
    if not alts: raise AnalysisError("visited variant not known at line %s" % n.get("l"))
    vn = nodes[0]
    cls = visitor_class(I, vn, s, vis) or cls
    ops = visit_ops(I.F, cls)
    out = []; cur = s
    for i, T in enumerate(alts):
        r = I.truth(cur, IS(I.read(cur, var), T)) if i < len(alts) - 1 else [(cur, True)]
        if i == len(alts) - 1:
            cur = cur.copy()
            a = IS(I.read(cur, var), T)
            if a.op == 'is': cur.conds[a] = True
            elif a is FALSE: break
            r = [(cur, True)]
        nxt = None
        for t, b in r:
            if not b: nxt = t; continue
            f = pick_visit(ops, T)
            if f is None:
                out += I.opaque_call(n, 'visit', None, [], t, fr); continue
            arg = var + ('as', T)
            vl = I.loc(t, fr, vn, vis)
            rr = I.on_call(t, fr, n, f, vl, [arg])
            out += rr if rr is not None else I.invoke(f, vl, [arg], t, fr, n)
        if nxt is None: break
        cur = nxt
    return out
def visit_ops(F, cls):
    c = F.__dict__.setdefault('_visit_ops', {})
    if cls not in c:
        c[cls] = [f for f in F.fn.values() if f.get('cls') and (f['cls'] == cls or head(f['cls']) == head(cls)) and f['q'].endswith('operator()') and f.get('body') is not None and f.get('params')]
    return c[cls]
def visitor_class(I, n, s, vis):
    t = I.ntype(n)
    if t: return canon_t(t)
    return None
def pick_visit(ops, T):
    ex = [f for f in ops if canon_t(f['params'][0]['t']) == T and not f.get('inst')] or [f for f in ops if canon_t(f['params'][0]['t']) == T]
    return ex[0] if ex else None

# ---------------------------------------------------------------- streams
def is_stream_cls(h): return h in STREAMQ or h.startswith('std::basic_') and 'stream' in h
def stream_out(I, s, fr, l, text, n):
    """write text to the stream at l"""
    s = s.copy()
    if l.root[0] == 'G' and not l.path:
        s.event('out', l.root[1].split('@')[-1], text)
    else:
        v = I.read(s, l)
        cur = v.a[0] if v.op == 'ostr' else (mk('text', v))
        I.assign(s, fr, l, mk('ostr', CAT(cur, text)))
    return s
@model('*::flush')
def m_flush(I, s, fr, n, obj, vs):
    if obj is None: obj = vs[0]
    if obj.root[0] == 'G':
        s = s.copy(); s.event('flush', obj.root[1].split('@')[-1])
    return [(s, obj)]
@model('*::write', '*::put')
def m_write(I, s, fr, n, obj, vs):
    if obj is None or not is_stream_cls(cls_of(n['q'])): return None
    a = I.cstr(I.val(s, vs[0]))
    if n['q'].endswith('put'): a = CHSTR(a)
    elif not (I.val(s, vs[1]) is SIZE(a)): a = SUBSTR(a, ci(0), I.val(s, vs[1]))
    return [(stream_out(I, s, fr, obj, a, n), obj)]
@model('*::str')
def m_str(I, s, fr, n, obj, vs):
    v = I.read(s, obj)
    if 'stream' in cls_of(n['q']):
        if vs:
            s = s.copy(); I.assign(s, fr, obj, mk('ostr', I.val(s, vs[0]))); return [(s, sym('void'))]
        return v.a[0] if v.op == 'ostr' else mk('text', v)
    return mk('str', v)
for _p in ('printf', 'puts', 'putchar', 'fputs', 'fwrite', 'fprintf', 'std::printf', 'std::puts', 'std::putchar'):
    def _mk(p):
        def f(I, s, fr, n, obj, vs):
            s = s.copy(); s.event('out', p, mk('fmt', *[I.val(s, v) for v in vs])); return [(s, sym('n'))]
        return f
    MODELS[_p] = _mk(_p)

def op_model(I, n, op, q, c, pm, member, s, fr):
    cls = cls_of(q)
    if op == '<<' and (cls == 'std' or is_stream_cls(cls)):
        out = []
        for t, l in I.lv(c[0], s, fr):
            if t.ctl: out.append((t, None)); continue
            if c[1].get('k') == 'FnRef':
                nm = c[1]['n']
                if nm == 'endl': t = stream_out(I, t, fr, l, cs('\n'), n)
                if nm in ('endl', 'flush') and l.root[0] == 'G':
                    t = t.copy(); t.event('flush', l.root[1].split('@')[-1])
                out.append((t, l)); continue
            if n.get('u') and MODELS.get('iomanip') and False: pass
            for t2, v in I.ev(c[1], t, fr):
                if t2.ctl: out.append((t2, None)); continue
                u = n.get('u') or ''
                v = I.cstr(v)
                if v.op == 'call' and v.a[0].startswith('std::set') or v.op == 'fn':
                    out.append((t2, l)); continue
                if u.endswith('#C#') and not u.endswith('*1C#'): txt = CHSTR(v)
                elif '#*1C#' in u[-8:] or 'basic_string' in u or is_str(v): txt = v
                else: txt = TOSTR(v)
                out.append((stream_out(I, t2, fr, l, txt, n), l))
        return out
    if op == '=':
        out = []
        for t, vs in I.seq([c[1], c[0]], s, fr, ('l' if pm[-1:] in 'rcm' else 'v') + 'l'):
            if t.ctl: out.append((t, None)); continue
            x, l = vs
            v = I.val(t, x)
            h = cls
            r = I.on_libcall(t, fr, n, q, l, [x])
            if r is not None: out += r; continue
            dt = I.read(t, l)
            if dt.op == 'tie':
                for i, a in enumerate(dt.a):
                    if a.op == 'addr':
                        I.assign(t, fr, Loc(a.a[0], a.a[1]), sub(v, F_(('first', 'second')[i])) if v.op == 'st' and F_('first') in dict(v.a[1]) else sub(v, F_(str(i))))
                out.append((t, l)); continue
            if h in OPT:
                st_ = canon_t(I.ntype(c[1]) or '')
                if not (v.op == 'opt' or head(st_) in ('boost::optional', 'std::optional')):
                    if v.op == 'ctor' and 'none' in v.a[0] or 'none_t' in (n.get('u') or '')[-40:] or 'nullopt' in (n.get('u') or '')[-40:]: v = NONE
                    else: v = some(v)
            elif h == 'std::basic_string':
                v = I.cstr(v)
                if is_num(v): v = CHSTR(v)
            elif h in ('boost::variant',):
                at = canon_t(I.ntype(c[1]) or '')
                if head(at) != 'boost::variant' and v.op != 'var' and at: v = mk('var', at, v)
            elif h.startswith('rapidjson'):
                if isinstance(x, Loc) and pm[-1:] == 'r' : I.assign(t, fr, x, mk('jnull'))
            if v.op == 'list' and h in MAPS: v = I.conv_init(v, h + '<a,b>')
            if isinstance(x, Loc) and pm[-1:] == 'm' and c[1].get('k') == 'Call' and c[1].get('q') == 'std::move':
                I.moved(t, fr, x)
            I.assign(t, fr, l, v); out.append((t, l))
        return out
    out = []
    first = 'l' if member or pm[:1] in 'rcm' else 'v'
    how = first + ''.join('l' if p in 'rcm' else 'v' for p in (pm if member else pm[1:]))
    for t, vs in I.seq(c, s, fr, how):
        if t.ctl: out.append((t, None)); continue
        r = I.on_libcall(t, fr, n, q, vs[0] if isinstance(vs[0], Loc) else None, list(vs[1:]))
        if r is None: r = op_apply(I, n, op, q, cls, c, list(vs), t, fr, member)
        if isinstance(r, list): out += r
        else: out.append((t, r))
    return out

def op_apply(I, n, op, q, cls, c, vs, s, fr, member):
    g = [I.val(s, v) for v in vs]
    a = g[0]; b = g[1] if len(g) > 1 else None
    l = vs[0] if isinstance(vs[0], Loc) else None
    if op in ('*', '->') and len(g) == 1:
        if cls in OPT:
            x = opt_deref(I, s, fr, n, l if l is not None else I.loc(s, fr, n, a))
            return addr(x) if op == '->' else [(s, x)]
        if a.op == 'it':
            x = I.it_deref(s, fr, n, a)
            if op == '->': return addr(x) if isinstance(x, Loc) else addr(I.loc(s, fr, n, x))
            return [(s, x)]
        if cls in PTR:
            return [(s, I.deref(s, fr, n, a))] if op == '*' else a
        x = Loc(('D', mk('iter', a)))
        I.on_deref(s, fr, n, 'it', a)
        return addr(x) if op == '->' else [(s, x)]
    if op == '[]':
        k = b
        if cls in MAPS:
            r = select(I, s, a, k)
            if r is not None:
                out = []
                for t, i in r:
                    if i is None:
                        t = t.copy()
                        I.write(t, l + ('[', k), I.zero((split_targs(canon_t(I.ntype(c[0]) or '')) + ['', ''])[1]))
                        out.append((t, l + ('[', k)))
                    else: out.append((t, l + ('[', a.a[0][i][0])))
                return out
            return [(s, l + ('[', k))]
        if cls in ('std::basic_string', 'std::basic_string_view'):
            v = AT0(a, k)
            I.on_deref(s, fr, n, 'char', mk('idx', a, k))
            return v if is_c(v) else [(s, l + ('[', k))] if l is not None else v
        if cls in ('std::unique_ptr',) : return [(s, I.deref(s, fr, n, a) + ('[', k))]
        if cls.startswith('rapidjson'):
            return [(s, (l if l is not None else I.loc(s, fr, n, a)) + ('[', I.cstr(k)))]
        I.on_deref(s, fr, n, 'elem', mk('idx', a, k))
        return [(s, (l if l is not None else I.loc(s, fr, n, a)) + ('[', k))]
    if op == '()' : return None or I.lib_apply(n, q, l, vs[1:], s, fr)
    if op == '!' and len(g) == 1:
        if cls in OPT: return NOT(HAS(a))
        if cls in PTR: return NOT(I.atom(a))
        return NOT(mk('nz', mk('state', a)))
    if op in ('++', '--', '++post', '--post', 'post++', 'post--') or (op in ('++', '--')):
        if a.op == 'it':
            post = len(g) > 1 or 'post' in op
            new = map_next(I, s, a) if '++' in op else None
            if new is None: new = it_shift(a, ci(1 if '++' in op else -1))
            s = s.copy(); I.assign(s, fr, l, new)
            return [(s, a if post else l)]
        s = s.copy(); new = mk('stepped', op[:2], a)
        I.assign(s, fr, l, new)
        return [(s, a if len(g) > 1 else l)]
    if b is not None and op in ('==', '!=', '<', '>', '<=', '>='):
        if a.op == 'it' and b.op == 'it' and op in ('==', '!='):
            r = it_eq(I, s, a, b)
        elif op in ('==', '!='):
            a2, b2 = I.cstr(a), I.cstr(b)
            if cls in ('boost', 'std', 'boost::optional', 'std::optional') and (is_opt(I, c[0], a2) or is_opt(I, c[1], b2)):
                oa, ob = is_opt(I, c[0], a2), is_opt(I, c[1], b2)
                if a2 is NONE: r = NOT(HAS(b2))
                elif b2 is NONE: r = NOT(HAS(a2))
                elif oa and ob: r = EQ(a2, b2)
                else:
                    o, x = (a2, b2) if oa else (b2, a2)
                    if o is NONE: r = FALSE
                    elif o.op == 'opt': r = EQ(o.a[0], x)
                    else: r = mk('and', HAS(o), EQ(sub(o, STAR), x)) if HAS(o).op != 'c' and EQ(sub(o, STAR), x).op != 'c' else EQ(sub(o, STAR), x)
            elif cls in PTR or cls == 'std': r = EQK(a2, b2)
            else: r = EQK(a2, b2)
        else:
            return I.binop(op, I.cstr(a), I.cstr(b))
        return NOT(r) if op == '!=' else r
    if op in ('+', '+=') and b is not None:
        t0 = canon_t(n.get('t') or '')
        if t0 == 'string' or cls in ('std::basic_string',) or (cls == 'std' and 'basic_string' in (n.get('u') or '')):
            def tx(v, node, u):
                v = I.cstr(v)
                if is_num(v): return CHSTR(v)
                if canon_t(I.ntype(node) or '') == 'char': return CHSTR(v)
                return v
            r = CAT(tx(a, c[0], n), tx(b, c[1], n))
            if op == '+=':
                s = s.copy(); I.assign(s, fr, l, r); return [(s, l)]
            return r
        if a.op == 'it':
            r = it_shift(a, b)
            if op == '+=':
                s = s.copy(); I.assign(s, fr, l, r); return [(s, l)]
            return r
    if op in ('-', '-=') and a.op == 'it' and b is not None:
        if b.op == 'it':
            return arith('-', a.a[2], b.a[2]) if a.a[3] == 0 and b.a[3] == 0 and a.a[2] is not END and b.a[2] is not END else mk('itdiff', a, b)
        r = it_shift(a, NEG(b))
        if op == '-=':
            s = s.copy(); I.assign(s, fr, l, r); return [(s, l)]
        return r
    if op == '/' and cls.startswith('std::filesystem'):
        return mk('path/', a, b)
    # unknown operator
    return I.opaque_call(dict(n, pm=(n.get('pm') or '')), q, l if member else None, vs[1:] if member else vs, s, fr)
def is_opt(I, node, v):
    if v.op == 'opt': return True
    h = head(canon_t(I.ntype(node) or ''))
    return h in ('boost::optional', 'std::optional')

# ---------------------------------------------------------------- algorithms
def rng(I, s, a, b):
    if a.op == 'it' and b.op == 'it' and a.a[:2] == b.a[:2] and b.a[2] is END and \
       (a.a[2] is sym('begin') or (is_num(a.a[2]) and cval(a.a[2]) == 0)):
        return Loc(a.a[0], a.a[1]), a.a[3]
    return None, None
def elem(I, l, kind, v, i):
    if kind == 1: return l + ('kv', v.a[0][i][0])
    if kind == 2: return v.a[0][i][0]
    return l + ('[', ci(i))
def pred(I, f, el, s, fr, n):
    out = []
    for t, r in I.apply(f, [el], s, fr, n):
        if t.ctl: out.append((t, None))
        else: out += I.truth(t, I.val(t, r))
    return out
def search(I, s, fr, n, vs, neg=False):
    """[(state, found element key | None)] of find_if-like searches"""
    a, b, f = I.val(s, vs[0]), I.val(s, vs[1]), I.val(s, vs[2])
    l, kind = rng(I, s, a, b); frm = 0
    if l is None and a.op == 'it' and b.op == 'it' and a.a[:2] == b.a[:2] and b.a[2] is END and a.a[3] == 1:
        l, kind = Loc(a.a[0], a.a[1]), 1; v = I.read(s, l)
        if a.a[2] is END: return [(s, END, l, kind)]
        frm = next((i for i, (k, _) in enumerate(v.a[0]) if k is a.a[2]), None) if v.op == 'map' else None
        if frm is None: return None
    if l is None: return None
    v = I.read(s, l)
    if f.op not in ('lam', 'fn'):
        if n['q'] in ('std::find', 'std::count'):
            f = ('eq', f)
        else: return None
    def P(el, t):
        if isinstance(f, tuple): return I.truth(t, EQ(I.val(t, el), f[1]))
        return pred(I, f, el, t, fr, n)
    if v.op in ('list', 'map'):
        out = []; cur = [s]
        for i in range(frm, len(v.a[0])):
            nxt = []
            for t in cur:
                for t2, r in P(elem(I, l, kind, v, i), t):
                    if r is None: out.append((t2, None, l, kind))
                    elif r != neg: out.append((t2, (v.a[0][i][0] if kind else ci(i)), l, kind))
                    else: nxt.append(t2)
            cur = I.reduce(nxt, n)
        return out + [(t, END, l, kind) for t in cur]
    key = mk('found', nid(n), fr.id, v, s.n)
    out = []
    el = key if kind == 2 else l + (('kv', key) if kind == 1 else ('[', key))
    h = s.copy()
    if kind: h.conds[IN(key, v)] = True
    else: h.conds[LT(key, SIZE(v))] = True
    for t, r in P(el, h):
        if r is None: out.append((t, None, l, kind))
        elif r != neg: out.append((t, key, l, kind))
    nf = s.copy()
    nf.conds[mk('in', mk('match', nid(n), fr.id, s.n), v)] = False
    out.append((nf, END, l, kind))
    return out
@model('std::find_if', 'std::find_if_not', 'std::find', 'boost::find_if')
def m_find_if(I, s, fr, n, obj, vs):
    r = search(I, s, fr, n, vs, neg=n['q'].endswith('not'))
    if r is None: return None
    return [(t, None if t.ctl else mk('it', l.root, l.path, k, kind)) for t, k, l, kind in r]
@model('std::any_of', 'std::none_of')
def m_any(I, s, fr, n, obj, vs):
    r = search(I, s, fr, n, vs)
    if r is None: return None
    return [(t, None if t.ctl else ci((k is not END) == n['q'].endswith('any_of'))) for t, k, l, kind in r]
@model('std::all_of')
def m_all(I, s, fr, n, obj, vs):
    r = search(I, s, fr, n, vs, neg=True)
    if r is None: return None
    return [(t, None if t.ctl else ci(k is END)) for t, k, l, kind in r]
@model('std::for_each')
def m_foreach(I, s, fr, n, obj, vs):
    a, b, f = I.val(s, vs[0]), I.val(s, vs[1]), I.val(s, vs[2])
    l, kind = rng(I, s, a, b)
    if l is None or f.op not in ('lam', 'fn'): return None
    v = I.read(s, l)
    if v.op in ('list', 'map'):
        cur = [s]
        for i in range(len(v.a[0])):
            nxt = []
            for t in cur:
                if t.ctl: nxt.append(t); continue
                nxt += [t2 for t2, _ in I.apply(f, [elem(I, l, kind, v, i)], t, fr, n)]
            cur = I.reduce(nxt, n)
        return [(t, f) for t in cur]
    def once(h):
        key = sym('each', nid(n), h.n)
        el = key if kind == 2 else l + (('kv', key) if kind == 1 else ('[', key))
        end = h.copy(); go, done = [], [end]
        for t, _ in I.apply(f, [el], h, fr, n):
            (done if t.ctl else go).append(t)
        return go, done
    return [(t, f) for t in I.approx(n, s, fr, once)]
@model('std::min', 'std::max')
def m_minmax(I, s, fr, n, obj, vs):
    g = [I.val(s, v) for v in vs]
    if len(g) == 2:
        if all(is_num(x) for x in g): return g[0] if (cval(g[0]) <= cval(g[1])) == n['q'].endswith('min') else g[1]
        return mk(n['q'].split('::')[1], *sorted(g, key=repr))
    return None
MATH = {'abs', 'fabs', 'sqrt', 'pow', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'atan2', 'exp', 'log', 'log10', 'log2', 'ceil', 'floor', 'round',
        'fmod', 'sinh', 'cosh', 'tanh', 'cbrt', 'trunc', 'hypot', 'fmax', 'fmin', 'lround', 'asinh', 'acosh', 'atanh', 'isnan', 'signbit'}
for _m in MATH:
    def _mm(name):
        def f(I, s, fr, n, obj, vs): return mk('m:' + name, *[I.val(s, v) for v in vs])
        return f
    for _p in ('', 'std::'): MODELS[_p + _m] = _mm('fabs' if _m == 'abs' else _m)

# ---------------------------------------------------------------- rapidjson
def JQ(*names): return [f'rapidjson::{c}::{x}' for x in names for c in ('GenericValue', 'GenericDocument')]
JNULL = mk('jnull')
def json_ctor(self, s, fr, n, ct, vs, nodes):
    q = n['q']; h = head(ct)
    if h == 'rapidjson::GenericStringRef':
        return self.cstr(self.val(s, vs[0]))
    if h in ('rapidjson::GenericValue', 'rapidjson::GenericDocument'):
        if not vs: return JNULL
        a = self.val(s, vs[0])
        nt = canon_t(self.ntype(nodes[0]) or '')
        if nodes[0].get('k') == 'EnumRef' or 'Type' in nt:
            if is_num(a): return {3: mk('jobj', ()), 4: mk('jarr', ()), 0: JNULL}.get(cval(a), mk('ctor', q, a))
        if n.get('pm', '')[:1] in 'rm' and isinstance(vs[0], Loc) and head(nt).startswith('rapidjson::Generic') :
            self.assign(s, fr, vs[0], JNULL)
        return jtext(self, s, vs)
    if h == 'rapidjson::Writer' or h == 'rapidjson::PrettyWriter':
        return mk('jwriter', addr(vs[0]) if vs and isinstance(vs[0], Loc) else NULL)
    if h == 'rapidjson::GenericStringBuffer': return mk('jbuf')
    return mk('ctor', q, *[self.val(s, v) for v in vs])
Interp.json_ctor = json_ctor
_old_zero = Interp.zero
def zero(self, t, depth=0):
    ct = canon_t(t or ''); h = head(ct)
    if h in ('rapidjson::GenericValue', 'rapidjson::GenericDocument'): return JNULL
    if h == 'rapidjson::GenericStringBuffer': return mk('jbuf')
    return _old_zero(self, t, depth)
Interp.zero = zero
def jtext(I, s, vs):
    """text set from a pointer and a length"""
    a = I.cstr(I.val(s, vs[0]))
    if len(vs) > 1 and not (isinstance(vs[1], Loc) and vs[1].root[0] == 'jalloc'):
        b = I.val(s, vs[1])
        if b is not SIZE(a) and (b.op in ('size', 'jlen', 'c', '+', '-', 'add', 'sub', 'find') and not (b.op == 'jlen' and a.op == 'jstr' and b.a[0] is a.a[0])):
            return SUBSTR(a, ci(0), b)
    return a
for _q in JQ('Move'): MODELS[_q] = lambda I, s, fr, n, obj, vs: [(s, obj)]
def jset(val):
    def f(I, s, fr, n, obj, vs):
        s = s.copy(); I.assign(s, fr, obj, val(I, s, vs)); return [(s, obj)]
    return f
for _q in JQ('SetObject'): MODELS[_q] = jset(lambda I, s, vs: mk('jobj', ()))
for _q in JQ('SetArray'): MODELS[_q] = jset(lambda I, s, vs: mk('jarr', ()))
for _q in JQ('SetNull'): MODELS[_q] = jset(lambda I, s, vs: JNULL)
for _q in JQ('SetString'): MODELS[_q] = jset(lambda I, s, vs: jtext(I, s, vs))
for _q in JQ('SetInt', 'SetBool', 'SetUint', 'SetDouble', 'SetInt64', 'SetUint64'): MODELS[_q] = jset(lambda I, s, vs: I.cstr(I.val(s, vs[0])))
for _q in JQ('CopyFrom'): MODELS[_q] = jset(lambda I, s, vs: I.val(s, vs[0]))
for _q in JQ('GetAllocator'): MODELS[_q] = lambda I, s, fr, n, obj, vs: [(s, Loc(('jalloc',)))]
@model(*JQ('AddMember'))
def m_addmember(I, s, fr, n, obj, vs):
    k, v = I.cstr(I.val(s, vs[0])), I.cstr(I.val(s, vs[1]))
    s = s.copy()
    o = I.read(s, obj)
    pm = n.get('pm') or ''
    if isinstance(vs[1], Loc) and pm[1:2] in 'rm': I.assign(s, fr, vs[1], JNULL)
    if isinstance(vs[0], Loc) and pm[0:1] in 'rm': I.assign(s, fr, vs[0], JNULL)
    I.assign(s, fr, obj, mk('jobj', o.a[0] + ((k, v),)) if o.op == 'jobj' else mk('jadd', o, k, v))
    return [(s, obj)]
@model(*JQ('PushBack'))
def m_pushback(I, s, fr, n, obj, vs):
    v = I.cstr(I.val(s, vs[0])); s = s.copy(); o = I.read(s, obj)
    if isinstance(vs[0], Loc) and (n.get('pm') or '')[:1] in 'rm': I.assign(s, fr, vs[0], JNULL)
    I.assign(s, fr, obj, mk('jarr', o.a[0] + (v,)) if o.op == 'jarr' and len(o.a[0]) < 32 else mk('jpush', o, v))
    return [(s, obj)]
@model(*JQ('Accept'))
def m_accept(I, s, fr, n, obj, vs):
    w = I.val(s, vs[0]); s = s.copy()
    if w.op == 'jwriter' and w.a[0].op == 'addr':
        l = Loc(w.a[0].a[0], w.a[0].a[1]); b = I.read(s, l)
        txt = mk('ser', I.read(s, obj))
        I.assign(s, fr, l, mk('jbuf', txt if b is mk('jbuf') else CAT(b.a[0], txt) if b.op == 'jbuf' else mk('bad')))
    else:
        s.event('accept?', w)
    return [(s, TRUE)]
@model('rapidjson::GenericStringBuffer::GetString')
def m_bufstr(I, s, fr, n, obj, vs):
    b = I.read(s, obj)
    return b.a[0] if b.op == 'jbuf' and b.a else EMPTYS if b.op == 'jbuf' else mk('text', b)
@model('rapidjson::GenericStringBuffer::GetSize', 'rapidjson::GenericStringBuffer::GetLength')
def m_bufsize(I, s, fr, n, obj, vs):
    b = I.read(s, obj)
    return SIZE(b.a[0] if b.op == 'jbuf' and b.a else mk('text', b))
@model('rapidjson::GenericStringBuffer::Clear')
def m_bufclear(I, s, fr, n, obj, vs):
    s = s.copy(); I.assign(s, fr, obj, mk('jbuf')); return [(s, sym('void'))]
for _q in JQ('GetString'): MODELS[_q] = lambda I, s, fr, n, obj, vs: mk('jstr', I.read(s, obj))
for _q in JQ('GetStringLength'): MODELS[_q] = lambda I, s, fr, n, obj, vs: mk('jlen', I.read(s, obj))
for _x in ('GetInt', 'GetUint', 'GetInt64', 'GetUint64'):
    for _q in JQ(_x): MODELS[_q] = lambda I, s, fr, n, obj, vs: mk('jint', I.read(s, obj))
for _x in ('IsInt', 'IsString', 'IsObject', 'IsArray', 'IsNull', 'IsNumber', 'IsBool', 'IsUint', 'IsInt64', 'IsUint64', 'IsDouble'):
    def _ji(x):
        return lambda I, s, fr, n, obj, vs: mk('in', cs('type:' + x), I.read(s, obj))
    for _q in JQ(_x): MODELS[_q] = _ji(_x)
for _q in JQ('HasMember'): MODELS[_q] = lambda I, s, fr, n, obj, vs: mk('in', I.cstr(I.val(s, vs[0])), I.read(s, obj))
for _q in JQ('Size', 'MemberCount'): MODELS[_q] = lambda I, s, fr, n, obj, vs: SIZE(I.read(s, obj))
for _q in JQ('Empty', 'ObjectEmpty'): MODELS[_q] = lambda I, s, fr, n, obj, vs: EMPTY(I.read(s, obj))

@model(*JQ('FindMember'))
def m_findmember(I, s, fr, n, obj, vs):
    k = I.cstr(I.val(s, vs[0]))
    return [(t, mk('it', obj.root, obj.path, k if b else END, 4)) for t, b in I.truth(s, mk('in', k, I.read(s, obj)))]
for _q in JQ('MemberEnd'): MODELS[_q] = lambda I, s, fr, n, obj, vs: mk('it', obj.root, obj.path, END, 4)

@model('std::numeric_limits::max', 'std::numeric_limits::min', 'std::numeric_limits::lowest')
def m_limits(I, s, fr, n, obj, vs):
    t = canon_t((I.ntype(n) or '').replace('const ', '')); top = n['q'].endswith('max')
    bits = {'int': 31, 'long': 63, 'short': 15, 'signed char': 7}.get(t)
    if bits: return ci(2**bits - 1 if top else -2**bits)
    bits = {'unsigned int': 32, 'unsigned': 32, 'unsigned long': 64, 'unsigned short': 16, 'unsigned char': 8}.get(t)
    if bits: return ci(2**bits - 1 if top else 0)
    return None
