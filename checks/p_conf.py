"""C01, C02: what the configuration readers, the C interface and the parser make of each configured value, and what becomes of a
configuration that cannot be read. The readers are interpreted over a document whose every entry is a value of its own; each access
to the document may fail."""
import re
from absint import *
from core import AnalysisError, walk
from loops import subterms
from p_capi import Api, FAM, const_text, judge_struct
import p_capi, models, effects
N = 'parser::'; S = 'nclangsrv::'
PT = 'boost::property_tree::'
STDX = ('std::runtime_error', 'std::exception')
JERR = (PT + 'json_parser::json_parser_error', (PT + 'json_parser_error', PT + 'file_parser_error', PT + 'ptree_error') + STDX)
PATHERR = (PT + 'ptree_bad_path', (PT + 'ptree_error',) + STDX)
DATAERR = (PT + 'ptree_bad_data', (PT + 'ptree_error',) + STDX)
ARRAYS = ('operations', 'groups.*', 'descriptions.*[]')
IDS = {}; NAMES = {}

def is_array(path): return path == 'operations' or (path.startswith('groups.') and path.count('.') == 1)
def ident(path, t):
    k = (path, 'number')
    if k not in IDS: IDS[k] = 0 if path == 'groups.shared.rest' else 70001 + 13 * len(IDS); NAMES[IDS[k]] = k
    return ci(IDS[k])
def cfg(path, t):
    """the configured value at path read as a t"""
    if t in ('unsigned int', 'unsigned', 'int', 'long', 'unsigned long') and path.startswith('groups.'): return ident(re.sub(r'^groups\.[^.]+\.#0\.', 'groups.shared.', path), t)    # the first code is in every group
    return sym('CFG', path, t)

class Conf(Interp):
    """a reader over a symbolic document"""
    max_states = 4000; max_steps = 10_000_000; unroll = 8
    def __init__(self, F, fails=False, keys=2):
        super().__init__(F); self.fails = fails; self.keys = keys; self.accesses = set()
        self.opaque |= {'Logger::operator()', 'Logger::flush', 'Logger::close'}
    def children(self, path):
        if is_array(path): return [(cs(''), f'{path}.#{i}') for i in range(self.keys)]
        if self.keys == 1: return [(sym('KEY', path), f'{path}.*')]
        return [(cs(f'{path.rsplit(".", 1)[-1]}#{i}'), f'{path}.{path.rsplit(".", 1)[-1]}#{i}') for i in range(self.keys)]
    def lib_ctor_val(self, s, fr, n, ct, h, vs, nodes):
        if h.startswith(PT + 'string_path') and vs: return self.val(s, vs[0])
        if h.startswith(PT + 'basic_ptree') and not vs: return mk('ptree', '?empty')
        return super().lib_ctor_val(s, fr, n, ct, h, vs, nodes)
    def fail(self, s, n, err, what):
        x = s.copy(); x.ctl = ('throw', err[0], err[1], sym('exc', err[0]), n.get('l')); x.event('fail', what, n.get('l')); return (x, None)
    def on_libcall(self, s, fr, n, q, obj, vs):
        if not q.startswith(PT): return super().on_libcall(s, fr, n, q, obj, vs)
        h = q.rsplit('::', 1)[-1]; out = []
        if h == 'read_json':
            if self.fails: out.append(self.fail(s, n, JERR, 'the file'))
            t = s.copy(); t.event('file', self.val(s, vs[0]), n.get('l')); self.assign(t, fr, vs[1], mk('ptree', ''))
            return out + [(t, None)]
        if obj is None: return None
        o = self.val(s, obj)
        if o.op != 'ptree': return None
        base = o.a[0]
        if h in ('get_value', 'data', 'get_value_optional'):
            self.accesses.add(base); t = scalar(n.get('t')) if h != 'data' else 'string'
            if h == 'get_value_optional': return None
            if h == 'get_value' and self.fails and t != 'string': out.append(self.fail(s, n, DATAERR, base))
            if h == 'get_value' and vs: 
                x = s.copy(); x.event('default', base, n.get('l')); out.append((x, self.val(s, vs[0])))
            return out + [(s, cfg(base, t))]
        if h in ('begin', 'end', 'cbegin', 'cend'):
            s = s.copy(); L = Loc(('PT', base))
            self.write(s, L, mk('list', tuple(pair(k, mk('ptree', p)) for k, p in self.children(base))))
            return [(s, models.it(L, ci(0) if 'begin' in h else models.END, 0))]
        if h in ('get', 'get_child', 'get_optional', 'get_child_optional', 'find', 'count', 'size', 'empty'):
            if h == 'size': return [(s, ci(len(self.children(base))))]
            if h == 'empty': return [(s, ci(int(not self.children(base))))]
            if h in ('count', 'find'): return None
            p = self.val(s, vs[0])
            k = const_text(p)
            if k is None: raise AnalysisError(f'an entry of the configuration is looked up under a name that is not known ({show(p)[:60]})')
            path = (base + '.' + k) if base else k; self.accesses.add(path)
            opt = h.endswith('_optional'); dflt = len([x for x in (n.get('c') or [])[:3] if x and x.get('k') != 'DefArg']) > 1 and not opt
            miss = s.copy(); miss.event('default', path, n.get('l'))
            if h.startswith('get_child'):
                v = mk('ptree', path)
                if opt: return [(miss, NONE_), (s, some(v))] if self.fails else [(s, some(v))]
                if dflt: return ([(miss, self.val(s, vs[1]))] if self.fails else []) + [(s, v)]
                if self.fails: out.append(self.fail(s, n, PATHERR, path))
                return out + [(s, v)]
            t = scalar(n.get('t')); v = cfg(path, t)
            if opt:
                t = scalar((split_targs(canon_t(n.get('t') or '')) or ['?'])[0]); v = cfg(path, t)
                return ([(miss, NONE_)] if self.fails else []) + [(s, some(v))]
            if dflt:
                d = self.val(s, vs[1])
                return ([(miss, d)] if self.fails else []) + [(s, v)]
            if self.fails:
                out.append(self.fail(s, n, PATHERR, path))
                if t != 'string': out.append(self.fail(s, n, DATAERR, path))
            return out + [(s, v)]
        return None
    def for_range(self, n, s, fr, x, rng, var, body):
        v = self.val(s, x)
        if v.op == 'ptree':
            l = mk('list', tuple(pair(k, mk('ptree', p)) for k, p in self.children(v.a[0])))
            return super().for_range(n, s, fr, l, rng, var, body)
        return super().for_range(n, s, fr, x, rng, var, body)
NONE_ = NONE
def scalar(t):
    t = canon_t((t or '?').replace('const ', '').replace('&', '').strip())
    return t

# ------------------------------------------------------------------------------------------------ what is expected where
KEYNAMES = {('ZeroPoint', 'x'): 'X', ('ZeroPoint', 'y'): 'Y', ('ZeroPoint', 'z'): 'Z', ('WordGrammar', 'word_type'): 'type'}
GETTERS = {S + 'NCSettingsReader': {'getZeroPoint': 'zero_point', 'getMachinePointsData': 'machine_points_data', 'getKinematics': 'kinematics', 'getCncDefaultValues': 'cnc_default_values', 'getMachineTool': 'machine_tool', 'getMachineToolType': 'machine_tool_type', 'getFanucParserType': 'driver'},
           S + 'WordGrammarReader': {'getWordGrammar': '', 'getOperations': 'operations'}, S + 'CodeGroupsReader': {'getCodeGroups': 'groups'}}
READERS = list(GETTERS)
def targs(t):
    return [x.strip() for x in split_targs(canon_t(t))]
def judge(I, F, v, t, path, where, st_):
    """why v (of type t) is not the configured value at path; None if it is"""
    ct = canon_t(t.replace('const ', '').replace('&', '').strip()); h = head(ct)
    r = F.records.get(ct) or F.records.get(ct.split('<')[0])
    if path == 'groups': return judge_groups(I, F, v)
    if h in ('std::map', 'std::unordered_map'):
        want = I.children(path); T = targs(ct)[1]
        if v.op != 'map': return f'{where} is {show(v)[:60]}'
        have = dict(v.a[0])
        for k, p in want:
            if k not in have: return f'{where} has nothing for {show(k)}'
            w = judge(I, F, have[k], T, p, f'{where}[{show(k)}]', st_)
            if w: return w
        return f'{where} has {len(have)} entries, {len(want)} are configured' if len(have) != len(want) else None
    if h in ('std::vector', 'std::list', 'std::deque'):
        want = I.children(path)
        if v.op != 'list' or len(v.a[0]) != len(want): return f'{where} is {show(v)[:60]}'
        for (k, p), x in zip(want, v.a[0]):
            if x is not cfg(p, canon_t(targs(ct)[0])): return f'{where} holds {show(x)[:60]}'
        return None
    if r and r.get('fields') and not h.startswith('std::'):
        name = ct.rsplit('::', 1)[-1]
        for f in r['fields']:
            k = KEYNAMES.get((name, f['n']), f['n'])
            w = judge(I, F, sub(v, F_(f['n'])), f['t'], (path + '.' if path else '') + k, f'{where}.{f["n"]}', st_)
            if w: return w
        return None
    want = cfg(path, ct)
    if v is want: return None
    if v.op == 's' and v.a[0] == 'CFG':
        if v.a[1] != path: return f'{where} gets the configured {v.a[1]}'
        return f'{where} is read as {v.a[2]}, it is {ct}'
    if v.op == 'undef': return f'{where} is not set'
    return f'{where} is {show(v)[:80]}, not the configured {path}'
def judge_groups(I, F, v):
    if v.op != 'map': return f'the code groups are {show(v)[:60]}'
    r = F.records.get(N + 'fanuc::CodeGroupValue'); want = {}
    for gk, gp in I.children('groups'):
        for _, p in I.children(gp): want.setdefault(tuple(cfg(f'{p}.{f["n"]}', canon_t(f['t'])) for f in r['fields']), []).append(gk)
    have = {}
    for k, x in v.a[0]:
        have[tuple(sub(k, F_(f['n'])) for f in r['fields'])] = x
    for k, g in want.items():
        if k not in have:
            got = [tuple(NAMES.get(cval(y), (show(y),))[0] if is_num(y) else show(y) for y in q) for q in have]
            return f'no group for the code given by {", ".join(NAMES[cval(y)][0] for y in k)}; the codes are {got[:2]}'
        names = keys_of(have[k])
        if names is None or len(names) != len(g) or set(names) != set(g): return f'the groups of a code are {[show(x) for x in names or []]}, configured are {[show(x) for x in g]}'
    return f'{len(have)} codes, {len(want)} are configured' if len(have) != len(want) else None
def keys_of(v):
    if v.op == 'map': return [k for k, _ in v.a[0]]
    if v.op == 'list': return list(v.a[0])
    return None
def field_of(F, cls, name): return next((m for m in F.fn.values() if m['q'] == f'{cls}::{name}'), None)

def fresh(F, I, cls):
    """states of a newly made reader"""
    ct = [f for f in F.fn.values() if f.get('kind') == 'ctor' and f.get('cls') == cls and not f.get('copy') and not f.get('move') and not f.get('def') and (f.get('body') or f.get('inits'))]
    if len(ct) != 1: raise AnalysisError(f'anchor vanished: constructor of {cls}')
    L = Loc(('O', 'reader')); a = []
    for p in ct[0]['params']:
        t = canon_t(p['t'].replace('const ', '').replace('&', '').strip())
        a.append(sym('P', p['n']) if not is_ref(p['t']) else Loc(('P', p['n'])))
    I.vars_given = a
    return L, ct[0], I.run(ct[0], args=a, this=L)
def run_reader(F, cls, fails, keys, earlier=None):
    """[(state before, state after read, returned)]"""
    I = Conf(F, fails, keys); L, ct, S0 = fresh(F, I, cls)
    fn = next(f for f in F.fn.values() if f['q'] == cls + '::read')
    out = []
    for s, _ in S0:
        if s.ctl: continue
        out += [(s1, r) for s1, r in I.run(fn, this=L, s=s)]
    return I, L, fn, out
def getters(F, cls):
    r = [f for f in F.fn.values() if f.get('cls') == cls and f.get('kind') == 'fn' and not f.get('params') and f['q'].rsplit('::', 1)[-1] in GETTERS[cls]]
    if len(r) != len(GETTERS[cls]): raise AnalysisError(f'anchor vanished: getters of {cls}')
    return r
def judge_reader(c, F, cls, I, L, s, tag):
    """every getter gives the configured value"""
    short = cls.rsplit('::', 1)[-1]; bad = 0
    for g in getters(F, cls):
        name = g['q'].rsplit('::', 1)[-1]
        for s2, r in I.run(g, this=L, s=s.copy()):
            v = I.val(s2, r); c.count('values', 1)
            w = judge(I, F, v, g['rt'], GETTERS[cls][name], name[3:], s2)
            if w: bad += 1; c.violation(f'{short}:{name}:{w.split(" ")[0]}:{tag}', g['f'], g['l'], f'{short}::{name}: {w}{" (after a read that failed)" if tag else ""}')
    return bad
def check_readers(c):
    F = c.F
    for cls in READERS:
        for keys in (2, 1) + ((3,) if c.thorough else ()):
            I, L, fn, R = run_reader(F, cls, False, keys); good = 0
            for s, r in R:
                if s.ctl: continue
                v = I.val(s, r)
                if I.truth_of(s, v) is not True: continue
                good += 1
                if not judge_reader(c, F, cls, I, L, s, ''): c.ok(f'{cls.rsplit("::", 1)[-1]}: every entry of the file ends up in the parameter it names ({keys} entries in each collection)')
            if not good: raise AnalysisError(f'{fn["q"]}: no path on which the file is read')
def truth_of(self, s, v):
    if is_num(v): return bool(cval(v))
    return self.decide(s, v) if v.op not in ('c',) else None
Conf.truth_of = truth_of

# ------------------------------------------------------------------------------------------------ the C interface
class Made(Api):
    """the parser's own constructor is a black box"""
    def lib_ctor_val(self, s, fr, n, ct, h, vs, nodes):
        if h == 'std::vector' and len(vs) == 1 and is_num(self.val(s, vs[0])) and 'string' in ct: return mk('list', (cs(''),) * cval(self.val(s, vs[0])))
        return super().lib_ctor_val(s, fr, n, ct, h, vs, nodes)
    def ctor_body(self, fn, l, ct, vs, s, fr, n):
        if fn['q'].endswith('AllAttributesParser::AllAttributesParser'):
            got = []
            for p, v in zip(fn['params'], vs): got.append((p['n'], p['t'], self.val(s, v)))
            s = s.copy(); s.event('made', fn['q'], tuple(got), n.get('l')); self.write(s, l, sym('parser')); return [s]
        return super().ctor_body(fn, l, ct, vs, s, fr, n)
def many(n): return {'metric_grammar': 2, 'imperial_grammar': 3, 'operations': 1}.get(n.rsplit('_length', 1)[0], 2)
def records_given(F, name, t, k):
    r = F.records.get(t)
    return mk('list', tuple(st(None, {F_(x['n']): cs(f'{name}#{i}') if 'char' in x['t'] else sym('E', name, str(i), x['n']) for x in r['fields']}) for i in range(k)))
def check_create(c):
    F = c.F; seen = 0
    for f in sorted(F.fn.values(), key=lambda f: f['q']):
        short = f['q'].rsplit('::', 1)[-1]
        m = re.match(r'Create(\w+)AllAttributesParser$', short)
        if not m or not f.get('body'): continue
        fam = m.group(1); seen += 1
        for lens in ((2, 1), (1, 2)) + (((3, 0), (0, 0)) if c.thorough else ()):
            I = Made(F, FAM[fam]); I.unroll = 40; s = State(); args = {}; want = {}
            ns = {p['n']: p for p in f['params']}
            total = sum(lens)
            groups = [x[:-len('_keys')] for x in ns if x.endswith('_groups_keys')]
            for n_, p in ns.items():
                t = canon_t(p['t'].replace('const ', '')); L = Loc(('P', n_)); el = t.rstrip('* ')
                if n_.endswith('_length') and t == 'int': args[n_] = ci(many(n_))
                elif n_.endswith('_values_length'):
                    I.write(s, L, mk('list', tuple(ci(x) for x in lens))); args[n_] = addr(L)
                elif n_.endswith('_groups_values'):
                    r = F.records[el]
                    # a code two groups have in common, the others of their own
                    es = []; k = 0
                    for g in range(2):
                        for i in range(lens[g]):
                            es.append(st(None, {F_(x['n']): ci((500 if i == 0 and g < 2 and min(lens) > 0 else 600 + 10 * k) + j) for j, x in enumerate(r['fields'])})); k += 1
                    I.write(s, L, mk('list', tuple(es))); args[n_] = addr(L); want[n_] = es
                elif n_.endswith('_keys') or t.replace(' ', '') == 'char**':
                    I.write(s, L, mk('list', tuple(cs(f'{n_}#{i}') for i in range(6)))); args[n_] = addr(L)
                elif t.endswith('*') and el in F.records and n_.endswith('_values'):
                    I.write(s, L, records_given(F, n_, el, 6)); args[n_] = addr(L)
                elif t.endswith('*') and el in F.records:
                    args[n_] = addr(L); I.write(s, L, st(None, {F_(x['n']): sym('E', n_, '', x['n']) for x in F.records[el]['fields']}))
                else: args[n_] = sym('P', n_)
            rs = I.run(f, args=args, s=s); bad = []
            if not rs: raise AnalysisError(f'{f["q"]}: no path')
            for s1, r in rs:
                c.count('paths', 1)
                if s1.ctl: bad.append('ends with an exception'); continue
                mk_ = [e for e in s1.ev if e[0] == 'made']
                if len(mk_) != 1: bad.append(f'{len(mk_)} parsers are made'); continue
                used = set()
                for pn, pt, v in mk_[0][2]:
                    c.count('values', 1)
                    w, u = given(F, v, pt, pn, ns, lens, want); used |= u
                    if w: bad.append(w)
                for n_ in ns:
                    if n_ not in used and not n_.endswith('_length'): bad.append(f'{n_} is not passed on')
            for b in dict.fromkeys(bad): c.violation(f'{short}:{b[:50]}', f['f'], f['l'], f'{short}: {b}')
            if not bad: c.ok(f'{short}: every argument and every field of its structures reaches the parser (groups of {lens[0]} and {lens[1]} codes)')
    if seen < 2: raise AnalysisError('anchor vanished: Create...AllAttributesParser')
def given(F, v, t, where, ns, lens, want):
    """why v is not made of the arguments it is named after, None if it is; and the arguments used"""
    ct = canon_t(t.replace('const ', '').replace('&', '').strip()); r = F.records.get(ct)
    if 'metric' in {x['n'] for x in (r or {}).get('fields', [])}:
        used = set()
        for f in r['fields']:
            k, vals = f'{f["n"]}_grammar_keys', f'{f["n"]}_grammar_values'; used |= {k, vals}; x = sub(v, F_(f['n']))
            if x.op != 'map' or len(x.a[0]) != many(f['n'] + '_grammar'): return f'the {f["n"]} words are {show(x)[:60]}', used
            for i, (key, y) in enumerate(sorted(x.a[0], key=lambda q: show(q[0]))):
                if key is not cs(f'{k}#{i}'): return f'the {f["n"]} words have {show(key)[:40]}', used
                for g in F.records[N + 'fanuc::WordGrammar']['fields']:
                    z = sub(y, F_(g['n'])); e = cs(f'{vals}#{i}') if g['n'] == 'word' else sym('E', vals, str(i), g['n'])
                    if z is not e: return f'{g["n"]} of the {f["n"]} words is {show(z)[:60]}', used
        return None, used
    if where in ('operations',) or head(ct) == 'std::vector':
        w = [cs(f'operations#{i}') for i in range(many('operations'))]
        return (None if v.op == 'list' and list(v.a[0]) == w else f'the operations are {show(v)[:80]}'), {'operations'}
    if v.op in ('map',) or head(ct) in ('std::map', 'std::unordered_map'):
        g = 'gcode_groups' if where.startswith('g') else 'mcode_groups'; used = {g + '_keys', g + '_values'}
        es = want[g + '_values']; exp = {}; k = 0
        for i in range(2):
            for _ in range(lens[i]): exp.setdefault(es[k], []).append(cs(f'{g}_keys#{i}')); k += 1
        if v.op != 'map': return f'{g} are {show(v)[:60]}', used
        have = dict(v.a[0])
        for e, names in exp.items():
            x = next((have[q] for q in have if all(sub(q, st_) is y for st_, y in e.a[1])), None)
            if x is None: return f'{g}: a code is missing', used
            if set(keys_of(x) or []) != set(names): return f'{g}: the groups of a code are {[show(q) for q in keys_of(x) or []]}, not {[show(q) for q in names]}', used
        return (f'{g}: {len(have)} codes, {len(exp)} were passed in' if len(have) != len(exp) else None), used
    if r and r.get('fields'):
        src = {x.a[1] for x in subterms(v) if x.op == 's' and x.a[0] in ('E', 'P')}
        for f in r['fields']:
            x = sub(v, F_(f['n'])); 
            if not (x.op == 's' and x.a[0] == 'E' and x.a[3] == f['n'] and x.a[1] == where): return f'{where}.{f["n"]} is {show(x)[:60]}', src
        return None, src
    src = {x.a[1] for x in subterms(v) if x.op == 's' and x.a[0] in ('E', 'P')}
    if v is not sym('P', where): return f'{where} is {show(v)[:60]}', src
    return None, src
def check_structs(c):
    """the structures passed to the other functions of the C interface (set_ncsettings, set_parser_settings)"""
    p_capi.check_A03(c, only=lambda f: re.search('Set(NC|Parser)', f['q']) is not None or any('Settings' in p['t'] or 'Data' in p['t'] for p in f['params']))


# ------------------------------------------------------------------------------------------------ the program check
NCP = S + 'NCParser'
MISSING_THROWS = ('canonical', 'weakly_canonical', 'file_size', 'last_write_time', 'read_symlink', 'hard_link_count', 'equivalent', 'status')
class Check(Interp):
    """NCParser::parse up to the point where the parser is set up; a read of a file succeeds or fails"""
    join_at = 100000; max_states = 6000; max_steps = 10_000_000
    def cls_of(self, fn):
        return next((x for x in READERS if fn['q'].startswith(x + '::')), None)
    def ctor_body(self, fn, l, ct, vs, s, fr, n):
        if fn['q'].rsplit('::', 1)[0] in READERS:
            s = s.copy(); self.write(s, l, mk('reader', fn['q'].rsplit('::', 1)[0], *[self.val(s, v) for v in vs])); return [s]
        if fn['q'].endswith('AllAttributesParser::AllAttributesParser') and not fn.get('move'):
            s = s.copy(); s.event('made', fn['q'], tuple((p['n'], p['t'], self.val(s, v)) for p, v in zip(fn['params'], vs)), n.get('l')); self.write(s, l, sym('parser')); return [s]
        return super().ctor_body(fn, l, ct, vs, s, fr, n)
    def on_call(self, s, fr, n, fn, obj, vs):
        k = self.cls_of(fn); h = fn['q'].rsplit('::', 1)[-1]
        if k and obj is not None and fn.get('kind') != 'ctor':
            o = self.read(s, obj)
            if h == 'read':
                a, b = s.copy(), s.copy()
                a.event('read', k, o, True, n.get('l')); b.event('read', k, o, False, n.get('l'))
                if any(e[0] == 'read' and e[2] is o and e[3] for e in s.ev): return [(a, TRUE)]      # once read, it stays read
                return [(a, TRUE), (b, FALSE)]
            return [(s, mk('given', k, o, h))]
        if h == 'set_ncsettings': return self.settled(s, n, vs)
        if self.inl(fn): return None
        return self.opaque_call(n, fn['q'], obj, vs, s, fr, fn)
    def inl(self, fn):
        return fn['f'].endswith('nclangsrv/NCParser.cpp') or fn['f'].endswith('nclangsrv/NCParser.h')
    def on_libcall(self, s, fr, n, q, obj, vs):
        if q.endswith('::set_ncsettings'): return self.settled(s, n, vs)
        if q.startswith('std::filesystem::') and q.rsplit('::', 1)[-1] in MISSING_THROWS and not any('error_code' in (self.ntype(x) or '') for x in n.get('c') or [] if x):
            t = s.copy(); t.event('missing', q, n.get('l')); t.ctl = ('throw', 'std::filesystem::filesystem_error', ('std::filesystem::__cxx11::filesystem_error', 'std::system_error') + STDX, sym('exc', 'filesystem_error'), n.get('l'))
            return [(t, None)] + self.opaque_call(n, q, obj, vs, s, fr, None)
        return None
    def settled(self, s, n, vs):
        ps = next(f['params'] for f in self.F.fn.values() if f['q'] == N + 'fanuc::AllAttributesParser::set_ncsettings' and f.get('body'))
        s = s.copy(); s.event('set', n.get('q'), tuple((p['n'], p['t'], self.val(s, v)) for p, v in zip(ps, vs)), n.get('l')); s.ctl = ('exit', 'set up', n.get('l')); return [(s, None)]
def consts(v): return [cval(x) for x in subterms(v) if x.op == 'c' and x.a[0] == 's']

def fresh_check(F):
    I = Check(F); L = Loc(('O', 'nc'))
    ct = [f for f in F.fn.values() if f['q'] == NCP + '::NCParser' and f.get('body') is not None and not f.get('copy') and not f.get('move')]
    P = [f for f in F.fn.values() if f['q'] == NCP + '::parse' and f.get('body')]
    if len(ct) != 1 or len(P) != 1: raise AnalysisError('anchor vanished: NCParser and its parse')
    S0 = I.run(ct[0], args=[Loc(('P', p['n'])) if is_ref(p['t']) else sym('P', p['n']) for p in ct[0]['params']], this=L)
    return I, L, P[0], [s for s, _ in S0 if not s.ctl]
def once(I, L, P, states):
    """one more check from each of the states: [(state, result, events of this check)]"""
    out = []; seen = set()
    for s in states:
        s = s.copy(); s.ctl = None; s.event('check'); k = len(s.ev)
        for t, r in I.run(P, this=L, s=s):
            ev = t.ev[k:]; key = (ev_key(t.ev), I.val(t, r) if r is not None else None, None if not t.ctl else t.ctl[:2], t.store.get(L.root))
            if key in seen: continue
            seen.add(key); out.append((t, r, ev))
    return out
def ev_key(ev): return tuple(e[:4] for e in ev if e[0] in ('read', 'made', 'set', 'missing', 'check'))
def givens(ev): return {x for e in ev if e[0] in ('made', 'set') for _, _, v in e[2] for x in subterms(v) if x.op == 'given'}
def whose(o): return next((x for x in consts(o) if x.endswith('.json')), None) if o.op == 'reader' else 'the settings file'
def check_refusals(c):
    """a check of a program made with a configuration that could not be read"""
    F = c.F; I, L, P, states = fresh_check(F); k = 0; seen_fail = set()
    for depth in range(3 if c.thorough else 2):
        res = once(I, L, P, states); nth = ('first', 'second', 'third')[depth]; bad = {}
        for s, r, ev in res:
            c.count('checks', 1)
            reads = {}
            for e in s.ev:
                if e[0] == 'read': reads.setdefault(e[2], []).append(e[3])
            now = [e for e in ev if e[0] == 'read' and not e[3]]
            for e in now: seen_fail.add((e[1], whose(e[2])))
            line = P['l']
            if s.ctl and s.ctl[0] == 'throw':
                what = [e for e in ev if e[0] == 'missing']
                bad.setdefault(f'throws:{s.ctl[1]}:{depth and "again" or ""}', f'ends with {s.ctl[1]}' + (' when a configuration file is missing' if what else '') + ' instead of an error diagnostic (line %s)' % s.ctl[4]); continue
            used = {x.a[1] for x in givens(ev) if x.a[0] != S + 'NCSettingsReader'}
            for o in used:
                if True not in reads.get(o, []): bad.setdefault(f'used:{whose(o)}', f'the {nth} check uses what {whose(o)} holds although it was not read' + (', after an earlier read failed' if reads.get(o) else ''))
            if any(x.a[0] == S + 'NCSettingsReader' and x.a[2] != 'getNcSettingsPath' for x in givens(ev)):
                o = next(x.a[1] for x in givens(ev) if x.a[0] == S + 'NCSettingsReader')
                empty = I.decide(s, EMPTY(mk('given', S + 'NCSettingsReader', o, 'getNcSettingsPath')))
                if empty is not True and True not in reads.get(o, []): bad.setdefault('used:settings', f'the {nth} check uses the settings although they were not read')
            if now:
                done = any(e[0] == 'made' for e in ev)
                last = {e[2]: e[3] for e in ev if e[0] == 'read'}
                if not all(last.values()):
                    v = I.val(s, r) if r is not None else None
                    if done or v is None: bad.setdefault(f'goes on:{whose(now[0][2])}', f'the {nth} check goes on after {whose(now[0][2])} could not be read')
                    else:
                        m = sub(v, F_('0'))
                        if not (m.op == 'list' and m.a[0] and not (is_str(m.a[0][0]) and not cval(m.a[0][0]).strip())): bad.setdefault(f'silent:{whose(now[0][2])}', f'the {nth} check reports nothing ({show(m)[:60]}) after {whose(now[0][2])} could not be read')
        for kx, b in bad.items(): c.violation(f'parse:{kx}', P['f'], P['l'], f'NCParser::parse: {b}')
        if not bad: c.ok(f'{nth} check: {len(res)} outcomes of reading the configuration; nothing is used that was not read, and every failed read ends in an error')
        states = [s for s, r, ev in res if not (s.ctl and s.ctl[0] == 'throw')]
        if not any(e[0] == 'set' for s in states for e in s.ev): raise AnalysisError('NCParser::parse: no path on which the parser is set up')
    if len(seen_fail) < 4: raise AnalysisError(f'NCParser::parse: {len(seen_fail)} readers of the configuration found, expected 4')
def check_reads(c):
    """read() of every reader, each access to the file failing"""
    F = c.F
    for cls in READERS:
        short = cls.rsplit('::', 1)[-1]
        for keys in (2, 1):
            I, L, fn, R = run_reader(F, cls, True, keys); bad = {}; ways = 0; failed = []
            good = 0
            def verdict(s, r, since, tag):
                nonlocal good, ways
                fails = [e for e in s.ev[since:] if e[0] in ('fail', 'default')]; c.count('outcomes', 1)
                if s.ctl and s.ctl[0] == 'throw': bad.setdefault(f'throws{tag}:{fails[-1][1] if fails else s.ctl[1]}', f'a failure reading {fails[-1][1] if fails else "?"} leaves read() as {s.ctl[1]}{tag}'); return None
                if s.ctl: return None
                t = I.truth_of(s, I.val(s, r))
                if t is None: bad.setdefault('unclear' + tag, f'read() returns {show(I.val(s, r))[:60]}{tag}'); return None
                if t and fails: bad.setdefault(f'{fails[-1][0]}{tag}:{fails[-1][1]}', (f'read() succeeds although {fails[-1][1]} could not be read' if fails[-1][0] == 'fail' else f'read() succeeds although {fails[-1][1]} is not there') + tag)
                ways += bool(fails); return t
            for s, r in R:
                t = verdict(s, r, 0, '')
                if t is False: failed.append(s)
                if t and not [e for e in s.ev if e[0] in ('fail', 'default')]: good += 1
            if not good: raise AnalysisError(f'{fn["q"]}: no path on which the file is read')
            # a later read: after any failure the next one reads everything again, and may fail again
            J = Conf(F, False, keys)
            for s in failed:
                s = s.copy(); k = len(s.ev); done = False
                for s2, r2 in J.run(fn, this=L, s=s):
                    if s2.ctl: continue
                    v = J.val(s2, r2); done = True
                    if J.truth_of(s2, v) is True:
                        if not any(e[0] == 'file' for e in s2.ev[k:]): bad.setdefault('sticky', f'after a read that failed at {next((e[1] for e in s.ev if e[0] == "fail"), "?")}, read() succeeds without reading the file')
                        else: judge_reader(c, F, cls, J, L, s2, 'again')
            for s in failed[::max(1, len(failed) // (40 if c.thorough else 6))]:
                s = s.copy(); k = len(s.ev)
                for s2, r2 in I.run(fn, this=L, s=s): verdict(s2, r2, k, ' (second read)')
            for kx, b in bad.items(): c.violation(f'{short}:{kx}', fn['f'], fn['l'], f'{short}: {b}')
            if not bad: c.ok(f'{short}::read: {ways} failures ({len(I.accesses)} entries), each makes the read fail, and the next read starts over')
            c.count('accesses', len(I.accesses))
def check_C02(c):
    check_reads(c)
    check_refusals(c)

# ------------------------------------------------------------------------------------------------ C01: server to parser
def snake(x): return re.sub(r'(?<!^)(?=[A-Z])', '_', x).lower()
GIVEN = {'grammar': (S + 'WordGrammarReader', 'getWordGrammar', 'grammar.json'), 'operations': (S + 'WordGrammarReader', 'getOperations', 'grammar.json'),
         'gcodes': (S + 'CodeGroupsReader', 'getCodeGroups', 'gcode_groups.json'), 'mcodes': (S + 'CodeGroupsReader', 'getCodeGroups', 'mcode_groups.json')}
def check_passing(c):
    F = c.F; I, L, P, states = fresh_check(F); ways = 0; bad = {}
    for s, r, ev in once(I, L, P, states):
        if not any(e[0] == 'set' for e in ev): continue
        ways += 1
        for e in ev:
            if e[0] not in ('made', 'set'): continue
            if e[0] == 'made' and 'heidenhain' in e[1]: continue
            for pn, pt, v in e[2]:
                c.count('values', 1)
                if pn in GIVEN:
                    k, g, file = GIVEN[pn]
                    if not (v.op == 'given' and v.a[0] == k and v.a[2] == g): bad.setdefault(pn, f'{pn} of the parser is {show(v)[:80]}')
                    elif v.a[1].op != 'reader': bad.setdefault(pn, f'{pn} of the parser comes from {show(v.a[1])[:60]}')
                    elif [x for x in consts(v.a[1]) if x.endswith('.json')] != [file]: bad.setdefault(pn, f'{pn} of the parser comes from {[x for x in consts(v.a[1]) if x.endswith(".json")]}')
                    elif 'conf' not in ' '.join(consts(v.a[1])) or not any(x.op == 'given' and x.a[2] == 'getFanucParserType' for x in subterms(v.a[1])): bad.setdefault(pn, f'{pn} of the parser is not read from the directory of the driver')
                elif any(snake(g[3:]) == pn for g in GETTERS[S + 'NCSettingsReader']):
                    if not (v.op == 'given' and v.a[0] == S + 'NCSettingsReader' and snake(v.a[2][3:]) == pn): bad.setdefault(pn, f'{pn} of the parser is {show(v)[:80]}')
        if not any(e[0] == 'made' for e in ev): bad.setdefault('made', 'no parser is made')
    if not ways: raise AnalysisError('NCParser::parse: no path on which the parser is set up')
    for k, b in bad.items(): c.violation(f'parse:{k}', P['f'], P['l'], f'NCParser::parse: {b}')
    if not bad: c.ok(f'NCParser::parse: every setting of the files reaches the like-named parameter of the parser ({ways} ways)')
def check_C01(c):
    check_readers(c)
    check_create(c)
    check_structs(c)
    check_passing(c)
    check_kept(c)

# ------------------------------------------------------------------------------------------------ C01: inside the parser
class Keep(Interp):
    """a constructor or setter of the parser: what it calls is a black box"""
    def on_call(self, s, fr, n, fn, obj, vs):
        if fr.parent is None: return None
        if obj == self.me and fn.get('body'):
            s = s.copy()
            for m in self.writes(fn, set()): self.write(s, obj + F_(m), mk('after', fn['q'], m))
            return [(s, mk('call', fn['q'], *[self.val(s, v) for v in vs]) if fn.get('rt') != 'void' else None)]
        return self.opaque_call(n, fn['q'], obj, vs, s, fr, fn)
    me = Loc(('O', 'this'))
    def writes(self, fn, seen):
        """members a method, and the methods of the object it calls, may write"""
        if fn['u'] in seen: return set()
        seen.add(fn['u']); r = set(effects.written(fn))
        for x in walk(fn['body']):
            if x.get('k') == 'MCall' and (x.get('obj') or {}).get('k') == 'This':
                g = self.fn_of(x)
                if g is not None and g.get('body'): r |= self.writes(g, seen)
        return r
    def ctor_body(self, fn, l, ct, vs, s, fr, n):
        if fr.parent is None and fr.fn is None: return super().ctor_body(fn, l, ct, vs, s, fr, n)
        s = s.copy(); s.event('built', fn.get('cls'), tuple((p['n'], p['t'], self.val(s, v)) for p, v in zip(fn['params'], vs)), n.get('l'))
        self.write(s, l, mk('built', fn.get('cls') or ct, *[self.val(s, v) for v in vs])); return [s]
ALIAS = {'grammar': 'word_grammar', 'operations': 'allowed_operations', 'gcodes': 'gcode_groups', 'mcodes': 'mcode_groups'}
def is_param(v, p): return v is sym('P', p) or v.op == 'addr' and v.a[0] == ('P', p) or show(v) in (f'P:{p}', f'init(P:{p})')
def check_kept(c):
    F = c.F; seen = 0
    for cls, names in ((N + 'fanuc::AllAttributesParser', ('AllAttributesParser', 'set_ncsettings', 'set_parser_settings')), (N + 'heidenhain::AllAttributesParser', ('AllAttributesParser', 'set_parser_settings')), (N + 'fanuc::AttributesPathCalculator', ('AttributesPathCalculator',))):
        r = F.record(cls); members = {f['n'] for f in r['fields']}
        for fn in F.fn.values():
            if fn.get('cls') != cls or fn['q'].rsplit('::', 1)[-1] not in names or fn.get('copy') or fn.get('move') or not fn.get('params') or not fn.get('body'): continue
            if len(fn['params']) == 1 and cls in fn['params'][0]['t']: continue
            seen += 1; short = '::'.join(fn['q'].rsplit('::', 2)[-2:]); bad = []
            I = Keep(F); L = Loc(('O', 'this'))
            args = [Loc(('P', p['n'])) if is_ref(p['t']) else sym('P', p['n']) for p in fn['params']]
            orig = {p['n']: p for p in fn['params']}
            rs = I.run(fn, args=args, this=L)
            for s, _ in rs:
                if s.ctl and s.ctl[0] == 'throw': continue
                c.count('paths', 1)
                for p in orig:
                    m = p if p in members else ALIAS.get(p)
                    if m not in members: continue
                    v = I.read(s, L + F_(m)); c.count('members', 1)
                    ini = I.initial(State(), ('P', p)) if is_ref(orig[p]['t']) else sym('P', p)
                    if v is ini: continue
                    rr = F.records.get(canon_t(orig[p]['t'].replace('const ', '').replace('&', '').strip()))
                    if rr and rr.get('fields') and all(sub(v, F_(f['n'])) is sub(ini, F_(f['n'])) for f in rr['fields']): continue
                    bad.append(f'{m} is {show(v)[:80]}, not {p}')
                for e in s.ev:
                    if e[0] != 'built': continue
                    for pn, pt, v in e[2]:
                        if pn in orig and pn in ('machine_tool', 'machine_tool_type', 'kinematics', 'cnc_default_values'):
                            ini = I.initial(State(), ('P', pn)) if is_ref(orig[pn]['t']) else sym('P', pn); c.count('members', 1)
                            if v is not ini: bad.append(f'{pn} of {e[1].rsplit("::", 1)[-1]} is {show(v)[:80]}')
                        elif pn == 'language' and not (v.op in ('sub', 's') and show(v).endswith('language')): bad.append(f'language of {e[1].rsplit("::", 1)[-1]} is {show(v)[:80]}')
            for b in dict.fromkeys(bad): c.violation(f'{short}:{b[:50]}', fn['f'], fn['l'], f'{short}: {b}')
            if not bad: c.ok(f'{short}: keeps every setting in the like-named member')
    if seen < 5: raise AnalysisError(f'anchor vanished: {seen} constructors and setters of the parser')
