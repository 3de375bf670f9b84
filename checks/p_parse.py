"""P01, P02, P04: the stages of one line check. The line check is interpreted with every stage (syntax check, unique words,
macro evaluation, ...) as a black box that may succeed or fail in each way it can; the path through the stages, what they
are applied to and what becomes of their verdict is then compared with the stated behaviour."""
import itertools
from absint import *
from words import *
from loops import subterms
from core import AnalysisError
import exc

NS = 'parser::fanuc::'
STAGES = {'UniqueCode': 'unique words', 'MacroEvaluator': 'macro evaluation', 'MacroEvaluatedCodeVerifier': 'macro substitution', 'GrammarSelector': 'unit selection',
          'SystemMacroAssigner': 'system macros', 'RangeVerifier': 'value ranges', 'RotationVerifier': 'rotation', 'CodeGroupsVerifier': 'code groups',
          'SameWordInBlockVerifier': 'repeated codes', 'AttributesPathCalculator': 'path calculation'}
BLACK = {NS + 'UnitConverter', NS + 'Renumberer', NS + 'AxesRotator'}
FLAGS = ('zero_point_analysis', 'ncsettings_code_analysis', 'evaluate_macro', 'verify_code_groups', 'calculate_path')
GR = Loc(('O', 'grammar')); CALC = Loc(('O', 'calculator')); THIS = Loc(('O', 'this'))
DATA, MSG, WORDS, LINE = Loc(('P', 'data')), Loc(('P', 'message')), Loc(('P', 'words')), sym('LINE')

class PI(Interp):
    max_states = 20000; max_steps = 40_000_000
    def __init__(self, F, E, gfields):
        super().__init__(F); self.E = E; self.gf = gfields
    def k(self, s): return sum(1 for e in s.ev if e[0] in ('parse', 'stage'))
    def fresh_grammar(self, s, l, wm):
        self.write(s, l, st(None, {F_('<limits>'): wm, **{F_(f): self.zero(t) for f, t in self.gf}}))
    def is_grammar(self, t): return head(canon_t(t)) == NS + 'all_attributes_grammar'
    def run_ctor(self, n, fn, l, ct, s, fr):
        if not self.is_grammar(ct): return super().run_ctor(n, fn, l, ct, s, fr)
        out = []
        for t, vs in self.args(n.get('c') or [], n.get('pm') or '', s, fr):
            if not t.ctl: self.new_grammar(t, fr, n, l, vs)
            out.append(t)
        return out
    def ctor_body(self, fn, l, ct, vs, s, fr, n):
        if not self.is_grammar(ct or ''): return super().ctor_body(fn, l, ct, vs, s, fr, n)
        s = s.copy(); self.new_grammar(s, fr, n, l, vs); return [s]
    def new_grammar(self, s, fr, n, l, vs):
        if not vs or not isinstance(vs[0], Loc): raise AnalysisError('which word limits the grammar is built for is not visible')
        self.fresh_grammar(s, l, addr(vs[0]))
    def throw(self, s, n, t, bases, tag):
        x = s.copy(); x.ctl = ('throw', t, tuple(bases), tag, n.get('l')); return x
    def on_libcall(self, s, fr, n, q, obj, vs):
        if q in ('std::make_unique', 'std::make_shared') and self.is_grammar((split_targs(n.get('t') or '') or [''])[0]):
            s = s.copy(); s.n += 1; l = Loc(('H', nid(n), s.n)); self.new_grammar(s, fr, n, l, vs); return [(s, addr(l))]
        if q in ('boost::spirit::qi::phrase_parse', 'boost::spirit::qi::parse'):
            g = next((v for v in vs if isinstance(v, Loc) and self.read(s, v + F_('<limits>')).op in ('addr', 's')and F_('<limits>') in dict(self.items(s, v))), None)
            if g is None: raise AnalysisError(f'{(fr.fn or {}).get("q")}: the grammar a text is parsed with is not followed')
            k = self.k(s); src = self.val(s, vs[0])
            left = tuple(f for f, t in self.gf if not same(self.read(s, g + F_(f)), self.zero(t)))
            limits = self.read(s, g + F_('<limits>'))
            its = [x for x in parts(src) if isinstance(x, V) and x.op == 'it']
            if its: src = self.read(s, Loc(its[0].a[0], its[0].a[1]))
            text_ = 'line' if any(x == ('P', 'data') or (isinstance(x, V) and x.op == 's' and x.a[:2] == ('P', 'data')) for x in parts(src)) else None
            ev = next((x for x in subterms(src) if x.op == 's' and x.a[0] == 'EV'), None)
            if ev is not None: text_ = 'substituted'
            if text_ is None: raise AnalysisError(f'{(fr.fn or {}).get("q")}: which text is parsed ({show(src)[:80]}) is not followed')
            cur = s.copy()
            attr = vs[-1] if isinstance(vs[-1], Loc) else None
            before = self.read(s, attr) if attr is not None else None
            if attr is not None: self.assign(cur, fr, attr, sym('words', k))
            for f, t in self.gf: self.write(cur, g + F_(f), sym('said', k) if 'string' in t else sym('left', f, k))
            out = []
            act = self.active(s)
            for o in ('ok', 'no match'):
                x = cur.copy(); x.event('parse', text_, o, k, left, limits is act, before, n.get('l')); out.append((x, ci(int(o == 'ok'))))
            for t, bases, tag in [('boost::spirit::qi::expectation_failure<' + exc.itname(self.E.argt(n['c'][1], fr.fn or {})) + '>', ('std::runtime_error', 'std::exception'), 'expectation')] + \
                    [(t, self.E.bases(t), t) for f in self.E.actions(NS + 'all_attributes_grammar') for t in self.E.esc(f)]:
                if any(x.ctl and x.ctl[1] == t for x, _ in out): continue
                x = cur.copy(); x.event('parse', text_, tag, k, left, limits is act, before, n.get('l'))
                out.append((self.throw(x, n, t, bases, sym('exc', k)), None))
            return out
        if q == 'parser::get_line' or q == 'parser::get_column': return None
        return None
    def items(self, s, l):
        v = self.read(s, l)
        return [(p, None) for p in (dict(v.a[1]) if v.op == 'st' else {})]
    def active(self, s): return self.read(s, THIS + F_('active_word_grammar'))
    def catches(self, h, ctl):
        ct = h.get('t')
        if ct and 'expectation_failure' in ct and 'expectation_failure' in (ctl[1] or ''): return exc.itname(ct) == exc.itname(ctl[1])
        return super().catches(h, ctl)
    def stage_of(self, fn):
        c = fn.get('cls') or ''
        if not c.startswith(NS): return None
        c = c[len(NS):]
        if c not in STAGES: return None
        nm = fn['q'].rsplit('::', 1)[-1]
        return c if nm in ('operator()', 'evaluate') and fn['q'] == NS + c + '::' + nm else None
    def on_call(self, s, fr, n, fn, obj, vs):
        if fn.get('cls') == NS + 'all_attributes_grammar' or head(canon_t(fn.get('cls') or '')) == NS + 'all_attributes_grammar': return None
        if fn['q'] in ('parser::get_line', 'parser::get_column'): return [(s, sym(fn['q']))]
        if fn['q'].endswith('AllAttributesParser::build_symbols'): return [(s, sym('void'))]
        c = self.stage_of(fn)
        if c is None:
            if fn.get('cls') in BLACK and fn.get('kind') != 'ctor' and fn['q'].rsplit('::', 1)[-1] not in ('get_kinematics', 'get_cnc_default_values', 'get_word_range'): return self.opaque_call(n, fn['q'], obj, vs, s, fr, fn)
            return None
        k = self.k(s)
        ar = {}
        for p, v in zip(fn['params'], vs): ar[p['n']] = (canon_t(p['t']), v if isinstance(v, Loc) else None, self.val(s, v))
        name = c
        if c == 'RangeVerifier' and not any('variant' in t or 'AttributeVariant' in t for t, _, _ in ar.values()): name = 'ZeroPoint'
        out = []
        def fork(outcome, ret=None, eff=None):
            x = s.copy(); x.event('stage', name, outcome, k, tuple((a,) + v for a, v in sorted(ar.items())), self.active(s), n.get('l'), obj)
            r = eff(x) if eff else None
            out.append((x, ret if ret is not None else sym('void')))
        if c == 'MacroEvaluator':
            msg = [l for t, l, v in ar.values() if l is not None and t in ('std::basic_string', 'string', 'std::string') or (l is not None and 'basic_string' in t and 'vector' not in t)]
            for ok in (1, 0):
                def eff(x):
                    if not ok:
                        for l in msg: self.assign(x, fr, l, sym('exc', k))
                fork('ok' if ok else 'fails', ci(ok), eff)
        elif c == 'MacroEvaluatedCodeVerifier':
            fork('nothing', cs('')); 
            x = s.copy(); ev = sym('EV', k)
            x.event('stage', name, 'text', k, tuple((a,) + v for a, v in sorted(ar.items())), self.active(s), n.get('l'), obj)
            out.append((self.assume(x, EMPTY(ev), False), ev))
        elif c == 'GrammarSelector':
            sel = [l for p, v in zip(fn['params'], vs) for l in [v] if isinstance(v, Loc) and self.val(s, v).op == 'addr']
            if len(sel) != 1: raise AnalysisError('unit selection: the selected word limits are not recognised')
            for u in ('metric', 'imperial'):
                def eff(x): self.assign(x, fr, sel[0], addr(THIS + F_('word_grammar') + F_(u)))
                fork(u, None, eff)
        else: fork('ok')
        for t, site in self.E.esc(fn).items():
            x = s.copy(); x.event('stage', name, 'throws', k, tuple((a,) + v for a, v in sorted(ar.items())), self.active(s), n.get('l'), obj)
            out.append((self.throw(x, n, t, site[3] or self.E.bases(t), sym('exc', k)), None))
        return out
    def join_key(self, s): return (s.ev,)

def parts(v):
    """everything inside a term, locations included"""
    if isinstance(v, V):
        yield v
        for x in v.a: yield from parts(x)
    elif isinstance(v, tuple):
        yield v
        for x in v: yield from parts(x)
def same(a, b):
    if a is b: return True
    if a.op == 'st' and b.op == 'st': return a.a == b.a
    return False

class Lines:
    """runs the line operations of the Fanuc parser"""
    def __init__(self, F):
        self.F = F; self.E = exc.Exc(F)
        r = F.record(NS + 'all_attributes_grammar')
        self.gf = [(f['n'], f['t']) for f in r['fields'] if '<dep>' not in f['t'] and not is_ref(f['t'])]
        if not self.gf: raise AnalysisError('the line grammar keeps no message')
        self.settings = [f['n'] for f in F.record('parser::ParserSettings')['fields']]
        miss = set(FLAGS) - set(self.settings)
        if miss: raise AnalysisError(f'parser settings without {sorted(miss)}')
    def op(self, name, n, has=None):
        r = [f for f in self.F.fn.values() if f['q'] == NS + 'AllAttributesParser::' + name and f.get('body') and len(f['params']) == n and (has is None or any(has in p['t'] for p in f['params']))]
        if len(r) != 1: raise AnalysisError(f'AllAttributesParser::{name} with {n} parameters: {len(r)} found')
        return r[0]
    def start(self, flags, typ, unit):
        I = PI(self.F, self.E, self.gf); s = State()
        I.write(s, THIS, st(sym('THIS'), {F_('all_attr_grammar'): addr(GR), F_('attr_path_calc'): addr(CALC), F_('active_word_grammar'): addr(THIS + F_('word_grammar') + F_(unit)),
                                          F_('parser_settings'): self.flagst(flags), F_('fanuc_parser_type'): ci(typ) if typ is not None else sym('TYPE')}))
        I.write(s, GR, st(sym('GRAMMAR'), {F_('<limits>'): addr(THIS + F_('word_grammar') + F_(unit))}))
        I.write(s, CALC, sym('CALC')); I.write(s, MSG, sym('MSG0'))
        return I, s
    def flagst(self, flags): return st(None, {F_(f): ci(int(f in flags)) for f in self.settings})
    def run(self, f, flags, typ=None, unit='metric', settings=None):
        I, s = self.start(flags if settings is None else settings, typ, unit)
        args = {}
        for p in f['params']:
            t = p['t']
            if 'ParserSettings' in t: l = Loc(('P', 'settings')); I.write(s, l, self.flagst(flags)); args[p['n']] = l
            elif canon_t(t) == 'int': args[p['n']] = LINE
            elif 'string_view' in t: args[p['n']] = sym('P', 'data')
            elif 'basic_string' in t and 'vector' not in t and 'variant' not in t: args[p['n']] = MSG if not t.startswith('const') else Loc(('P', 'data'))
            elif 'AttributeVariantData' in t or 'variant' in t: args[p['n']] = WORDS
        self.I = I
        return I.run(f, args=args, this=THIS, s=s)
    def getter(self, I, s, cls, name):
        f = one(self.F, NS + cls + '::' + name)
        r = [(v if isinstance(v, Loc) else None, I.val(t, v)) for t, v in I.run(f, this=CALC if cls == 'AttributesPathCalculator' else THIS, s=s.copy()) if not t.ctl]
        if len(r) != 1: raise AnalysisError(f'{cls}::{name} is not a plain reader')
        return r[0][1]

def enabled(flags, haas):
    """check stages that apply, in terms of the stage names"""
    on = ['UniqueCode']
    if 'evaluate_macro' not in flags: return on
    on += ['MacroEvaluator', 'MacroEvaluatedCodeVerifier', 'SystemMacroAssigner', 'GrammarSelector']
    if 'ncsettings_code_analysis' in flags: on += ['RangeVerifier', 'RotationVerifier']
    if 'verify_code_groups' in flags: on.append('CodeGroupsVerifier')
    if haas: on.append('SameWordInBlockVerifier')
    if 'calculate_path' in flags:
        on.append('AttributesPathCalculator')
        if 'zero_point_analysis' in flags: on.append('ZeroPoint')
    return on
NAMES = {**STAGES, 'ZeroPoint': 'zero-point limits'}

def wrong_args(L, I, s0, e, words):
    """what a stage is applied to, argument by argument"""
    _, name, _, k, ar, act, line, obj = e
    T = lambda f: I.read(s0, THIS + F_(f))
    for p, t, l, v in ar:
        want = None
        if 'variant' in t and 'vector' in t:
            if v is not words: return p, v, words
            continue
        if t == 'int': want = LINE
        elif t.endswith('ELanguage'): want = sub(T('other_settings'), F_('language'))
        elif t.endswith('EMachineToolType'): want = T('machine_tool_type')
        elif 'macro_map_key' in t: want = addr(THIS + F_('macro_values')); v = addr(l) if l is not None else v
        elif name == 'CodeGroupsVerifier' and 'map' in t: want = T('gcode_groups' if p.lower().startswith('g') else 'mcode_groups' if p.lower().startswith('m') else None)
        elif name == 'UniqueCode' and 'map' in t: want = act; v = addr(l) if l is not None else v
        elif t.endswith('FanucWordGrammar'): want = addr(THIS + F_('word_grammar')); v = addr(l) if l is not None else v
        elif t.endswith('Kinematics'): want = L.getter(I, s0, 'AttributesPathCalculator', 'get_kinematics')
        elif t.endswith('CncDefaultValues'): want = L.getter(I, s0, 'AttributesPathCalculator', 'get_cnc_default_values')
        elif t.endswith('ZeroPoint'): want = T('zero_point')
        elif name == 'ZeroPoint' and 'map' in t: want = L.getter(I, s0, 'AttributesPathCalculator', 'get_word_range')
        elif name == 'MacroEvaluatedCodeVerifier' and 'vector' in t: want = T('allowed_operations')
        elif name == 'SameWordInBlockVerifier' and 'string' in t: want = cs('M')
        if want is not None and v is not want and not same_const_or(v, want): return p, v, want
    return None
def same_const_or(a, b): return is_c(a) and is_c(b) and cval(a) == cval(b)

def judge(L, I, s0, s, ret, flags, haas):
    """None or (key, text): what is wrong with one path through the line check"""
    evs = [e for e in s.ev if e[0] in ('parse', 'stage')]
    on = enabled(flags, haas)
    bad = [e for e in evs if e[2] in ('no match', 'fails', 'throws') or (e[0] == 'parse' and e[2] != 'ok')]
    when = f' [{", ".join(sorted(flags)) or "no optional check"}]'
    msg = I.read(s, MSG); sub_ = set(subterms(msg))
    if ret.op != 'c': raise AnalysisError(f'the verdict {show(ret)[:80]} is not decided')
    first = evs[0] if evs else None
    if first is None or first[0] != 'parse' or first[1] != 'line':
        if cval(ret) or not bad: return 'syntax', 'a line is judged without its text being parsed first' + when
    if cval(ret):
        if bad: 
            n = 'the syntax check' if bad[0][0] == 'parse' else f'the check of {NAMES[bad[0][1]]}'
            return f'accepted:{bad[0][1]}:{bad[0][2]}', f'a line is accepted although {n} failed ({bad[0][2]})' + when
        words = sym('words', evs[0][3]); eff = words
        subst = [e for e in evs if e[0] == 'stage' and e[1] == 'MacroEvaluatedCodeVerifier' and e[2] == 'text']
        second = [e for e in evs if e[0] == 'parse' and e[1] == 'substituted']
        if subst and not second: return 'substituted', 'the text with the macros substituted is not parsed' + when
        if second: eff = sym('words', second[-1][3])
        for n in on:
            es = [e for e in evs if e[0] == 'stage' and e[1] == n and e[2] not in ('throws', 'fails')]
            if not es: return f'missing:{n}', f'{NAMES[n]}: not applied to a line that is accepted' + (' after macro substitution' if second else '') + when
            w = words if n in ('UniqueCode', 'MacroEvaluator', 'MacroEvaluatedCodeVerifier') else eff
            if n == 'GrammarSelector': es = es[-1:]
            wa = [wrong_args(L, I, s0, e, w) for e in es]
            if all(wa):
                p, v, want = wa[0]
                return f'args:{n}:{p}', f'{NAMES[n]}: applied with {p} = {show(v)[:80]} instead of {show(want)[:80]}' + (' on a line with substituted macros' if second else '') + when
            if n == 'ZeroPoint':
                i = max(i for i, e in enumerate(evs) if e[0] == 'stage' and e[1] == n); j = [i for i, e in enumerate(evs) if e[0] == 'stage' and e[1] == 'AttributesPathCalculator']
                if not j or j[0] > i: return 'order', 'the zero-point limits are checked before the path of the line is calculated' + when
        return None
    if not bad: return 'rejected', f'a line is rejected although every check passed' + when
    e = bad[-1]; k = e[3]
    if e[0] == 'stage' and e[1] not in on: return f'disabled:{e[1]}', f'{NAMES[e[1]]}: makes a line fail although it is disabled' + when
    want = sym('exc', k) if e[0] == 'stage' or e[2] not in ('no match', 'expectation') else sym('said', k)
    if want not in sub_ and s.conds.get(EMPTY(want)) is not True:
        n = 'syntax check' if e[0] == 'parse' else NAMES[e[1]]
        return f'message:{e[1]}:{e[2]}', f'{n}: the line is rejected with the message {show(msg)[:80]} instead of the message of that check' + when
    return None

def haas_of(F, v): return v is not None and {int(b): a for a, b in F.enum('parser::EFanucParserType')['e']}[v].startswith('Haas')
def each_flags():
    for n in range(len(FLAGS) + 1):
        for c in itertools.combinations(FLAGS, n): yield frozenset(c)

def check_P01(c):
    F = c.F; L = Lines(F)
    f = L.op('parse', 6, 'AttributeVariantData')
    types = sorted(int(b) for a, b in F.enum('parser::EFanucParserType')['e'])
    full = frozenset(FLAGS)
    jobs = [(f, fl, t, None) for t in types for fl in each_flags()]
    def bad(key, text): c.violation(key, f['f'], f['l'], text)
    for g, fl, t, st_ in jobs:
        go(c, L, g, fl, t, bad)
    # the other entry points use the parser's own settings
    for g in [x for x in F.find(NS + 'AllAttributesParser::parse') if not any('ParserSettings' in p['t'] for p in x['params']) and x.get('ov')]:
        for fl in (full, frozenset(), full - {'verify_code_groups'}, full - {'calculate_path'}, full - {'ncsettings_code_analysis'}, full - {'zero_point_analysis'}, full - {'evaluate_macro'}):
            go(c, L, g, fl, types[0], bad)
def go(c, L, f, fl, t, bad):
    I, s0 = L.start(fl, t, 'metric')
    hs = haas_of(L.F, t); n = 0
    for s, ret in L.run(f, fl, t):
        if s.ctl: c.count('paths left to P03'); continue
        n += 1; c.count('paths')
        r = judge(L, I, s0, s, I.val(s, ret), fl, hs)
        if r: bad(r[0], r[1] + f' ({f["q"].rsplit("::", 1)[-1]} with {len(f["params"])} arguments, control {t})')
    if not n: raise AnalysisError(f'{f["q"]}: no path found')
    c.ok(f'{len(f["params"])} arguments, control {t}, {len(fl)} checks on: {n} paths')

def check_P02(c):
    """the line grammar holds nothing from an earlier line when it is given a text"""
    F = c.F; L = Lines(F); full = frozenset(FLAGS)
    seen = set()
    ops = [x for x in F.fn.values() if x['q'].startswith(NS + 'AllAttributesParser::') and x.get('ov') and x.get('body') and x['q'].rsplit('::', 1)[-1] in
           ('parse', 'convert_length', 'remove_numbering', 'renumber', 'rotate_axes', 'remove_comment', 'remove_optional_block')]
    sites = {}
    for x in F.fn.values():
        if (x.get('cls') or '').startswith(NS) and x.get('body'):
            for n in walk_(x['body']):
                if n.get('q') in ('boost::spirit::qi::phrase_parse', 'boost::spirit::qi::parse') and head(canon_t(L.E.argt(n['c'][2], x))) == NS + 'all_attributes_grammar': sites[(n.get('l'))] = x
    if not sites: raise AnalysisError('no call of the line grammar found')
    for f in sorted(ops, key=lambda f: (f['q'], len(f['params']))):
        k = 0
        for fl in (full, frozenset()):
            for s, ret in L.run(f, fl, None):
                for e in s.ev:
                    if e[0] != 'parse': continue
                    _, txt, o, n, left, lim, before, line = e
                    k += 1; seen.add(line)
                    if left:
                        c.violation(f'left:{line}:{",".join(left)}', f['f'], line, f'{f["q"]}: the {txt} is parsed while the line grammar still holds {", ".join(left)} of an earlier text')
                c.count('paths')
        if not k: raise AnalysisError(f'{f["q"]}: parses nothing')
        c.count('texts parsed', k); c.ok(f'{f["q"].rsplit("::", 1)[-1]}/{len(f["params"])}: every text is parsed from the start state')
    for line, x in sites.items():
        if line not in seen: raise AnalysisError(f'{x["q"]}:{line}: a use of the line grammar is not reached from any line operation')
    I = Interp(F)
    for f in L.E.actions(NS + 'all_attributes_grammar'):
        for n in walk_(f['body']):
            if n.get('k') != 'Ref' or not n.get('glob'): continue
            v = F.vars.get(n.get('d')) or {}
            if v.get('const') or v.get('constexpr'): continue
            if not I.only_read(n.get('d')): c.violation(f'static:{n.get("n") or n.get("d")}', f['f'], n.get('l'), f'{f["q"]} changes {n.get("n") or n.get("d")}, which outlives the line')
        c.count('grammar functions'); c.ok(f'{f["q"]}: keeps no state of its own')

def walk_(x):
    from core import walk
    return walk(x)

def check_P04(c):
    F = c.F; L = Lines(F); full = frozenset(FLAGS)
    f = one(F, NS + 'GrammarSelector::operator()')
    fg = [p['n'] for p in f['params'] if p['t'].replace('const ', '').rstrip(' &').endswith('FanucWordGrammar')]; ap = [p['n'] for p in f['params'] if '*' in p['t']]; wp = [p['n'] for p in f['params'] if 'boost::variant' in p['t']]
    if len(fg) != 1 or len(ap) != 1 or len(wp) != 1: raise AnalysisError('parameters of GrammarSelector not recognised')
    W, A, G = Loc(('P', wp[0])), Loc(('P', ap[0])), Loc(('O', 'limits'))
    before = sym('BEFORE'); name = {addr(G + F_('metric')): 'millimetres', addr(G + F_('imperial')): 'inches', before: 'unchanged'}
    def bad(key, text, g=f): c.violation(key, g['f'], g['l'], text)
    def sel(ws):
        I = Interp(F); I.unroll = 100; s = State(); I.write(s, A, before); I.write(s, W, mk('list', tuple(ws)))
        return [(s1, I.read(s1, A)) for s1, _ in I.run(f, args={fg[0]: G, ap[0]: A, wp[0]: W}, this=Loc(('O', 'selector')), s=s)]
    n, fr = sym('number'), sym('fraction')
    cases = {'G20': ([dec('G', value='20')], 'inches'), 'G21': ([dec('G', value='21')], 'millimetres'), 'G1': ([dec('G', value='1'), dec('X', value=n)], 'unchanged'), 'no words': ([], 'unchanged'),
             'G20 among words': ([dec('N', value=n), dec('G', value='90'), dec('G', value='20'), dec('X', value=n, dot='.', value2=fr)], 'inches'),
             'G21 among words': ([text('(', sym('note')), dec('G', value='17'), dec('G', value='21'), dec('M', value=n)], 'millimetres'),
             'G20 G21': ([dec('G', value='20'), dec('G', value='21')], 'millimetres'), 'G21 G20': ([dec('G', value='21'), dec('G', value='20')], 'inches'),
             'comment': ([text('(', cs('G20'))], 'unchanged'), 'percent': ([char('%', sym('ch'))], 'unchanged')}
    for w in 'ABCDEFHIJKLMNOPQRSTUVWXYZ#':
        for v in ('20', '21'): cases[f'{w}{v}'] = ([dec(w, value=v)], 'unchanged')
    for v in range(0, 200):
        if v not in (20, 21): cases[f'G{v} '] = ([dec('G', value=str(v))], 'unchanged')
    for key, (ws, want) in cases.items():
        for s, v in sel(ws):
            c.count('paths')
            if s.ctl: bad(f'selector:{key}', f'{key}: an exception leaves the unit selection'); continue
            if v not in name: raise AnalysisError(f'the unit selected, {show(v)[:80]}, is not followed')
            if name[v] != want: bad(f'selector:{key}', f'{key.strip()}: the active unit is {name[v]} instead of {want}')
            else: c.ok(f'{key.strip()}: {want}')
    for s, v in sel([dec('G', value=n)]):
        c.count('paths')
        if s.ctl: continue
        num = [cval(y) for a, b in s.conds.items() if b and a.op == 'eq' for y in a.a if is_num(y)]
        want = 'inches' if num == [20] else 'millimetres' if num == [21] else 'unchanged'
        if name.get(v) != want: bad('selector:any', f'an arbitrary G code: the active unit is {name.get(v)} instead of {want} when {s.pathstr()[:100]}')
        else: c.ok(f'any other G code: {want}')
    # the unit reported and the default
    g = one(F, NS + 'AllAttributesParser::get_unit_system')
    en = {k: int(v) for k, v in F.enum('parser::EDriverUnits')['e']}
    if set(en) != {'Millimeter', 'Inch'}: raise AnalysisError('units other than millimetres and inches')
    for u, e in (('metric', 'Millimeter'), ('imperial', 'Inch')):
        I, s0 = L.start(full, None, u)
        for s, v in I.run(g, this=THIS, s=s0):
            v = I.val(s, v)
            if not is_c(v): raise AnalysisError(f'the unit reported, {show(v)[:60]}, is not decided')
            if cval(v) != en[e]: bad(f'unit:{u}', f'with the {u} word limits active the unit reported is not {e}', g)
            else: c.ok(f'{u} limits reported as {e}')
    h = one(F, NS + 'AllAttributesParser::set_ncsettings')
    dn = [p['n'] for p in h['params'] if 'CncDefaultValues' in p['t']]
    for u, e in (('metric', 'Millimeter'), ('imperial', 'Inch')):
        for u0 in ('metric', 'imperial'):
            I, s0 = L.start(full, None, u0); D = Loc(('P', dn[0])); I.write(s0, D, st(sym('DEFAULTS'), {F_('default_driver_units'): ci(en[e])}))
            I.opaque.add('AttributesPathCalculator::AttributesPathCalculator')
            n_ = 0
            for s, _ in I.run(h, args={dn[0]: D}, this=THIS, s=s0):
                if s.ctl: continue
                n_ += 1; state(c, L, I, s, u, f'after settings with {e} as the default unit', h)
            if not n_: raise AnalysisError('set_ncsettings: no path')
    k = [x for x in F.fn.values() if x['q'] == NS + 'AllAttributesParser::AllAttributesParser' and x.get('inits') and x.get('body') and not x.get('def')]
    for x in k:
        I = PI(F, L.E, L.gf)
        for s, _ in I.run(x, this=THIS):
            if s.ctl: continue
            p = I.read(s, THIS + F_('all_attr_grammar'))
            if p.op == 'addr': state(c, L, I, s, None, 'after construction', x)
    # a line check
    p = L.op('parse', 6, 'AttributeVariantData')
    for u0 in ('metric', 'imperial'):
        for fl in (full, frozenset({'evaluate_macro'}), full - {'calculate_path'}, full - {'verify_code_groups'}, full - {'evaluate_macro'}, frozenset()):
            for s, ret in L.run(p, fl, None, u0):
                c.count('paths')
                I = L.I
                for e in s.ev:
                    if e[0] == 'parse' and not e[5]: bad(f'limits:{e[1]}', f'the {e[1]} is checked against other word limits than those of the active unit', p)
                    if e[0] == 'stage' and e[1] == 'AttributesPathCalculator':
                        v = [x[3] for x in e[4] if x[1].endswith('EDriverUnits')]; want = en['Millimeter' if e[5] is addr(THIS + F_('word_grammar') + F_('metric')) else 'Inch']
                        if v and (not is_c(v[0]) or cval(v[0]) != want): bad('unit passed', 'the path of the line is calculated with another unit than the active one', p)
                if s.ctl: continue
                ok = I.val(s, ret)
                evs = [e for e in s.ev if e[0] == 'stage' and e[1] == 'GrammarSelector']
                if cval(ok) and 'evaluate_macro' in fl:
                    pe = [e for e in s.ev if e[0] == 'parse']; words = sym('words', pe[-1][3])
                    if not evs: bad('not selected', 'a line is accepted without its unit codes being looked at', p); continue
                    if not any(x[3] is words for x in evs[-1][4]): bad('selected from', 'the unit is selected from other words than those that take effect', p); continue
                    if not any(x[2] == THIS + F_('word_grammar') for x in evs[-1][4]): bad('selected limits', 'the unit is selected among other word limits than the configured ones', p); continue
                    state(c, L, I, s, evs[-1][2], f'after a line selecting {evs[-1][2]} (before: {u0})', p)
                elif not evs: state(c, L, I, s, u0, f'after a line without unit selection (before: {u0})', p)
                else: state(c, L, I, s, None, f'after a rejected line (before: {u0})', p)
def state(c, L, I, s, u, what, g):
    act = I.read(s, THIS + F_('active_word_grammar')); gp = I.read(s, THIS + F_('all_attr_grammar'))
    names = {addr(THIS + F_('word_grammar') + F_(x)): x for x in ('metric', 'imperial')}
    if act not in names: raise AnalysisError(f'{what}: the active word limits {show(act)[:80]} are not followed')
    if u is not None and names[act] != u: c.violation(f'active:{g["q"]}:{what}', g['f'], g['l'], f'{what} the {names[act]} word limits are active instead of the {u} ones'); return
    if gp.op != 'addr': raise AnalysisError(f'{what}: the line grammar {show(gp)[:80]} is not followed')
    lim = I.read(s, Loc(gp.a[0], gp.a[1]) + F_('<limits>'))
    if lim is not act: c.violation(f'grammar:{g["q"]}:{what}', g['f'], g['l'], f'{what} lines are checked against the {names.get(lim, show(lim)[:60])} word limits while the {names[act]} ones are active'); return
    c.ok(f'{what}: {names[act]} limits in force')
