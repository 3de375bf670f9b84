"""Which exceptions may leave a function: own throw expressions, library functions known to throw, minus enclosing handlers."""
import core, guards
from core import walk
from absint import canon_t, head

STD = {'std::invalid_argument': ('std::logic_error', 'std::exception'), 'std::out_of_range': ('std::logic_error', 'std::exception'),
       'std::length_error': ('std::logic_error', 'std::exception'), 'std::logic_error': ('std::exception',), 'std::runtime_error': ('std::exception',),
       'boost::bad_lexical_cast': ('std::bad_cast', 'std::exception'), 'boost::bad_get': ('std::exception',), 'std::bad_variant_access': ('std::exception',),
       'std::bad_optional_access': ('std::exception',), 'boost::bad_optional_access': ('std::logic_error', 'std::exception'),
       'std::filesystem::filesystem_error': ('std::system_error', 'std::runtime_error', 'std::exception'), 'std::bad_function_call': ('std::exception',),
       'std::regex_error': ('std::runtime_error', 'std::exception'), 'std::bad_cast': ('std::exception',), 'std::bad_alloc': ('std::exception',), 'std::exception': ()}
NUMCONV = {'stoi', 'stol', 'stoll', 'stoul', 'stoull', 'stof', 'stod', 'stold'}

def lib_throws(n, q):
    """[(type, why)] a call of library function q may throw for some argument"""
    nm = q.rsplit('::', 1)[-1]
    if q.startswith('std::') and nm in NUMCONV: return ['std::invalid_argument', 'std::out_of_range']
    if q.startswith('boost::') and nm == 'lexical_cast': return ['boost::bad_lexical_cast']
    if nm == 'at' and (q.startswith('std::') or q.startswith('boost::')): return ['std::out_of_range']
    return []

def itname(t):
    import re
    t = canon_t(t)
    while True:
        u = re.sub(r'(std::\w+)<[^<>]*>', r'\1', t)
        if u == t: return t
        t = u

class Exc:
    def __init__(self, F, lib=True):
        self.F = F; self.lib = lib; self.memo = {}; self.round = None; self.final = set(); self.known = frozenset(); self.vals = {}
        self.over = {}
        for f in F.fn.values():
            for o in f.get('ov') or []: self.over.setdefault(o, []).append(f)
    def bases(self, t):
        if t in STD: return STD[t]
        r = self.F.records.get(t)
        out = []
        if r:
            for b in r.get('bases', []):
                b = canon_t(b if isinstance(b, str) else b.get('t', '')); out.append(b); out += self.bases(b)
        return tuple(out)
    def callees(self, n, fn):
        u = n.get('u')
        if u is None: return []
        f = self.F.fn.get(u) or self.F.fn.get(u + '@' + (fn.get('tu') or ''))
        out = [f] if f is not None else []
        for o in self.over.get(u, []): out.append(o)
        if n.get('q') in ('boost::apply_visitor', 'std::visit', 'boost::variant::apply_visitor') and n.get('c'):
            v = n['c'][0]
            while v.get('k') in ('Cast', 'Paren') and v.get('c'): v = v['c'][0]
            t = v.get('t') or self.vartypes(fn).get(v.get('d')) or ''
            c = head(canon_t(t))
            if c in self.opcall(): out += self.opcall()[c]
        return out
    def opcall(self):
        if not hasattr(self, '_op'):
            self._op = {}
            for f in self.F.fn.values():
                if f['q'].endswith('::operator()') and f.get('body'): self._op.setdefault(head(canon_t(f.get('cls') or f['q'][:-12])), []).append(f)
        return self._op
    def vartypes(self, fn):
        if not hasattr(self, '_vt'): self._vt = {}
        r = self._vt.get(id(fn))
        if r is None:
            r = {}
            for x in walk(fn.get('body') or {}):
                if x.get('k') == 'Var' and x.get('d'): r[x['d']] = x.get('t')
            for q in fn.get('params') or []:
                if q.get('d'): r[q['d']] = q['t']
            for i in fn.get('inits') or []: pass
            self._vt[id(fn)] = r
        return r
    def esc(self, fn):
        """{type: (file, line, text)} leaving fn"""
        if self.round is not None: return self.one(fn)
        while True:
            self.round = set(); self.grew = False
            self.one(fn)
            self.round = None
            if not self.grew:
                self.final |= set(self.memo)
                return self.memo[id(fn)]
    def one(self, fn):
        """one round of the least fixed point over the call graph"""
        k = id(fn)
        if k in self.round or k in self.final: return self.memo[k]
        self.round.add(k)
        old = self.memo.setdefault(k, {})
        out = {}
        outer = self.known, self.vals
        self.known = frozenset(); self.vals = self.constvals(fn)
        for i in fn.get('inits') or []:
            if i.get('x'): self.node(i['x'], fn, out)
        if fn.get('body'): self.node(fn['body'], fn, out)
        self.known, self.vals = outer
        if set(out) != set(old): self.grew = True
        self.memo[k] = out
        return out
    def constvals(self, fn):
        """variables initialised once and never written again -> initialiser"""
        if not hasattr(self, '_cv'): self._cv = {}
        r = self._cv.get(id(fn))
        if r is None:
            r = {}
            for x in walk(fn.get('body') or {}):
                if x.get('k') == 'Var' and x.get('d') and len([y for y in (x.get('c') or []) if y]) == 1: r[x['d']] = [y for y in x['c'] if y][0]
            w = guards.written(fn.get('body') or {})
            r = {d: v for d, v in r.items() if ('v', d) not in w}; r['*w'] = w
            self._cv[id(fn)] = r
        return r
    def under(self, facts, n, fn, out):
        k = self.known; self.known = frozenset(k | facts)
        self.node(n, fn, out)
        self.known = k
    def node(self, n, fn, out):
        if isinstance(n, list):
            for x in n: self.node(x, fn, out)
            return
        if not isinstance(n, dict): return
        k = n.get('k')
        if k == 'Block':
            saved = self.known
            for x in n.get('c') or []:
                self.node(x, fn, out)
                if isinstance(x, dict):
                    self.known = frozenset(guards.kill(self.known, guards.written(x)))
                    if x.get('k') == 'If' and guards.leaves(x['c'][1]) and not x.get('init') and not x.get('cvar'):
                        w = guards.written(x)
                        self.known = frozenset(self.known | guards.kill(guards.neg(x['c'][0], self.vals), w))
            self.known = frozenset(f for f in saved if f in self.known)
            return
        if k in ('If', 'Cond', 'While', 'For') or k in ('Bin', 'Op') and n.get('op') in ('&&', '||') and len(n.get('c') or []) == 2:
            c = n.get('c') or []
            for key in ('init', 'cvar', 'var'):
                if isinstance(n.get(key), (dict, list)): self.node(n[key], fn, out)
            saved = self.known
            if k in ('While', 'For'): self.known = frozenset(guards.kill(self.known, guards.written({'k': 'Block', 'c': [x for x in c if x]})))
            if k == 'If' or k == 'Cond':
                self.node(c[0], fn, out)
                self.under(guards.pos(c[0], self.vals), c[1], fn, out)
                for x in c[2:]: self.under(guards.neg(c[0], self.vals), x, fn, out)
            elif k == 'While':
                self.node(c[0], fn, out)
                for x in c[1:]: self.under(guards.pos(c[0], self.vals), x, fn, out)
            elif k == 'For':
                tests = [x for x in c[:-1] if isinstance(x, dict) and x.get('k') not in ('Decl',)]
                facts = set()
                if n.get('cond') is not None: facts = guards.pos(n['cond'], self.vals)
                elif len(c) == 4 and c[1]: facts = guards.pos(c[1], self.vals)
                for x in c[:-1]: self.node(x, fn, out)
                if c: self.under(facts, c[-1], fn, out)
                for key in ('cond', 'inc', 'body'):
                    if isinstance(n.get(key), (dict, list)): self.under(facts, n[key], fn, out)
            else:
                self.node(c[0], fn, out)
                self.under((guards.pos if n['op'] == '&&' else guards.neg)(c[0], self.vals), c[1], fn, out)
            self.known = saved
            return
        if k == 'Try':
            inner = {}
            for x in n['c']: self.node(x, fn, inner)
            left = dict(inner)
            for h in n.get('h') or []:
                ht = h.get('t')
                caught = {}
                for t, site in list(left.items()):
                    if ht is None or ht == '...' or itname(ht) == itname(t) or canon_t(ht) in self.bases(t) or (site[3] and canon_t(ht) in [canon_t(b) for b in site[3]]):
                        caught[t] = left.pop(t)
                hb = {}
                for x in h.get('c') or []: self.node(x, fn, hb)
                if '<rethrow>' in hb:
                    del hb['<rethrow>']; hb.update(caught)
                for t, s_ in hb.items(): out.setdefault(t, s_)
            for t, s_ in left.items(): out.setdefault(t, s_)
            return
        if k == 'Throw':
            if n.get('c'):
                for x in n['c']: self.node(x, fn, out)
                t = canon_t(n.get('t') or '?')
                out.setdefault(t, (fn['f'], n.get('l'), f'throw {t} in {fn["q"]}', tuple(n.get('bases') or ())))
            else: out.setdefault('<rethrow>', (fn['f'], n.get('l'), 'rethrow', ()))
            return
        if k in ('Call', 'MCall', 'Op', 'Ctor'):
            for f in self.callees(n, fn):
                if f.get('body') or f.get('inits'):
                    for t, s_ in self.esc(f).items(): out.setdefault(t, s_)
            if self.lib:
                q = n.get('q') or ''
                for t in self.lib_throws(n, q, fn): out.setdefault(t, (fn['f'], n.get('l'), f'{q} in {fn["q"]}', ()))
        if k == 'FnRef':
            for f in self.callees(n, fn):
                if f.get('body'):
                    for t, s_ in self.esc(f).items(): out.setdefault(t, s_)
        for key in ('body', 'caps', 'var', 'cvar', 'c', 'x', 'init', 'obj', 'fn', 'ini'):
            v = n.get(key)
            if isinstance(v, (dict, list)): self.node(v, fn, out)
    def lib_throws(self, n, q, fn):
        out = lib_throws(n, q)
        nm = q.rsplit('::', 1)[-1]
        if nm in ('at', 'value') and n.get('k') == 'MCall' and self.known:
            o = guards.fp(n.get('obj')); a = guards.fp(n['c'][0]) if n.get('c') else None
            if nm == 'at' and o and a and (('in', o, a) in self.known or ('lt', a, o) in self.known): return []
            if nm == 'value' and o and ('has', o) in self.known: return []
        if nm in NUMCONV and self.grammar_action(fn): out = [t for t in out if t != 'std::invalid_argument']
        if nm == 'substr' and q.startswith('std::') and n.get('c'):
            a = n['c'][0]
            while a.get('k') in ('Cast', 'Paren') and a.get('c'): a = a['c'][0]
            if not (a.get('k') == 'Int' and str(a.get('v')) == '0'): out = out + ['std::out_of_range']
        if nm == 'value' and q.startswith(('std::optional', 'boost::optional')):
            out = out + ['std::bad_optional_access' if q.startswith('std') else 'boost::bad_optional_access']
        if nm == 'get' and q in ('boost::get', 'std::get', 'boost::strict_get') and n.get('c'):
            t = n.get('t') or ''
            at = (n['c'][0].get('t') or '') or (self.vartypes(fn).get(n['c'][0].get('d')) or '')
            if not t.rstrip().endswith('*') and 'variant' in at: out = out + ['boost::bad_get' if q.startswith('boost') else 'std::bad_variant_access']
        if q in ('boost::spirit::qi::phrase_parse', 'boost::spirit::qi::parse') and len(n.get('c') or []) > 2:
            out = out + ['boost::spirit::qi::expectation_failure<' + itname(self.argt(n['c'][1], fn) or self.argt(n['c'][0], fn)) + '>']
            g = head(canon_t(self.argt(n['c'][2], fn)))
            if not g: raise core.AnalysisError(f'{fn["q"]}: which grammar the text is parsed with is not visible')
            for f in self.actions(g):
                for t in self.esc(f): out.append(t)
        return out
    def argt(self, n, fn):
        while n.get('k') in ('Cast', 'Paren') and not n.get('t') and n.get('c'): n = n['c'][0]
        return n.get('t') or self.vartypes(fn).get(n.get('d')) or ''
    def actions(self, g):
        """functions a grammar class may call while it parses: everything its namespace's grammar files refer to"""
        ns = g.rsplit('::', 1)[0]
        rec = [r for q, r in self.F.records.items() if head(canon_t(q)) == g]
        files = {r.get('f') for r in rec if r.get('f')}
        return [f for f in self.F.fn.values() if f.get('body') and f['f'] in files and f['q'].startswith(ns + '::') and not f.get('cls')]
    def grammar_action(self, fn):
        """semantic actions get texts their own rule matched as digits"""
        if not hasattr(self, '_ga'):
            heads = set()
            for f in list(self.F.fn.values()):
                for x in walk(f.get('body') or {}):
                    if x.get('q') in ('boost::spirit::qi::phrase_parse', 'boost::spirit::qi::parse') and len(x.get('c') or []) > 2: heads.add(head(canon_t(self.argt(x['c'][2], f))))
            self._ga = {r['f'] for q, r in self.F.records.items() if r.get('f') and head(canon_t(q)) in heads}
        return fn['f'] in self._ga and not fn.get('cls')
