"""Conservative call graph: direct and virtual calls, functions whose address is taken, and call operators / conversion members of every class mentioned."""
import re
from core import walk
from absint import canon_t

class Graph:
    def __init__(self, F):
        self.F = F
        self.over = {}; self.byclass = {}; self.byu = {}
        for k, f in F.fn.items():
            for o in f.get('ov') or []: self.over.setdefault(o, []).append(f)
            if f.get('cls'): self.byclass.setdefault(f['cls'], []).append(f)
            self.byu.setdefault(f['u'], []).append(f)
        self.short = {}
        for r in F.records: self.short.setdefault(re.sub(r'<.*', '', r).rsplit('::', 1)[-1], []).append(r)
        self.memo = {}
    def resolve(self, u, fn):
        f = self.F.fn.get(u) or self.F.fn.get(u + '@' + (fn.get('tu') or ''))
        out = [f] if f is not None else list(self.byu.get(u, []))
        return out + self.over.get(u, [])
    def nodes(self, fn):
        for i in fn.get('inits') or []:
            if i.get('x'): yield from walk(i['x'])
        if fn.get('body'): yield from walk(fn['body'])
    def classes_in(self, t):
        for nm in re.findall(r'[A-Za-z_]\w*(?:::[A-Za-z_]\w*)*', t or ''):
            s = nm.rsplit('::', 1)[-1]
            for r in self.short.get(s, []):
                if r == nm or r.endswith('::' + nm): yield r
    def succ(self, fn):
        k = id(fn)
        if k in self.memo: return self.memo[k]
        out = {}
        cls = set()
        for n in self.nodes(fn):
            u = n.get('u')
            if u and n.get('k') in ('Call', 'MCall', 'Op', 'Ctor', 'FnRef', 'Delete', 'Member', 'Ref'):
                for f in self.resolve(u, fn): out[id(f)] = f
            if n.get('k') in ('FnRef', 'Ref') and n.get('d'):
                for f in self.resolve(n['d'], fn): out[id(f)] = f
            if n.get('k') == 'Call' and str(n.get('q')).rsplit('::', 1)[-1] in ('make_unique', 'make_shared', 'emplace_back', 'emplace', 'make_optional'):
                for r in self.classes_in(n.get('t')):
                    for f in self.byclass.get(r, []):
                        if f.get('kind') == 'ctor': out[id(f)] = f
            for key in ('t', 'ot'):
                if isinstance(n.get(key), str): cls.update(self.classes_in(n[key]))
        for p in fn.get('params') or []: cls.update(self.classes_in(p.get('t')))
        for r in cls:
            for f in self.byclass.get(r, []):
                if f.get('kind') == 'dtor' or re.search(r'::operator\(\)', f['q']): out[id(f)] = f
        self.memo[k] = list(out.values())
        return self.memo[k]
    def reach(self, roots, stop=lambda f: False):
        seen = {}
        todo = list(roots)
        parent = {}
        while todo:
            f = todo.pop()
            if id(f) in seen: continue
            seen[id(f)] = f
            if stop(f): continue
            for g in self.succ(f):
                if id(g) not in seen: parent.setdefault(id(g), f); todo.append(g)
        self.parent = parent
        return list(seen.values())
    def chain(self, f):
        out = [f]
        while id(out[-1]) in self.parent and len(out) < 12: out.append(self.parent[id(out[-1])])
        return ' <- '.join(x['q'] for x in out)
