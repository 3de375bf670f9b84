"""Loop signatures: two loops whose iterations read and write the same things from the same start are interchangeable."""
from absint import *

class SigInterp(Interp):
    """Interp that remembers, for every summarised loop, what one iteration does; canon() makes terms comparable across loops."""
    def __init__(self, F):
        super().__init__(F)
        self.loopinfo = {}
        self.memo = {}
    def loop_hook(self, n, fr, h, go, done):
        if self.quiet: return
        base = set(h.conds.items())
        pre = self.loop_pre
        lv = {}
        for root, v in h.store.items():
            for x in subterms(v):
                if x.op == 'loopv' and x.a[0] == nid(n) and x.a[1] == h.n: lv[x] = Loc(x.a[2], x.a[3])
        it = []
        for k, t in [('go', t) for t in go] + [('out', t) for t in done]:
            new = [(a, b) for a, b in t.conds.items() if (a, b) not in base]
            wr = [(l, self.read(t, l)) for l in lv.values()]
            for root in t.store:
                if root[0] in ('O', 'P', 'G', 'D') and root not in h.store: wr.append((Loc(root), t.store[root]))
            it.append((k, new, wr, t.ctl))
        self.loopinfo[(nid(n), h.n)] = ({l: self.read(pre, l) for l in lv.values()}, it)
    def canon(self, v, cur=()):
        if isinstance(v, V):
            k = (v, cur)
            if k in self.memo: return self.memo[k]
            if v.op == 'loopv':
                key = (v.a[0], v.a[1])
                if key in cur: r = ('loop', cur.index(key), v.a[2], v.a[3])
                elif key in self.loopinfo:
                    pre, it = self.loopinfo[key]; c2 = cur + (key,)
                    P = tuple(sorted((repr((l.root, l.path)), repr(self.canon(x, c2))) for l, x in pre.items()))
                    T = tuple(sorted(repr((k, sorted(repr((self.canon(a, c2), b)) for a, b in new), sorted(repr(((l.root, l.path), self.canon(x, c2))) for l, x in wr), ctl and ctl[0])) for k, new, wr, ctl in it))
                    r = ('LOOP', P, T, v.a[2], v.a[3])
                else: r = ('loop?', v.a)
            elif v.op == 's' and v.a and v.a[0] == 'each':
                key = (v.a[1], v.a[2]) if len(v.a) > 2 else None
                r = ('each', cur.index(key)) if key in cur else ('each',) + tuple(v.a[1:])
            elif v.op in ('found', 'match') and len(v.a) >= 2: r = (v.op, v.a[0]) + tuple(self.canon(x, cur) for x in v.a[2:] if isinstance(x, V))
            else: r = (v.op,) + tuple(self.canon(x, cur) for x in v.a)
            self.memo[k] = r
            return r
        if isinstance(v, tuple): return tuple(self.canon(x, cur) for x in v)
        return v

def subterms(v):
    if isinstance(v, V):
        yield v
        for x in v.a: yield from subterms(x)
    elif isinstance(v, tuple):
        for x in v: yield from subterms(x)
