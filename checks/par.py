"""Independent explorations run in forked processes; terms, states and node references come back into this process."""
import gc, io, os, pickle, sys, traceback
import absint
from absint import V, Loc, mk
from core import AnalysisError, walk

def _below(x, out):
    if isinstance(x, V): out.append(x)
    elif isinstance(x, tuple):
        for y in x: _below(y, out)
    elif isinstance(x, Loc): _below(x.root, out); _below(x.path, out)

class _P(pickle.Pickler):
    def __init__(self, f, tab): super().__init__(f, 4); self.tab = tab
    def persistent_id(self, o):
        if isinstance(o, V): return ('V', self.tab.add(o))
        if isinstance(o, dict) and '_i' in o: return ('N', o['_i'])
        return None
class _Tab:
    def __init__(self): self.ix = {}; self.order = []
    def add(self, v):
        i = self.ix.get(v)
        if i is not None: return i
        st = [(v, False)]
        while st:
            x, done = st.pop()
            if x in self.ix: continue
            if done:
                self.ix[x] = len(self.order); self.order.append(x); continue
            st.append((x, True)); b = []
            _below(x.a, b)
            st.extend((y, False) for y in b if y not in self.ix)
        return self.ix[v]
class _U(pickle.Unpickler):
    def __init__(self, f, tab): super().__init__(f); self.tab = tab
    def persistent_load(self, p): return self.tab[p[1]] if p[0] == 'V' else absint._keep[p[1]]

def dumps(o):
    tab = _Tab(); b = io.BytesIO(); _P(b, tab).dump(o)
    parts = []; i = 0
    while i < len(tab.order):
        x = tab.order[i]; f = io.BytesIO(); _P(f, tab).dump((x.op, x.a)); parts.append(f.getvalue()); i += 1
    return pickle.dumps((parts, b.getvalue()), 4)
def loads(data):
    parts, b = pickle.loads(data); tab = []
    for p in parts:
        op, a = _U(io.BytesIO(p), tab).load(); tab.append(mk(op, *a))
    return _U(io.BytesIO(b), tab).load()

def number_nodes(F):
    """every node gets its number before the fork, so that numbers mean the same everywhere"""
    if getattr(F, 'numbered', False): return
    F.numbered = True
    for f in F.fn.values():
        for n in walk([f.get('body'), f.get('inits') or [], f.get('params') or []]):
            if 'k' in n: absint.nid(n)
    for v in F.vars.values():
        for n in walk([v.get('x')]):
            if 'k' in n: absint.nid(n)

def run(F, jobs, workers=None):
    """jobs: list of functions without arguments; results in order"""
    workers = workers or min(8, os.cpu_count() or 1)
    if len(jobs) < 2 or workers < 2: return [j() for j in jobs]
    number_nodes(F)
    out = [None] * len(jobs); live = {}; todo = list(enumerate(jobs)); bufs = {}
    gc.collect(); gc.freeze()
    import selectors
    sel = selectors.DefaultSelector()
    sys.stdout.flush(); sys.stderr.flush()
    while todo or live:
        while todo and len(live) < workers:
            i, j = todo.pop(0)
            r, w = os.pipe(); pid = os.fork()
            if pid == 0:
                os.close(r)
                absint._nid[0] = (i + 1) * 100_000_000; absint._big[0] = (i + 1) * 1_000_000
                try: data = b'+' + dumps(j())
                except AnalysisError as e: data = b'A' + str(e).encode()
                except BaseException: data = b'E' + traceback.format_exc().encode()
                try:
                    with os.fdopen(w, 'wb') as f: f.write(data)
                finally: os._exit(0)
            os.close(w); live[r] = (i, pid); bufs[r] = []; sel.register(r, selectors.EVENT_READ)
        for k, _ in sel.select():
            d = os.read(k.fd, 1 << 20)
            if d: bufs[k.fd].append(d); continue
            sel.unregister(k.fd); os.close(k.fd); i, pid = live.pop(k.fd); os.waitpid(pid, 0)
            data = b''.join(bufs.pop(k.fd))
            if data[:1] == b'+': out[i] = loads(data[1:])
            elif data[:1] == b'A': raise AnalysisError(data[1:].decode())
            else: raise RuntimeError(data[1:].decode() or 'an analysis process ended early')
    return out
