"""Facts: build the extractor, extract /repo's current sources, merge. Everything here is static: clang parses, nothing runs."""
import hashlib, json, os, subprocess, sys, time, glob, pickle
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
TOOL = os.path.join(BUILD, 'ncfacts')
TOOLSRC = os.path.join(VERIF, 'tool', 'ncfacts.cpp')

class AnalysisError(Exception):
    """The analysis cannot give an answer (anchor vanished, source does not parse)."""

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()

def build_tool():
    os.makedirs(BUILD, exist_ok=True)
    want = sha(open(TOOLSRC, 'rb').read())
    stamp = TOOL + '.sha'
    if os.path.exists(TOOL) and os.path.exists(stamp) and open(stamp).read() == want:
        return
    tmp = f'{TOOL}.{os.getpid()}'
    r = subprocess.run(['clang++', '-std=c++17', '-O1', '-fno-rtti', '-w', '-I/usr/lib/llvm-18/include', TOOLSRC, '-o', tmp,
                        '-L/usr/lib/llvm-18/lib', '-l:libclang-cpp.so.18.1', '-lLLVM-18', '-Wl,-rpath,/usr/lib/llvm-18/lib'],
                       capture_output=True, text=True)
    if r.returncode:
        raise AnalysisError('extractor does not build: ' + r.stderr[-2000:])
    os.replace(tmp, TOOL)
    open(stamp, 'w').write(want)

FLAGS = ['-std=c++20', '-DNDEBUG', '-DBOOST_ALL_DYN_LINK', f'-I{REPO}/parser', f'-I{REPO}/parser/fanuc', '-mavx2', '-w',
         '-ferror-limit=5']

def all_tus():
    out = []
    for d in ('parser', 'parser/fanuc', 'parser/heidenhain', 'nclangsrv'):
        for f in sorted(glob.glob(f'{REPO}/{d}/*.cpp')):
            if os.path.basename(f) not in ('stdafx.cpp', 'dllmain.cpp'):
                out.append(os.path.relpath(f, REPO))
    return out

_tree = None
def tree_sha():
    global _tree
    if _tree is None:
        h = hashlib.sha256()
        for d in ('parser', 'nclangsrv'):
            for root, dirs, files in sorted(os.walk(f'{REPO}/{d}')):
                dirs.sort()
                for f in sorted(files):
                    if f.endswith(('.h', '.hpp', '.inl', '.def', '.ipp')):
                        p = os.path.join(root, f)
                        h.update(os.path.relpath(p, REPO).encode() + b'\0')
                        h.update(open(p, 'rb').read()); h.update(b'\0')
        h.update(open(TOOLSRC, 'rb').read())
        _tree = h.hexdigest()
    return _tree

def extract(tu):
    """Facts of one translation unit (dict); cached by the content of its file and of every header of the tree (no .cpp is included)."""
    key = sha(tu, open(f'{REPO}/{tu}', 'rb').read(), tree_sha(), ' '.join(FLAGS))[:32]
    path = os.path.join(BUILD, 'facts', key + '.pkl')
    if os.path.exists(path):
        try:
            return pickle.load(open(path, 'rb'))
        except Exception:
            pass
    r = subprocess.run([TOOL, REPO + '/', f'{REPO}/{tu}', '--'] + FLAGS, capture_output=True)
    if r.returncode:
        raise AnalysisError(f'{tu} does not parse: ' + r.stderr.decode(errors='replace')[-1500:])
    d = json.loads(r.stdout.decode('utf-8', errors='surrogateescape'))
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = f'{path}.{os.getpid()}'
    pickle.dump(d, open(tmp, 'wb'), protocol=4)
    os.replace(tmp, path)
    return d

class Facts:
    def __init__(self, tus):
        self.tus = tus
        self.fn = {}        # usr -> function
        self.by_q = {}      # qualified name -> [function]
        self.records = {}   # qualified name -> record
        self.enums = {}
        self.vars = {}      # usr -> var

    def funcs(self):
        return self.fn.values()

    def find(self, q, file=None, must=True, pred=None):
        """Functions by qualified-name suffix."""
        r = [f for f in self.fn.values() if (f['q'] == q or f['q'].endswith('::' + q)) and (file is None or f['f'].endswith(file))
             and (pred is None or pred(f))]
        if must and not r:
            raise AnalysisError(f'anchor vanished: no function {q}' + (f' in {file}' if file else ''))
        return r

    def record(self, q):
        r = [x for n, x in self.records.items() if n == q or n.endswith('::' + q)]
        if not r:
            raise AnalysisError(f'anchor vanished: no record {q}')
        return r[0]

    def enum(self, q):
        r = [x for n, x in self.enums.items() if n == q or n.endswith('::' + q)]
        if not r:
            raise AnalysisError(f'anchor vanished: no enum {q}')
        return r[0]

def load(tus=None):
    build_tool()
    tus = tus or all_tus()
    for t in tus:
        if not os.path.exists(f'{REPO}/{t}'):
            raise AnalysisError(f'anchor vanished: {t}')
    # big ones first
    with ThreadPoolExecutor(max_workers=8) as ex:
        res = list(ex.map(extract, tus))
    F = Facts(tus)
    for tu, d in zip(tus, res):
        remap = {}
        for f in d['functions']:
            key = f['u'] if not f.get('internal') else f['u'] + '@' + tu
            f['tu'] = tu
            old = F.fn.get(key)
            if old is None or (not old.get('def') and f.get('def')):
                F.fn[key] = f
        for r in d['records']:
            F.records.setdefault(r['q'], r)
        for e in d['enums']:
            F.enums.setdefault(e['q'], e)
        for v in d['vars']:
            k = v['u'] if not v.get('internal') else v['u'] + '@' + tu
            v['tu'] = tu
            if k not in F.vars or (v.get('c') and not F.vars[k].get('c')):
                F.vars[k] = v
    for f in F.fn.values():
        F.by_q.setdefault(f['q'], []).append(f)
    return F

def walk(n, skip_lambda=False):
    """All nodes below (and including) n, pre-order."""
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, list):
            st.extend(reversed(x)); continue
        if not isinstance(x, dict):
            continue
        yield x
        if skip_lambda and x.get('k') == 'Lambda' and x is not n:
            continue
        for key in ('h', 'body', 'caps', 'var', 'cvar', 'c', 'x', 'init'):
            v = x.get(key)
            if isinstance(v, (dict, list)):
                st.append(v)

if __name__ == '__main__':
    if '--build' in sys.argv:
        build_tool()
    else:
        t = time.time(); F = load(); print(len(F.fn), 'functions', len(F.tus), 'TUs', round(time.time() - t, 1), 's')
