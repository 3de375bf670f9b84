"""Language server: what JsonMessageHandler::parse does for one message, for each method name, by path analysis of the handler code."""
import core, exc, par
from absint import *
from core import AnalysisError, walk

REQ = sym('request')
HANDLER = 'nclangsrv::JsonMessageHandler'
REQUESTS = ('initialize', 'textDocument/completion', 'completionItem/resolve', 'textDocument/hover', 'textDocument/codeLens', 'codeLens/resolve', 'shutdown')
DOCS = ('textDocument/didOpen', 'textDocument/didChange')
ID_INT = mk('in', cs('type:IsInt'), mk('sub', REQ, ('[', cs('id'))))
BLACK = ('NCParser.', 'Reader.', 'Logger.')
CONTENT = 'Content-Length: '

def member(v, *names):
    for x in names: v = sub(v, ('[', cs(x) if isinstance(x, str) else ci(x)))
    return v

class ServerInterp(Interp):
    join_at = 24
    max_states = 6000
    max_steps = 20_000_000
    def __init__(self, F):
        super().__init__(F)
        self.opaque |= {'Logger::operator()', 'Logger::flush', 'Logger::close', 'NCParser::parse'}
        self.exc = exc.Exc(F, lib=False)
        self.derefs = {}; self.loopinfo = {}
    def loop_hook(self, n, fr, h, go, done):
        if not self.quiet: self.loopinfo.setdefault(nid(n), []).append((n, self.loop_pre, h, list(go), list(done)))
    def on_deref(self, s, fr, n, kind, term):
        if kind != 'ptr': return
        d = self.decide(s, EQ(term, NULL)) if not is_c(EQ(term, NULL)) else bool(cval(EQ(term, NULL)))
        k = ((fr.fn or {}).get('q', '?'), term)
        o = self.derefs.get(k)
        if o is None or (o[0] is not True and d is not False): self.derefs[k] = (d, fr.file, n.get('l'), s.pathstr()[-300:] if d is not False else '')
    def throws(self, s, fr, n, q, obj, vs):
        for t in exc.lib_throws(n, q):
            if t == 'std::out_of_range' and q.rsplit('::', 1)[-1] in exc.NUMCONV: yield s.copy(), t, exc.STD[t]
    def inl(self, fn):
        """handler code is followed; readers, settings, parser library are black boxes with a result"""
        f = fn['f']
        if '/nclangsrv/JsonMessageHandler.' in f: return True
        return '/nclangsrv/' in f and not any(x in f for x in BLACK) and bool(fn.get('body'))
    def on_call(self, s, fr, n, fn, obj, args):
        if self.inl(fn): return None
        if not fn.get('body') and not fn.get('inits'): return None
        out = self.opaque_call(n, fn['q'], obj, args, s, fr, fn)
        for t, site in self.exc.esc(fn).items():
            if '/nclangsrv/' in site[0]:
                x = s.copy(); x.ctl = ('throw', t, site[3] or self.exc.bases(t), sym('exc', t), n.get('l')); out.append((x, None))
        return out
    def on_libcall(self, s, fr, n, q, obj, args):
        nm = q.rsplit('::', 1)[-1]
        if q.startswith('rapidjson::GenericDocument::Parse') and obj is not None:
            s = s.copy(); self.assign(s, fr, obj, REQ)
            return [(s, sym('parse_result'))]
        return None
    def join_key(self, s):
        return (s.store.get(('jsonout',)),)

def strings_in(F, file):
    out = set()
    for f in F.fn.values():
        if f['f'].endswith(file) and f.get('body'):
            for x in walk(f['body']):
                if x.get('k') == 'Str': out.add(x['v'])
    for v in F.vars.values():
        if (v.get('f') or '').endswith(file) and v.get('x'):
            for x in walk(v['x']):
                if x.get('k') == 'Str': out.add(x['v'])
    return out

def parse_fn(F):
    return F.find(HANDLER + '::parse', must=True)[0]

def method_state(method, known=()):
    s = State()
    s.conds[IN(cs('method'), REQ)] = True
    if method in REQUESTS: s.conds[IN(cs('id'), REQ)] = True; s.conds[ID_INT] = True
    m = member(REQ, 'method')
    if method is not None: s.eqc[mk('jstr', m)] = cs(method)
    else:
        for k in known: s.conds[EQ(mk('jstr', m), cs(k))] = False
    return s
_cache = {}
SINGLE = ('initialize', 'initialized', 'shutdown', 'exit', '$/cancelRequest')
def candidates(F):
    """method names: every string constant of the handler's code that has the form of one, plus those the protocol property names"""
    import re
    c = {x for x in strings_in(F, '/nclangsrv/JsonMessageHandler.cpp') | strings_in(F, '/nclangsrv/JsonMessageHandler.h') if re.fullmatch(r'[A-Za-z$]+/[A-Za-z]+', x)}
    return sorted(c | set(REQUESTS) | set(DOCS) | set(SINGLE) | {'textDocument/didClose', 'workspace/didChangeConfiguration'})
def run_method(F, method, logger, known=(), cls=ServerInterp, more=None):
    k = (method, logger, cls.__name__)
    if k in _cache: return _cache[k]
    I = cls(F)
    s = method_state(method, known)
    lg = mk('s', 'O', 'this')
    ptr = sub(sym('O', 'this'), F_('mLogger'))
    if logger is False: s.conds[EQ(ptr, NULL)] = True; s.eqc[ptr] = NULL
    elif logger is True: s.conds[EQ(ptr, NULL)] = False
    if more: more(I, s)
    res = I.run(parse_fn(F), s=s)
    _cache[k] = (I, res)
    return _cache[k]

def outs(ev, inloop=False):
    """(event, inside a loop) of what is written to standard output"""
    for e in ev:
        if e[0] in ('out', 'flush') and e[1] not in ('cerr', 'clog', 'wcerr', 'wclog'): yield e, inloop
        elif e[0] == 'loop':
            for suf in e[2]:
                for x in outs(suf, True): yield x
def flat(t): return list(t.a) if t.op == 'cat' else [t]
def frames(ev):
    """split what one path writes into framed messages: (list of bodies, problem | None)"""
    parts = []; flushed = True; where = None
    for e, inloop in outs(ev):
        if e[0] == 'flush':
            flushed = True; continue
        if e[1] != 'cout': return [], f'output through {e[1]}'
        if inloop: return [], 'output written repeatedly, in a loop'
        flushed = False
        parts += flat(e[2])
    if not parts: return [], None
    parts = flat(CAT(*parts))
    bodies = []
    i = 0
    while i < len(parts):
        p = parts[i]
        if not is_str(p): return bodies, f'a message does not start with its header but with {show(p)[:80]}'
        t = cval(p)
        if not t.endswith(CONTENT) or t != CONTENT: return bodies, f'text outside any framed message: {t[:60]!r}'
        if i + 1 >= len(parts) or parts[i + 1].op != 'tostr': return bodies, 'Content-Length is followed by ' + (show(parts[i + 1])[:80] if i + 1 < len(parts) else 'nothing')
        n = parts[i + 1].a[0]
        if n.op != 'size': return bodies, f'the announced length {show(n)[:80]} is not the size of the body'
        if i + 2 >= len(parts) or not is_str(parts[i + 2]): return bodies, 'no blank line between header and body'
        sep = cval(parts[i + 2])
        rest = []
        if sep not in ('\r\n\r\n', '\n\n'): return bodies, f'header is separated from the body by {sep!r}'
        body = n.a[0]; bp = flat(body)
        if parts[i + 3:i + 3 + len(bp)] != bp: return bodies, f'the announced length is that of {show(body)[:60]}, the body written is {show(CAT(*parts[i+3:]))[:60] if parts[i+3:] else "empty"}'
        bodies.append(body)
        i += 3 + len(bp)
    if not flushed: return bodies, 'output is not flushed after the last message'
    return bodies, None
def obj_members(b):
    """members of a serialised object, None if unknown"""
    if b.op != 'ser': return None
    o = b.a[0]; out = []
    while o.op == 'jadd': out.append((o.a[1], o.a[2])); o = o.a[0]
    if o.op != 'jobj': return None
    return [(k, v) for k, v in o.a[0]] + out[::-1]
def get(ms, name): return [v for k, v in ms if is_str(k) and cval(k) == name]
HFILE = 'nclangsrv/JsonMessageHandler.cpp'
HEAVY = ('textDocument/didOpen', 'textDocument/didChange', 'textDocument/hover')
def prefetch(F, cand, methods, cls=None, logs=(False, True)):
    cls = cls or ServerInterp
    jobs = [(m, lg) for m in sorted(methods, key=lambda m: m not in HEAVY) for lg in logs if (m, lg, cls.__name__) not in _cache]
    def job(m, lg):
        def go():
            I, res = run_method(F, m, lg, cand, cls)
            return res, I.derefs, I.loopinfo
        return go
    for (m, lg), (res, d, li) in zip(jobs, par.run(F, [job(*j) for j in jobs])):
        I = cls(F); I.derefs = d; I.loopinfo = li
        _cache[(m, lg, cls.__name__)] = (I, res)
def all_runs(c, methods=None):
    cand = candidates(c.F)
    prefetch(c.F, cand, methods or cand + [None])
    for m in methods or cand + [None]:
        for lg in (False, True):
            I, res = run_method(c.F, m, lg, cand)
            if not res: raise AnalysisError(f'no path through parse for {m}')
            yield m, lg, I, res
def mname(m): return m if m is not None else 'a method the server does not know'
def line_of(F, m=None): return parse_fn(F)['l']
def escaped(t): return t.ctl is not None and t.ctl[0] == 'throw'

def check_N01(c):
    F = c.F; c.count('methods', len(candidates(F)) + 1)
    for m, lg, I, res in all_runs(c):
        want = 1 if m in REQUESTS or m in DOCS else 0
        bad = None
        for s, _ in res:
            c.count('paths')
            if escaped(s):
                bad = (s.ctl[4], f'{m}: {s.ctl[1]} leaves the handler, nothing is written'); continue
            k = sum(1 for e, lp in outs(s.ev) if e[0] == 'out' and is_str(e[2]) and CONTENT in cval(e[2]))
            lp = any(lp for e, lp in outs(s.ev) if e[0] == 'out')
            anyout = any(e[0] == 'out' for e, _ in outs(s.ev))
            if lp: bad = (None, f'{mname(m)}: messages written in a loop')
            elif k != want: bad = (None, f'{mname(m)}: {k} messages written on a path, {want} expected; path: {s.pathstr()[:300]}')
            elif not want and anyout: bad = (None, f'{mname(m)}: writes to standard output')
        if bad: c.violation(f'{m}', HFILE, bad[0] or line_of(F), bad[1])
        else: c.ok(f'{mname(m)} (log {"on" if lg else "off"}): {want} message on each of {len(res)} path classes')

def check_N02(c):
    F = c.F
    for m, lg, I, res in all_runs(c):
        bad = None; n = 0
        for s, _ in res:
            c.count('paths')
            if escaped(s): continue
            bodies, p = frames(s.ev); n += len(bodies)
            if p: bad = p
        if bad: c.violation(f'{m}', HFILE, line_of(F), f'{mname(m)}: {bad}')
        elif n: c.ok(f'{m} (log {"on" if lg else "off"}): every message is Content-Length: size(body), blank line, body; flushed')

def check_N04(c):
    F = c.F
    idv = mk('jint', member(REQ, 'id'))
    for m, lg, I, res in all_runs(c):
        for s, _ in res:
            bodies, p = frames(s.ev)
            for b in bodies:
                ms = obj_members(b)
                if ms is None: c.violation(f'{m}:body', HFILE, line_of(F), f'{m}: the body written is not a complete JSON object ({show(b)[:80]})'); continue
                if get(ms, 'jsonrpc') != [cs('2.0')]: c.violation(f'{m}:jsonrpc', HFILE, line_of(F), f'{m}: jsonrpc member is {get(ms, "jsonrpc")}')
                elif m in DOCS:
                    par = get(ms, 'params')
                    pm = obj_members(mk('ser', par[0])) if len(par) == 1 else None
                    uri = mk('jstr', member(REQ, 'params', 'textDocument', 'uri'))
                    if get(ms, 'method') != [cs('textDocument/publishDiagnostics')]: c.violation(f'{m}:method', HFILE, line_of(F), f'{m}: notification method is {get(ms, "method")}')
                    elif pm is None: c.violation(f'{m}:params', HFILE, line_of(F), f'{m}: params is not one object')
                    elif get(pm, 'uri') != [uri]: c.violation(f'{m}:uri', HFILE, line_of(F), f'{m}: uri sent is {get(pm, "uri")}, not that of the document')
                    elif len(get(pm, 'diagnostics')) != 1 or get(pm, 'diagnostics')[0].op in ('jobj', 'jnull', 'c'): c.violation(f'{m}:diagnostics', HFILE, line_of(F), f'{m}: no single list of diagnostics: {show(V_list(get(pm, "diagnostics")))[:80]}')
                    elif get(ms, 'id'): c.violation(f'{m}:id', HFILE, line_of(F), f'{m}: a notification carries an id')
                    else: c.ok(f'{m}: {show(b)[:100]}')
                elif m in REQUESTS:
                    if get(ms, 'id') != [idv]: c.violation(f'{m}:id', HFILE, line_of(F), f'{m}: id sent is {[show(x)[:60] for x in get(ms, "id")]}, not the id of the request')
                    elif len(get(ms, 'result')) != 1 or get(ms, 'error'): c.violation(f'{m}:result', HFILE, line_of(F), f'{m}: {len(get(ms, "result"))} result members')
                    elif get(ms, 'method'): c.violation(f'{m}:method', HFILE, line_of(F), f'{m}: a reply carries a method')
                    else: c.ok(f'{m}: id = request id, one result')
def V_list(l): return mk('list', tuple(l))

# ---------------------------------------------------------------- N06
LSP = {'textDocument/completion': 'completionProvider', 'textDocument/hover': 'hoverProvider', 'textDocument/codeLens': 'codeLensProvider',
       'completionItem/resolve': 'completionProvider.resolveProvider', 'codeLens/resolve': 'codeLensProvider.resolveProvider',
       'textDocument/definition': 'definitionProvider', 'textDocument/declaration': 'declarationProvider', 'textDocument/references': 'referencesProvider',
       'textDocument/typeDefinition': 'typeDefinitionProvider', 'textDocument/implementation': 'implementationProvider',
       'textDocument/documentSymbol': 'documentSymbolProvider', 'workspace/symbol': 'workspaceSymbolProvider', 'textDocument/formatting': 'documentFormattingProvider',
       'textDocument/rangeFormatting': 'documentRangeFormattingProvider', 'textDocument/onTypeFormatting': 'documentOnTypeFormattingProvider',
       'textDocument/signatureHelp': 'signatureHelpProvider', 'textDocument/documentHighlight': 'documentHighlightProvider',
       'textDocument/codeAction': 'codeActionProvider', 'textDocument/rename': 'renameProvider', 'textDocument/foldingRange': 'foldingRangeProvider',
       'textDocument/documentLink': 'documentLinkProvider', 'documentLink/resolve': 'documentLinkProvider.resolveProvider',
       'textDocument/documentColor': 'colorProvider', 'textDocument/selectionRange': 'selectionRangeProvider', 'workspace/executeCommand': 'executeCommandProvider',
       'codeAction/resolve': 'codeActionProvider.resolveProvider', 'textDocument/inlayHint': 'inlayHintProvider', 'textDocument/semanticTokens/full': 'semanticTokensProvider'}
def check_N06(c):
    F = c.F
    caps = set()
    for m, lg, I, res in all_runs(c, ['initialize']):
        for s, _ in res:
            for b in frames(s.ev)[0]:
                ms = obj_members(b) or []
                r = get(ms, 'result')
                x = dict_of(r[0]).get('capabilities') if r else None
                if x is None: raise AnalysisError('reply to initialize has no capabilities object')
                caps.add(x)
    if len(caps) != 1: raise AnalysisError('capabilities announced vary with the path')
    cap = caps.pop()
    def truthy(v): return not (v.op == 'jnull' or v.op == 'c' and not cval(v))
    served = {}
    for m, lg, I, res in all_runs(c):
        w = any(frames(s.ev)[0] for s, _ in res)
        served[m] = served.get(m, False) or w
    have = {k: v for k, v in dict_of(cap).items()}
    announced = {k for k, v in have.items() if truthy(v)}
    flatcaps = set(announced)
    for k in announced:
        for k2, v2 in dict_of(have[k]).items():
            if truthy(v2): flatcaps.add(f'{k}.{k2}')
    inv = {v: k for k, v in LSP.items()}
    for m, w in served.items():
        if m in LSP and w:
            if LSP[m] in flatcaps: c.ok(f'{m} is served and {LSP[m]} is announced')
            else: c.violation(f'unannounced:{m}', HFILE, line_of(F), f'{m} is served but {LSP[m]} is not announced')
        elif m is not None and m not in LSP and w and m not in ('initialize', 'shutdown') and m not in DOCS:
            c.violation(f'unknown:{m}', HFILE, line_of(F), f'{m} is answered but belongs to no capability known')
    for k in sorted(flatcaps):
        if k in inv:
            if served.get(inv[k]): c.ok(f'{k} is announced and {inv[k]} is served')
            else: c.violation(f'unserved:{k}', HFILE, line_of(F), f'{k} is announced but {inv[k]} is not answered')
        elif '.' not in k and k != 'textDocumentSync' and k not in ('positionEncoding', 'experimental'):
            c.violation(f'capability:{k}', HFILE, line_of(F), f'{k} is announced and no handler serves it')
    sync = have.get('textDocumentSync')
    if sync is None: c.violation('sync', HFILE, line_of(F), 'document synchronisation is not announced'); return
    sd = dict_of(sync)
    kind = sd.get('change') if sd else sync
    if kind is not ci(1): c.violation('sync.change', HFILE, line_of(F), f'document changes are announced as kind {show(kind) if kind else None}, the change handler takes full texts (kind 1)')
    else: c.ok('textDocumentSync.change is 1 (full text)')
    if sd and not (sd.get('openClose') is ci(1)): c.violation('sync.openClose', HFILE, line_of(F), 'open and close notifications are not announced')
    else: c.ok('textDocumentSync.openClose')
    # the change handler takes the whole new text from the first content change
    for m, lg, I, res in all_runs(c, ['textDocument/didChange']):
        for s, _ in res:
            tx = [v for v in terms_of(s) if v.op == 'call' and v.a[0].endswith('NCParser::parse')]
            want = mk('jstr', member(REQ, 'params', 'contentChanges', 0, 'text'))
            if not tx or any(want not in v.a for v in tx): c.violation('sync.text', HFILE, line_of(F), 'the text checked after a change is not contentChanges[0].text')
            else: c.ok('didChange checks contentChanges[0].text')
def dict_of(v):
    while v.op == 'jadd': v = v.a[0]
    if v.op != 'jobj': return {}
    return {cval(k): x for k, x in v.a[0] if is_str(k)}
def subterms(v, seen):
    if not isinstance(v, (V, tuple, Loc)): return
    if isinstance(v, Loc): subterms((v.root, v.path), seen); return
    if isinstance(v, tuple):
        for x in v: subterms(x, seen)
        return
    if v in seen: return
    seen.add(v)
    for x in v.a: subterms(x, seen)
def terms_of(s):
    seen = set()
    for r, v in s.store.items(): subterms(v, seen)
    for e in s.ev: subterms(e, seen)
    return seen

# ---------------------------------------------------------------- N03
PRINTERS = {'printf', 'puts', 'putchar', 'vprintf', 'fwrite', 'fputs', 'fprintf', 'fputc', 'putc', 'vfprintf', 'print', 'println', 'write'}
def stdout_refs(fn, G):
    for n in G.nodes(fn):
        k = n.get('k'); q = n.get('q') or ''
        if k in ('Ref', 'FnRef') and (n.get('n') in ('cout', 'wcout', 'stdout', 'STDOUT_FILENO') and (n.get('glob') or q.startswith('std::') or n.get('n') in ('stdout',))):
            yield n, n['n']
        if k == 'Call' and q.replace('std::', '') in ('printf', 'puts', 'putchar', 'vprintf', 'print', 'println'):
            if q.startswith('std::print') and n.get('c') and 'stream' in str(n['c'][0].get('t')): continue
            yield n, q
        if k == 'Call' and q == 'write' and n.get('c') and n['c'][0].get('k') == 'Int' and int(n['c'][0]['v']) == 1: yield n, 'write(1'
def check_N03(c):
    import graph
    F = c.F; G = graph.Graph(F)
    I0 = ServerInterp(F)
    roots = [parse_fn(F)]
    reach = G.reach(roots)
    c.count('functions reachable from the message handler', len(reach))
    for f in reach:
        if not f.get('body') and not f.get('inits'): continue
        refs = list(stdout_refs(f, G))
        if I0.inl(f):
            if refs: c.count('functions whose output is followed', 1)
            continue
        if refs:
            n, what = refs[0]
            c.violation(f'{f["q"]}:{what}', f['f'], n.get('l'), f'{f["q"]} uses {what} while a message is handled ({G.chain(f)})')
        else: c.ok(f'{f["q"]}: no reference to standard output')
    # the handler itself: everything it writes belongs to a framed message
    for m, lg, I, res in all_runs(c):
        bad = None
        for s, _ in res:
            if escaped(s): continue
            b, p = frames(s.ev)
            if p and p.startswith(('text outside', 'output through', 'a message does not start')): bad = p
        if bad: c.violation(f'{m}', HFILE, line_of(F), f'{mname(m)}: {bad}')
        else: c.ok(f'{mname(m)}: all output framed')
    # the read loop writes nothing itself
    M = MainRun(F, 'data'); M.go()
    bad = [e for t in M.go_states + M.done_states + M.before for e, _ in outs(t.ev) if e[0] == 'out']
    if not M.loops: raise AnalysisError('no message loop found in main')
    if bad: c.violation('main', 'nclangsrv/nclangsrv.cpp', main_fn(F)['l'], f'main writes {show(bad[0][2])[:60]} to standard output while serving')
    else: c.ok('main: nothing written once serving')

# ---------------------------------------------------------------- main: N05, N10
def main_fn(F):
    r = [f for f in F.fn.values() if f['q'] == 'main' and '/nclangsrv/' in f['f'] and f.get('body')]
    if not r: raise AnalysisError('anchor vanished: main of nclangsrv')
    return r[0]
CIN = 'cin'
class MainRun(Interp):
    """main with standard input in one of three worlds: 'eof' (every read fails), 'data' (every read succeeds); handler calls are black boxes that may throw"""
    join_at = 24
    max_states = 4000
    unroll = 0
    def __init__(self, F, world, throwing=False):
        super().__init__(F)
        self.world = world; self.throwing = throwing
        self.parse = parse_fn(F); self.exitfn = [f for f in F.find(HANDLER + '::exit', must=True)][0]
        self.spins = []; self.loops = []; self.go_states = []; self.done_states = []; self.before = []
        self.exc = exc.Exc(F)
        self.inline_ok = set()
        self.wrap = self.barrier_chain()
    def barrier_chain(self):
        """functions between parse and the handlers that contain a try block worth following"""
        out = set()
        for f in self.F.fn.values():
            if '/nclangsrv/JsonMessageHandler.' in f['f'] and f.get('body'):
                for n in walk(f['body']):
                    if n.get('k') == 'Try' and any(h.get('t') is None or canon_t(h['t']) in ('std::exception', '...') for h in n.get('h') or []): out.add(f['u'])
        # and what calls them within the handler
        ch = True
        while ch:
            ch = False
            for f in self.F.fn.values():
                if f['u'] in out or '/nclangsrv/JsonMessageHandler.' not in f['f'] or not f.get('body'): continue
                if any(n.get('u') in out for n in walk(f['body'])): out.add(f['u']); ch = True
        return out
    def is_cin(self, s, x):
        return isinstance(x, Loc) and x.root[0] == 'G' and str(x.root[1]).split('@')[-1] == CIN
    def on_call(self, s, fr, n, fn, obj, args):
        f = fn['f']
        if fn['u'] == self.exitfn['u']:
            k = len([e for e in self.allev(s.ev) if e[0] == 'parsed'])
            if not k: return [(s, ci(0))]      # what the loop maintains: going on means not asked to stop
            s = s.copy(); v = sym('exit?', len([e for e in self.allev(s.ev) if e[0] == 'parsed'])); s.event('exit?', v)
            return [(s, v)]
        if fn['u'] == self.parse['u'] or (fn.get('cls') == HANDLER and fr.fn is not None and fr.fn.get('cls') == HANDLER and fn.get('kind') != 'ctor'):
            if fn['u'] in self.wrap:
                if fn['u'] == self.parse['u']: s.event('parsed', n.get('l'), tuple(self.val(s, a) for a in args))
                return None
            out = self.opaque_call(n, fn['q'], obj, args, s, fr, fn)
            for t, _ in out:
                if fn['u'] == self.parse['u']: t.event('parsed', n.get('l'), tuple(self.val(s, a) for a in args))
            if self.throwing:
                for ty, bases in (('std::exception', ()), ('nonstd', ())):
                    x = out[0][0].copy(); x.ctl = ('throw', ty, bases, sym('exc', ty), n.get('l')); out.append((x, None))
            return out
        if '/nclangsrv/' in f and not any(x in f for x in BLACK) and fn.get('cls') != HANDLER and fn.get('kind') != 'ctor': return None
        return self.opaque_call(n, fn['q'], obj, args, s, fr, fn)
    def construct_opaque(self): pass
    def run_ctor(self, n, fn, l, ct, s, fr):
        if ct.startswith('nclangsrv::') or ct.startswith('parser::'):
            out = []
            for t, vs in self.args(n.get('c') or [], n.get('pm') or '', s, fr):
                if not t.ctl: t = t.copy(); self.assign(t, fr, l, mk('object', ct, nid(n)))
                out.append((t, None))
            return [t for t, _ in out]
        return super().run_ctor(n, fn, l, ct, s, fr)
    def on_libcall(self, s, fr, n, q, obj, args):
        nm = q.rsplit('::', 1)[-1]
        cin = None
        if self.is_cin(s, obj): cin = obj
        else:
            for a in args:
                if self.is_cin(s, a): cin = a; break
        if cin is None:
            return None
        ok = self.world == 'data'
        s = s.copy()
        if nm in ('operator bool',): return [(s, ci(int(ok)))]
        if nm in ('operator!', 'fail', 'eof', 'bad'): return [(s, ci(int(not ok)))]
        if nm == 'good': return [(s, ci(int(ok)))]
        if nm == 'gcount': return [(s, sym('gcount', nid(n)) if ok else ci(0))]
        if nm in ('peek',) or nm == 'get' and not args:
            s.event('read')
            return [(s, sym('char', nid(n), fr.id) if ok else ci(-1))]
        if nm in ('get', 'getline', 'read', 'operator>>', 'ignore', 'readsome', 'putback', 'unget', 'sync', 'tie', 'rdbuf', 'exceptions', 'ws', 'clear', 'rdstate', 'setstate'):
            s.event('read')
            if ok:
                for i, a in enumerate(args):
                    if isinstance(a, Loc) and not self.is_cin(s, a): self.assign(s, fr, a, mk('input', nid(n), s.n, fr.id))
                    elif isinstance(a, V) and a.op == 'addr': self.assign(s, fr, Loc(a.a[0], a.a[1]), mk('input', nid(n), s.n, fr.id))
            elif nm == 'getline':
                for a in args:
                    if isinstance(a, Loc) and not self.is_cin(s, a): self.assign(s, fr, a, cs('')); break
            return [(s, cin)]
        return None
    def atom(self, v):
        if v.op == 's' and v.a == ('G', 'cin'): return ci(int(self.world == 'data'))
        return super().atom(v)
    def loop_hook(self, n, fr, h, go, done):
        if self.quiet: return
        done = list(done)
        cn = {'While': 0, 'Do': None, 'For': 1}.get(n['k'], None)
        if cn is not None and n['c'][cn] is not None and not n.get('cvar'):
            again = []
            for t in go:
                self.quiet += 1
                try: tests = self.cond(n['c'][cn], t.copy(), fr)
                finally: self.quiet -= 1
                for t2, b in tests:
                    if t2.ctl or b is False: done.append(t2)
                    else: again.append(t2)
            go = again
        if self.world == 'eof':
            for t in go:
                if any(e[0] == 'read' for e in self.allev(t.ev[len(h.ev):])) and self.same_vars(t, h): self.spins.append((n, fr.file))
        if not self.has_parse(n): return
        self.loops.append(n); self.go_states += [self.cut(t, h) for t in go]; self.done_states += [self.cut(t, h) for t in done]; self.before.append(h)
    def same_vars(self, t, h):
        return all(t.store.get(r) is v for r, v in h.store.items() if r[0] in ('v', 'O', 'G'))
    def cut(self, t, h):
        t = t.copy(); t.ev = t.ev[len(h.ev):]; return t
    def allev(self, ev):
        for e in ev:
            yield e
            if e[0] == 'loop':
                for suf in e[2]: yield from self.allev(suf)
    def reaches_parse(self, u, seen=None):
        seen = seen if seen is not None else set()
        if u == self.parse['u']: return True
        if u in seen: return False
        seen.add(u)
        f = self.F.fn.get(u) or self.int_fn(u)
        if f is None or '/nclangsrv/' not in f['f'] or not f.get('body') or f.get('cls') == HANDLER: return False
        return any(n.get('u') and n['k'] in ('Call', 'MCall', 'Op') and self.reaches_parse(n['u'], seen) for n in walk(f['body']))
    def has_parse(self, n):
        return any(x.get('u') and x.get('k') in ('Call', 'MCall', 'Op') and self.reaches_parse(x['u']) for x in walk(n))
    def go(self):
        self.final = self.run(main_fn(self.F), ci_args())
        return self
def ci_args(): return None
_mr = {}
def main_run(F, world, throwing=False):
    k = (world, throwing)
    if k not in _mr:
        _mr[k] = MainRun(F, world, throwing).go()
        if not _mr[k].loops: raise AnalysisError('no message loop found in main')
    return _mr[k]
NFILE = 'nclangsrv/nclangsrv.cpp'

def n_of(M, t): return sum(1 for e in M.allev(t.ev) if e[0] == 'parsed')
def check_N05(c):
    F = c.F
    ex = F.find(HANDLER + '::exit', must=True)[0]
    def exits(I, s):
        s = s.copy(); s.ctl = None
        return [v for _, v in I.run(ex, s=s)]
    for m, lg, I, res in all_runs(c):
        before = exits(I, method_state(m, candidates(F)))
        if len(before) != 1: raise AnalysisError('exit() has no single value')
        r0 = before[0]
        bad = None
        for s, _ in res:
            c.count('paths')
            if s.ctl and s.ctl[0] == 'exit': bad = f'{s.ctl[1]} is called while the message is handled'; continue
            if escaped(s): continue
            for v in exits(I, s):
                if m in ('shutdown', 'exit'):
                    if not (v.op == 'c' and cval(v)): bad = f'the server is not asked to stop after it (exit() is {show(v)[:60]})'
                else:
                    same = v is r0 or (v.op == 'c' and not cval(v)) or EQ(v, ci(0)) is EQ(r0, ci(0))
                    if not same: bad = f'exit() becomes {show(v)[:60]}' + (f' when {s.pathstr()[:200]}' if s.conds else '')
        if bad: c.violation(f'{m}', HFILE, line_of(F), f'{mname(m)}: {bad}')
        else: c.ok(f'{mname(m)} (log {"on" if lg else "off"}): exit() is {"true" if m in ("shutdown", "exit") else "unchanged"} afterwards on {len(res)} path classes')
    l = main_fn(F)['l']
    E = main_run(F, 'eof')
    live = [t for t in E.go_states if not (t.ctl and t.ctl[0] == 'exit')]
    if live: c.violation('main:eof', NFILE, E.loops[0].get('l') or l, 'the message loop goes on although every read fails (input closed)')
    elif not [t for t in E.done_states] and not E.spins: c.violation('main:eof', NFILE, E.loops[0].get('l') or l, 'no path leaves the message loop when every read fails (input closed)')
    else: c.ok('input closed: no path through the message loop comes round again')
    for n, f in E.spins: c.violation('main:spin', NFILE, n.get('l'), 'a loop in main reads the closed input again and again without changing anything')
    D = main_run(F, 'data')
    for t in D.go_states + D.done_states:
        c.count('loop paths')
        k = n_of(D, t); e = {cn: v for cn, v in t.conds.items()}
        stop = None
        for i in range(k, 0, -1):
            a = EQ(sym('exit?', i), ci(0))
            if a in e: stop = not e[a]; break
        go = any(t is x for x in D.go_states)
        if go and k and stop is not False: c.violation('main:go', NFILE, l, 'after a message the server goes on reading without checking whether it was asked to stop' if stop is None else 'the server goes on reading after it was asked to stop')
        elif not go and not stop: c.violation('main:stop', NFILE, l, 'the message loop ends although the server was not asked to stop and the input is not closed')
        else: c.ok(f'message loop: {"goes on, not asked to stop" if go else "ends, asked to stop"} ({k} messages)')
    if not any(n_of(D, t) for t in D.done_states): raise AnalysisError('no path of main handles a message and stops')

def check_N10(c):
    import graph
    F = c.F; l = main_fn(F)['l']
    T = main_run(F, 'data', True)
    caught = 0
    for t, _ in T.final:
        if t.ctl and t.ctl[0] == 'throw': c.violation('main:escape', NFILE, t.ctl[4] or l, f'an exception ({"derived from std::exception" if t.ctl[1] == "std::exception" else "not derived from std::exception"}) raised while a message is handled leaves main')
    for t in T.go_states + T.done_states:
        ev = list(T.allev(t.ev)); k = n_of(T, t)
        ct = [e for e in ev if e[0] == 'caught']
        if not ct: continue
        go = any(t is x for x in T.go_states)
        a = EQ(sym('exit?', k), ci(0))
        if t.ctl and t.ctl[0] == 'throw': c.violation('main:escape', NFILE, t.ctl[4] or l, 'an exception is thrown on from its handler')
        elif not go and t.conds.get(a) is not False: c.violation('main:ends', NFILE, ct[-1][3] or l, f'after catching {ct[-1][1]} the message loop ends')
        else:
            caught += go; c.ok(f'caught {ct[-1][1]} by catch({ct[-1][2]}): {"goes on" if go else "ends only because asked to"}')
    if not caught and not c.viol: raise AnalysisError('no barrier found, yet nothing escapes')
    # what the loop itself calls outside the guarded handling
    X0 = exc.Exc(F)
    for n in T.loops:
        out = {}; X0.round = None
        while True:
            X0.round = set(); X0.grew = False; out = {}
            X0.node(n, main_fn(F), out)
            X0.round = None
            if not X0.grew: break
        for t, site in sorted(out.items()):
            if 'substr in' in site[2] or t in ('std::bad_alloc', '<rethrow>'): continue
            c.violation(f'main:loop:{t}', site[0], site[1], f'{t} may leave the message loop of main ({site[2]})')
        if not out: c.ok('nothing the message loop calls outside its guarded part lets an exception out')
    # a noexcept function on the way turns the exception into termination
    G = graph.Graph(F); X = exc.Exc(F)
    reach = G.reach([parse_fn(F)])
    for f in reach:
        if f.get('nx') and f.get('body') and '/repo/' in f['f'] + '/repo/' and not f.get('def'):
            e = X.esc(f)
            if e:
                t, site = sorted(e.items())[0]
                c.violation(f'noexcept:{f["q"]}', f['f'], f['l'], f'{f["q"]} is noexcept, but {t} may leave it ({site[2]}); the server would be terminated')
            else: c.ok(f'{f["q"]} (noexcept) lets nothing out')
    for m, lg, I, res in all_runs(c):
        for s, _ in res:
            if s.ctl and s.ctl[0] == 'exit': c.violation(f'{m}:exit', HFILE, s.ctl[2], f'{mname(m)}: {s.ctl[1]} is called')

# ---------------------------------------------------------------- N07
THIS = sym('O', 'this')
def fld(n): return sub(THIS, F_(n))
def this_of(s): return s.store.get(('O', 'this'), THIS)
def uri_term(m): return mk('jstr', member(REQ, 'params', 'textDocument', 'uri'))
def text_term(m): return mk('jstr', member(REQ, 'params', 'textDocument', 'text')) if m == DOCS[0] else mk('jstr', member(REQ, 'params', 'contentChanges', 0, 'text'))
def closure(I, v):
    """all subterms v depends on, through the loops that compute it"""
    seen = set(); subterms(v, seen); done = set()
    ch = True
    while ch:
        ch = False
        for x in list(seen):
            if x.op == 'loopv' and x not in done:
                done.add(x); ch = True
                for n, pre, h, go, dn in I.loopinfo.get(x.a[0], []):
                    for t in [pre] + go:
                        r = t.store.get(x.a[2])
                        if r is not None:
                            for st in x.a[3]: r = sub(r, st)
                            subterms(r, seen)
                        subterms(tuple(a for a in t.conds if a not in h.conds), seen)
    return seen
def reads_of(terms, base):
    """keys under which base is read"""
    for v in terms:
        if v.op == 'sub' and v.a[0] is base and v.a[1][0] in ('[', 'kv'): yield v.a[1][1]
        elif v.op == 'in' and v.a[1] is base: yield v.a[0]
        elif v.op == 'sub' and v.a[0] is base: yield v
def names_of_this(terms):
    return {v.a[1][1] for v in terms if v.op == 'sub' and v.a[0] is THIS and v.a[1][0] == '.'}
def field_types(F, cls):
    r = F.record(cls)
    return {f['n']: f['t'] for f in r['fields']}
def check_N07(c):
    F = c.F; l = line_of(F)
    ft = field_types(F, HANDLER)
    ctxf = [n for n, t in ft.items() if 'FileContext' in t]
    if len(ctxf) != 1: raise AnalysisError('anchor vanished: the map of documents')
    CTX = fld(ctxf[0])
    rec = [r for q, r in F.records.items() if q == HANDLER + '::FileContext']
    if not rec: raise AnalysisError('anchor vanished: FileContext')
    modified = {}
    strs = [n for n, t in ft.items() if canon_t(t) in ('string', 'std::string')]
    for m, lg, I, res in all_runs(c):
        for s, _ in res:
            if escaped(s): continue
            o = this_of(s)
            for n in ft:
                if sub(o, F_(n)) is not fld(n): modified.setdefault(n, set()).add(m)
    # documents
    for m, lg, I, res in all_runs(c):
        bad = None
        for s, _ in res:
            c.count('paths')
            if escaped(s): continue
            v = sub(this_of(s), F_(ctxf[0]))
            uri = uri_term(m)
            if m in DOCS:
                tx = text_term(m)
                if v.op != 'put' or v.a[0] is not CTX or v.a[1] is not uri:
                    bad = f'the documents kept afterwards are {show(v)[:160]}, not the old ones with {show(uri)} replaced'; continue
                new = v.a[2]
                for f in rec[0]['fields']:
                    x = sub(new, F_(f['n']))
                    cl = closure(I, x)
                    if tx not in cl: bad = f'{f["n"]} of the document is {show(x)[:120]}, it does not come from the new text'
                    elif any(True for _ in reads_of(cl, CTX)): bad = f'{f["n"]} of the document depends on what was kept before'
                    else:
                        p = line_list(I, x)
                        if p: bad = f'{f["n"]}: {p}'
                pt = sub(new, F_('pathTimeResult'))
            elif m == 'textDocument/didClose':
                if not (v.op == 'erased' and v.a[0] is CTX and v.a[1] is uri): bad = f'the documents kept after closing are {show(v)[:160]}, not the old ones without {show(uri)}'
            elif v is not CTX: bad = f'{mname(m)} changes the documents kept: {show(v)[:160]}'
        if bad: c.violation(f'{m}:kept', HFILE, l, f'{mname(m)}: {bad}')
        else: c.ok(f'{mname(m)} (log {"on" if lg else "off"}): documents kept are ' + ('the old ones with this uri replaced by the results for the new text' if m in DOCS else 'the old ones without this uri' if m == 'textDocument/didClose' else 'unchanged'))
    # remembered uri
    cur = None
    for m, lg, I, res in all_runs(c, ['codeLens/resolve']):
        for s, _ in res:
            for k in reads_of(terms_of2(I, s), CTX):
                if k.op == 'sub' and k.a[0] is THIS: cur = k.a[1][1]
                else: c.violation('resolve:key', HFILE, l, f'codeLens/resolve is answered from what is kept for {show(k)[:80]}')
    if cur is None: raise AnalysisError('codeLens/resolve reads no document')
    for m, lg, I, res in all_runs(c):
        for s, _ in res:
            if escaped(s): continue
            v = sub(this_of(s), F_(cur))
            if m == 'textDocument/codeLens':
                if s.conds.get(IN(uri_term(m), CTX)) is True and v is not uri_term(m): c.violation('lens:current', HFILE, l, f'after a code-lens request the document to resolve from is {show(v)[:80]}')
                elif v not in (fld(cur), uri_term(m)): c.violation('lens:current', HFILE, l, f'after a code-lens request the document to resolve from is {show(v)[:80]}')
                else: c.ok(f'{m}: resolve document is {show(v)[:60]}')
            elif v is not fld(cur): c.violation(f'{m}:current', HFILE, l, f'{mname(m)} changes the document code lenses are resolved from to {show(v)[:80]}')
    docfields = {n for n, ms in modified.items() if ms & (set(DOCS) | {'textDocument/didClose', 'textDocument/hover', 'textDocument/codeLens', 'codeLens/resolve'})}
    free = {ctxf[0], cur} | {n for n, t in ft.items() if 'unique_ptr' in t or 'shared_ptr' in t or 'NCParser' in t or 'Logger' in t or 'Reader' in t}
    for m, lg, I, res in all_runs(c, ['textDocument/hover', 'textDocument/codeLens', 'codeLens/resolve']):
        bad = None
        for s, _ in res:
            if escaped(s): continue
            ts = terms_of2(I, s)
            for k in reads_of(ts, CTX):
                if m == 'codeLens/resolve': ok = k is fld(cur)
                else: ok = k is uri_term(m)
                if not ok: bad = f'reads what is kept for {show(k)[:80]}'
            for b in frames(s.ev)[0]:
                stale = (names_of_this(closure(I, b)) & docfields) - free
                if stale: bad = f'the answer depends on {sorted(stale)}, which other requests change'
        if bad: c.violation(f'{m}:answer', HFILE, l, f'{m}: {bad}')
        else: c.ok(f'{m} (log {"on" if lg else "off"}): answered from the document named by {"the last code-lens request" if m == "codeLens/resolve" else "its uri"} alone')
def terms_of2(I, s):
    seen = set()
    for e in s.ev: subterms(e, seen)
    subterms(tuple(s.conds), seen)
    for b in list(seen):
        pass
    out = set(seen)
    for x in list(seen):
        if x.op == 'loopv': out |= closure(I, x)
    return out
def line_list(I, x):
    """if x is a list built by a loop reading lines: every turn must add exactly the line read"""
    if x.op != 'loopv': return None
    for n, pre, h, go, dn in I.loopinfo.get(x.a[0], []):
        for t in go:
            r = t.store.get(x.a[2])
            for st in x.a[3]: r = sub(r, st) if r is not None else None
            if r is None: continue
            cl = set(); subterms(r, cl)
            reads = [e for e in cl if e.op == 'out' and 'getline' in show(e)[:60]]
            if r is x: return 'a line of the text is left out' if any('getline' in show(a) for a in t.conds) else None
            if r.op == 'push' and r.a[0] is not x and r.a[0].op == 'push': return 'a line of the text is kept twice'
    return None
