"""D01: one diagnostic per failing line, on that line."""
import core, exc
from absint import *
from core import AnalysisError, walk
from p_server import *

class NCRun(Interp):
    join_at = 64
    max_states = 6000
    max_steps = 20_000_000
    unroll = 0
    def __init__(self, F):
        super().__init__(F); self.loops = []
    def on_call(self, s, fr, n, fn, obj, args):
        if fn['f'].endswith('nclangsrv/NCParser.cpp') and fn.get('kind') != 'ctor' and not any(str(x.get('q')).endswith('snprintf') for x in walk(fn.get('body') or {})) and 'visitor' not in fn['q'].lower() and 'fill_' not in fn['q']: return None
        if not fn.get('body') and not fn.get('inits') and 'AllAttributesParser' not in fn['q']: return None
        return self.opaque_call(n, fn['q'], obj, args, s, fr, fn)
    def join_key(self, s):
        return (frozenset((r, v) for r, v in s.store.items() if r[0] == 'v' and v.op == 'push'), frozenset((a, v) for a, v in s.conds.items() if 'AllAttributesParser' in self.shown(a)))
    memo = {}
    def shown(self, a):
        r = self.memo.get(a)
        if r is None: r = self.memo[a] = show(a)
        return r
    def run_ctor(self, n, fn, l, ct, s, fr):
        if ct.startswith('nclangsrv::') or ct.startswith('parser::'):
            out = []
            for t, vs in self.args(n.get('c') or [], n.get('pm') or '', s, fr):
                if not t.ctl: t = t.copy(); self.assign(t, fr, l, mk('object', ct, nid(n), *[self.val(t, v) for v in vs]))
                out.append((t, None))
            return [t for t, _ in out]
        return super().run_ctor(n, fn, l, ct, s, fr)
    def loop_hook(self, n, fr, h, go, done):
        if not self.quiet: self.loops.append((n, fr, self.loop_pre, h, list(go), list(done)))

NCFILE = 'nclangsrv/NCParser.cpp'
def affine(v):
    """v = base + k"""
    if v.op == '+' and len(v.a) == 2 and is_num(v.a[1]): b, k = affine(v.a[0]); return b, k + cval(v.a[1])
    if v.op == '-' and len(v.a) == 2 and is_num(v.a[1]): b, k = affine(v.a[0]); return b, k - cval(v.a[1])
    if v.op in ('cast', 'trunc') and len(v.a) >= 1 and isinstance(v.a[0], V): return affine(v.a[0])
    return v, 0
def parser_call(a):
    """the parser operation a condition asks the result of"""
    for x in ([a.a[0]] if a.op in ('eq', 'nz') else []):
        if x.op == 'call' and re.search(r'AllAttributesParser(Base)?::', x.a[0]): return x
    return None
import re
def all_terms(t):
    seen = set(); subterms(t, seen); return seen
def starts_with_one_colon(t, msg):
    for a, v in t.conds.items():
        if not v: continue
        ts = all_terms(a)
        if msg in ts and any(x.op == 'c' and (isinstance(cval(x), str) and '1:' in cval(x) or cval(x) == 58) for x in ts if x.op == 'c'): return True
    return False
def check_D01(c):
    lines(c, 'place'); publish(c, 'place')
def said(t, pc, parts):
    """is what follows the line number the whole of what the parser said (or, if it said nothing, the line)?"""
    def is_msg(x): return x.op == 'out' and x.a[1] == pc.a[0] and not isinstance(x.a[0], V) and x.a[2:5] == pc.a[1:4]
    def fresh(x):
        k = x.a[0]
        return None if x.a[3 + k] is cs('') else f'the message a line is reported with starts as {show(x.a[3 + k])[:60]}, left over from before'
    if len(parts) == 1 and parts[0].op == 'substr' and len(parts[0].a) == 2 and is_msg(parts[0].a[0]): return fresh(parts[0].a[0])
    if len(parts) == 2 and is_str(parts[0]) and cval(parts[0]).strip() == ':' and is_msg(parts[1]): return fresh(parts[1])
    if len(parts) == 3 and is_str(parts[0]) and is_str(parts[2]) and parts[1] in pc.a:
        es = [a.a[0] for a, v in t.conds.items() if a.op == 'empty' and v is True and is_msg(a.a[0])]
        return fresh(es[0]) if es else 'the line is quoted although the parser gave a message'
    return f'a failing line is reported as {show(CAT(*parts))[:120] if parts else "nothing"}, not with what the parser said'
def lines(c, what):
    F = c.F
    place = what == 'place'
    P = F.find('nclangsrv::NCParser::parse', must=True)[0]
    I = NCRun(F); R = I.run(P)
    # --- the line loop
    nloops = 0; ends = {}
    for n, fr, pre, h, go, done in I.loops:
        calls = {}
        for t in go:
            for a, v in t.conds.items():
                if a in h.conds: continue
                pc = parser_call(a)
                if pc is not None and len(pc.a) > 3: calls.setdefault(id(t), []).append((pc, not v if a.op == 'eq' and a.a[1] is ci(0) else v))
        if not calls: continue
        nloops += 1
        l = n.get('l')
        counters = set(); lists = set()
        for t in go:
            for pc, ok in calls.get(id(t), []): counters.add(pc.a[2])
        for L in sorted(counters, key=show):
            base, k = affine(L)
            if not place: break
            if base.op != 'loopv':
                c.violation('line:number', NCFILE, l, f'the line number given to the parser is {show(L)[:80]}, which does not count the lines'); continue
            r = pre.store.get(base.a[2]); 
            start = r if r is not None else None
            for st in base.a[3]: start = sub(start, st) if start is not None else None
            if start is None or not is_num(start) or cval(start) + k != 1:
                c.violation('line:first', NCFILE, l, f'the first line of a program is checked as line {show(start) if start is not None else "?"}+{k}'); continue
            bad = 0
            for t in go:
                x = t.store.get(base.a[2])
                for st in base.a[3]: x = sub(x, st)
                b2, k2 = affine(x)
                if not (b2 is base and k2 == 1): bad += 1; why = show(x)[:80]
            if bad: c.violation('line:count', NCFILE, l, f'on {bad} paths round the line loop the line number does not go up by one (it becomes {why})')
            else: c.ok(f'line numbers: start at 1, +1 on each of {len(go)} paths round the line loop')
        roots = set()
        for t in go:
            for r, v in t.store.items():
                if v.op == 'push' and v.a[0].op == 'loopv' and v.a[0].a[2] == r and r[0] == 'v' and flat(v.a[1])[0].op in ('tostr', 'cat', 'c', 'substr', 'out', 'call'): roots.add(r)
        lines_root = {r for r in roots}
        if not roots: c.violation('messages', NCFILE, l, 'a failing line adds no message'); continue
        for t in go:
            c.count('paths round the line loop')
            if not place:
                cs_ = calls.get(id(t), [])
                for r in roots:
                    v = t.store.get(r)
                    if v is None or v.op != 'push' or not cs_ or cs_[-1][1]: continue
                    p = said(t, cs_[-1][0], flat(v.a[1])[1:])
                    if p: c.violation('said:' + cs_[-1][0].a[0].rsplit('::', 1)[1], NCFILE, l, f'{p} ({cs_[-1][0].a[0].rsplit("::", 1)[1]})')
                    else: c.ok(f'{cs_[-1][0].a[0].rsplit("::", 1)[1]}: the whole message follows the line number')
                continue
            added = []
            for r in roots:
                v = t.store.get(r); k = 0
                while v is not None and v.op == 'push': added.append((r, v.a[1])); v = v.a[0]
            cs_ = calls.get(id(t), [])
            if not cs_:
                if added: c.violation('message:unasked', NCFILE, l, 'a line that is not checked yields a message')
                elif not any(a.op == 'empty' and v is True for a, v in t.conds.items() if a not in h.conds): c.violation('line:skipped', NCFILE, l, f'a line that is not blank is not checked ({[show(a)[:60] for a in t.conds if a not in h.conds][:3]})')
                else: c.ok('a blank line is counted and yields nothing')
                continue
            pc, ok = cs_[-1]
            if ok and added: c.violation('message:passed', NCFILE, l, 'a line whose check passes yields a message'); continue
            if ok: c.ok(f'{pc.a[0].rsplit("::",1)[1]} passes: no message'); continue
            if len(added) != 1: c.violation('message:count', NCFILE, l, f'a line whose check fails yields {len(added)} messages'); continue
            parts = flat(added[0][1]); L = pc.a[2]
            if not (parts[0].op == 'tostr' and affine(parts[0].a[0]) == affine(L)): c.violation('message:line', NCFILE, l, f'the message of a failing line starts with {show(parts[0])[:80]}, not with its line number'); continue
            rest = parts[1] if len(parts) > 1 else None
            if rest is not None and is_str(rest) and cval(rest).startswith(':'): c.ok(f'{pc.a[0].rsplit("::",1)[1]} fails: one message, "<line>{cval(rest)}..."')
            elif rest is not None and rest.op == 'substr' and rest.a[1] is ci(1) and starts_with_one_colon(t, rest.a[0]): c.ok(f'{pc.a[0].rsplit("::",1)[1]} fails: one message, its leading "1" replaced by the line number')
            else: c.violation('message:form', NCFILE, l, f'after its line number a message goes on with {show(rest)[:80] if rest is not None else "nothing"}, which need not start with ":"')
        if not place: continue
        for t in done:
            if t.ctl and t.ctl[0] == 'ret': c.violation('line:stop', NCFILE, l, 'checking stops before the last line')
        nd = [t for t in done if not t.ctl]
        if len({frozenset(t.conds.items()) for t in nd}) > 1 and any(len(calls_in(t, h)) for t in nd): c.violation('line:stop', NCFILE, l, 'checking may stop before the last line')
        ends.setdefault(n.get('l'), set()).update(roots)
    if not nloops: raise AnalysisError('no loop over the lines found in NCParser::parse')
    if not place: return
    # --- splitting into lines
    for n, fr, pre, h, go, done in I.loops:
        q = fr.fn['q'] if fr.fn else ''
        if q.endswith('NCParser::parse'): continue
        for t in go:
            pushes = [(r, v) for r, v in t.store.items() if v.op == 'push' and h.store.get(r) is v.a[0]]
            nl = [(a, v) for a, v in t.conds.items() if a not in h.conds and a.op == 'eq' and is_num(a.a[1]) and cval(a.a[1]) == 10]
            if not nl: continue
            if any(v for _, v in nl):
                if len(pushes) != 1: c.violation('split', NCFILE, n.get('l'), f'{q}: at a line end {len(pushes)} lines are added')
                else: c.ok(f'{q}: one line per line end')
            elif pushes: c.violation('split', NCFILE, n.get('l'), f'{q}: a line is added where no line ends')
def calls_in(t, h):
    return [a for a in t.conds if a not in h.conds and parser_call(a) is not None]
def check_D02(c): lines(c, 'text'); publish(c, 'text')

# ---------------------------------------------------------------- what becomes of the messages of a check
TEXT = sym('message text')
class PubRun(ServerInterp):
    """publishing run on messages of each form a check composes; the text after the prefix is arbitrary (but not blank at its ends)"""
    def on_call(self, s, fr, n, fn, obj, args):
        if fn['q'] == 'nclangsrv::NCParser::parse':
            s = s.copy(); s.conds[EMPTY(TEXT)] = False
            ms = mk('list', tuple(m for m, _, _ in FORMS))
            return [(s, st(None, {F_(str(i)): ms if i == 0 else sub(mk('call', fn['q']), F_(str(i))) for i in range(3)}))]
        return super().on_call(s, fr, n, fn, obj, args)
    def on_libcall(self, s, fr, n, q, obj, args):
        nm = q.rsplit('::', 1)[-1]
        if q.startswith('boost::') and nm in ('trim', 'trim_left', 'trim_right', 'trim_copy', 'trim_left_copy', 'trim_right_copy') and args:
            v = trimmed(self.cstr(self.val(s, args[0])), nm)
            if v is not None:
                if nm.endswith('_copy'): return [(s, v)]
                s = s.copy(); self.assign(s, fr, args[0], v); return [(s, sym('void'))]
        return super().on_libcall(s, fr, n, q, obj, args)
def trimmed(v, nm):
    ps = list(v.a) if v.op == 'cat' else [v]
    if any(p is not TEXT and not is_str(p) for p in ps): return None
    if 'right' not in nm and is_str(ps[0]): ps[0] = cs(cval(ps[0]).lstrip())
    if 'left' not in nm and is_str(ps[-1]): ps[-1] = cs(cval(ps[-1]).rstrip())
    return CAT(*ps)
# message, the line it is on counted from 0, its text
FORMS = [(CAT(cs(f'{n}{col}: '), *body), n - 1, CAT(*body)) for n in (1, 2, 12, 305) for col in ('', ':1', ':47') for body in ((TEXT,), (cs("'"), TEXT, cs("'")), (TEXT, cs(': '), TEXT), (cs('Unsupported: ['), TEXT, cs(']')))]
def publish(c, what):
    F = c.F
    prefetch(F, candidates(F), DOCS, PubRun, (False,))
    for m in DOCS:
        J, res = run_method(F, m, False, candidates(F), PubRun)
        seen = 0
        for s, _ in res:
            if escaped(s): continue
            for b in frames(s.ev)[0]:
                d = dict_of(b.a[0]) if b.op == 'ser' else {}
                lst = dict_of(d['params']).get('diagnostics') if d.get('params') is not None else None
                if lst is None: continue
                c.count('published lists')
                got = []; v = lst
                while v.op == 'jpush': got.append(dict_of(v.a[1])); v = v.a[0]
                got.reverse()
                if v.op == 'jarr' and v.a: got = [dict_of(x) for x in v.a[0]] + got
                elif v.op != 'jarr': raise AnalysisError(f'the list of diagnostics is not followed: {show(v)[:100]}')
                l = line_of(F); rest = got
                def place(g):
                    rg = dict_of(g['range']) if g.get('range') is not None else {}
                    return tuple((dict_of(rg[x]).get(y) if rg.get(x) is not None else None) for x in ('start', 'end') for y in ('line', 'character'))
                extra = len(got) - len(FORMS)
                if extra not in (0, 1):
                    if what == 'place': c.violation(f'publish:count:{m}', HFILE, l, f'{m}: {len(FORMS)} failing lines are published as {len(got)} diagnostics when {s.pathstr()[-200:]}')
                    continue
                if extra: rest = got[1:] if any(TEXT in all_terms(x) for x in got[-1].values()) else got[:-1]
                seen += 1
                for (msg, line, text), g in zip(FORMS, rest):
                    if what == 'place':
                        p = place(g)
                        if any(x is None for x in p): c.violation(f'publish:range:{m}', HFILE, l, f'{m}: a diagnostic has no complete range'); break
                        if p[0] is not p[2]: c.violation(f'publish:range:{m}', HFILE, l, f'{m}: a diagnostic spans lines {show(p[0])[:60]} to {show(p[2])[:60]}'); break
                        if not is_num(p[0]):
                            raise AnalysisError(f'the line of a diagnostic is not followed: {show(p[0])[:100]}')
                        if cval(p[0]) != line: c.violation(f'publish:line:{m}', HFILE, l, f'{m}: the message {show(msg)[:60]} is placed on line {cval(p[0])} (counted from 0) instead of {line}'); break
                        c.ok(f'{m}: {show(msg)[:50]} is placed on line {line}')
                    else:
                        x = g.get('message')
                        if x is None: c.violation(f'text:none:{m}', HFILE, l, f'{m}: a diagnostic has no message'); break
                        x = x.a[0] if x.op == 'jstr' else x
                        if x is not text and x is not msg: c.violation(f'text:{m}', HFILE, l, f'{m}: of the message {show(msg)[:80]} the diagnostic shows {show(x)[:80]}'); break
                        c.ok(f'{m}: {show(msg)[:50]} is shown whole')
        if not seen and not c.viol: raise AnalysisError('no list of diagnostics found')
