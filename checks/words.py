"""Symbolic NC words (the library's word variant) for the visitor checks."""
from absint import *
from core import AnalysisError
D = 'parser::fanuc::AttributeDataDecimal<string, string>'
S_ = 'parser::fanuc::AttributeData<string>'
C_ = 'parser::fanuc::AttributeData<char>'
PARTS = ('assign', 'sign', 'open_bracket', 'macro', 'value', 'dot', 'value2', 'close_bracket')
NONE = mk('opt')
def some(x): return mk('opt', x)
def dec(word, **kw):
    d = {F_(k): NONE for k in PARTS}
    d[F_('word')] = cs(word) if isinstance(word, str) else word
    for k, v in kw.items():
        if isinstance(v, str): v = ci(ord(v)) if k in ('assign', 'sign', 'dot') else cs(v)
        d[F_(k)] = v if v.op == 'opt' else some(v)
    return mk('var', D, st(None, d))
def text(word, value): return mk('var', S_, st(None, {F_('word'): cs(word) if isinstance(word, str) else word, F_('value'): cs(value) if isinstance(value, str) else value}))
def char(word, value): return mk('var', C_, st(None, {F_('word'): cs(word) if isinstance(word, str) else word, F_('value'): ci(ord(value)) if isinstance(value, str) else value}))
def fld(v, name):
    """field of a word value (a var, its struct, or a term)"""
    if v.op == 'var': v = v.a[1]
    return sub(v, F_(name))
def find(F, q, n=None):
    """definitions of the non-template function or method q"""
    r = [f for f in F.fn.values() if f['q'] == q and f.get('body') and not f.get('def') and (n is None or len(f['params']) == n)]
    return r
def one(F, q, n=None):
    r = find(F, q, n)
    if len(r) != 1: raise AnalysisError(f'{q}: {len(r)} definitions found')
    return r[0]
