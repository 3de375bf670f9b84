import sys, json
from core import *
def sx(n, ind=0):
    """compact s-expression"""
    if isinstance(n, list):
        return ' '.join(sx(x) for x in n)
    if not isinstance(n, dict): return json.dumps(n)
    a = [n.get('k', '?')]
    for k, v in n.items():
        if k in ('k', 'c', 'body', 'h', 'var', 'cvar', 'l', 'e', 'caps') : continue
        a.append(f'{k}={v if not isinstance(v,(dict,list)) else sx(v)}')
    s = '(' + ' '.join(a)
    for k in ('caps', 'cvar', 'var', 'c', 'body', 'h'):
        if k in n and n[k] is not None:
            v = n[k] if isinstance(n[k], list) else [n[k]]
            for x in v:
                s += '\n' + '  ' * (ind + 1) + (k + ':' if k not in 'c' else '') + (sx(x, ind + 1) if isinstance(x, dict) else str(x))
    return s + ')'
if __name__ == '__main__':
    F = load([sys.argv[1]])
    for f in F.find(sys.argv[2]):
        print({k: v for k, v in f.items() if k not in ('body',)})
        print(sx(f.get('body')))
