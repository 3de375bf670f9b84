"""P03: no exception leaves a line operation of either parser. Rule: the set of exceptions that can leave a function is
what it throws itself, what the functions it calls let through and what the library calls in it are documented to throw,
less what the enclosing handlers catch; that set has to be empty for every line operation."""
import core, exc
OPS = ('parse', 'simple_parse', 'convert_length', 'remove_numbering', 'renumber', 'rotate_axes', 'split_file', 'remove_comment', 'remove_optional_block')

def line_ops(F):
    out = []
    for f in F.fn.values():
        if not f.get('body') or not (f.get('cls') or '').endswith('::AllAttributesParser'): continue
        if f['q'].rsplit('::', 1)[-1] not in OPS: continue
        out.append(f)
    return out

def check_P03(ctx):
    F = ctx.F
    E = exc.Exc(F)
    ops = line_ops(F)
    names = {}
    for f in ops: names.setdefault(f['q'], []).append(f)
    for ns in ('fanuc', 'heidenhain'):
        for n in OPS:
            if n != 'simple_parse' and f'parser::{ns}::AllAttributesParser::{n}' not in names:
                raise core.AnalysisError(f'no operation {n} in the {ns} parser')
    seen = set()
    for f in sorted(ops, key=lambda f: (f['q'], f['u'])):
        esc = E.esc(f)
        ctx.count('line operations')
        for t, site in sorted(esc.items()):
            key = (t, site[0], site[1], f['q'])
            if key in seen: continue
            seen.add(key)
            ctx.violation(f'{f["q"]}|{t}|{site[2]}', site[0], site[1], f'{t} ({site[2]}) can leave {f["q"]} ({f["f"].rsplit("/", 1)[-1]}:{f["l"]})')
        if not esc: ctx.ok(f'{f["q"]}/{len(f["params"])}: nothing escapes')
    ctx.count('functions followed', len(E.memo))
    ctx.notes.append('texts handed to the range checks of the line grammar have matched the rule "one or more digits", so converting them can overflow but not fail')
    ctx.notes.append('exhausted memory (std::bad_alloc) is left out')
