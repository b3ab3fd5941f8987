"""Which local of a function stands for the one an invariant hint names.

Hints name locals. locals.json records, for the tree the hints were written for, the locals of
each function with the shape of the statement that first gives them a value; a local that was
renamed since is found by this shape. Hints only propose invariants (each is checked), so
nothing rests on this being right."""
import ast
import difflib
import json
import os

PATH = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'locals.json')
_table = None


class _Anon(ast.NodeTransformer):
    def __init__(self, names):
        self.names = names

    def visit_Name(self, n):
        return ast.Name('_', n.ctx) if n.id in self.names else n


def _own(nodes):
    for n in nodes:
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        for f in ('body', 'orelse', 'handlers', 'finalbody'):
            yield from _own(getattr(n, f, []) or [])


def bindings(node):
    """[(local, shape of the statement that binds it first)] in order"""
    out = []
    for s in _own(node.body):
        if isinstance(s, ast.For):
            targets, shape = [s.target], [s.target, s.iter]
        elif isinstance(s, ast.Assign):
            targets, shape = s.targets, [s]
        elif isinstance(s, (ast.AugAssign, ast.AnnAssign)):
            targets, shape = [s.target], [s]
        elif isinstance(s, ast.With):
            targets, shape = [i.optional_vars for i in s.items if i.optional_vars], [i.context_expr for i in s.items]
        elif isinstance(s, ast.FunctionDef):
            out.append((s.name, [], 'def'))
            continue
        else:
            continue
        for t in targets:
            for i, x in enumerate(n for n in ast.walk(t) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)):
                out.append((x.id, shape, i))
    names = {x[0] for x in out} | {a.arg for a in node.args.args}
    seen, res = set(), []
    for nm, shape, i in out:
        if nm in seen:
            continue
        seen.add(nm)
        dump = ' '.join(ast.dump(_Anon(names).visit(ast.parse(ast.unparse(ast.fix_missing_locations(x))))) for x in shape) if shape else ''
        res.append([nm, '%s %s' % (i, dump)])
    return res


def table():
    global _table
    if _table is None:
        try:
            _table = json.load(open(PATH))
        except (OSError, ValueError):
            _table = {}
    return _table


def aliases(module, qualname, node):
    """{name at the time the hints were written: its name now}, where they differ"""
    old = table().get('%s:%s' % (module, qualname))
    if old is None or not isinstance(node, ast.FunctionDef):
        return {}
    try:
        new = bindings(node)
    except Exception:
        return {}
    on, nn = {x for x, _ in old}, {x for x, _ in new}
    a, b = [x for x in old if x[0] not in nn], [x for x in new if x[0] not in on]
    out = {}
    m = difflib.SequenceMatcher(None, [x[1] for x in a], [x[1] for x in b], autojunk=False)
    for i, j, n in m.get_matching_blocks():
        for k in range(n):
            out[a[i + k][0]] = b[j + k][0]
    ra, rb = [x for x in a if x[0] not in out], [x for x in b if x[0] not in out.values()]
    if len(ra) == len(rb):
        for x, y in zip(ra, rb):
            out[x[0]] = y[0]
    return out


def main():
    import sys
    src = sys.argv[1]
    res = {}
    for d, _, fs in os.walk(os.path.join(src, 'gitdb')):
        if 'test' in d:
            continue
        for f in sorted(fs):
            if not f.endswith('.py'):
                continue
            p = os.path.join(d, f)
            mod = os.path.relpath(p, src)[:-3].replace(os.sep, '.')
            if mod.endswith('.__init__'):
                mod = mod[:-9]

            def walk(n, q):
                for c in ast.iter_child_nodes(n):
                    if isinstance(c, ast.FunctionDef):
                        b = bindings(c)
                        if b:
                            res['%s:%s' % (mod, q + c.name)] = b
                        walk(c, q + c.name + '.<locals>.')
                    elif isinstance(c, ast.ClassDef):
                        walk(c, q + c.name + '.')
                    else:
                        walk(c, q)
            walk(ast.parse(open(p).read()), '')
    with open(PATH, 'w') as f:
        json.dump(res, f, indent=0, sort_keys=True)
        f.write('\n')


if __name__ == '__main__':
    main()
