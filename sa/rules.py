"""Rules: queries over the syntax tree / call graph, per property."""

REG = {}


def rule(*props):
    def deco(f):
        for p in props:
            REG.setdefault(p, []).append(f)
        return f
    return deco


def for_property(p):
    return REG.get(p, [])


@rule('C14')
def native_calls(E, repo):
    """inventory of the calls into the curve library and of the buffers handed over; each name must be one whose contract is modelled"""
    import ast
    from .libs import NATIVE
    sites, bad, fns, ex = 0, [], set(), []
    for m in package_modules(E):
        for fn, node in walk_functions(m):
            if isinstance(node, ast.Attribute) and node.attr.startswith('secp256k1_') and isinstance(node.ctx, ast.Load):
                sites += 1
                fns.add(f'{m.name}:{fn}')
                ex.append(f'{m.name}:{fn} {node.attr}')
                if node.attr[len('secp256k1_'):] not in NATIVE:
                    ex.append(f'{m.name}:{fn} {node.attr}: contract not modelled, callers are undecided')
    return dict(rule='native call sites and their contracts', sites=sites, violations=bad, examples=ex, functions=sorted(fns), floor=1)


def package_modules(E):
    return [t.args[0] for n, t in sorted(E.modules.items()) if n.split('.')[0] == 'bitcoinx' and hasattr(t.args[0], 'tree')]


def walk_functions(m):
    """(qualified name of the enclosing function, node) for each node of a module"""
    import ast

    def go(n, name):
        for c in ast.iter_child_nodes(n):
            q = name
            if isinstance(c, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                q = f'{name}.{c.name}' if name else c.name
            yield q or '<module>', c
            yield from go(c, q)
    yield from go(m.tree, '')
