"""Abstract interpreter for the Python subset used by the package (and by the reference models)."""
import ast
import os
import builtins as PB
from .core import *
from .terms import *
from . import terms as TT

OBJECT = Cls('object', (), builtin=True)
BC = {'object': OBJECT}


def bcls(name, *bases):
    c = Cls(name, [BC[b] for b in bases] or [OBJECT], builtin=True)
    BC[name] = c
    return c


for _n in ('type', 'int', 'float', 'complex', 'str', 'bytes', 'bytearray', 'tuple', 'list', 'dict', 'set',
           'frozenset', 'NoneType', 'function', 'module', 'memoryview', 'range', 'slice', 'generator',
           'property', 'classmethod', 'staticmethod', 'method', 'enumerate', 'zip', 'map', 'filter',
           'reversed', 'iterator', 'super', 'BytesIO', 'cdata', 'hashobj', 'mmap', 'Struct', 'array',
           'file', 'Pattern', 'Match', 'partial'):
    bcls(_n)
bcls('bool', 'int')
bcls('ellipsis')


def _exc(e):
    n = e.__name__
    if n in BC:
        return BC[n]
    bs = [_exc(b) for b in e.__bases__ if b is not object] or [OBJECT]
    BC[n] = Cls(n, bs, builtin=True)
    return BC[n]


for _n in dir(PB):
    _o = getattr(PB, _n)
    if isinstance(_o, type) and issubclass(_o, BaseException) and _o.__name__ == _n:
        _exc(_o)
bcls('struct.error', 'Exception')
bcls('NativeMemoryFault', 'BaseException')     # a call into C outside its contract: nothing catches it
bcls('binascii.Error', 'ValueError')
bcls('IntEnum', 'int')
bcls('Enum')
bcls('IntFlag', 'int')

KINDCLS = {'slice': 'slice', 'int': 'int', 'bool': 'bool', 'float': 'float', 'str': 'str', 'bytes': 'bytes', 'none': 'NoneType',
           'tuple': 'tuple'}

BIN = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.FloorDiv: 'floordiv', ast.Mod: 'mod',
       ast.Pow: 'pow', ast.LShift: 'lshift', ast.RShift: 'rshift', ast.BitAnd: 'and', ast.BitOr: 'or',
       ast.BitXor: 'xor', ast.Div: 'truediv', ast.MatMult: 'matmul'}
CMP = {ast.Lt: 'lt', ast.LtE: 'le', ast.Gt: 'gt', ast.GtE: 'ge'}
SWAP = {'lt': 'gt', 'le': 'ge', 'gt': 'lt', 'ge': 'le'}


class Hier:
    """class relations for type facts; classes are named by Cls host objects"""

    def rel(self, t, c):
        if t.sub(c):
            return True
        if c.sub(t):
            return None
        if t.builtin and c.builtin:
            return False
        return None

    def sub(self, a, b):
        return a.sub(b)


HIER = Hier()


def _scan_locals(node):
    names, glob, nonl = set(), set(), set()
    gen = [False]

    def tgt(n):
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                names.add(x.id)

    def go(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            names.add(n.name)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    names.add(x.target.id)
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            gen[0] = True
        if isinstance(n, ast.Global):
            glob.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                names.add((a.asname or a.name).split('.')[0])
        for c in ast.iter_child_nodes(n):
            go(c)
    for s in (node.body if isinstance(node.body, list) else [node.body]):
        go(s)
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        names.add(x.arg)
    if a.vararg:
        names.add(a.vararg.arg)
    if a.kwarg:
        names.add(a.kwarg.arg)
    return names - glob - nonl, glob, nonl, gen[0]


class StarSeq:
    """the last argument of a call f(.., *seq) with a sequence of unknown length"""
    def __init__(self, seq):
        self.seq = seq


def star_of(args):
    if args and args[-1].op == 'host' and isinstance(args[-1].args[0], StarSeq):
        return args[-1].args[0].seq
    return None


PLAIN = frozenset(('int', 'bool', 'float', 'str', 'bytes', 'bytearray', 'mview', 'list', 'tuple', 'seq', 'none', 'dict', 'set', 'range',
                   'inst', 'obj', 'cdata'))


class Interp(Explorer):
    def __init__(self, repo, extra=()):
        super().__init__()
        self.repo = repo
        self.roots = [(repo, 'bitcoinx')] + list(extra)
        self.st = State(HIER)
        TT.CTX.facts = self.st.facts
        self.fid = None
        self.modules = {}
        self.opaque = {}
        self.schema = {}
        self.ctor = {}
        self.asserts = True
        self.K = 2
        self.poisons = {}
        self.analysed = set()
        self.without = getattr(self, 'without', ())     # libraries taken as not installed
        self.sites = []
        self.loopdepth = 0
        self.notes = []
        self.builtins = {}
        self.libs = {}
        self.classes = {}
        self._locals = {}
        from . import models
        models.install(self)

    # ================================================================ modules
    def find_module(self, name):
        parts = name.split('.')
        for root, pkg in self.roots:
            if parts[0] != pkg:
                continue
            p = os.path.join(root, *parts)
            if os.path.isdir(p) and os.path.exists(os.path.join(p, '__init__.py')):
                return os.path.join(p, '__init__.py'), True
            if os.path.exists(p + '.py'):
                return p + '.py', False
        return None

    def import_module(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        loc = self.find_module(name)
        if loc is None:
            if name.split('.')[0] in self.without:
                self.py_raise('ModuleNotFoundError')
            lib = self.libs.get(name)
            if lib is None:
                lib = self.libs[name] = host(StubModule(name))
            return lib
        path, ispkg = loc
        with open(path, encoding='utf-8') as f:
            src = f.read()
        tree = ast.parse(src, path)
        fid = self.st.new_frame(None, 'module')
        mod = Module(name, fid)
        mod.path, mod.tree, mod.ispkg = path, tree, ispkg
        t = host(mod)
        self.modules[name] = t
        fr = self.st.frames[fid]
        fr['__name__'] = C(name)
        fr['__file__'] = C('/pkg/' + name.replace('.', '/') + '.py')
        fr['__doc__'] = NONEV
        old = self.fid, getattr(self, 'curfn', None)
        self.fid = fid
        self.curfn = None
        d0 = self.dec
        try:
            for s in tree.body:
                self.dec = Dec([])
                try:
                    self.exec(s)
                    if self.dec.prefix:
                        raise Undecided('module body forks')
                except (Undecided, PyRaise) as e:
                    why = f'{e}' if isinstance(e, Undecided) else f'raises {e.cls.name}'
                    self.poison_stmt(s, mod, why)
        finally:
            self.fid, self.curfn = old
            self.dec = d0
        if '.' in name:
            par, sub = name.rsplit('.', 1)
            pm = self.modules.get(par)
            if pm is not None and isinstance(pm.args[0], Module):
                self.st.wframe(pm.args[0].fid)[sub] = t
        return t

    def poison_stmt(self, s, mod, why):
        names = set()
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                names.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                names.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                names.update((a.asname or a.name).split('.')[0] for a in n.names)
        fr = self.st.wframe(mod.fid)
        for n in names:
            if n not in fr:
                fr[n] = POISON
        self.poisons[(mod.name, s.lineno)] = why

    # ================================================================ helpers
    def cls_of(self, v):
        op = v.op
        if op == 'ref':
            o = self.st.obj(v)
            if o.cls is not None:
                return o.cls
            return BC.get({'inst': 'object', 'gen': 'generator', 'iter': 'iterator', 'io': 'BytesIO',
                           'hash': 'hashobj'}.get(o.k, o.k), OBJECT)
        if op == 'host':
            o = v.args[0]
            if isinstance(o, Cls):
                return BC['type']
            if isinstance(o, (Fn, Builtin)):
                return BC['function']
            if isinstance(o, Bound):
                return BC['method']
            if isinstance(o, (Module, LibModule, StubModule)):
                return BC['module']
            return OBJECT
        if op == 'intsub':
            return v.args[0].args[0]
        if op == 'tuple' and len(v.args) > 1:
            return v.args[1].args[0]
        k = v.ty[0]
        if k == 'obj':
            return self.classes.get(v.ty[1])
        n = KINDCLS.get(k)
        if n:
            return BC[n]
        if k == 'seq':
            return BC['tuple'] if op == 'tuple' else BC['list']
        if k == 'fn':
            return BC['function']
        return None

    def kind(self, v):
        """coarse kind of a (resolved) value"""
        op = v.op
        if op == 'ref':
            return self.st.obj(v).k
        if op == 'host':
            return 'host'
        if op == 'intsub':
            return 'int'
        if op == 'tuple':
            return 'tuple'
        if op == 'poison':
            raise Undecided('use of an unmodelled value')
        return v.ty[0]

    def res(self, v):
        """resolve conditionals and optionals to a value of definite kind"""
        while True:
            if v.op == 'ite' and v.ty[0] not in ('int', 'bool', 'bytes', 'str'):
                v = v.args[1] if self.branch(v.args[0]) else v.args[2]
            elif v.ty[0] == 'opt':
                if self.branch(mk('isnone', (v,), BOOL)):
                    return NONEV
                v = mk('some', (v,), v.ty[1])
            elif v.ty[0] == 'union':
                for i, t in enumerate(v.ty[1][:-1]):
                    if self.branch(mk('isalt', (v, i), BOOL)):
                        v = mk('alt', (v, i), t)
                        break
                else:
                    v = mk('alt', (v, len(v.ty[1]) - 1), v.ty[1][-1])
            elif v.op == 'poison':
                raise Undecided('use of an unmodelled value')
            else:
                s = self.st.facts.eqsub.get(v)
                if s is not None and s.op == 'const':
                    return s
                return v

    def py_raise(self, name, msg=None):
        cls = BC[name] if isinstance(name, str) else name
        v = self.st.alloc(Obj('inst', cls, {'args': tup([C(msg)] if msg else [])}))
        raise PyRaise(v, cls, self.where())

    def type_error(self, *vs):
        """an operation the model has for none of these kinds: a TypeError where they are plain data, else unknown"""
        for v in vs:
            if self.kind(v) not in PLAIN:
                raise Undecided(f'operation not modelled on {self.kind(v)}')
        self.py_raise('TypeError')

    def where(self):
        fn = getattr(self, 'curfn', None)
        node = getattr(self, 'curnode', None)
        return (fn.qual if fn else '?', getattr(node, 'lineno', 0))

    def inst(self, cls, **f):
        return self.st.alloc(Obj('inst', cls, f))

    def new_list(self, seq):
        return self.st.alloc(Obj('list', None, None, seq))

    def event(self, kind, args, ty):
        n = sum(1 for e in self.st.events if e[0] == kind)
        r = mk('res', (n, kind) + tuple(args), ty)
        self.st.events.append((kind, tuple(args), r, self.where()))
        return r

    # ================================================================ truth
    def truth(self, v):
        v0 = v
        if v.ty == BOOL:
            return v
        if v.ty[0] == 'opt':
            inner = mk('some', (v,), v.ty[1])
            if inner.ty[0] in ('obj', 'fn'):
                return mk_not(mk('isnone', (v,), BOOL))
            v = self.res(v)
        if v.ty[0] == 'union' or v.op == 'ite' and v.ty[0] not in ('int', 'bool'):
            v = self.res(v)
        k = self.kind(v)
        if k == 'none':
            return FALSE
        if k == 'bool':
            return v
        if k == 'int':
            return mk_not(eq0(to_int(v)))
        if k in ('bytes', 'str', 'seq'):
            return mk_not(eq0(length(v)))
        if k == 'tuple':
            return mk_not(eq0(length(v.args[0])))
        if k in ('list', 'bytearray', 'array', 'range'):
            return mk_not(eq0(self.len_(v)))
        if k in ('dict', 'set'):
            return mk_not(eq0(self.len_(v)))
        if k in ('host', 'fn', 'gen', 'iter', 'io', 'hash', 'cdata'):
            return TRUE
        if k in ('inst', 'obj'):
            m = self.lookup_special(v, '__bool__')
            if m is not None:
                r = self.res(self.call(m, [], {}))
                return self.truth(r)
            m = self.lookup_special(v, '__len__')
            if m is not None:
                return self.truth(self.call(m, [], {}))
            o = self.st.obj(v) if v.op == 'ref' else None
            if o is not None and o.v is not None and type(o.v) in (dict,):
                return C(bool(o.v))
            return TRUE
        if k == 'float':
            if is_const(v):
                return C(bool(cval(v)))
            return mk('truthy', (v,), BOOL)
        if k == 'any':
            return mk('truthy', (v,), BOOL)
        raise Undecided(f'truth of {k}')

    def test(self, v):
        return self.branch(self.truth(v))

    # ================================================================ attributes
    def class_lookup(self, cls, name):
        for c in cls.mro:
            if c.oid is not None:
                o = self.st.heap[c.oid]
                if name in o.f:
                    return o.f[name], c
            elif name in c.ns:
                return c.ns[name], c
        return None, None

    def lookup_special(self, v, name):
        cls = self.cls_of(v)
        if cls is None or cls.builtin:
            return None
        a, owner = self.class_lookup(cls, name)
        if a is None or owner is OBJECT:
            return None
        return self.bind(a, v, cls)

    def bind(self, a, obj, cls):
        """descriptor protocol for class attribute `a` seen through instance obj (or None)"""
        if a.op == 'host':
            o = a.args[0]
            if isinstance(o, Fn):
                return host(Bound(a, obj)) if obj is not None else a
            if isinstance(o, Builtin) and getattr(o, 'method', False):
                return host(Bound(a, obj)) if obj is not None else a
            if isinstance(o, Deco):
                if o.kind == 'classmethod':
                    return host(Bound(o.fn, host(cls)))
                if o.kind == 'staticmethod':
                    return o.fn
                if o.kind == 'property':
                    return self.call(o.fn, [obj], {}) if obj is not None else a
        elif a.op == 'ref':
            ac = self.st.obj(a).cls
            if ac is not None and not ac.builtin:
                g, _ = self.class_lookup(ac, '__get__')
                if g is not None:
                    return self.call(g, [a, obj if obj is not None else NONEV, host(cls)], {})
        return a

    def getattr(self, v, name, default=None):
        r = self.getattr_(v, name)
        if r is None:
            if default is not None:
                return default
            self.py_raise('AttributeError', name)
        if r.op == 'poison':
            raise Undecided(f'unmodelled value {name}')
        return r

    def getattr_(self, v, name):
        v = self.res(v)
        if v.op == 'host':
            return self.host_attr(v, v.args[0], name)
        if v.op == 'ref':
            o = self.st.obj(v)
            if o.k == 'inst' or (o.cls is not None and not o.cls.builtin):
                cls = o.cls
                a, owner = self.class_lookup(cls, name)
                if a is not None and self.is_data_desc(a):
                    return self.bind(a, v, cls)
                if name in o.f:
                    return o.f[name]
                if name == '__class__':
                    return host(cls)
                if name == '__dict__':
                    raise Undecided('__dict__')
                if a is not None:
                    return self.bind(a, v, cls)
                if cls.sub(BC['BaseException']):
                    if name == 'args':
                        return o.f.get('args', tup([]))
                    if name in ('__cause__', '__context__', '__traceback__'):
                        return NONEV
                ga, _ = self.class_lookup(cls, '__getattr__')
                if ga is not None:
                    return self.call(ga, [v, C(name)], {})
                if o.v is not None:
                    return self.builtin_attr(v, o.k if o.k != 'inst' else self.content_kind(o), name)
                return None
            if name in o.f and o.k not in ('list',):
                return o.f[name]
            return self.builtin_attr(v, o.k, name)
        if v.ty[0] == 'obj':
            return self.sym_attr(v, name)
        cls = self.cls_of(v)
        if cls is not None and not cls.builtin:
            a, owner = self.class_lookup(cls, name)
            if a is not None and not owner.builtin:
                return self.bind(a, v, cls)
            if cls.fields and name in cls.fields:
                return elem(v.args[0], C(cls.fields.index(name)))
            if cls.enum is not None and name in ('name', 'value'):
                return self.enum_attr(v, cls, name)
            if name == '__class__':
                return host(cls)
        if name == '__class__' and cls is not None:
            return host(cls)
        if v.op == 'slice' and name in ('start', 'stop', 'step'):
            return v.args[('start', 'stop', 'step').index(name)]
        if v.ty == ANY or v.ty[0] == 'any':
            raise Undecided(f'attribute {name} of a value of unknown type')
        return self.builtin_attr(v, self.kind(v), name)

    def content_kind(self, o):
        for c in o.cls.mro:
            if c.builtin and c.name in ('dict', 'list', 'bytes', 'int', 'str', 'set'):
                return c.name
        return 'object'

    def is_data_desc(self, a):
        return a.op == 'host' and isinstance(a.args[0], Deco) and a.args[0].kind == 'property'

    def enum_attr(self, v, cls, name):
        val = to_int(v)
        if name == 'value':
            return val
        if is_const(val):
            for n, m in cls.enum.items():
                if to_int(m) is val:
                    return C(n)
        tbl = {}
        for n, m in cls.enum.items():
            tbl.setdefault(cval(to_int(m)), n)
        return mk('lookup', (tuple(sorted(tbl.items())), val), STR)

    def sym_attr(self, v, name):
        cls = self.classes.get(v.ty[1])
        sch = self.schema.get(v.ty[1], {})
        if cls is not None:
            a, owner = self.class_lookup(cls, name)
            if a is not None and not (name in sch):
                return self.bind(a, v, cls)
        if name in sch:
            t = sch[name]
            if callable(t):
                return t(self, v)
            return mk('attr', (v, name), t)
        sh = self.shadow(v)
        if sh is not None:
            return self.getattr_(sh, name)
        if cls is not None:
            raise Undecided(f'field {name} of symbolic {v.ty[1]}')
        raise Undecided(f'attribute {name} of {v.ty}')

    def shadow(self, v):
        """an instance standing for a symbolic object, made by the class's own constructor"""
        ct = self.ctor.get(v.ty[1])
        cls = self.classes.get(v.ty[1])
        if ct is None or cls is None:
            return None
        try:
            return self.instantiate(cls, [mk('attr', (v, n), t) for n, t in ct], {})
        except PyRaise:
            raise Infeasible()

    def host_attr(self, v, o, name):
        if isinstance(o, Module):
            fr = self.st.frames[o.fid]
            if name in fr:
                return fr[name]
            sub = self.find_module(o.name + '.' + name)
            if sub and getattr(o, 'ispkg', False):
                return self.import_module(o.name + '.' + name)
            return None
        if isinstance(o, LibModule):
            r = o.ns.get(name)
            if r is None:
                raise Undecided(f'library attribute {o.name}.{name}')
            return r
        if isinstance(o, StubModule):
            raise Undecided(f'unmodelled library {o.name}.{name}')
        if isinstance(o, Cls):
            if name == '__name__':
                return C(o.name.split('.')[-1])
            if name == '__qualname__':
                return C(o.name)
            if name == '__members__' and o.enum is not None:
                return self.st.alloc(Obj('dict', None, None, {C(n): m for n, m in o.enum.items()}))
            if name == '__mro__':
                return tup([host(c) for c in o.mro])
            if name == '__class__':
                return host(BC['type'])
            a, owner = self.class_lookup(o, name)
            if a is None:
                for c in o.mro:
                    if c.builtin:
                        r = self.builtin_cls_attr(c, name, o)
                        if r is not None:
                            return r
                return None
            return self.bind(a, None, o)
        if isinstance(o, Super):
            mro = self.cls_of(o.obj).mro if not (o.obj.op == 'host') else o.obj.args[0].mro
            i = mro.index(o.cls) + 1
            for c in mro[i:]:
                ns = self.st.heap[c.oid].f if c.oid is not None else c.ns
                if name in ns:
                    if o.obj.op == 'host':
                        return self.bind(ns[name], None, o.obj.args[0])
                    return self.bind(ns[name], o.obj, self.cls_of(o.obj))
                if c.builtin:
                    r = self.builtin_super(c, name, o.obj)
                    if r is not None:
                        return r
            return None
        if isinstance(o, (Fn,)):
            if name == '__name__':
                return C(o.name)
            if name in ('__doc__',):
                return NONEV
            if name == '__qualname__':
                return C(f'{o.cls}.{o.name}' if o.cls else o.name)
            at = getattr(o, 'attrs', None)
            if at and name in at:
                return at[name]
            return None
        if isinstance(o, Bound):
            if name == '__self__':
                return o.self_
            if name == '__func__':
                return o.fn
            if name == '__name__':
                return self.getattr_(o.fn, '__name__')
            return None
        if isinstance(o, Builtin):
            if name == '__name__':
                return C(o.name)
            r = getattr(o, 'attrs', {}).get(name)
            return r
        if isinstance(o, Deco):
            if o.kind == 'property' and name in ('setter', 'getter', 'deleter'):
                def impl(E, a, k, o=o, name=name):
                    if name == 'setter':
                        return host(Deco('property', o.fn, a[0]))
                    return host(o)
                return host(Builtin('property.' + name, impl))
            return None
        r = getattr(o, 'attr', None)
        if r is not None:
            return r(self, name)
        raise Undecided(f'attribute {name} of {o!r}')

    def setattr(self, v, name, val):
        v = self.res(v)
        if v.op == 'ref':
            o = self.st.obj(v)
            if o.k == 'inst' or o.cls is not None:
                a, owner = self.class_lookup(o.cls, name)
                if a is not None and self.is_data_desc(a):
                    if a.args[0].fset is None:
                        self.py_raise('AttributeError')
                    self.call(a.args[0].fset, [v, val], {})
                    return
                sa, ow = self.class_lookup(o.cls, '__setattr__')
                if sa is not None and not ow.builtin:
                    self.call(sa, [v, C(name), val], {})
                    return
                self.st.wobj(v).f[name] = val
                return
        if v.op == 'host':
            o = v.args[0]
            if isinstance(o, Cls) and o.oid is not None:
                self.st.wobj(o.oid).f[name] = val
                return
            if isinstance(o, Module):
                self.st.wframe(o.fid)[name] = val
                return
            if isinstance(o, Fn):
                if not hasattr(o, 'attrs'):
                    o.attrs = {}
                o.attrs[name] = val
                return
        if v.ty[0] == 'obj':
            cls = self.classes.get(v.ty[1])
            if cls is not None and self.class_lookup(cls, name)[0] is not None:
                return                       # a cache of a computed attribute
            self.event('setattr', (v, C(name), val), NONE)
            return
        raise Undecided(f'attribute assignment {name} on {v!r}'[:200])

    # ================================================================ names
    def load_name(self, name):
        fid = self.fid
        first = True
        while fid is not None:
            fr = self.st.frames[fid]
            if name in fr:
                v = fr[name]
                if v.op == 'poison':
                    raise Undecided(f'value of {name} not modelled')
                return v
            if first and fr['$kind'] == 'fn' and name in fr['$locals']:
                self.py_raise('UnboundLocalError', name)
            if first and fr['$kind'] == 'fn' and name in fr.get('$globals', ()):
                fid = self.mod_fid(fid)
                continue
            first = first and fr['$kind'] == 'comp'
            fid = fr['$parent']
            while fid is not None and self.st.frames[fid]['$kind'] == 'class':
                fid = self.st.frames[fid]['$parent']
        v = self.builtins.get(name)
        if v is None:
            if name in BC:
                return host(BC[name])
            if hasattr(PB, name):
                raise Undecided(f'builtin {name} not modelled')
            self.py_raise('NameError', name)
        return v

    def mod_fid(self, fid):
        while self.st.frames[fid]['$parent'] is not None:
            fid = self.st.frames[fid]['$parent']
        return fid

    def store_name(self, name, v):
        fid = self.fid
        fr = self.st.frames[fid]
        while fr['$kind'] == 'comp' and name not in fr.get('$locals', ()):
            fid = fr['$parent']
            fr = self.st.frames[fid]
        if fr['$kind'] == 'fn':
            if name in fr['$globals']:
                fid = self.mod_fid(fid)
            elif name in fr['$nonlocals']:
                fid = fr['$parent']
                while fid is not None and name not in self.st.frames[fid]:
                    fid = self.st.frames[fid]['$parent']
                if fid is None:
                    raise Undecided('nonlocal')
        self.st.wframe(fid)[name] = v

    # ================================================================ statements
    def exec_block(self, body):
        for s in body:
            self.exec(s)

    def exec(self, s):
        self.curnode = s
        getattr(self, 'x_' + type(s).__name__, self.x_unsupported)(s)

    def x_unsupported(self, s):
        raise Undecided(f'statement {type(s).__name__} at line {s.lineno}')

    def x_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value)

    def x_Pass(self, s):
        pass

    def x_Return(self, s):
        raise Ret(self.ev(s.value) if s.value is not None else NONEV)

    def x_Break(self, s):
        raise Brk()

    def x_Continue(self, s):
        raise Cont()

    def x_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def x_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def x_AugAssign(self, s):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.load_name(t.id)
            self.store_name(t.id, self.inplace(type(s.op), cur, self.ev(s.value)))
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            cur = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.inplace(type(s.op), cur, self.ev(s.value)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            i = self.ev(t.slice)
            cur = self.getitem(o, i)
            self.setitem(o, i, self.inplace(type(s.op), cur, self.ev(s.value)))
        else:
            raise Undecided('augmented assignment')

    def inplace(self, op, cur, v):
        cur = self.res(cur)
        if cur.op == 'ref':
            k = self.kind(cur)
            if op is ast.Add and k == 'list':
                self.call(self.getattr(cur, 'extend'), [v], {})
                return cur
            if op is ast.Add and k == 'bytearray':
                self.call(self.getattr(cur, 'extend'), [v], {})
                return cur
            if k == 'inst':
                m = self.lookup_special(cur, f'__i{BIN[op]}__')
                if m is not None:
                    return self.call(m, [v], {})
            if k == 'set' and op is ast.BitOr:
                self.call(self.getattr(cur, 'update'), [v], {})
                return cur
        return self.binop(op, cur, v)

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value), self.ev_slice(t.slice), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        else:
            raise Undecided('assignment target')

    def unpack(self, elts, v):
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        q = self.as_seq(v)
        n = length(q)
        if not star:
            if not self.branch(mk_eq(n, C(len(elts)))):
                self.py_raise('ValueError', 'unpack')
            for i, e in enumerate(elts):
                self.assign(e, elem(q, C(i)))
            return
        k = star[0]
        after = len(elts) - k - 1
        if not self.branch(le(C(len(elts) - 1), n)):
            self.py_raise('ValueError', 'unpack')
        for i in range(k):
            self.assign(elts[i], elem(q, C(i)))
        end = isub(n, C(after))
        self.assign(elts[k].value, self.new_list(sl(q, C(k), end)))
        for i in range(after):
            self.assign(elts[k + 1 + i], elem(q, iadd(end, C(i))))

    def x_If(self, s):
        if self.test(self.ev(s.test)):
            self.exec_block(s.body)
        else:
            self.exec_block(s.orelse)

    def x_Assert(self, s):
        if not self.asserts:
            return
        if not self.test(self.ev(s.test)):
            self.curnode = s
            self.py_raise('AssertionError')

    def x_Raise(self, s):
        if s.exc is None:
            cur = getattr(self, 'handling', None)
            if not cur:
                raise Undecided('bare raise')
            raise cur[-1]
        e = s.exc
        if isinstance(e, ast.Call):
            c = self.res(self.ev(e.func))
            if c.op == 'host' and isinstance(c.args[0], Cls) and c.args[0].sub(BC['BaseException']):
                cls = c.args[0]
                init, owner = self.class_lookup(cls, '__init__')
                if init is None or owner.builtin:
                    args = []
                    for a in e.args:
                        try:
                            args.append(self.ev(a))
                        except Undecided:
                            args.append(mk('opaque', ('msg',), STR))
                    self.curnode = s
                    x = PyRaise(self.st.alloc(Obj('inst', cls, {'args': tup(args)})), cls, self.where())
                    x.explicit = True
                    raise x
            v = self.call(c, [self.ev(a) for a in e.args], {k.arg: self.ev(k.value) for k in e.keywords})
        else:
            v = self.ev(e)
        self.curnode = s
        self.raise_value(v)

    def raise_value(self, v):
        v = self.res(v)
        if v.op == 'host' and isinstance(v.args[0], Cls):
            v = self.call(v, [], {})
        cls = self.cls_of(v)
        if cls is None or not cls.sub(BC['BaseException']):
            self.py_raise('TypeError')
        x = PyRaise(v, cls, self.where())
        x.explicit = True
        raise x

    def exc_match(self, e, t):
        t = self.res(t)
        if t.op == 'tuple':
            return any(self.exc_match(e, x) for x in self.const_items(t))
        if t.op == 'host' and isinstance(t.args[0], Cls):
            return e.cls.sub(t.args[0])
        raise Undecided('exception pattern')

    def x_Try(self, s):
        def main():
            try:
                self.exec_block(s.body)
            except PyRaise as e:
                for h in s.handlers:
                    if h.type is None or self.exc_match(e, self.ev(h.type)):
                        if h.name:
                            self.store_name(h.name, e.val)
                        hs = getattr(self, 'handling', [])
                        self.handling = hs + [e]
                        try:
                            self.exec_block(h.body)
                        finally:
                            self.handling = hs
                        return
                raise
            self.exec_block(s.orelse)
        if not s.finalbody:
            main()
            return
        try:
            main()
        except (PyRaise, Ret, Brk, Cont) as e:
            self.exec_block(s.finalbody)
            raise e
        self.exec_block(s.finalbody)

    def x_With(self, s):
        self.with_items(s.items, s.body)

    def with_items(self, its, body):
        if not its:
            self.exec_block(body)
            return
        it = its[0]
        cm = self.res(self.ev(it.context_expr))
        v = self.call(self.getattr(cm, '__enter__'), [], {})
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v)
        try:
            self.with_items(its[1:], body)
        except PyRaise as e:
            r = self.call(self.getattr(cm, '__exit__'), [host(e.cls), e.val, NONEV], {})
            if self.test(r):
                return
            raise
        except (Ret, Brk, Cont):
            self.call(self.getattr(cm, '__exit__'), [NONEV, NONEV, NONEV], {})
            raise
        self.call(self.getattr(cm, '__exit__'), [NONEV, NONEV, NONEV], {})

    def x_Global(self, s):
        pass

    x_Nonlocal = x_Global

    def x_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr = self.st.wframe(self.fid)
                fr.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                self.delitem(self.ev(t.value), self.ev_slice(t.slice))
            else:
                raise Undecided('del')

    def x_Import(self, s):
        for a in s.names:
            m = self.import_module(a.name)
            if a.asname:
                self.store_name(a.asname, m)
            else:
                top = a.name.split('.')[0]
                self.store_name(top, m if top == a.name else self.import_module(top))

    def x_ImportFrom(self, s):
        name = s.module or ''
        if s.level:
            cur = self.st.frames[self.mod_fid(self.fid)]['__name__']
            base = cval(cur).split('.')
            m0 = self.modules.get(cval(cur))
            if m0 is not None and m0.args[0].ispkg:
                base = base[:len(base) - (s.level - 1)]
            else:
                base = base[:-s.level]
            name = '.'.join(base + ([name] if name else []))
        m = self.import_module(name)
        for a in s.names:
            if a.name == '*':
                fr = self.st.frames[m.args[0].fid]
                allv = fr.get('__all__')
                if allv is not None:
                    names = [cval(x) for x in self.const_items(allv)]
                else:
                    names = [n for n in fr if not n.startswith(('_', '$'))]
                for n in names:
                    self.store_name(n, fr[n])
                continue
            try:
                v = self.getattr_(m, a.name)
            except Undecided:
                v = None
                if not isinstance(m.args[0], (StubModule, LibModule)):
                    raise
                v = POISON
                sub = self.libs.get(name + '.' + a.name)
                if sub is not None:
                    v = sub
            if v is None:
                if self.find_module(name + '.' + a.name):
                    v = self.import_module(name + '.' + a.name)
                else:
                    self.py_raise('ImportError')
            self.store_name(a.asname or a.name, v)

    def x_FunctionDef(self, s):
        fn = self.make_fn(s.name, s)
        v = host(fn)
        for d in reversed(s.decorator_list):
            v = self.apply_deco(self.ev(d), v)
        self.store_name(s.name, v)

    def apply_deco(self, d, v):
        if d.op == 'host' and isinstance(d.args[0], Cls) and d.args[0].builtin and \
                d.args[0].name in ('classmethod', 'staticmethod', 'property'):
            return host(Deco(d.args[0].name, v))
        return self.call(d, [v], {})

    def make_fn(self, name, node):
        fr = self.st.frames[self.fid]
        parent = self.fid
        cls = None
        if fr['$kind'] == 'class':
            parent = fr['$parent']
            cls = fr['$cls']
        mod = self.module_of(self.fid)
        fn = Fn(name, node, mod, parent, cls)
        fn.defaults = [self.ev(d) for d in node.args.defaults]
        fn.kwdefaults = {a.arg: self.ev(d) for a, d in zip(node.args.kwonlyargs, node.args.kw_defaults)
                         if d is not None}
        info = self._locals.get(node)
        if info is None:
            info = self._locals[node] = _scan_locals(node)
        fn.localnames, fn.globs, fn.nonl, fn.gen = info
        if isinstance(node, ast.Lambda):
            fn.gen = False
        return fn

    def module_of(self, fid):
        m = self.mod_fid(fid)
        for t in self.modules.values():
            if isinstance(t.args[0], Module) and t.args[0].fid == m:
                return t.args[0]
        return None

    def x_ClassDef(self, s):
        bases = [self.res(self.ev(b)) for b in s.bases]
        bs = []
        for b in bases:
            if b.op != 'host' or not isinstance(b.args[0], Cls):
                raise Undecided(f'base class of {s.name}')
            bs.append(b.args[0])
        if s.keywords:
            raise Undecided('class keywords')
        mod = self.module_of(self.fid)
        cls = Cls(s.name, bs or [OBJECT], mod)
        cls.node = s
        cls.fields = next((b.fields for b in bs if b.fields), None)
        fid = self.st.new_frame(self.fid, 'class')
        self.st.frames[fid]['$cls'] = s.name
        self.st.frames[fid]['__qualname__'] = C(s.name)
        self.st.frames[fid]['__module__'] = C(mod.name if mod else '?')
        old = self.fid
        self.fid = fid
        try:
            self.exec_block(s.body)
        finally:
            self.fid = old
        ns = {k: v for k, v in self.st.frames[fid].items() if not k.startswith('$')}
        ref = self.st.alloc(Obj('clsns', None, ns))
        cls.oid = ref.args[0]
        for v in ns.values():
            f = v
            if f.op == 'host' and isinstance(f.args[0], Deco):
                f = f.args[0].fn
            if f.op == 'host' and isinstance(f.args[0], Fn) and f.args[0].cls == s.name:
                f.args[0].owner = cls
        if any(c.builtin and c.name in ('IntEnum', 'Enum', 'IntFlag') for c in cls.mro):
            self.make_enum(cls, ns)
        for b in cls.mro[1:]:
            if b.oid is not None:
                h = self.st.heap[b.oid].f.get('__init_subclass__')
                if h is not None:
                    self.call(self.bind(h, None, cls) if isinstance(h.args[0], Deco)
                              else host(Bound(h, host(cls))), [], {})
                    break
        v = host(cls)
        self.classes.setdefault(s.name, cls)
        for k, a in list(ns.items()):          # __set_name__
            if a.op == 'ref':
                ac = self.st.obj(a).cls
                if ac is not None and not ac.builtin:
                    sn, _ = self.class_lookup(ac, '__set_name__')
                    if sn is not None:
                        self.call(sn, [a, v, C(k)], {})
        for d in reversed(s.decorator_list):
            v = self.call(self.ev(d), [v], {})
        self.store_name(s.name, v)

    def make_enum(self, cls, ns):
        cls.enum = {}
        f = self.st.wobj(cls.oid).f
        isint = cls.sub(BC['int'])
        for k, v in ns.items():
            if k.startswith('_') or not (v.op in ('const', 'intsub')):
                continue
            if isint:
                m = mk('intsub', (host(cls), to_int(v)), ('int', cval(to_int(v)), cval(to_int(v))))
            else:
                m = mk('enumval', (host(cls), v), ('obj', cls.name))
            cls.enum[k] = m
            f[k] = m

    # ================================================================ loops
    def x_For(self, s):
        it = self.ev(s.iter)
        fid = self.fid

        def body(v):
            old, self.fid = self.fid, fid
            try:
                self.assign(s.target, v)
                try:
                    self.exec_block(s.body)
                except Cont:
                    pass
            finally:
                self.fid = old
        try:
            self.iterate(it, body, s)
        except Brk:
            self.fid = fid
            return
        self.fid = fid
        self.exec_block(s.orelse)

    def x_While(self, s):
        from .loops import while_loop, plain
        s = plain(s)
        if isinstance(s, ast.For):
            self.x_For(s)
        else:
            while_loop(self, s)

    def iterate(self, it, cb, node=None):
        from .loops import iterate
        iterate(self, it, cb, node)

    def to_seq(self, it):
        """materialise an iterable as a sequence term"""
        from .loops import to_seq
        return to_seq(self, it)

    # ================================================================ expressions
    def ev(self, e):
        return getattr(self, 'e_' + type(e).__name__, self.e_unsupported)(e)

    def e_unsupported(self, e):
        raise Undecided(f'expression {type(e).__name__} at line {getattr(e, "lineno", 0)}')

    def e_Constant(self, e):
        return C(e.value)

    def e_Name(self, e):
        return self.load_name(e.id)

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.store_name(e.target.id, v)
        return v

    def e_Attribute(self, e):
        return self.getattr(self.ev(e.value), e.attr)

    def e_Lambda(self, e):
        return host(self.make_fn('<lambda>', e))

    def elts(self, es):
        parts = []
        for x in es:
            if isinstance(x, ast.Starred):
                parts.append(self.as_seq(self.ev(x.value)))
            else:
                parts.append(items([self.ev(x)]))
        return cat('q', parts)

    def e_Tuple(self, e):
        return tup_seq(self.elts(e.elts))

    def e_List(self, e):
        return self.new_list(self.elts(e.elts))

    def e_Set(self, e):
        r = self.st.alloc(Obj('set', None, None, {}))
        for x in e.elts:
            self.set_add(r, self.ev(x))
        return r

    def e_Dict(self, e):
        r = self.st.alloc(Obj('dict', None, None, {}))
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.call(self.getattr(r, 'update'), [self.ev(v)], {})
            else:
                kk = self.ev(k)
                self.setitem(r, kk, self.ev(v))
        return r

    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        if isinstance(e.op, ast.Not):
            return mk_not(self.truth(v))
        v = self.res(v)
        k = self.kind(v)
        if k in ('int', 'bool'):
            v = self.num(v)
            if isinstance(e.op, ast.USub):
                return ineg(v)
            if isinstance(e.op, ast.UAdd):
                return v
            return iinvert(v)
        if k == 'float':
            return mk('fop', ('neg', v), ('float',))
        name = {ast.USub: '__neg__', ast.UAdd: '__pos__', ast.Invert: '__invert__'}[type(e.op)]
        m = self.lookup_special(v, name)
        if m is not None:
            return self.call(m, [], {})
        if k == 'any':
            raise Undecided('unary operator on unknown')
        self.type_error(v)

    def num(self, v):
        """int value of an int-or-bool term"""
        v = to_int(v)
        if v.ty == BOOL and v.op != 'const':
            return C(1) if self.branch(v) else C(0)
        return v

    def e_BinOp(self, e):
        a = self.ev(e.left)
        b = self.ev(e.right)
        self.curexpr = e
        return self.binop(type(e.op), a, b)

    def binop(self, op, a, b):
        from .models import binop
        return binop(self, op, a, b)

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)
        for x in e.values[:-1]:
            v = self.ev(x)
            t = self.test(v)
            if t != isand:
                if v.ty == BOOL:
                    return C(t)
                return v
        return self.ev(e.values[-1])

    def e_IfExp(self, e):
        return self.ev(e.body if self.test(self.ev(e.test)) else e.orelse)

    def e_Compare(self, e):
        a = self.ev(e.left)
        n = len(e.ops)
        for i, (op, x) in enumerate(zip(e.ops, e.comparators)):
            b = self.ev(x)
            r = self.compare(type(op), a, b)
            if i == n - 1:
                return r
            if not self.test(r):
                return FALSE if r.ty == BOOL else r
            a = b

    def compare(self, op, a, b):
        from .models import compare
        return compare(self, op, a, b)

    def eq(self, a, b):
        return self.compare(ast.Eq, a, b)

    def e_Subscript(self, e):
        o = self.ev(e.value)
        return self.getitem(o, self.ev_slice(e.slice))

    def ev_slice(self, s):
        if isinstance(s, ast.Slice):
            f = lambda x: self.ev(x) if x is not None else NONEV
            return mk('slice', (f(s.lower), f(s.upper), f(s.step)), SLICE)
        return self.ev(s)

    def e_Slice(self, s):
        return self.ev_slice(s)

    def getitem(self, o, i):
        from .models import getitem
        return getitem(self, o, i)

    def setitem(self, o, i, v):
        from .models import setitem
        setitem(self, o, i, v)

    def delitem(self, o, i):
        from .models import delitem
        delitem(self, o, i)

    def set_add(self, r, v):
        from .models import set_add
        set_add(self, r, v)

    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(C(v.value))
            else:
                x = self.ev(v.value)
                spec = self.e_JoinedStr(v.format_spec) if v.format_spec is not None else C('')
                if v.conversion == 114:
                    x = self.call(self.builtins['repr'], [x], {})
                elif v.conversion == 115:
                    x = self.str_(x)
                parts.append(self.format(x, spec))
        return cat('s', parts)

    def format(self, x, spec):
        from .models import format_
        return format_(self, x, spec)

    def str_(self, v):
        from .models import str_
        return str_(self, v)

    def len_(self, v):
        from .models import len_
        return len_(self, v)

    def as_seq(self, v):
        return self.to_seq(v)

    def const_items(self, v):
        q = self.as_seq(v)
        n = length(q)
        if not is_const(n):
            raise Undecided('sequence of unknown length')
        return [elem(q, C(i)) for i in range(cval(n))]

    # comprehensions
    def comp(self, e, emit):
        fid = self.st.new_frame(self.fid, 'comp')
        names = set()
        for g in e.generators:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    names.add(x.id)
        self.st.frames[fid]['$locals'] = frozenset(names)
        outer = self.fid
        first = self.ev(e.generators[0].iter)

        def run(k):
            if k == len(e.generators):
                emit()
                return
            g = e.generators[k]
            it = first if k == 0 else self.ev(g.iter)

            def body(v):
                old, self.fid = self.fid, fid
                try:
                    self.assign(g.target, v)
                    for c in g.ifs:
                        if not self.test(self.ev(c)):
                            return
                    run(k + 1)
                finally:
                    self.fid = old
            self.iterate(it, body, e)
        old, self.fid = self.fid, fid
        try:
            run(0)
        finally:
            self.fid = old

    def e_ListComp(self, e):
        r = self.new_list(items(()))

        def emit():
            v = self.ev(e.elt)
            o = self.st.wobj(r)
            o.v = cat('q', [o.v, items([v])])
        self.comp(e, emit)
        return r

    def e_SetComp(self, e):
        r = self.st.alloc(Obj('set', None, None, {}))
        self.comp(e, lambda: self.set_add(r, self.ev(e.elt)))
        return r

    def e_DictComp(self, e):
        r = self.st.alloc(Obj('dict', None, None, {}))

        def emit():
            k = self.ev(e.key)
            self.setitem(r, k, self.ev(e.value))
        self.comp(e, emit)
        return r

    def e_GeneratorExp(self, e):
        # first iterable is evaluated now, the rest lazily
        first = self.ev(e.generators[0].iter)
        fid = self.fid

        def run(hook):
            old, self.fid = self.fid, fid
            cf = self.st.new_frame(self.fid, 'comp')
            names = {x.id for g in e.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            self.st.frames[cf]['$locals'] = frozenset(names)

            def go(k):
                if k == len(e.generators):
                    v = self.ev(e.elt)
                    hook(v)
                    return
                g = e.generators[k]
                it = first if k == 0 else self.ev(g.iter)

                def body(v):
                    o2, self.fid = self.fid, cf
                    try:
                        self.assign(g.target, v)
                        for c in g.ifs:
                            if not self.test(self.ev(c)):
                                return
                        go(k + 1)
                    finally:
                        self.fid = o2
                self.iterate(it, body, e)
            self.fid = cf
            try:
                go(0)
            finally:
                self.fid = old
        o = Obj('gen', None, {}, run)
        return self.st.alloc(o)

    def e_Yield(self, e):
        v = self.ev(e.value) if e.value is not None else NONEV
        fid = self.fid
        f = fid
        while '$yield' not in self.st.frames[f]:
            f = self.st.frames[f]['$parent']
        self.st.frames[f]['$yield'](v)
        self.fid = fid
        return NONEV

    def e_YieldFrom(self, e):
        it = self.ev(e.value)
        fid = self.fid
        hook = self.st.frames[fid]['$yield']
        self.iterate(it, hook, e)
        self.fid = fid
        return NONEV

    def e_Starred(self, e):
        raise Undecided('starred')

    # ================================================================ calls
    def e_Call(self, e):
        f = e.func
        if isinstance(f, ast.Name) and f.id == 'super' and not e.args:
            return self.zero_super()
        fn = self.ev(f)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                q = self.as_seq(self.ev(a.value))
                if a is e.args[-1] and not is_const(length(q)):
                    args.append(host(StarSeq(q)))
                else:
                    args.extend(self.const_items(q))
            else:
                args.append(self.ev(a))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.res(self.ev(k.value))
                if self.kind(d) != 'dict':
                    raise Undecided('** argument')
                for kk, vv in self.st.obj(d).v.items():
                    kw[cval(kk)] = vv
            else:
                kw[k.arg] = self.ev(k.value)
        self.curexpr = e
        return self.call(fn, args, kw)

    def zero_super(self):
        fid = self.fid
        while '$fn' not in self.st.frames[fid]:
            fid = self.st.frames[fid]['$parent']
        fr = self.st.frames[fid]
        fn = fr['$fn']
        first = fn.node.args.args[0].arg
        return host(Super(fn.owner, fr[first]))

    def call(self, f, args, kw=None):
        kw = kw or {}
        f = self.res(f)
        if f.op == 'host':
            o = f.args[0]
            if isinstance(o, Fn):
                return self.call_fn(o, args, kw)
            if isinstance(o, Bound):
                return self.call(o.fn, [o.self_] + list(args), kw)
            if isinstance(o, Builtin):
                if star_of(args):
                    raise Undecided('call with a sequence of unknown length')
                return o.impl(self, args, kw)
            if isinstance(o, Cls):
                if star_of(args) and o.builtin:
                    raise Undecided('call with a sequence of unknown length')
                return self.instantiate(o, args, kw)
            c = getattr(o, 'call', None)
            if c is not None:
                return c(self, args, kw)
            raise Undecided(f'call of {o!r}')
        if f.op == 'ref':
            m = self.lookup_special(f, '__call__')
            if m is not None:
                return self.call(m, args, kw)
            self.type_error(f)
        if f.ty[0] == 'fn':
            return self.call_sym(f, args, kw)
        if f.ty == ANY:
            raise Undecided('call of an unknown value')
        self.py_raise('TypeError')

    def call_sym(self, f, args, kw):
        """call of a callable parameter: ('fn', mode, result type, raises)"""
        _, mode, rty = f.ty[:3]
        if kw:
            args = list(args) + [x for k in sorted(kw) for x in (C(k), kw[k])]
        args = tuple(self.reify(a) for a in args)
        if mode == 'pure':
            return mk('app', (f,) + args, rty)
        if mode == 'read':
            n = args[0] if args else C(-1)
            r = self.event('read', (f,) + args, BYTES)
            if self.branch(ge0(n)):
                self.assume(le(length(r), n))
                # a shorter result means the stream ended
            return r
        r = self.event('call', (f,) + args, rty)
        if len(f.ty) > 3 and f.ty[3]:
            if self.branch(mk('raises', (r,), BOOL)):
                self.py_raise(f.ty[3])
        return r

    def bind_args(self, fn, args, kw):
        a = fn.node.args
        pos = a.posonlyargs + a.args
        fr = {}
        n = len(pos)
        kw = dict(kw)
        rest = star_of(args)
        if rest is not None:
            args = list(args[:-1])
            room, k = max(0, n - len(args)), 0
            while k < room and not self.branch(le(length(rest), C(k))):
                args.append(elem(rest, C(k)))
                k += 1
            rest = sl(rest, C(k), length(rest)) if k == room else None
            if rest is not None and a.vararg is None:
                if not self.branch(eq0(length(rest))):
                    self.py_raise('TypeError', f'{fn.name} arguments')
                rest = None
        for i, v in enumerate(args[:n]):
            fr[pos[i].arg] = v
        if len(args) > n:
            if a.vararg is None:
                self.py_raise('TypeError', f'{fn.name} arguments')
            fr[a.vararg.arg] = tup(args[n:]) if rest is None else tup_seq(cat('q', [items(args[n:]), rest]))
        elif rest is not None:
            fr[a.vararg.arg] = tup_seq(rest)
        elif a.vararg is not None:
            fr[a.vararg.arg] = tup([])
        ponly = {x.arg for x in a.posonlyargs}
        extra = {}
        names = {x.arg for x in pos} | {x.arg for x in a.kwonlyargs}
        for k, v in kw.items():
            if k in names and k not in ponly:
                if k in fr:
                    self.py_raise('TypeError', f'{fn.name} multiple values')
                fr[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                self.py_raise('TypeError', f'{fn.name} unexpected {k}')
        nd = len(fn.defaults)
        for i, x in enumerate(pos):
            if x.arg not in fr:
                j = i - (n - nd)
                if j < 0:
                    self.py_raise('TypeError', f'{fn.name} missing {x.arg}')
                fr[x.arg] = fn.defaults[j]
        for x in a.kwonlyargs:
            if x.arg not in fr:
                if x.arg not in fn.kwdefaults:
                    self.py_raise('TypeError', f'{fn.name} missing {x.arg}')
                fr[x.arg] = fn.kwdefaults[x.arg]
        if a.kwarg is not None:
            fr[a.kwarg.arg] = self.st.alloc(Obj('dict', None, None, {C(k): v for k, v in extra.items()}))
        return fr

    def call_fn(self, fn, args, kw):
        bound = self.bind_args(fn, args, kw)
        if fn.module is not None and fn.module.name.startswith('bitcoinx'):
            self.analysed.add(fn.qual)
        op = self.opaque.get(fn.qual)
        if op is not None:
            if not callable(op):
                return self.call_opaque(fn, op, bound)
            r = op(self, fn, bound)
            if r is not None:
                return r
        if self.st.depth > 60:
            raise Undecided('call depth')
        fid = self.st.new_frame(fn.fid, 'fn')
        fr = self.st.frames[fid]
        fr.update(bound)
        fr['$locals'], fr['$globals'], fr['$nonlocals'] = fn.localnames, fn.globs, fn.nonl
        fr['$fn'] = fn
        if fn.gen:
            def run(hook):
                consumer = self.fid

                def h(v):
                    inner, self.fid = self.fid, consumer
                    try:
                        hook(v)
                    finally:
                        self.fid = inner
                self.st.wframe(fid)['$yield'] = h
                old, oldfn = self.fid, getattr(self, 'curfn', None)
                self.fid, self.curfn = fid, fn
                self.st.depth += 1
                try:
                    self.exec_block(fn.node.body)
                except Ret:
                    pass
                finally:
                    self.st.depth -= 1
                    self.fid, self.curfn = old, oldfn
            return self.st.alloc(Obj('gen', None, {}, run))
        old, oldfn, oldnode = self.fid, getattr(self, 'curfn', None), getattr(self, 'curnode', None)
        self.fid, self.curfn = fid, fn
        self.st.depth += 1
        try:
            if isinstance(fn.node, ast.Lambda):
                return self.ev(fn.node.body)
            self.exec_block(fn.node.body)
            return NONEV
        except Ret as r:
            return r.v
        finally:
            self.st.depth -= 1
            self.fid, self.curfn, self.curnode = old, oldfn, oldnode

    def call_opaque(self, fn, op, bound):
        """op: (mode, result type, [exception classes])"""
        mode, rty, raises = op
        a = fn.node.args
        order = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        if fn.cls and order and order[0] in ('cls',):
            order = order[1:]
        args = tuple(self.reify(bound[n]) for n in order)
        if a.vararg:
            args += (self.reify(bound[a.vararg.arg]),)
        if mode == 'pure':
            r = mk('app', (C(fn.qual),) + args, rty)
        else:
            r = self.event('call', (C(fn.qual),) + args, rty)
        for x in raises:
            if self.branch(mk('raises', (C(x if isinstance(x, str) else x.name), r), BOOL)):
                self.py_raise(x if x in BC else self.classes[x])
        return r

    def instantiate(self, cls, args, kw):
        if cls.builtin:
            return self.builtin_new(cls, args, kw)
        if cls.enum is not None:
            return self.enum_new(cls, args)
        new, owner = self.class_lookup(cls, '__new__')
        if new is not None and not owner.builtin:
            f = new.args[0].fn if isinstance(new.args[0], Deco) else new
            v = self.call(f, [host(cls)] + list(args), kw)
            if v.op != 'ref' or self.st.obj(v).cls is None or not self.st.obj(v).cls.sub(cls):
                return v
        elif cls.sub(BC['int']):
            v = self.builtin_new(BC['int'], args, kw)
            return mk('intsub', (host(cls), v), v.ty)
        elif cls.fields is not None:
            vals = dict(zip(cls.fields, args))
            vals.update(kw)
            if len(vals) != len(cls.fields) or len(args) > len(cls.fields):
                self.py_raise('TypeError')
            return mk('tuple', (items([vals[f] for f in cls.fields]), host(cls)), ('tuple',))
        elif cls.sub(BC['dict']):
            v = self.st.alloc(Obj('dict', cls, None, {}))
        elif cls.sub(BC['list']):
            v = self.st.alloc(Obj('list', cls, None, items(())))
        elif cls.sub(BC['bytes']) or cls.sub(BC['str']) or cls.sub(BC['tuple']):
            raise Undecided(f'subclass {cls.name} of an immutable builtin')
        else:
            v = self.st.alloc(Obj('inst', cls, {}))
        init, owner = self.class_lookup(cls, '__init__')
        if init is not None and not owner.builtin:
            self.call(self.bind(init, v, cls), args, kw)
        elif init is not None:
            self.call(init, [v] + list(args), kw)
        elif cls.sub(BC['BaseException']):
            self.st.wobj(v).f['args'] = tup(args)
        elif cls.sub(BC['dict']) and (args or kw):
            self.call(self.builtin_attr(v, 'dict', 'update'), args, kw)
        elif cls.sub(BC['list']) and args:
            self.call(self.builtin_attr(v, 'list', 'extend'), args, kw)
        elif (args or kw) and not (new is not None):
            self.py_raise('TypeError', f'{cls.name} takes no arguments')
        return v

    def enum_new(self, cls, args):
        v = self.res(args[0])
        if v.op == 'intsub' and v.args[0].args[0] is cls:
            return v
        if self.kind(v) not in ('int', 'bool'):
            if self.kind(v) == 'any':
                raise Undecided('enum of unknown')
            self.py_raise('ValueError')
        n = self.num(v)
        vals = sorted({cval(to_int(m)) for m in cls.enum.values()})
        if is_const(n):
            for m in cls.enum.values():
                if to_int(m) is n:
                    return m
            self.py_raise('ValueError')
        from .models import in_const_ints
        if not self.branch(in_const_ints(self, n, vals)):
            self.py_raise('ValueError')
        return mk('intsub', (host(cls), n), n.ty)

    def builtin_new(self, cls, args, kw):
        from .models import builtin_new
        return builtin_new(self, cls, args, kw)

    def builtin_attr(self, v, kind, name):
        from .models import builtin_attr
        return builtin_attr(self, v, kind, name)

    def builtin_cls_attr(self, c, name, cls):
        from .models import builtin_cls_attr
        return builtin_cls_attr(self, c, name, cls)

    def builtin_super(self, c, name, obj):
        from .models import builtin_super
        return builtin_super(self, c, name, obj)

    # ================================================================ reification
    def reify(self, v, depth=0, seen=()):
        """a heap-independent term for a value"""
        if depth > 12:
            raise Undecided('reification depth')
        if v.op == 'ref':
            if v in seen:
                return mk('cyc', (len(seen) - seen.index(v),))
            seen = seen + (v,)
            o = self.st.obj(v)
            r = lambda x: self.reify(x, depth + 1, seen)
            if o.k == 'list':
                return mk('R', ('list', self.reify_seq(o.v, depth, seen)))
            if o.k in ('bytearray',):
                return mk('R', (o.k, o.v))
            if o.k == 'dict':
                return mk('R', ('dict', o.cls.name if o.cls else '') +
                          tuple((r(k), r(x)) for k, x in o.v.items() if type(o.v) is dict))
            if o.k == 'set':
                return mk('R', ('set',) + tuple(sorted((r(k) for k in o.v), key=lambda t: t.uid)))
            if o.k in ('inst', 'cdata', 'hash', 'io', 'array'):
                cn = o.cls.name if o.cls else o.k
                fs = tuple((k, r(x)) for k, x in sorted(o.f.items()) if isinstance(x, T))
                return mk('R', (o.k, cn) + fs + ((r(o.v) if isinstance(o.v, T) else None,)
                                                 if o.v is not None else ()))
            if o.k == 'gen':
                raise Undecided('generator value escapes')
            extra = tuple(r(x) for x in o.f.values() if isinstance(x, T))
            return mk('R', (o.k,) + extra + ((r(o.v),) if isinstance(o.v, T) else ()))
        if v.op == 'tuple':
            return mk('tuple', (self.reify_seq(v.args[0], depth, seen),) + v.args[1:], ('tuple',))
        if v.op == 'ite':
            return mk_ite(v.args[0], self.reify(v.args[1], depth + 1, seen),
                          self.reify(v.args[2], depth + 1, seen))
        if v.op == 'host':
            o = v.args[0]
            if isinstance(o, Bound):
                return mk('R', ('bound', self.reify(o.fn, depth + 1, seen), self.reify(o.self_, depth + 1, seen)))
            if isinstance(o, Fn):
                return mk('R', ('fn', o.qual))
            if isinstance(o, Cls):
                return mk('R', ('cls', o.name))
            if isinstance(o, Builtin):
                return mk('R', ('bi', o.name))
            return v
        if v.op in ('poison', 'opaque'):
            raise Undecided('unmodelled value escapes')
        return v

    def reify_seq(self, q, depth, seen):
        if q.op == 'items':
            return items([self.reify(x, depth + 1, seen) for x in q.args])
        if q.op == 'cat':
            return cat('q', [self.reify_seq(p, depth, seen) for p in q.args[1:]])
        return q
