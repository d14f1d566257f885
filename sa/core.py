"""Abstract machine: states, host objects, trace-partitioned exploration."""
import ast
from .terms import *
from . import terms as TT
from .facts import Facts


class Undecided(Exception):
    """the analysis cannot model a construct"""


class Infeasible(Exception):
    pass


class Cut(Exception):
    """iteration bound of a loop with no closed form reached"""


class PyRaise(Exception):
    explicit = False

    def __init__(self, val, cls, site=None):
        self.val, self.cls, self.site = val, cls, site


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


# ----------------------------------------------------------------------------- host objects
class Module:
    def __init__(self, name, fid):
        self.name, self.fid = name, fid


class StubModule:
    """a library module we know nothing about"""

    def __init__(self, name):
        self.name = name


class LibModule:
    def __init__(self, name, ns):
        self.name, self.ns = name, ns


class Cls:
    def __init__(self, name, bases=(), module=None, builtin=False):
        self.name, self.bases, self.module, self.builtin = name, tuple(bases), module, builtin
        self.mro = self._mro()
        self.oid = None             # namespace heap object (repo classes)
        self.ns = {}                # builtin classes: python dict of T
        self.enum = None            # IntEnum members: ordered dict name -> T
        self.attrs = None           # attr.s fields
        self.fields = None          # namedtuple fields
        self.node = None

    def _mro(self):
        seqs = [list(b.mro) for b in self.bases] + [list(self.bases)]
        out = [self]
        while any(seqs):
            for s in seqs:
                if s and not any(s[0] in t[1:] for t in seqs):
                    c = s[0]
                    break
            else:
                raise Undecided('mro')
            out.append(c)
            for s in seqs:
                if s and s[0] is c:
                    s.pop(0)
        return out

    def sub(self, other):
        return other in self.mro

    def __repr__(self):
        return f'<class {self.name}>'


class Fn:
    def __init__(self, name, node, module, fid, cls=None):
        self.name, self.node, self.module, self.fid, self.cls = name, node, module, fid, cls
        self.defaults = []
        self.kwdefaults = {}
        self.gen = False
        self.localnames = ()
        self.deco = ()

    @property
    def qual(self):
        m = self.module.name if self.module else '?'
        c = f'{self.cls}.' if self.cls else ''
        return f'{m}:{c}{self.name}'


class Bound:
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_

    def __eq__(self, o):
        return isinstance(o, Bound) and self.fn is o.fn and self.self_ is o.self_

    def __hash__(self):
        return hash((id(self.fn), self.self_))

    @property
    def name(self):
        return f'{self.fn.args[0] if isinstance(self.fn, T) else self.fn}'


class Builtin:
    def __init__(self, name, impl):
        self.name, self.impl = name, impl

    def __repr__(self):
        return f'<builtin {self.name}>'


class Deco:
    """classmethod / staticmethod / property wrappers"""

    def __init__(self, kind, fn, fset=None):
        self.kind, self.fn, self.fset = kind, fn, fset


class Super:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


POISON = mk('poison', ())


class Obj:
    __slots__ = ('k', 'cls', 'f', 'v')

    def __init__(self, k, cls=None, f=None, v=None):
        self.k, self.cls, self.f, self.v = k, cls, f if f is not None else {}, v

    def copy(self):
        v = self.v
        if type(v) is dict:
            v = dict(v)
        elif type(v) is list:
            v = list(v)
        return Obj(self.k, self.cls, dict(self.f), v)


# ----------------------------------------------------------------------------- state
class State:
    __slots__ = ('frames', 'heap', 'ownf', 'ownh', 'facts', 'guards', 'events', 'nref', 'nfid', 'depth')

    def __init__(self, hier=None):
        self.frames, self.heap = {}, {}
        self.ownf, self.ownh = set(), set()
        self.facts = Facts(hier)
        self.guards, self.events = [], []
        self.nref = self.nfid = 0
        self.depth = 0

    def copy(self):
        s = State.__new__(State)
        s.frames, s.heap = dict(self.frames), dict(self.heap)
        self.ownf, self.ownh = set(), set()
        s.ownf, s.ownh = set(), set()
        s.facts = self.facts.copy()
        s.guards, s.events = list(self.guards), list(self.events)
        s.nref, s.nfid, s.depth = self.nref, self.nfid, self.depth
        return s

    # frames
    def new_frame(self, parent, kind='fn'):
        self.nfid += 1
        fid = self.nfid
        self.frames[fid] = {'$parent': parent, '$kind': kind}
        self.ownf.add(fid)
        return fid

    def wframe(self, fid):
        if fid not in self.ownf:
            self.frames[fid] = dict(self.frames[fid])
            self.ownf.add(fid)
        return self.frames[fid]

    # heap
    def alloc(self, obj):
        self.nref += 1
        self.heap[self.nref] = obj
        self.ownh.add(self.nref)
        return mk('ref', (self.nref,), ('ref',))

    def obj(self, ref):
        return self.heap[ref.args[0]]

    def wobj(self, ref):
        oid = ref.args[0] if isinstance(ref, T) else ref
        if oid not in self.ownh:
            self.heap[oid] = self.heap[oid].copy()
            self.ownh.add(oid)
        return self.heap[oid]

    # locations
    def get(self, loc):
        if loc[0] == 'f':
            fr = self.frames.get(loc[1])
            return None if fr is None else fr.get(loc[2])
        o = self.heap.get(loc[1])
        if o is None:
            return None
        if loc[0] == 'h':
            return o.f.get(loc[2])
        if loc[0] == 'hd':
            return o.v.get(loc[2])
        return o.v

    def set(self, loc, v):
        if loc[0] == 'f':
            self.wframe(loc[1])[loc[2]] = v
        elif loc[0] == 'h':
            self.wobj(loc[1]).f[loc[2]] = v
        elif loc[0] == 'hd':
            self.wobj(loc[1]).v[loc[2]] = v
        else:
            self.wobj(loc[1]).v = v

    def changed(self, base):
        """locations of pre-existing storage whose contents differ from `base`"""
        out = []
        for fid, fr in base.frames.items():
            n = self.frames.get(fid)
            if n is fr or n is None:
                continue
            for k in set(n) | set(fr):
                if n.get(k) is not fr.get(k):
                    out.append(('f', fid, k))
        for oid, o in base.heap.items():
            n = self.heap.get(oid)
            if n is o or n is None:
                continue
            for k in set(n.f) | set(o.f):
                if n.f.get(k) is not o.f.get(k):
                    out.append(('h', oid, k))
            if n.v is not o.v:
                if type(n.v) is dict and type(o.v) is dict:
                    if list(n.v) != list(o.v) or any(n.v[k] is not o.v[k] for k in n.v):
                        if list(n.v) == list(o.v):
                            for k in n.v:
                                if n.v[k] is not o.v[k]:
                                    out.append(('hd', oid, k))
                        else:
                            out.append(('hv', oid))
                elif type(n.v) is list and type(o.v) is list:
                    if n.v != o.v:
                        out.append(('hv', oid))
                elif n.v != o.v:
                    out.append(('hv', oid))
        return out


class Dec:
    __slots__ = ('prefix', 'pos', 'tag')

    def __init__(self, prefix, tag=None):
        self.prefix, self.pos, self.tag = prefix, 0, tag

    def choose(self, n):
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos][0]
        else:
            v = 0
            self.prefix.append([0, n])
        self.pos += 1
        return v

    def key(self):
        return (self.tag,) + tuple([p[0] for p in self.prefix[:self.pos]])


class Out:
    __slots__ = ('guards', 'kind', 'val', 'st', 'extra')

    def __init__(self, guards, kind, val, st, extra=None):
        self.guards, self.kind, self.val, self.st, self.extra = guards, kind, val, st, extra


class Limit(Exception):
    pass


class Explorer:
    """decision-replay enumeration of the traces of a thunk"""

    def __init__(self):
        self.st = None
        self.dec = None
        self.decs = []
        self.cache = {}
        self.npaths = 0
        self.maxpaths = 4000
        self.deadline = None
        self.trace = []

    def trail(self):
        return tuple([d.key() for d in self.decs])

    def explore(self, base, thunk, limit=None):
        """run thunk from copies of `base` on every feasible trace; list of Out"""
        import time
        outs = []
        tag = None
        if not self.decs:
            self.partial = outs
        else:                       # a nested exploration: its loops are its own
            self.tags = tag = getattr(self, 'tags', 0) + 1
        prefix = []
        saved = self.st, self.dec
        g0 = len(base.guards)
        n = 0
        try:
            while True:
                n += 1
                if limit and n > limit:
                    raise Undecided(f'more than {limit} traces')
                if self.deadline and time.time() > self.deadline:
                    raise Limit()
                self.st = base.copy()
                TT.CTX.facts = self.st.facts
                self.dec = Dec(prefix, tag)
                self.decs.append(self.dec)
                try:
                    kind, val = 'ok', thunk()
                except Infeasible:
                    kind = None
                except PyRaise as e:
                    kind, val = 'raise', e
                except Ret as e:
                    kind, val = 'ret', e.v
                except Brk:
                    kind, val = 'brk', None
                except Cont:
                    kind, val = 'ok', None
                except Cut as e:
                    kind, val = 'cut', str(e)
                finally:
                    self.decs.pop()
                if kind is not None:
                    outs.append(Out(self.st.guards[g0:], kind, val, self.st))
                while prefix and prefix[-1][0] + 1 >= prefix[-1][1]:
                    prefix.pop()
                if not prefix:
                    break
                prefix[-1][0] += 1
        finally:
            self.st, self.dec = saved
            TT.CTX.facts = self.st.facts if self.st else None
        return outs

    def site(self):
        return None

    def choose(self, n):
        if n == 1:
            return 0
        return self.dec.choose(n)

    def branch(self, lit):
        """fork the trace on a boolean term"""
        f = self.st.facts
        while lit.op == 'ite' and lit.ty == BOOL:
            a, x, y = lit.args
            v = f.implies(lit)
            if v is not None:
                return v
            lit = x if self.branch(a) else y
        if lit.op == 'const':
            return bool(lit.args[0])
        if f.fixed and any(x in f.fixed for x in lit.fv):
            lit = renorm(lit)
            if lit.op == 'const':
                return bool(lit.args[0])
        v = f.implies(lit)
        if v is not None:
            return v
        atom, pol = lits_of(lit)
        c = self.dec.choose(2)
        val = (c == 0)
        if not f.assume(lit if val else mk_not(lit)):
            raise Infeasible()
        self.st.guards.append((atom, pol == val))
        self.trace.append(self.site())
        return val

    def assume(self, lit):
        if lit.op == 'ite':
            if not self.branch(lit):
                raise Infeasible()
            return
        f = self.st.facts
        v = f.implies(lit)
        if v is False:
            raise Infeasible()
        if v is None and not f.assume(lit):
            raise Infeasible()
