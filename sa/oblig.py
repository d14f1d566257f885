"""Obligations: code expressions of the package against reference functions, one product run per trace."""
import ast
import os
import time
from .core import *
from .terms import *
from . import terms as TT
from .interp import Interp, BC, HIER
from .libs import B
from .models import eq_terms, is_bytes, content

HERE = os.path.dirname(os.path.abspath(__file__))


class Anchor(Exception):
    """a public name the properties are anchored at is gone"""


class Only:
    """any value; when an exception, one of these"""

    def __init__(self, classes):
        self.classes = classes


class Ob:
    def __init__(self, prop, code, fn, kw):
        self.prop, self.code, self.fn, self.kw = prop, code, fn, kw
        self.name = f'{fn.module.name.split(".")[-1]}.{fn.name}'
        self.tree = ast.parse(code)
        self.paths = self.agree = self.cut = self.ok = 0
        self.mismatch, self.undec = [], []
        self.anchors = set()
        self.time = 0.0
        self.filtered = 0


# ------------------------------------------------------------------ parameter types
def parse_type(n):
    if isinstance(n, ast.Constant):
        if n.value is None:
            return NONE
        return parse_type(ast.parse(n.value, mode='eval').body)
    if isinstance(n, ast.Name):
        simple = {'Int': INT, 'Bool': BOOL, 'Bytes': BYTES, 'Str': STR, 'Any': ANY, 'Nat': ('int', 0, None),
                  'Stream': ('p', 'stream'), 'ByteArray': ('p', 'bytearray', None), 'Reader': ('fn', 'read', BYTES),
                  'Mem': ('p', 'mview')}
        if n.id in simple:
            return simple[n.id]
        return ('obj', n.id)
    if isinstance(n, ast.Subscript):
        h = n.value.id
        a = n.slice.elts if isinstance(n.slice, ast.Tuple) else [n.slice]
        if h in ('UInt', 'SInt'):
            w = ast.literal_eval(a[0])
            return ('int', 0, 2 ** w - 1) if h == 'UInt' else ('int', -2 ** (w - 1), 2 ** (w - 1) - 1)
        if h == 'Range':
            return ('int', ast.literal_eval(a[0]), ast.literal_eval(a[1]))
        if h == 'Bytes':
            return ('bytes', ast.literal_eval(a[0]))
        if h == 'Str':
            return ('str', ast.literal_eval(a[0]))
        if h == 'ByteArray':
            return ('p', 'bytearray', ast.literal_eval(a[0]))
        ts = [parse_type(x) for x in a]
        if h == 'List':
            return ('p', 'list', ts[0])
        if h == 'Seq':
            return ('p', 'tupleseq', ts[0])
        if h == 'Tuple':
            return ('p', 'tuple', tuple(ts))
        if h == 'Opt':
            return ('opt', ts[0])
        if h == 'Union':
            return ('union', tuple(ts))
        if h == 'Fn':
            return ('fn', 'pure', ts[0])
        if h == 'Items':
            return ('p', 'items', ast.literal_eval(a[0]), ts[1])
    raise SystemExit(f'bad parameter type {ast.dump(n)}')


def field_type(t):
    if t[0] == 'p' and t[1] in ('list', 'tupleseq'):
        return seq_of(t[2])
    return t


def make_param(E, name, ty):
    if ty[0] != 'p':
        if ty == NONE:
            return NONEV
        return sym(name, ty)
    k = ty[1]
    if k == 'stream':
        d = sym(name + '.data', BYTES)
        p = sym(name + '.pos', ('int', 0, None))
        E.st.facts.assume(le(p, length(d)))
        return E.st.alloc(Obj('io', None, {'pos': p}, d))
    if k == 'bytearray':
        return E.st.alloc(Obj('bytearray', None, None, sym(name, ('bytes', ty[2]))))
    if k == 'mview':
        return E.st.alloc(Obj('mview', BC['memoryview'], None, sym(name, BYTES)))
    if k == 'list':
        return E.new_list(sym(name, seq_of(ty[2])))
    if k == 'tupleseq':
        return tup_seq(sym(name, seq_of(ty[2])))
    if k == 'tuple':
        return tup([make_param(E, f'{name}.{i}', t) for i, t in enumerate(ty[2])])
    if k == 'items':
        return E.new_list(items([make_param(E, f'{name}.{i}', ty[3]) for i in range(ty[2])]))
    raise SystemExit(f'parameter kind {k}')


# ------------------------------------------------------------------ the engine with the spec vocabulary
class Engine(Interp):
    def __init__(self, repo, specs, without=()):
        self.repo, self.without, self.twins = repo, without, {}
        super().__init__(repo, [(HERE, 'specs')])
        self.obs, self.specs = [], set(specs)
        self.install_vt()
        self.curnode = None
        pk = self.import_module('bitcoinx').args[0]
        if not hasattr(pk, 'fid'):
            raise Anchor('package bitcoinx not found')
        for sub in ('aes', 'cashaddr', 'util', 'misc', 'consts'):
            if self.find_module('bitcoinx.' + sub):
                self.import_module('bitcoinx.' + sub)
        for s in specs:
            m = self.import_module('specs.' + s).args[0]
            self.read_shapes(m)
        bad = {k: v for k, v in self.poisons.items() if k[0].startswith('specs')}
        if bad:
            raise Anchor(f'reference model does not load: {bad}')

    def where_without(self, o):
        """the obligation in an engine that loads the package with a library missing"""
        w = tuple((o.kw.get('without') or '').split())
        if w == self.without:
            return self, o
        if w not in self.twins:
            self.twins[w] = Engine(self.repo, sorted(self.specs), w)
        E = self.twins[w]
        return E, next(x for x in E.obs if x.name == o.name)

    def read_shapes(self, m):
        for n in m.tree.body:
            if isinstance(n, ast.ClassDef) and n.name.startswith('shape_'):
                f = [(x.target.id, field_type(parse_type(x.annotation))) for x in n.body if isinstance(x, ast.AnnAssign)]
                c = n.name[6:]
                how = next((x.value.value for x in n.body if isinstance(x, ast.Assign)), 'fields')
                if how == 'ctor':
                    self.ctor[c] = f
                else:
                    self.schema[c] = dict(f)

    def site(self):
        return self.where()

    def install_vt(self):
        def ob(E, a, kw):
            prop, code = cval(a[0]), cval(a[1])
            opts = {k: cval(v) if is_const(v) else [cval(x) for x in E.const_items(v)] for k, v in kw.items()}

            def deco(E, b, k):
                if b[0].args[0].module.name[6:] in E.specs:
                    E.obs.append(Ob(prop, code, b[0].args[0], opts))
                return b[0]
            return B('ob', deco)

        def expect(E, a, kw):
            return mk('expect', (cval(a[0]),) + tuple((k, v) for k, v in sorted(kw.items())))

        def nat(E, a, kw):
            return mk('nat', (cval(a[0]),) + tuple(native_in(E, x) for x in a[1:]), ('int', 0, 1))

        def native_in(E, x):
            x = E.res(x)
            if E.kind(x) in ('list', 'tuple', 'seq'):
                return E.to_seq(x)
            return content(E, x)

        def natout(kind):
            def f(E, a, kw):
                ins = tuple(native_in(E, x) for x in a[2:])
                k = cval(a[1])
                if kind == 'struct':
                    ty = ('cval', cval(kw['ty']))
                    return mk('natout', (cval(a[0]), k) + ins, ty)
                if kind == 'int':
                    return mk('natout', (cval(a[0]), k) + ins, ('int', 0, 3))
                n = cval(kw['n']) if 'n' in kw else None
                return mk('natout', (cval(a[0]), k) + ins, ('bytes', n))
            return f

        def ser(E, a, kw):
            n = cval(E.res(a[1]))
            return mk('natout', ('ec_pubkey_serialize', a[0], n), ('bytes', n))

        def app(E, a, kw):
            """an uninterpreted value"""
            return mk('app', tuple(E.reify(x) for x in a), ANY)

        def urandom(E, a, kw):
            r = E.event('urandom', (E.num(a[0]),), ('bytes', cval(a[0]) if is_const(a[0]) else None))
            if not is_const(a[0]):
                E.assume(mk_eq(length(r), E.num(a[0])))
            return r

        def assume(E, a, kw):
            E.assume(E.truth(a[0]))
            return NONEV

        def hexof(E, a, kw):
            from .libs import tohex
            return tohex(content(E, E.res(a[0])))

        def history(E, a, kw):
            """what a file held after each change to it"""
            ino = E.st.obj(E.fs).v.get(E.reify(E.res(a[0])))
            hist = None if ino is None or ino is NONEV else E.st.obj(ino).f.get('hist')
            return E.new_list(items(list(hist.args if hist is not None else ())))

        def durable(E, a, kw):
            """what a file held when it was last told to be written through"""
            ino = E.st.obj(E.fs).v.get(E.reify(E.res(a[0])))
            return NONEV if ino is None or ino is NONEV else E.st.obj(ino).f.get('durable', NONEV)

        def sha256hex(E, a, kw):
            """the digest of a known string, worked out"""
            import hashlib
            v = content(E, E.res(a[0]))
            return C(hashlib.sha256(cval(v)).hexdigest()) if is_const(v) else mk('app', (C('sha256hex'), v), STR)

        def aes_(E, a, kw):
            from .libs import aes
            return aes(cval(a[0]), *[content(E, E.res(x)) for x in a[1:]])

        def only(E, a, kw):
            return host(Only([x.args[0] for x in a]))
        cls = {}
        for n in ('AnyError',):
            c = Cls(n, [BC['Exception']], builtin=True)
            cls[n] = host(c)
            self.anyerror = c
        ns = dict(ob=B('ob', ob), expect=B('expect', expect), only=B('only', only), nat=B('nat', nat),
                  nat_struct=B('nat_struct', natout('struct')), nat_bytes=B('nat_bytes', natout('bytes')),
                  nat_int=B('nat_int', natout('int')), nat_ser=B('nat_ser', ser),
                  history=B('history', history), durable=B('durable', durable), sha256hex=B('sha256hex', sha256hex), app=B('app', app), urandom=B('urandom', urandom), assume=B('assume', assume),
                  aes=B('aes', aes_), anything=host('anything'), **cls)
        self.libs['vt'] = host(LibModule('vt', ns))

    # -------------------------------------------------------------- harness
    def harness(self, tree, modname, params):
        m = self.modules.get(modname)
        if m is None:
            raise Anchor(f'module {modname} is gone')
        fid = self.st.new_frame(m.args[0].fid, 'fn')
        fr = self.st.frames[fid]
        fr.update(params)
        fr['$locals'], fr['$globals'], fr['$nonlocals'] = set(params) | assigned(tree), set(), set()
        fn = Fn('<entry>', tree, m.args[0], m.args[0].fid)
        fr['$fn'] = fn
        old, oldfn = self.fid, getattr(self, 'curfn', None)
        self.fid, self.curfn = fid, fn
        try:
            body = tree.body
            self.exec_block(body[:-1])
            last = body[-1]
            if isinstance(last, ast.Expr):
                self.curnode = last
                r = self.ev(last.value)
                if r.op == 'ref' and self.st.obj(r).k == 'gen':
                    r = self.new_list(self.to_seq(r))
                return r
            self.exec(last)
            return NONEV
        except Ret as r:
            return r.v
        except PyRaise as e:
            if e.cls.name in ('NameError', 'AttributeError', 'ImportError') and e.site and \
                    e.site[0].endswith(':<entry>') and not isinstance(body[-1], ast.Try):
                raise Anchor(f'{ast.unparse(tree)}: {e.cls.name}')
            raise
        finally:
            self.fid, self.curfn = old, oldfn

    # -------------------------------------------------------------- one obligation
    def check(self, ob, tier='quick', asserts=True):
        t0 = time.time()
        base = self.st.copy()
        saved = self.st
        self.st = base
        TT.CTX.facts = base.facts
        params = {}
        for a in ob.fn.node.args.args:
            ty = parse_type(a.annotation)
            if ty[0] == 'union' and any(t[0] == 'p' for t in ty[1]):       # one path per alternative
                params[a.arg] = tuple(make_param(self, a.arg, t) for t in ty[1])
            else:
                params[a.arg] = make_param(self, a.arg, ty)
        self.st = saved
        TT.CTX.facts = saved.facts
        K, KW = self.K, self.KW
        self.K = ob.kw.get('K', {'quick': 2, 'thorough': 4}[tier])
        self.KW = ob.kw.get('KW', {'quick': 3, 'thorough': 5}[tier])
        from .abstr import GROUPS
        self.opaque = {q: f for g in ob.kw.get('abstract', '').split() for q, f in GROUPS[g].items()}
        self.ignore = ob.kw.get('ignore', '').split()
        before = set(self.analysed)
        self.analysed.clear()
        lim = ob.kw.get('limit', {'quick': 3000, 'thorough': 30000}[tier])
        self.deadline = t0 + ob.kw.get('time', {'quick': 60, 'thorough': 240}[tier])
        self.cache.clear()
        self.npath = 0

        def thunk():
            return self.product(ob, params, asserts)
        try:
            outs = self.explore(base, thunk, lim)
        except Undecided as e:
            ob.undec.append(str(e))
            outs = self.partial
        except Limit:
            ob.undec.append('time limit')
            outs = self.partial
        for o in outs:
            ob.paths += 1
            if o.kind == 'cut':
                ob.cut += 1
            elif o.kind == 'raise':
                ob.undec.append(f'internal {o.val.cls.name}')
            else:
                st, info = o.val
                if st == 'agree':
                    ob.agree += 1
                    ob.ok += info == 'ok'
                elif st == 'cut':
                    ob.cut += 1
                elif st == 'undecided':
                    ob.undec.append(info)
                else:
                    ob.mismatch.append(info)
        ob.anchors |= self.analysed
        self.analysed |= before
        self.K, self.KW = K, KW
        self.deadline = None
        ob.time += time.time() - t0

    def outcome(self, run):
        try:
            return ('ok', run())
        except PyRaise as e:
            return ('raise', e)
        except Ret as e:
            return ('ok', e.v)

    def product(self, ob, params, asserts):
        st = self.st
        self.trace = []
        params = {k: v[self.choose(len(v))] if type(v) is tuple else v for k, v in params.items()}
        mod = ob.kw.get('mod', 'bitcoinx')
        pre = ob.kw.get('pre')
        if pre:
            for p in (pre if isinstance(pre, list) else [pre]):
                try:
                    v = self.truth(self.harness(ast.parse(p), mod, params))
                except PyRaise:
                    raise Infeasible
                self.assume(v)
        for d in (ob.kw.get('unset') or '').split():
            m, n = d.rsplit('.', 1)
            if m in self.modules:
                st.wframe(self.modules[m].args[0].fid)[n] = NONEV
        st.guards.clear()
        frames0, heap0 = dict(st.frames), dict(st.heap)
        st.ownf, st.ownh = set(), set()
        st.events = []
        self.asserts = asserts
        try:
            c = self.outcome(lambda: self.harness(ob.tree, mod, params))
            if c[0] == 'raise' and c[1].cls.name == 'RecursionError':
                raise Undecided('recursion')
        except Undecided as e:
            return ('undecided', f'code: {e}')
        except Cut as e:
            return ('cut', None)
        finally:
            self.asserts = True
        code = (st.frames, st.heap, st.ownf, st.ownh, st.events)
        ctrace = list(self.trace)
        st.frames, st.heap = dict(frames0), dict(heap0)
        st.ownf, st.ownh = set(), set()
        st.events = []
        try:
            s = self.outcome(lambda: self.call(host(ob.fn), [params[a.arg] for a in ob.fn.node.args.args], {}))
        except Undecided as e:
            return ('undecided', f'reference: {e}')
        except Cut as e:
            return ('cut', None)
        spec = (st.frames, st.heap, st.ownf, st.ownh, st.events)
        try:
            bad = self.compare_out(ob, params, c, code, s, spec)
        except Undecided as e:
            return ('undecided', f'comparison: {e}')
        except Cut:
            return ('cut', None)
        if not bad:
            return ('agree', c[0])
        what, x, y = bad
        site = None
        if c[0] == 'raise':
            site = c[1].site
        info = dict(ob=ob.name, seeds=ob.kw.get('seeds'), prop=ob.prop, entry=ob.code, what=what, code=x if isinstance(x, str) else show(x)[:1500],
                    want=y if isinstance(y, str) else show(y)[:1500],
                    guards=[(show(a)[:300], p) for a, p in st.guards],
                    site=site, ssite=s[1].site if s[0] == 'raise' else None, trace=dedup(ctrace), terms=(x, y), pguards=list(st.guards), facts=st.facts)
        return ('mismatch', info)

    def use(self, w):
        st = self.st
        st.frames, st.heap, st.ownf, st.ownh, st.events = w

    def keep(self):
        st = self.st
        return (st.frames, st.heap, st.ownf, st.ownh, st.events)

    def compare_out(self, ob, params, c, cw, s, sw):
        if s[0] == 'raise':
            ec = s[1].cls
            if not s[1].explicit and ec.name in ('TypeError', 'AttributeError', 'NameError', 'UnboundLocalError'):
                raise Undecided(f'reference model raises {ec.name} at {s[1].site}')
            if c[0] == 'ok':
                self.use(cw)
                return ('outcome', self.describe(c[1]), f'raise {ec.name}')
            if ec is self.anyerror:
                return None if c[1].cls.sub(BC['Exception']) else ('exception', c[1].cls.name, 'an Exception')
            if not c[1].cls.sub(ec):
                return ('exception', c[1].cls.name, ec.name)
            if not ob.kw.get('strict') and not ob.kw.get('secret'):
                return None
        elif c[0] == 'raise':
            if s[1].op == 'host' and s[1].args[0] == 'anything':
                return None
            if s[1].op == 'host' and isinstance(s[1].args[0], Only):
                if any(c[1].cls.sub(k) for k in s[1].args[0].classes):
                    return None
                return ('exception', c[1].cls.name, 'only ' + ', '.join(k.name for k in s[1].args[0].classes))
            return ('outcome', f'raise {c[1].cls.name}', self.with_(sw, lambda: self.describe(s[1])))
        else:
            bad = self.cmpv(c[1], cw, s[1], sw)
            if bad:
                return bad
        if ob.kw.get('secret'):
            v = c[1].val if c[0] == 'raise' else c[1]
            self.use(cw)
            if c[0] == 'raise':
                o = self.st.obj(v) if v.op == 'ref' else None
                t = self.reify(o.f.get('args', NONEV)) if o is not None else self.reify(v)
            else:
                t = self.reify(v)
            t2 = masked(t, ob.kw['secret'])
            if t2 is not t:
                return ('secret disclosed' + (' by exception' if c[0] == 'raise' else ''), t, t2)
        if ob.kw.get('effects', True):
            ev1 = [e for e in cw[4]]
            ev2 = [e for e in sw[4]]
            if len(ev1) != len(ev2):
                return ('effects', f'{[(e[0], [show(x) for x in e[1]]) for e in ev1]}'[:600],
                        f'{[(e[0], [show(x) for x in e[1]]) for e in ev2]}'[:600])
            for e1, e2 in zip(ev1, ev2):
                if e1[0] != e2[0] or len(e1[1]) != len(e2[1]):
                    return ('effects', e1[0], e2[0])
                for x, y in zip(e1[1], e2[1]):
                    bad = self.cmpv(x, cw, y, sw)
                    if bad:
                        return (f'argument of {e1[0]}',) + bad[1:]
            for n, v in params.items():
                if v.op == 'ref' or v.op == 'tuple':
                    bad = self.cmpv(v, cw, v, sw)
                    if bad:
                        return (f'final state of {n}',) + bad[1:]
        return None

    def with_(self, w, f):
        k = self.keep()
        self.use(w)
        try:
            return f()
        finally:
            self.use(k)

    def describe(self, v):
        try:
            return show(self.reify(v))[:1500]
        except Undecided:
            return show(v)[:300]

    def cmpv(self, x, cw, y, sw, depth=0):
        """None when the code's value x agrees with the reference's y, else (what, x, y)"""
        if y.op == 'host' and (y.args[0] == 'anything' or isinstance(y.args[0], Only)):
            return None
        if y.op == 'expect':
            x = self.with_(cw, lambda: self.res(x))
            cls = self.with_(cw, lambda: self.cls_of(x))
            if cls is None or y.args[0] not in [k.name for k in cls.mro]:
                return ('class', cls.name if cls else show(x)[:200], y.args[0])
            for k, v in y.args[1:]:
                def get():
                    if k.startswith('call_'):
                        return self.call(self.getattr(x, k[5:]), [], {})
                    if k == 'bytes_':
                        return self.call(self.builtins.get('bytes') or host(BC['bytes']), [x], {})
                    if k == 'keys_':
                        return tup([])
                    return self.getattr(x, k)
                try:
                    xv = self.with_(cw, get)
                except PyRaise as e:
                    return (f'attribute {k}', f'raises {e.cls.name}', show(v)[:300])
                bad = self.cmpv(xv, cw, v, sw, depth + 1)
                if bad:
                    return (f'{k}: {bad[0]}',) + bad[1:]
            return None
        x = self.with_(cw, lambda: self.res(x))
        y = self.with_(sw, lambda: self.res(y))
        kx = self.with_(cw, lambda: self.kind(x))
        ky = self.with_(sw, lambda: self.kind(y))
        if kx in ('list', 'tuple', 'seq') and ky in ('list', 'tuple', 'seq'):
            if kx != ky and 'seq' not in (kx, ky):
                return ('type', kx, ky)
            qx = self.with_(cw, lambda: self.to_seq(x))
            qy = self.with_(sw, lambda: self.to_seq(y))
            if qx.op == 'items' and qy.op == 'items':
                if len(qx.args) != len(qy.args):
                    return ('length', self.with_(cw, lambda: self.describe(x)),
                            self.with_(sw, lambda: self.describe(y)))
                for a, b in zip(qx.args, qy.args):
                    bad = self.cmpv(a, cw, b, sw, depth + 1)
                    if bad:
                        return bad
                return None
        if kx == 'bool' and ky == 'bool':
            bx = self.branch(x)
            by = self.branch(y)
            return None if bx == by else ('value', str(bx), str(by))
        if (kx == 'bool') != (ky == 'bool') and {kx, ky} != {'bool', 'any'}:
            return ('type', kx, ky)
        rx = self.with_(cw, lambda: self.reify(x))
        ry = self.with_(sw, lambda: self.reify(y))
        return self.cmpt(rx, ry, cw, sw)

    def cmpt(self, x, y, cw, sw, depth=0, second=False):
        if x is y:
            return None
        x, y = renorm(x), renorm(y)
        if x is y:
            return None
        if x.op == 'R' and y.op == 'R':
            if x.args[0] == y.args[0] == 'inst' and x.args[1] == y.args[1]:
                fx = {a[0]: a[1] for a in x.args[2:] if type(a) is tuple}
                fy = {a[0]: a[1] for a in y.args[2:] if type(a) is tuple}
                for k in fx:
                    if k in fy and k not in self.ignore:
                        bad = self.cmpt(fx[k], fy[k], cw, sw, depth + 1)
                        if bad:
                            return (f'{k}: {bad[0]}',) + bad[1:]
                return None
            if len(x.args) == len(y.args):
                for a, b in zip(x.args, y.args):
                    if isinstance(a, T) and isinstance(b, T):
                        bad = self.cmpt(a, b, cw, sw, depth + 1)
                    elif type(a) is tuple and type(b) is tuple and len(a) == len(b):
                        bad = None
                        for p, q in zip(a, b):
                            if isinstance(p, T) and isinstance(q, T):
                                bad = bad or self.cmpt(p, q, cw, sw, depth + 1)
                            elif p != q:
                                bad = ('value', x, y)
                    else:
                        bad = None if a == b else ('value', x, y)
                    if bad:
                        return bad
                return None
            return ('value', x, y)
        for a, b, fl in ((x, y, 0), (y, x, 1)):
            if a.op == 'R' and a.args[0] == 'inst' and b.ty[0] == 'obj':
                sh = self.with_(sw, lambda: self.shadow(b))
                if sh is not None:
                    rb = self.with_(sw, lambda: self.reify(sh))
                    return self.cmpt(a, rb, cw, sw, depth + 1) if not fl else self.cmpt(rb, a, cw, sw, depth + 1)
                # an object rebuilt from a symbolic one: compare by schema
                sch = self.schema.get(b.ty[1])
                if sch and a.args[1] == b.ty[1]:
                    fa = {p[0]: p[1] for p in a.args[2:] if type(p) is tuple}
                    for k, t in sch.items():
                        if k in fa:
                            bad = self.cmpt(fa[k], mk('attr', (b, k), t), cw, sw, depth + 1)
                            if bad:
                                return bad
                    return None
        if x.op == 'items' and y.op == 'items' and len(x.args) == len(y.args):
            for a, b in zip(x.args, y.args):
                bad = self.cmpt(a, b, cw, sw, depth + 1)
                if bad:
                    return bad
            return None
        if x.op == 'tuple' and y.op == 'tuple':
            return self.cmpt(x.args[0], y.args[0], cw, sw, depth + 1)
        # case split on a conditional inside either side
        if depth < 14:
            for t in (x, y):
                for w in walk(t):
                    if w.op == 'ite' and not has_bv(w):
                        self.branch(top_atom(w))
                        return self.cmpt(x, y, cw, sw, depth + 1)
        if x.ty[0] in ('int', 'bool') and y.ty[0] in ('int', 'bool') or x.ty[0] == y.ty[0] in ('bytes', 'str'):
            q = mk_eq(x, y)
            if q is TRUE or provable(q):
                return None
        if x.ty[0] == y.ty[0] == 'cval' or x.op == y.op == 'natout':
            if len(x.args) == len(y.args) and x.op == y.op:
                for a, b in zip(x.args, y.args):
                    if isinstance(a, T) and isinstance(b, T):
                        bad = self.cmpt(a, b, cw, sw, depth + 1)
                        if bad:
                            return bad
                    elif a != b:
                        return ('value', x, y)
                return None
        if not second:
            x2, y2 = expand_ints(x), expand_ints(y)
            if x2 is not x or y2 is not y:
                return self.cmpt(x2, y2, cw, sw, depth, True)
        return ('value', x, y)


ONEWAY = ('hash', 'hmac', 'pbkdf2', 'nat', 'natout', 'len')


def masked(t, names):
    """t with the named secrets replaced, except where only a one-way function of them is used"""
    names = names.split()
    memo = {}

    def go(x):
        if not isinstance(x, T):
            return tuple(go(y) for y in x) if type(x) is tuple else x
        r = memo.get(x)
        if r is None:
            if x.op == 'sym' and x.args[0] in names:
                r = sym(x.args[0] + "'", x.ty)
            elif x.op in ONEWAY and not (x.op == 'natout' and 'privkey' in str(x.args[0])) or x.op in ('const', 'sym', 'bv', 'host', 'ref'):
                r = x
            else:
                na = go(x.args)
                r = x if all(p is q for p, q in zip(na, x.args)) or na == x.args else TT.rebuild(x, na)
            memo[x] = r
        return r
    return go(t)


def top_atom(t):
    return t.args[0]


def has_bv(t):
    return any(s.op == 'bv' for s in walk(t))


def dedup(tr):
    out = []
    for s in tr:
        if s and (not out or out[-1] != s):
            out.append(s)
    return out


def assigned(tree):
    return {n.id for n in ast.walk(tree) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
