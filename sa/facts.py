"""Path facts: a small relational abstract domain (linear inequalities over integer atoms,
equalities with constants, type tests, boolean atoms)."""
from math import gcd
from .terms import *
from . import terms as TT

MAXC = 120


class Facts:
    __slots__ = ('lits', 'lin', 'bounds', 'fixed', 'eqsub', 'types', 'nottypes', 'memo', 'hier', 'eqlin', 'late', 'alls', 'log')

    def __init__(self, hier=None):
        self.lits = {}
        self.lin = []          # (c, {mono: k}) meaning sum >= 0
        self.bounds = {}
        self.fixed = {}        # int atom -> const
        self.eqsub = {}
        self.types = {}
        self.nottypes = {}
        self.memo = {}
        self.hier = hier
        self.eqlin = {}        # linear part -> its known value
        self.alls = ()
        self.log = {}          # everything concluded along the path, for cross-checking
        self.late = ()         # literals about byte strings of a width not yet known

    def copy(self):
        f = Facts(self.hier)
        f.lits = dict(self.lits)
        f.lin = list(self.lin)
        f.bounds = dict(self.bounds)
        f.fixed = dict(self.fixed)
        f.eqsub = dict(self.eqsub)
        f.types = dict(self.types)
        f.nottypes = dict(self.nottypes)
        f.memo = {}
        f.eqlin = dict(self.eqlin)
        f.late = self.late
        f.log = dict(self.log)
        f.alls = self.alls
        return f

    # ---------------------------------------------------------------- queries
    def implies(self, lit):
        """True / False / None"""
        if lit.op == 'const':
            return bool(lit.args[0])
        r = self.memo.get(lit)
        if r is None:
            self.memo[lit] = (None,)     # a query depending on itself concludes nothing
            v = self._implies(lit)
            if v is None and lit.op == 'all':
                v = self._all(lit)
            elif v is None and self.alls and lit.op in ('ge0', 'eq0', 'eq', 'isinst', 'ite', 'isalt'):
                v = self._inst(lit)
            r = (v,)
            self.memo[lit] = r
            if v is not None and lit.lvl == 0:
                self.log[lit] = v
        return r[0]

    def _all(self, lit):
        """a universal statement: contained in a known one, or refuted by a known instance"""
        if lit.args[0].op != 'tab':
            return None
        l0, n0, b0 = lit.args[0].args
        var = TT.bv(l0, 0, ('int', 0, None))
        for lv, n, b in self.alls:
            if n is n0:
                b = subst(b, {TT.bv(lv, 0, ('int', 0, None)): var}) if lv != l0 else b
                have = set(conjuncts(b))
                if all(c in have for c in conjuncts(b0)):
                    return True
        want = set(conjuncts(b0))
        ops = {(c.args[0] if c.op == 'not' else c).op for c in want}
        for a, p in list(self.lits.items()):
            if a.op in ops and a.lvl == 0:
                for i in indices(a, b0, var):
                    for c in want:
                        t = subst(c, {var: i})
                        if (t is FALSE or t is a and not p or t.op == 'not' and t.args[0] is a and p) and \
                                self.implies(ge0(i)) and self.implies(TT.lt(i, n0)):
                            return False
        return None

    def _inst(self, lit):
        """instances of universally quantified facts at the indices the literal mentions"""
        for lv, n, b in self.alls:
            for i in indices(lit, b, TT.bv(lv, 0, ('int', 0, None))):
                if self.implies(ge0(i)) and self.implies(TT.lt(i, n)):
                    t = subst(b, {TT.bv(lv, 0, ('int', 0, None)): i})
                    for t in conjuncts(t):
                        if t is lit:
                            return True
                        if t.op == 'not' and t.args[0] is lit:
                            return False
                        a, pol = lits_of(t)
                        r = TT._related(a, pol, lit) if a.op in ('ge0', 'eq0') else None
                        if r is not None:
                            return r
        return None

    def _implies(self, lit):
        if lit.op == 'not':
            v = self.implies(lit.args[0])
            return None if v is None else not v
        if lit.op == 'ite':
            a, x, y = lit.args
            v = self.implies(a)
            if v is True:
                return self.implies(x)
            if v is False:
                return self.implies(y)
            p, q = self.implies(x), self.implies(y)
            return p if p == q else None
        v = self.lits.get(lit)
        if v is not None:
            return v
        if lit.op == 'ge0':
            c, d = lin(lit.args[0])
            if self.prove(c, d):
                return True
            if self.prove(-c - 1, {m: -k for m, k in d.items()}):
                return False
            if self.eqsub:
                t = subst(lit, self.eqsub)
                if t is not lit:
                    return self.implies(t)
            return None
        if lit.op == 'eq0':
            c, d = lin(lit.args[0])
            if self.prove(c - 1, d) or self.prove(-c - 1, {m: -k for m, k in d.items()}):
                return False
            if self.prove(c, d) and self.prove(-c, {m: -k for m, k in d.items()}):
                return True
            if self.eqsub:
                t = subst(lit, self.eqsub)
                if t is not lit:
                    return self.implies(t)
            return None
        if lit.op == 'isinst':
            return self.isinst(lit.args[0], lit.args[1])
        if lit.op == 'eq':
            a, b = lit.args
            sa, sb = self.eqsub.get(a), self.eqsub.get(b)
            if sa is not None or sb is not None:
                t = mk_eq(sa if sa is not None else a, sb if sb is not None else b)
                if t is not lit:
                    return self.implies(t) if t.op != 'const' else bool(t.args[0])
            if a.ty[0] in ('bytes', 'str') and b.ty[0] in ('bytes', 'str'):
                d = isub(length(a), length(b))
                if self.implies(eq0(d)) is False:
                    return False
                for x, y in ((a, b), (b, a)):
                    if x.op == 'sl':
                        z = self._covered(x)
                        if z is not None:
                            t = mk_eq(z, y)
                            if t is not lit:
                                return self.implies(t)
        if self.eqsub and lit.op in ('eq', 'inlang', 'truthy'):
            t = subst(lit, self.eqsub)
            if t is not lit:
                return self.implies(t)
        return None

    def _covered(self, x):
        """a slice of something a larger slice of which is known to equal another value"""
        s, i, j = x.args
        if i.op == 'const' and j.op == 'const':
            for k, v in self.eqsub.items():
                if k.op == 'sl' and k.args[0] is s and k.args[1].op == 'const' and k.args[2].op == 'const' \
                        and k.args[1].args[0] <= i.args[0] and j.args[0] <= k.args[2].args[0]:
                    return sl(v, isub(i, k.args[1]), isub(j, k.args[1]))
        return None

    def isinst(self, x, cname):
        ts = self.types.get(x)
        if ts and self.hier:
            for t in ts:
                r = self.hier.rel(t, cname)
                if r is not None:
                    return r
        for n in self.nottypes.get(x, ()):
            if n == cname or (self.hier and self.hier.sub(cname, n)):
                return False
        return None

    # ---------------------------------------------------------------- assume
    def assume(self, lit):
        """add a literal; False if it contradicts"""
        v = self.implies(lit)
        if v is not None:
            return v
        if lit.op == 'ite':
            a, x, y = lit.args
            # only handled when one branch is constant
            if x is FALSE:
                return self.assume(mk_not(a)) and self.assume(y)
            if y is FALSE:
                return self.assume(a) and self.assume(x)
            self.memo = {}
            self.lits[lit] = True
            return True
        atom, pol = lits_of(lit)
        self.lits[atom] = pol
        self.memo = {}
        if _is_late(atom):
            self.late = self.late + ((atom, pol),)
        if atom.op == 'all' and pol and atom.args[0].op == 'tab':
            lv, n, body = atom.args[0].args
            old, TT.CTX.facts = TT.CTX.facts, self
            try:
                if irng(n)[0] and subst(body, {bv(lv, 0, ('int', 0, None)): isub(n, ONE)}) is FALSE:
                    return False
            finally:
                TT.CTX.facts = old
            self.alls = self.alls + (atom.args[0].args,)
        if atom.op == 'ge0':
            c, d = lin(atom.args[0])
            if not pol:
                c, d = -c - 1, {m: -k for m, k in d.items()}
            if 2 <= len(d) <= 3:
                t = eq0(TT.from_lin(c, d))
                if t.op == 'eq0' and self.lits.get(t) is False:
                    c -= 1
            if not self._add(c, d):
                return False
        elif atom.op == 'eq0':
            c, d = lin(atom.args[0])
            if pol:
                if not self._add(c, d) or not self._add(-c, {m: -k for m, k in d.items()}):
                    return False
            else:
                if 2 <= len(d) <= 3:
                    nd = {m: -k for m, k in d.items()}
                    if self.prove(c, d):
                        if not self._add(c - 1, d):
                            return False
                    elif self.prove(-c, nd) and not self._add(-c - 1, nd):
                        return False
                return self._tighten_ne()
        elif atom.op == 'isinst':
            x, n = atom.args
            if pol:
                self.types[x] = self.types.get(x, ()) + (n,)
            else:
                self.nottypes[x] = self.nottypes.get(x, ()) + (n,)
        elif atom.op == 'eq' and pol:
            a, b = atom.args
            if b.op == 'const' and a.op != 'const':
                self.eqsub[a] = b
            elif a.op == 'const':
                self.eqsub[b] = a
                a, b = b, a
            else:
                # orient: replace the structurally larger one
                if a.uid < b.uid:
                    a, b = b, a
                if a not in self.eqsub and not _occurs(a, b):
                    self.eqsub[a] = b
                    if a.op == 'sym':
                        if not self._recheck(a, b):
                            return False
                    elif a.op == 'sl' or b.op == 'sl':
                        for l, p in list(self.lits.items()):
                            if not p and l.op == 'eq':
                                for x, y in (l.args, l.args[::-1]):
                                    if x.op == 'sl' and (x.args[0] is a or a.op == 'sl' and x.args[0] is a.args[0]):
                                        z = self._covered(x) if x.args[0] is not a else subst(x, {a: b})
                                        if z is not None and mk_eq(z, y) is TRUE:
                                            return False
            if a.op == 'sl' and b.op == 'const' and not self._recheck(a, b):
                return False
            if a.ty[0] in ('bytes', 'str') and b.ty[0] in ('bytes', 'str'):
                d = eq0(isub(length(a), length(b)))
                if d is FALSE or (d is not TRUE and not self.assume(d)):
                    return False
        return True

    def value_of(self, t):
        """the constant an integer term is known to equal through a relation, or None"""
        if not self.eqlin:
            return None
        c, d = lin(t)
        if not d:
            return c
        g = 0
        for k in d.values():
            g = gcd(g, k)
        v = self.eqlin.get(frozenset((m, k // g) for m, k in d.items()))
        return None if v is None else c + g * v

    def _tighten_ne(self):
        """disequalities at interval ends"""
        for a, pol in list(self.lits.items()):
            if a.op == 'eq0' and not pol:
                c, d = lin(a.args[0])
                if len(d) == 1:
                    (m, k), = d.items()
                    if k == 1 and len(m) == 1:
                        old, TT.CTX.facts = TT.CTX.facts, self
                        try:
                            lo, hi = irng(m[0])
                        finally:
                            TT.CTX.facts = old
                        if lo is not None and lo == -c:
                            if not self._add(c - 1, d):
                                return False
                        elif hi is not None and hi == -c:
                            if not self._add(-c - 1, {m: -1}):
                                return False
        return True

    def _relate(self):
        old, TT.CTX.facts = TT.CTX.facts, self
        try:
            for it in self.late:
                own = {x: self.eqsub.pop(x) for x in it[0].args if isinstance(x, T) and x in self.eqsub}
                t = rebuild(it[0], tuple(renorm(x) if isinstance(x, T) else x for x in it[0].args))
                self.eqsub.update(own)
                if t is it[0]:
                    continue
                if t.op == 'const':
                    if bool(t.args[0]) != it[1]:
                        return False
                    continue
                self.late = tuple(x for x in self.late if x is not it)
                if not self.assume(t if it[1] else mk_not(t)):
                    return False
        finally:
            TT.CTX.facts = old
        return True

    def _recheck(self, a, v):
        for l, pol in list(self.lits.items()):
            if any(w is a for w in walk(l)):
                t = subst(l, {a: v})
                if t.op == 'const':
                    if bool(t.args[0]) != pol:
                        return False
                elif any(w.op in NATS for w in walk(t)) or \
                        any(w.op in ('item', 'byte', 'ch') and any(x is a for x in walk(w.args[1])) or
                            w.op == 'app' and any(x is a for y in w.args[1:] for x in walk(y)) for w in walk(l)):
                    if not self.assume(t if pol else mk_not(t)):
                        return False
        return True

    def _add(self, c, d):
        g = 0
        for k in d.values():
            g = gcd(g, k)
        if g > 1:
            d = {m: k // g for m, k in d.items()}
            c = c // g
        if self.prove(-c - 1, {m: -k for m, k in d.items()}):
            return False
        nd = {m: -k for m, k in d.items()}
        for c2, d2 in self.lin:
            if c2 == -c and d2 == nd:
                self.eqlin[frozenset(d.items())] = -c
                self.eqlin[frozenset(nd.items())] = c
                break
        self.lin.append((c, d))
        self.memo = {}
        if len(d) == 1:
            (m, k), = d.items()
            if len(m) == 1:
                a = m[0]
                lo, hi = self.bounds.get(a, (None, None))
                l0, h0 = (a.ty[1], a.ty[2]) if a.ty[0] == 'int' else (None, None)
                if lo is None:
                    lo = l0
                if hi is None:
                    hi = h0
                if k > 0:
                    v = -(c // k) if c % k == 0 else -(c // k)
                    v = -(c // k)
                    if lo is None or v > lo:
                        lo = v
                else:
                    v = c // (-k)
                    if hi is None or v < hi:
                        hi = v
                for w, r in self.fixed.items():
                    if w.op == 'mod' and w.args[0] is a and type(w.args[1]) is int:
                        if lo is not None:
                            lo += (r.args[0] - lo) % w.args[1]
                        if hi is not None:
                            hi -= (hi - r.args[0]) % w.args[1]
                if lo is not None and hi is not None and lo > hi:
                    return False
                self.bounds[a] = (lo, hi)
                if lo is not None and lo == hi:
                    self.fixed[a] = C(lo)
                    if lo == 0 and a.op == 'len' and a.args[0].ty[0] in ('bytes', 'str'):
                        self.eqsub[a.args[0]] = C(b'' if a.args[0].ty[0] == 'bytes' else '')
                    if not self._recheck(a, C(lo)):
                        return False
                elif lo is not None and hi is not None and hi - lo <= 2 and a.op == 'sym':
                    alive = [v for v in range(lo, hi + 1) if not self._refuted(a, v)]
                    if not alive:
                        return False
                    if len(alive) == 1:
                        self.lits.setdefault(eq0(isub(a, C(alive[0]))), True)
                        self.bounds[a] = (alive[0], alive[0])
                        self.fixed[a] = C(alive[0])
                        if not self._recheck(a, C(alive[0])):
                            return False
                if self.late and not self._relate():
                    return False
                return self._tighten_ne()
        return True

    def _refuted(self, a, v):
        """does the value contradict a known literal by itself?"""
        for l, pol in self.lits.items():
            if l.op in ('ge0', 'eq0') and any(w is a for w in walk(l)):
                t = subst(l, {a: C(v)})
                if t.op == 'const' and bool(t.args[0]) != pol:
                    return True
        return False

    # ---------------------------------------------------------------- linear arithmetic
    def prove(self, c, d):
        """is  c + sum d >= 0  entailed?"""
        old, TT.CTX.facts = TT.CTX.facts, self
        try:
            lo = c
            for m, k in d.items():
                l, h = mono_rng(m)
                v = l if k > 0 else h
                if v is None:
                    lo = None
                    break
                lo += k * v
            if lo is not None and lo >= 0:
                return True
            if not self.lin and not any(_has_rel(m) for m in d):
                return False
            return self._fm(-c - 1, {m: -k for m, k in d.items()})
        finally:
            TT.CTX.facts = old

    def _fm(self, c, d):
        """is the system  lin + (c + sum d >= 0)  infeasible?"""
        cons = [(c, d)]
        vars_ = set(d)
        pool = list(self.lin)
        used = [False] * len(pool)
        done = set()
        for _ in range(6):
            changed = False
            for m in list(vars_):
                if m in done:
                    continue
                done.add(m)
                changed = True
                l, h = mono_rng(m)
                if l is not None:
                    cons.append((-l, {m: 1}))
                if h is not None:
                    cons.append((h, {m: -1}))
                for c2, d2 in _relations(m):
                    cons.append((c2, d2))
                    vars_ |= set(d2)
            for i, (c2, d2) in enumerate(pool):
                if not used[i] and any(m in vars_ or len(m) == 1 and m[0].op == 'mod' and not vars_.isdisjoint(lin(m[0].args[0])[1])
                                       for m in d2):
                    used[i] = True
                    cons.append((c2, d2))
                    vars_ |= set(d2)
                    changed = True
            if not changed:
                break
            if len(cons) > MAXC:
                break
        mods = [m[0] for m in vars_ if len(m) == 1 and m[0].op == 'mod']
        if len(mods) > 1:
            for a in mods:
                for b in mods:
                    x, n = a.args
                    if a is not b and b.args[0] is x and b.args[1] % n == 0:
                        # x mod kn  ==  x mod n + n*((x // n) mod k)
                        q = imod(ifd(x, C(n)), C(b.args[1] // n))
                        c2, d2 = lin(isub(b, iadd(a, imul(C(n), q))))
                        cons.append((c2, d2))
                        cons.append((-c2, {m: -k for m, k in d2.items()}))
                        for m in d2:
                            if m not in done:
                                l, h = mono_rng(m)
                                if l is not None:
                                    cons.append((-l, {m: 1}))
                                if h is not None:
                                    cons.append((h, {m: -1}))
        return _infeasible(cons)


NATS = frozenset(('nat', 'natout', 'hash', 'hmac'))
_late = {}


def _is_late(atom):
    r = _late.get(atom)
    if r is None:
        r = _late[atom] = any(
            w.op == 'tob' and not is_const(w.args[1])
            or atom.op == 'eq' and w.op == 'sl' and any(not is_const(x) and any(y.op == 'len' for y in walk(x))
                                                        for x in w.args[1:]) for w in walk(atom))
    return r


def indices(lit, body, var):
    """values of the bound variable at which the body may speak of what the literal speaks of"""
    at = {w.args[1] for w in walk(lit) if w.op in ('item', 'byte', 'ch')}
    off = {ZERO}
    for w in walk(body):
        if w.op in ('item', 'byte', 'ch') and w.args[1] is not var:
            d = TT.isub(w.args[1], var)
            if d.lvl == 0:
                off.add(d)
    r = set()
    for i in at:
        for d in off:
            j = TT.isub(i, d)
            if j.lvl == 0 and not (j.op == 'const' and j.args[0] < 0):
                r.add(j)
    return r


def conjuncts(t):
    while t.op == 'ite' and (t.args[1] is TT.FALSE or t.args[2] is TT.FALSE):
        a, x, y = t.args
        if y is TT.FALSE:
            yield a
            t = x
        else:
            yield TT.mk_not(a)
            t = y
    yield t


def _occurs(a, b):
    for x in walk(b):
        if x is a:
            return True
    return False


def _has_rel(m):
    return any(a.op in ('fd', 'mod', 'lead', 'len', 'fdx') for a in m)


def _relations(m):
    if len(m) != 1:
        return
    a = m[0]
    if a.op == 'fd':
        x, n = a.args
        c, d = lin(x)
        d1 = dict(d)
        d1[m] = d1.get(m, 0) - n
        yield c, d1                                  # x - n*q >= 0
        yield -c + n - 1, {k: -v for k, v in d1.items()}
    elif a.op == 'lead':
        c, d = lin(a.args[1])
        # lead <= max(n, 0);  only usable when n >= 0
        f = TT.CTX.facts
        lo, _ = irng(a.args[1])
        if lo is not None and lo >= 0:
            d1 = dict(d)
            d1[m] = d1.get(m, 0) - 1
            yield c, d1
    elif a.op == 'len' and a.args[0].op == 'sl':
        b, lo, hi = a.args[0].args
        n = length(b)
        c, d = lin(n)
        d1 = dict(d)
        d1[m] = d1.get(m, 0) - 1
        yield c, d1
    elif a.op == 'len' and a.args[0].op in ('unhex',):
        c, d = lin(length(a.args[0].args[0]))
        d1 = dict(d)
        d1[m] = d1.get(m, 0) - 2
        yield c, d1
    elif a.op == 'mod':
        x, n = a.args
        l, _ = irng(x)
        if l is not None and l >= 0:
            c, d = lin(x)
            d1 = dict(d)
            d1[m] = d1.get(m, 0) - 1
            yield c, d1
        q = ifd(x, C(n))
        if q.op == 'fd':
            c, d = lin(x)
            d1 = dict(d)
            d1[m] = d1.get(m, 0) - 1
            d1[(q,)] = d1.get((q,), 0) - n
            yield c, d1
            yield -c, {k: -v for k, v in d1.items()}
        elif q.op == 'const':                        # bounds that became known since
            c, d = lin(x)
            c -= n * q.args[0]
            d1 = dict(d)
            d1[m] = d1.get(m, 0) - 1
            yield c, d1
            yield -c, {k: -v for k, v in d1.items()}


def _norm(c, d):
    d = {m: k for m, k in d.items() if k}
    g = 0
    for k in d.values():
        g = gcd(g, k)
    if g > 1:
        d = {m: k // g for m, k in d.items()}
        c = c // g
    return c, d


def _infeasible(cons):
    sys_ = {}
    for c, d in cons:
        c, d = _norm(c, d)
        if not d:
            if c < 0:
                return True
            continue
        key = frozenset(d.items())
        if key in sys_:
            if c < sys_[key][0]:
                sys_[key] = (c, d)
        else:
            sys_[key] = (c, d)
    # equations with a unit coefficient are used to eliminate that unknown exactly, so that the rest can be rounded
    for _ in range(4):
        sub = None
        for c, d in sys_.values():
            o = sys_.get(frozenset((m, -k) for m, k in d.items()))
            if o is not None and len(d) > 1:
                if o[0] + c < 0:
                    return True
                if o[0] + c == 0 and max(abs(k) for k in d.values()) > 1:
                    for m, k in d.items():
                        if abs(k) == 1 and (sub is None or _k(m) > _k(sub[2])):
                            sub = (c, d, m)
                    if sub:
                        break
        if not sub:
            break
        c, d, m = sub
        new = {}
        for c1, d1 in sys_.values():
            f = d1.get(m, 0)
            if f:
                f = -f * d[m]
                d1 = dict(d1)
                for x, k in d.items():
                    d1[x] = d1.get(x, 0) + f * k
                c1, d1 = _norm(c1 + f * c, d1)
                if not d1:
                    if c1 < 0:
                        return True
                    continue
            key = frozenset(d1.items())
            if key not in new or c1 < new[key][0]:
                new[key] = (c1, d1)
        sys_ = new
    rows = list(sys_.values())
    while rows:
        occ = {}
        for c, d in rows:
            for m, k in d.items():
                p = occ.setdefault(m, [0, 0])
                p[0 if k > 0 else 1] += 1
        if not occ:
            return False
        m = min(occ, key=lambda x: (occ[x][0] * occ[x][1] - occ[x][0] - occ[x][1], _k(x)))
        pos = [r for r in rows if r[1].get(m, 0) > 0]
        neg = [r for r in rows if r[1].get(m, 0) < 0]
        rest = [r for r in rows if m not in r[1]]
        if len(pos) * len(neg) + len(rest) > 400:
            return False
        new = {}
        for c, d in rest:
            key = frozenset(d.items())
            if key not in new or c < new[key][0]:
                new[key] = (c, d)
        for c1, d1 in pos:
            a = d1[m]
            for c2, d2 in neg:
                b = -d2[m]
                d = {}
                for x, k in d1.items():
                    if x != m:
                        d[x] = d.get(x, 0) + b * k
                for x, k in d2.items():
                    if x != m:
                        d[x] = d.get(x, 0) + a * k
                c, d = _norm(b * c1 + a * c2, d)
                if not d:
                    if c < 0:
                        return True
                    continue
                key = frozenset(d.items())
                if key not in new or c < new[key][0]:
                    new[key] = (c, d)
        rows = list(new.values())
    return False


def _k(m):
    return tuple(a.uid for a in m)
