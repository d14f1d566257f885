"""Iteration: streams, closed forms of loops (tabulation, filtering, reduction, quantification),
bounded unrolling for the rest."""
from .core import *
from .terms import *
from . import terms as TT

FAIL = object()


class NoForm(Exception):
    pass


# ----------------------------------------------------------------------------- iterables
def random_access(E, it):
    """sequence term of an iterable with known elements, or None"""
    k = E.kind(it)
    if k == 'tuple':
        return it.args[0]
    if k == 'seq':
        return it
    if k in ('bytes', 'str'):
        if is_const(it):
            return items([C(x) for x in cval(it)])
        if it.op == 'tob' and is_const(it.args[1]):
            return items([elem(it, C(j)) for j in range(cval(it.args[1]))])
        return seq_of_bytes(it)
    if k == 'range':
        return range_seq(E, it)
    if k == 'list':
        return E.st.obj(it).v
    if k == 'bytearray':
        return random_access(E, E.st.obj(it).v)
    if k == 'dict':
        o = E.st.obj(it)
        if type(o.v) is dict:
            return items(list(o.v))
        raise Undecided('iteration over a symbolic mapping')
    if k == 'set':
        o = E.st.obj(it)
        if type(o.v) is dict:
            return items(list(o.v))
    return None


def range_seq(E, r):
    lo, hi, st = r.args
    if not is_const(st):
        raise Undecided('symbolic range step')
    s = cval(st)
    if is_const(lo) and is_const(hi) and len(range(cval(lo), cval(hi), s)) <= LONG:
        return items([C(x) for x in range(cval(lo), cval(hi), s)])
    if s > 0:
        d = isub(hi, lo)
        n = d if s == 1 else ifd(iadd(d, C(s - 1)), C(s))
    else:
        d = isub(lo, hi)
        n = d if s == -1 else ifd(iadd(d, C(-s - 1)), C(-s))
    if not E.branch(le(ONE, d)):
        return items(())
    i = fresh('i', ('int', 0, None))
    return tab(n, i, iadd(lo, imul(st, i)))


def to_seq(E, it):
    it = E.res(it)
    q = random_access(E, it)
    if q is not None:
        return q
    r = E.new_list(items(()))

    def cb(v):
        o = E.st.wobj(r)
        o.v = cat('q', [o.v, items([v])])
    iterate(E, it, cb)
    return E.st.obj(r).v


def iterate(E, it, cb, node=None):
    it = E.res(it)
    q = random_access(E, it)
    if q is not None:
        sym_loop(E, length(q), lambda i: elem(q, i), cb)
        return
    k = E.kind(it)
    if it.op == 'ref':
        o = E.st.obj(it)
        if k == 'gen':
            if o.f.get('used') is TRUE:
                return
            E.st.wobj(it).f['used'] = TRUE
            o.v(cb)
            return
        if k == 'iter':
            pos, q = o.f['pos'], o.v

            def cb2(v):
                w = E.st.wobj(it)
                w.f['pos'] = iadd(w.f['pos'], ONE)
                cb(v)
            sym_loop(E, isub(length(q), pos), lambda i: elem(q, iadd(pos, i)), cb2)
            return
        m = E.lookup_special(it, '__iter__')
        if m is not None:
            iterate(E, E.call(m, [], {}), cb, node)
            return
        if k == 'inst' and type(o.v) is dict:
            for x in list(o.v):
                cb(x)
            return
    if it.op == 'host' and isinstance(it.args[0], Cls) and it.args[0].enum is not None:
        seen = set()
        for m in it.args[0].enum.values():
            if m not in seen:
                seen.add(m)
                cb(m)
        return
    if it.op == 'host' and hasattr(it.args[0], 'iterate'):
        it.args[0].iterate(E, cb)
        return
    m = E.lookup_special(it, '__iter__')
    if m is not None:
        iterate(E, E.call(m, [], {}), cb, node)
        return
    if k == 'any':
        raise Undecided('iteration over an unknown value')
    E.py_raise('TypeError', 'not iterable')


# ----------------------------------------------------------------------------- for loops
def const_len(n):
    lo, hi = irng(n)
    if lo is not None and lo == hi and lo <= LONG:
        return lo
    return None


LONG = 5000             # longer loops are summarised, not unrolled


def sym_loop(E, n, elemfn, cb):
    if decide(le(n, ZERO)):
        return
    c = const_len(n)
    if c is not None:
        for j in range(max(0, c)):
            cb(elemfn(C(j)))
        return
    plan = cached_plan(E, lambda: summarise(E, n, elemfn, cb))
    if plan is not FAIL:
        apply_plan(E, plan, lambda i: cb(elemfn(i)))
        return
    lo, hi = irng(n)
    bound = E.K
    if hi is not None and hi <= 8:
        bound = hi
    for j in range(bound):
        if not E.branch(lt(C(j), n)):
            return
        cb(elemfn(C(j)))
    if E.branch(lt(C(bound), n)):
        raise Cut(f'loop of unknown length beyond {bound} iterations')


def cached_plan(E, fn):
    d = E.dec
    d0 = getattr(E, '_loopctr', None)
    if d0 is None:
        d0 = E._loopctr = {}
    tr = E.trail()
    k = (tr, len(E.st.events), E.st.nfid, E.st.nref, len(E.st.guards), E.st.facts_sig()
         if hasattr(E.st, 'facts_sig') else 0)
    key = ('loop',) + k
    # several loops may share a trail: distinguish them by an allocation tick
    r = E.cache.get(key)
    if r is None:
        fid = E.fid
        cur = getattr(E, 'curfn', None)
        dep = E.st.depth
        try:
            r = fn()
        except (NoForm, Undecided) as e:
            E.notes.append(str(e))
            r = FAIL
        finally:
            E.fid, E.curfn = fid, cur
            E.st.depth = dep
        E.cache[key] = r
    # tick so that the next loop on the same trail has another key
    E.st.nfid += 1
    return r


class Plan:
    """finals: location -> value after all iterations; lit: every iteration completes;
    exit: what a single kind of exit does, or AT - the exiting iteration is executed in the state
    `at(m)` after m complete iterations"""
    __slots__ = ('finals', 'lit', 'exit', 'poison', 'n', 'i', 'pred', 'at')

    def __init__(self, finals, lit, exit_, poison, n=None, i=None, pred=None, at=None):
        self.finals, self.lit, self.exit, self.poison = finals, lit, exit_, poison
        self.n, self.i, self.pred, self.at = n, i, pred, at


AT = ('at', None)


def apply_plan(E, p, body=None):
    if p.lit is not TRUE and not E.branch(p.lit):
        kind, val = p.exit
        if kind == 'at':
            m = lead(p.n, p.i, p.pred)
            E.assume(ge0(m))
            E.assume(lt(m, p.n))
            E.assume(call_all(m, p.i, p.pred))
            E.assume(mk_not(subst(p.pred, {p.i: m})))
            for loc, v in p.at(m).items():
                E.st.set(loc, v)
            body(m)
            raise Infeasible()
        for loc in p.poison:
            E.st.set(loc, POISON)
        if kind == 'raise':
            E.py_raise(val)
        if kind == 'ret':
            raise Ret(val)
        raise Brk()
    for loc, v in p.finals.items():
        E.st.set(loc, v)


def tree(outs, d=0):
    if len(outs) == 1 and len(outs[0].guards) == d:
        return ('leaf', outs[0])
    for o in outs:
        if len(o.guards) <= d:
            raise NoForm('irregular decision tree')
    a = outs[0].guards[d][0]
    t = [o for o in outs if o.guards[d] == (a, True)]
    f = [o for o in outs if o.guards[d] == (a, False)]
    if len(t) + len(f) != len(outs):
        raise NoForm('irregular decision tree')
    return ('node', a, tree(t, d + 1) if t else None, tree(f, d + 1) if f else None)


def fold_tree(t, leaf, skip):
    """ite-term over the leaves; leaves for which skip() holds are dropped"""
    if t is None:
        return None
    if t[0] == 'leaf':
        return None if skip(t[1]) else leaf(t[1])
    x, y = fold_tree(t[2], leaf, skip), fold_tree(t[3], leaf, skip)
    if x is None:
        return y
    if y is None:
        return x
    return mk_ite(t[1], x, y)


def has_any(t, syms):
    return bool(t.fv & syms)


def loop_body_outs(E, base, mus, thunk, limit=48):
    st0 = base.copy()
    for loc, mu in mus.items():
        st0.set(loc, mu)
    return E.explore(st0, thunk, limit=limit)


def mu_for(E, init, after, nonneg):
    if init is None:
        return POISON
    if not isinstance(init, T):
        raise NoForm('non-term storage modified in loop')
    if init.op == 'poison':
        return POISON
    if init.op in ('ref', 'host', 'tuple') or any(a is not None and isinstance(a, T) and
                                                   a.op in ('ref', 'host', 'tuple') for a in after):
        return POISON
    k = init.ty[0]
    if k == 'int' or init.op == 'intsub':
        return fresh('mu', ('int', 0 if nonneg else None, None))
    if k == 'bool':
        return fresh('mu', BOOL)
    if k in ('bytes', 'str'):
        return fresh('mu', (k, None))
    if k == 'seq':
        return fresh('mu', ('seq', ANY))
    return POISON


def discover(E, base, thunk, presets=()):
    """modified locations and the outcomes of one iteration from a havoc'd state"""
    mus, weak = {}, set()
    for _ in range(8):
        outs = loop_body_outs(E, base, mus, thunk)
        new = []
        for o in outs:
            if len(o.st.events) != len(base.events):
                raise NoForm('effects in loop body')
            if o.kind == 'cut':
                raise NoForm('unbounded inner loop')
            if o.kind in ('raise', 'ret', 'brk'):
                continue
            for loc in o.st.changed(base):
                if loc not in mus and loc not in new and loc not in presets:
                    if loc[0] == 'f' and loc[2].startswith('$'):
                        raise NoForm('generator state')
                    new.append(loc)
        # a state assumed non-negative has to stay non-negative
        bad = []
        for loc, mu in mus.items():
            if mu.op == 'sym' and mu.ty[0] == 'int' and mu.ty[1] == 0:
                for o in outs:
                    v = o.st.get(loc)
                    if o.kind == 'ok' and v is not mu and not (isinstance(v, T) and at_facts(o.st, lambda: decide(ge0(v)))):
                        bad.append(loc)
                        break
        if not new and not bad:
            return mus, outs
        for loc in bad:
            weak.add(loc)
            mus[loc] = mu_for(E, base.get(loc), [], False)
        for loc in new:
            init = base.get(loc)
            after = [o.st.get(loc) for o in outs if o.kind == 'ok']
            nonneg = False
            if isinstance(init, T) and is_int(init) and loc not in weak:
                lo = at_facts(base, lambda: irng(init)[0])
                nonneg = lo is not None and lo >= 0
            mus[loc] = mu_for(E, init, after, nonneg)
    raise NoForm('loop state does not settle')


def at_facts(st, f):
    old, TT.CTX.facts = TT.CTX.facts, st.facts
    try:
        return f()
    finally:
        TT.CTX.facts = old


def summarise(E, n, elemfn, cb, pre=None, presets=None):
    """presets: location -> value after k iterations (k a term), set by `pre`"""
    presets = presets or {}
    base = E.st.copy()
    i = fresh('i', ('int', 0, None))
    lim = lt(i, n)

    def thunk():
        E.assume(lim)
        if pre:
            pre(i)
        cb(elemfn(i))
    mus, outs = discover(E, base, thunk, presets)
    musyms = frozenset(m for m in mus.values() if m.op == 'sym')
    okouts = [o for o in outs if o.kind == 'ok']
    exits = [o for o in outs if o.kind != 'ok']
    if not okouts and not exits:
        raise NoForm('no iteration outcome')
    tr = tree(outs)
    skip = lambda o: o.kind != 'ok'
    runs = provable(le(ONE, n))
    sub, form, vals = {}, {}, {}
    for loc, mu in mus.items():
        form[loc] = None
        if mu.op == 'poison':
            continue
        v = fold_tree(tr, lambda o: o.st.get(loc), skip) if okouts else mu
        if v is None or not isinstance(v, T):
            raise NoForm('location unset')
        if v.op != 'poison':
            vals[loc] = v
    # solve the recurrences: those depending on solved state only, then coupled ones
    todo = dict(vals)
    while todo:
        progress = False
        others = frozenset(mus[l] for l in todo) | frozenset(mus[l] for l in mus if form[l] is None and l not in todo and mus[l].op == 'sym')
        for loc in list(todo):
            mu, init = mus[loc], base.get(loc)
            v = subst(todo[loc], sub)
            if has_any(v, others - {mu}):
                continue
            f = solve(n, i, init, mu, v, runs)
            del todo[loc]
            progress = True
            form[loc] = f
            if f is not None:
                sub[mu] = f(i)
            break
        if not progress:
            for loc in todo:
                locs = [loc] + [l for l in todo if l != loc]
                syms = [mus[l] for l in locs]
                inits = [base.get(l) for l in locs]
                bodies = [subst(todo[l], sub) for l in locs]
                if any(has_any(b, others - frozenset(syms)) for b in bodies):
                    raise NoForm('unsolved loop state')
                form[loc] = lambda k, s=syms, a=inits, b=bodies: fold(k, i, s, a, b)
            for loc in todo:
                sub[mus[loc]] = form[loc](i)
            break

    def at(k):
        r = {}
        for loc in mus:
            f = form[loc]
            r[loc] = POISON if f is None else f(k)
        for loc, f in presets.items():
            r[loc] = f(k)
        return r
    finals = at(n)
    bad = musyms | frozenset([i])
    for loc, v in finals.items():
        if v.op == 'poison':
            continue
        if has_any(v, bad):
            raise NoForm('open loop result')
        for x in walk(v):
            if x.op == 'ref' and x.args[0] > base.nref:
                raise NoForm('objects created in loop body')
            if x.op == 'poison':
                raise NoForm('unmodelled value in loop')
    lit, exit_, p = TRUE, None, None
    if exits:
        p = fold_tree(tr, lambda o: TRUE if o.kind == 'ok' else FALSE, lambda o: False)
        p = subst(p, sub)
        if has_any(p, musyms):
            raise NoForm('exit depends on unsolved state')
        lit = call_all(n, i, p)
        kinds = set()
        for o in exits:
            if o.kind == 'raise':
                kinds.add(('raise', o.val.cls))
            elif o.kind == 'ret' and is_const(o.val):
                kinds.add(('ret', o.val))
            else:
                kinds.add(AT)
        exit_ = kinds.pop() if len(kinds) == 1 else AT
        if exit_ is AT and not okouts:
            lit = le(n, ZERO)
    return Plan(finals, lit, exit_, set(mus) | set(presets), n, i, p, at)


def solve(n, i, init, mu, v, runs):
    """value after k steps of mu := v(i, mu) as a function of k, or None when unknown"""
    if v is mu:
        return lambda k: init
    if not has_any(v, frozenset([mu])):
        # the last iteration wins
        if init is None or init.op == 'poison' or not isinstance(init, T):
            return (lambda k: subst(v, {i: isub(k, ONE)}) if provable(le(ONE, k)) else POISON) if runs else None
        return lambda k: last(k, i, v, init)
    if is_int(v) and is_int(mu):
        d = isub(v, mu)
        if is_const(d):
            return lambda k: iadd(init, imul(d, k))
        if v.op == 'fd' and v.args[0] is mu:
            return lambda k: ifd(init, ipow(C(v.args[1]), k))
        c, dd = lin(v)
        if c == 0 and list(dd) == [(mu,)] and dd[(mu,)] > 0:
            return lambda k: imul(init, ipow(C(dd[(mu,)]), k))
    j = fresh('i', ('int', 0, None))
    try:
        w = subst(v, {i: j})
        closed(fresh('n', ('int', 0, None)), j, init, mu, w)
        return lambda k: closed(k, j, init, mu, w)
    except NoForm:
        return lambda k: fold(k, i, [mu], [init], [v])


def last(k, i, v, init):
    if provable(le(ONE, k)):
        return subst(v, {i: isub(k, ONE)})
    if v is init:
        return v
    return POISON


def suffix(v, mu, kind):
    """e such that v == mu ++ e on every leaf (a dict of leaf forms); None if not of this form"""
    if v is mu:
        return empty(kind)
    if v.op == 'cat' and v.args[1] is mu:
        return cat(kind, v.args[2:])
    if v.op == 'ite':
        x, y = suffix(v.args[1], mu, kind), suffix(v.args[2], mu, kind)
        if x is None or y is None or v.args[0] is mu:
            return None
        return mk_ite(v.args[0], x, y)
    return None


def prefix(v, mu, kind):
    if v is mu:
        return empty(kind)
    if v.op == 'cat' and v.args[-1] is mu:
        return cat(kind, v.args[1:-1])
    if v.op == 'ite':
        x, y = prefix(v.args[1], mu, kind), prefix(v.args[2], mu, kind)
        if x is None or y is None:
            return None
        return mk_ite(v.args[0], x, y)
    return None


def leaves(v):
    if v.op == 'ite':
        return leaves(v.args[1]) + leaves(v.args[2])
    return [v]


def map_leaves(v, f):
    if v.op == 'ite':
        return mk_ite(v.args[0], map_leaves(v.args[1], f), map_leaves(v.args[2], f))
    return f(v)


def flat_tab(n, i, s):
    """concatenation over i of the sequence s(i)"""
    ls = leaves(s)
    if all(x.op == 'items' for x in ls):
        lens = {len(x.args) for x in ls}
        if lens == {1}:
            return tab(n, i, map_leaves(s, lambda x: x.args[0]))
        if lens == {0}:
            return items(())
        if lens <= {0, 1}:
            pred = map_leaves(s, lambda x: C(bool(x.args)))
            some = next(x.args[0] for x in ls if x.args)

            def pick(x):
                return x.args[0] if x.args else None

            def body(v):
                if v.op == 'ite':
                    a, b = body(v.args[1]), body(v.args[2])
                    if a is None:
                        return b
                    if b is None:
                        return a
                    return mk_ite(v.args[0], a, b)
                return pick(v)
            return filt(n, i, pred, body(s))
    return mk('flat', (tab(n, i, mk('boxed', (s,), ('box',))),), ('seq', ANY))


def closed(n, i, init, mu, v):
    k = mu.ty[0]
    if k == 'int':
        d = isub_tree(v, mu)
        if d is not None and not has_any(d, frozenset([mu])):
            return iadd(init, ssum(tab(n, i, d)))
        cs = set()

        def horner(x):
            c, dd = lin(x) if is_int(x) else (0, {})
            cs.add(dd.pop((mu,), None))
            return from_lin(c, dd)
        d = map_leaves(v, horner)
        if len(cs) == 1 and not has_any(d, frozenset([mu])):
            c = cs.pop()
            if c is not None and c > 1:
                d = subst(d, {i: isub(isub(n, ONE), i)})
                return iadd(imul(init, ipow(C(c), n)), ssum(tab(n, i, imul_tree(d, ipow(C(c), i)))))
        raise NoForm('non-linear accumulation')
    if k == 'bool':
        t = subst(v, {mu: TRUE})
        f = subst(v, {mu: FALSE})
        if f is FALSE:
            return mk_and(init, call_all(n, i, t))
        if t is TRUE:
            return mk_or(init, mk_not(call_all(n, i, mk_not(f))))
        raise NoForm('boolean state')
    kind = {'bytes': 'b', 'str': 's', 'seq': 'q'}[k]
    s = suffix(v, mu, kind)
    if s is not None and not has_any(s, frozenset([mu])):
        if kind == 'q':
            return cat('q', [init, flat_tab(n, i, s)])
        return cat(kind, [init, join(kind, tab(n, i, s))])
    s = prefix(v, mu, kind)
    if s is not None and not has_any(s, frozenset([mu])):
        j = fresh('i', ('int', 0, None))
        s = subst(s, {i: isub(isub(n, ONE), j)})
        if kind == 'q':
            return cat('q', [flat_tab(n, j, s), init])
        return cat(kind, [join(kind, tab(n, j, s)), init])
    raise NoForm('accumulator is not a concatenation')


def imul_tree(v, x):
    if v.op == 'ite':
        return mk_ite(v.args[0], imul_tree(v.args[1], x), imul_tree(v.args[2], x))
    return imul(v, x)


def isub_tree(v, mu):
    if v.op == 'ite':
        a, b = isub_tree(v.args[1], mu), isub_tree(v.args[2], mu)
        return None if a is None or b is None else mk_ite(v.args[0], a, b)
    if not is_int(v):
        return None
    return isub(v, mu)


# ----------------------------------------------------------------------------- while loops
_plain = {}


def plain(s):
    """'while True' whose first statement is its exit, as the loop with that test; one that starts with next() as a for loop"""
    r = _plain.get(s)
    if r is None:
        r = _plain[s] = plain1(s)
    return r


def plain1(s):
    if not (isinstance(s.test, ast.Constant) and s.test.value) or s.orelse or len(s.body) < 2:
        return s
    x = s.body[0]
    if isinstance(x, ast.If) and len(x.body) == 1 and isinstance(x.body[0], ast.Break):
        t = ast.While(ast.UnaryOp(ast.Not(), x.test), x.orelse + s.body[1:], [])
    elif isinstance(x, ast.If) and len(x.orelse) == 1 and isinstance(x.orelse[0], ast.Break):
        t = ast.While(x.test, x.body + s.body[1:], [])
    elif isinstance(x, ast.Try) and len(x.handlers) == 1 and len(x.body) == 1 and not x.finalbody:
        h, a = x.handlers[0], x.body[0]
        if not (isinstance(h.type, ast.Name) and h.type.id == 'StopIteration' and len(h.body) == 1 and isinstance(h.body[0], ast.Break)
                and isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.value, ast.Call)
                and isinstance(a.value.func, ast.Name) and a.value.func.id == 'next' and len(a.value.args) == 1
                and isinstance(a.value.args[0], ast.Name)):
            return s
        if any(isinstance(y, ast.Name) and y.id == a.value.args[0].id for z in x.orelse + s.body[1:] for y in ast.walk(z)):
            return s
        t = ast.For(a.targets[0], a.value.args[0], x.orelse + s.body[1:], [])
    else:
        return s
    ast.copy_location(t, s)
    return ast.fix_missing_locations(t)


def while_loop(E, s):
    fid = E.fid
    const_true = isinstance(s.test, ast.Constant) and bool(s.test.value)
    if not const_true:
        plan = cached_plan(E, lambda: count_plan(E, s, fid))
        if plan is not FAIL:
            if plan is None:
                if not E.test(E.ev(s.test)):
                    E.exec_block(s.orelse)
                    return
                raise Undecided('while plan')
            trip_ok, p = plan
            if E.branch(trip_ok):
                def body(i):
                    E.fid = fid
                    try:
                        E.exec_block(s.body)
                    except Cont:
                        pass
                try:
                    apply_plan(E, p, body)
                except Brk:
                    E.fid = fid
                    return
            E.fid = fid
            E.exec_block(s.orelse)
            return
    used = total = 0
    while True:
        pos = E.dec.pos
        if used >= E.KW:
            if const_true or E.test(E.ev(s.test)):
                raise Cut('while loop beyond bound')
            E.exec_block(s.orelse)
            return
        if not E.test(E.ev(s.test)):
            E.exec_block(s.orelse)
            return
        try:
            E.exec_block(s.body)
        except Brk:
            E.fid = fid
            return
        except Cont:
            pass
        E.fid = fid
        total += 1
        if E.dec.pos != pos:
            used += 1
        if total > 20000:
            raise Undecided('long loop')


EXIT = object()


def digits_plan(E, s, fid, loc, init, c):
    """while v: ... v //= c"""
    guard = ge0(isub(init, ONE))
    cur = E.st
    st = cur.copy()
    if not st.facts.assume(guard):
        raise NoForm('loop does not run')
    E.st = st
    TT.CTX.facts = st.facts
    try:
        trip = ndig(c, init)
        if const_len(trip) is not None:
            raise NoForm('constant trip count')

        def val(k):
            return ZERO if k is trip else ifd(init, ipow(C(c), k))

        def pre(i):
            E.fid = fid
            E.st.set(loc, val(i))
            E.assume(ge0(isub(val(i), ONE)))

        def cb(_):
            try:
                E.exec_block(s.body)
            except Cont:
                pass
        return guard, summarise(E, trip, lambda i: None, cb, pre, {loc: val})
    finally:
        E.st = cur
        TT.CTX.facts = cur.facts


def count_plan(E, s, fid):
    """recognise a counted while loop; (guard, Plan) or raises NoForm"""
    base = E.st.copy()
    # cheap rejection: the first test is already decided either way and loop is concrete
    def thunk():
        E.fid = fid
        if not E.test(E.ev(s.test)):
            return EXIT
        try:
            E.exec_block(s.body)
        except Cont:
            pass
        return None
    mus, outs = discover(E, base, thunk)
    if not mus:
        raise NoForm('no loop state')
    ex = [o for o in outs if o.kind == 'ok' and o.val is EXIT]
    ok = [o for o in outs if o.kind == 'ok' and o.val is not EXIT]
    if len(ex) != 1 or len(ex[0].guards) != 1 or not ok:
        raise NoForm('loop test')
    a, pol = ex[0].guards[0]
    cont = mk_not(a) if pol else a
    musyms = frozenset(m for m in mus.values() if m.op == 'sym')
    for loc, mu in mus.items():
        if mu.op != 'sym' or mu.ty[0] != 'int':
            continue
        ds = {isub(o.st.get(loc), mu) if is_int(o.st.get(loc)) else None for o in ok}
        init = base.get(loc)
        vs = {o.st.get(loc) for o in ok}
        if len(vs) == 1 and cont in (ge0(isub(mu, ONE)), mk_not(eq0(mu))) and mu.ty[1] == 0:
            v = vs.pop()
            if isinstance(v, T) and v.op == 'fd' and v.args[0] is mu:
                return digits_plan(E, s, fid, loc, init, v.args[1])
        if len(ds) != 1:
            continue
        d = ds.pop()
        if d is None or not is_const(d) or cval(d) == 0 or not has_any(cont, frozenset([mu])):
            continue
        c = cval(d)
        atom, pos = lits_of(cont)
        if atom.op not in ('ge0', 'eq0'):
            continue
        p = atom.args[0]
        if atom.op == 'ge0' and not pos:
            p = isub(C(-1), p)
        if atom.op == 'eq0' and pos:
            continue
        i = fresh('i', ('int', 0, None))
        q = subst(p, {mu: iadd(init, imul(C(c), i))})
        if has_any(q, musyms):
            continue
        cc, dd = lin(q)
        k = dd.pop((i,), 0)
        if any(i in m for m in dd):
            continue
        rest = from_lin(cc, dd)
        if atom.op == 'eq0':
            if k == 1 and is_const(rest) is False:
                rest, k = ineg(rest), -1
            if k == 1:
                rest, k = ineg(rest), -1
            if k != -1 or not provable(ge0(rest)):
                continue
            trip, guard = rest, ge0(isub(rest, ONE))
        else:
            if k >= 0:
                continue
            trip, guard = iadd(ifd(rest, C(-k)), ONE), ge0(rest)
        # the plan is computed under the assumption that at least one iteration happens
        cur = E.st
        st = cur.copy()
        if not st.facts.assume(guard):
            raise NoForm('loop does not run')
        E.st = st
        TT.CTX.facts = st.facts
        try:
            if const_len(trip) is not None:
                raise NoForm('constant trip count')
            def pre(i, loc=loc, init=init, c=c):
                E.fid = fid
                E.st.set(loc, iadd(init, imul(C(c), i)))
                if not E.test(E.ev(s.test)):
                    raise Infeasible()

            def cb(_):
                try:
                    E.exec_block(s.body)
                except Cont:
                    pass
            plan = summarise(E, trip, lambda i: None, cb, pre,
                             {loc: lambda n, init=init, c=c: iadd(init, imul(C(c), n))})
        finally:
            E.st = cur
            TT.CTX.facts = cur.facts
        return guard, plan
    raise NoForm('no counter')
