"""Regular expressions as canonical automata: a pattern and the way it is applied denote a set of
whole subject strings; two spellings of the same set get the same canonical name."""
import re
try:
    from re import _parser as sp, _constants as sc
except ImportError:                                              # pragma: no cover
    import sre_parse as sp, sre_constants as sc


class NoRx(Exception):
    pass


def norm(iv):
    out = []
    for a, b in sorted(iv):
        if a > b:
            continue
        if out and a <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(b, out[-1][1]))
        else:
            out.append((a, b))
    return tuple(out)


def neg(iv, top):
    out, p = [], 0
    for a, b in norm(iv):
        if p < a:
            out.append((p, a - 1))
        p = b + 1
    if p <= top:
        out.append((p, top))
    return tuple(out)


_CAT = {}


def category(c, uni, top):
    k = (c, uni)
    if k in _CAT:
        return _CAT[k]
    name = str(c).split('_')[-1].lower()
    ch = {'digit': r'\d', 'space': r'\s', 'word': r'\w'}.get(name)
    if ch is None:
        raise NoRx()
    pat = re.compile(ch if uni else ch.encode())
    iv, n = [], (0x110000 if uni else 256)
    start = None
    for i in range(n):
        m = pat.match(chr(i) if uni else bytes([i]))
        if m and start is None:
            start = i
        elif not m and start is not None:
            iv.append((start, i - 1))
            start = None
    if start is not None:
        iv.append((start, n - 1))
    r = norm(iv)
    if 'NOT' in str(c):
        r = neg(r, top)
    _CAT[k] = r
    return r


class NFA:
    def __init__(self):
        self.eps, self.tr, self.n = {}, {}, 0

    def new(self):
        self.n += 1
        return self.n

    def e(self, a, b):
        self.eps.setdefault(a, []).append(b)

    def t(self, a, iv, b):
        self.tr.setdefault(a, []).append((iv, b))


def build(nfa, items, a, uni, top, flags, last, atend):
    """thread items from state a; returns the exit state"""
    for k, (op, av) in enumerate(items):
        fin = last and k == len(items) - 1
        if op is sc.LITERAL:
            b = nfa.new()
            cs = [av]
            if flags & re.I:
                raise NoRx()
            nfa.t(a, tuple((c, c) for c in cs), b)
            a = b
        elif op is sc.NOT_LITERAL:
            b = nfa.new()
            nfa.t(a, neg(((av, av),), top), b)
            a = b
        elif op is sc.ANY:
            b = nfa.new()
            nfa.t(a, ((0, top),) if flags & re.S else neg(((10, 10),), top), b)
            a = b
        elif op is sc.IN:
            if flags & re.I:
                raise NoRx()
            iv, ng = [], False
            for o, v in av:
                if o is sc.NEGATE:
                    ng = True
                elif o is sc.LITERAL:
                    iv.append((v, v))
                elif o is sc.RANGE:
                    iv.append(tuple(v))
                elif o is sc.CATEGORY:
                    iv.extend(category(v, uni and not flags & re.A, top))
                else:
                    raise NoRx()
            iv = norm(iv)
            if ng:
                iv = neg(iv, top)
            b = nfa.new()
            nfa.t(a, iv, b)
            a = b
        elif op is sc.CATEGORY:
            b = nfa.new()
            nfa.t(a, category(av, uni and not flags & re.A, top), b)
            a = b
        elif op is sc.SUBPATTERN:
            if av[1] or av[2]:
                raise NoRx()
            a = build(nfa, list(av[3]), a, uni, top, flags, fin, atend)
        elif op is sc.BRANCH:
            b = nfa.new()
            for alt in av[1]:
                s = nfa.new()
                nfa.e(a, s)
                nfa.e(build(nfa, list(alt), s, uni, top, flags, False, atend), b)
            a = b
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT) or str(op) == 'POSSESSIVE_REPEAT':
            if str(op) == 'POSSESSIVE_REPEAT':
                raise NoRx()
            lo, hi, sub = av
            sub = list(sub)
            if lo > 200 or (hi is not sc.MAXREPEAT and hi > 200):
                raise NoRx()
            for _ in range(lo):
                a = build(nfa, sub, a, uni, top, flags, False, atend)
            if hi is sc.MAXREPEAT:
                s = nfa.new()
                nfa.e(a, s)
                x = build(nfa, sub, s, uni, top, flags, False, atend)
                nfa.e(x, s)
                a = nfa.new()
                nfa.e(s, a)
            else:
                b = nfa.new()
                nfa.e(a, b)
                for _ in range(hi - lo):
                    a = build(nfa, sub, a, uni, top, flags, False, atend)
                    nfa.e(a, b)
                a = b
        elif op is sc.AT:
            if av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
                if a != 1 or flags & re.M:
                    raise NoRx()
            elif av in (sc.AT_END, sc.AT_END_STRING):
                if not fin or flags & re.M:
                    raise NoRx()
                atend.append('$' if av is sc.AT_END else 'Z')
            else:
                raise NoRx()
        else:
            raise NoRx()
    return a


_CACHE = {}


def language(pattern, mode, flags=0):
    """canonical automaton of the strings for which `mode` (match/fullmatch/search) succeeds"""
    key = (pattern, mode, flags)
    if key in _CACHE:
        return _CACHE[key]
    uni = isinstance(pattern, str)
    top = 0x10FFFF if uni else 255
    p = sp.parse(pattern, flags)
    fl = p.state.flags
    nfa = NFA()
    s0 = nfa.new()
    items = list(p)
    if mode == 'search':
        if items and items[0][0] is sc.AT and items[0][1] in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
            items = items[1:]
            first = s0
        else:
            nfa.t(s0, ((0, top),), s0)
            first = nfa.new()
            nfa.e(s0, first)
    else:
        first = s0
        while items and items[0][0] is sc.AT and items[0][1] in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING) \
                and not fl & re.M:
            items = items[1:]
    atend = []
    x = build(nfa, items, first, uni, top, fl, True, atend)
    if atend:
        acc = nfa.new()
        nfa.e(x, acc)
        if atend[-1] == '$' and mode != 'fullmatch':
            nfa.t(x, ((10, 10),), acc)
        final = acc
    elif mode == 'fullmatch':
        final = x
    else:
        final = nfa.new()
        nfa.e(x, final)
        nfa.t(final, ((0, top),), final)
    r = canonical(nfa, s0, final, top)
    _CACHE[key] = r
    return r


def canonical(nfa, s0, final, top):
    pts = {0}
    for trs in nfa.tr.values():
        for iv, _ in trs:
            for a, b in iv:
                pts.add(a)
                pts.add(b + 1)
    pts = sorted(p for p in pts if p <= top)

    def clo(S):
        S = set(S)
        w = list(S)
        while w:
            for n in nfa.eps.get(w.pop(), ()):
                if n not in S:
                    S.add(n)
                    w.append(n)
        return frozenset(S)
    start = clo({s0})
    idx, order, delta = {start: 0}, [start], []
    i = 0
    while i < len(order):
        if len(order) > 500:
            raise NoRx()
        S = order[i]
        row = []
        for c in pts:
            T = clo({b for s in S for iv, b in nfa.tr.get(s, ()) if any(x <= c <= y for x, y in iv)})
            if T not in idx:
                idx[T] = len(order)
                order.append(T)
            row.append(idx[T])
        delta.append(row)
        i += 1
    acc = [final in S for S in order]
    part = [int(a) for a in acc]
    while True:
        sig = [(part[i],) + tuple(part[j] for j in delta[i]) for i in range(len(order))]
        names = {}
        new = [names.setdefault(s, len(names)) for s in sig]
        if len(names) == len(set(part)):
            break
        part = new
    # canonical numbering by breadth-first order, merged intervals
    num, queue, rows = {part[0]: 0}, [0], []
    rep = {}
    for i, p in enumerate(part):
        rep.setdefault(p, i)
    k = 0
    seq = [part[0]]
    while k < len(seq):
        r = rep[seq[k]]
        row, prev = [], None
        for c, j in zip(pts, delta[r]):
            t = part[j]
            if t not in num:
                num[t] = len(seq)
                seq.append(t)
            if num[t] != prev:
                row.append((c, num[t]))
                prev = num[t]
        rows.append((acc[r], tuple(row)))
        k += 1
    return tuple(rows)


def accepts(dfa, s):
    st = 0
    for c in s:
        c = ord(c) if isinstance(c, str) else c
        row = dfa[st][1]
        for lo, t in row:
            if lo <= c:
                st = t
            else:
                break
    return dfa[st][0]


def _step(dfa, st, c):
    to = None
    for lo, t in dfa[st][1]:
        if lo <= c:
            to = t
        else:
            break
    return to


def relate(sub, lang):
    """True if every string of `sub` is in `lang`, False if none is, None otherwise"""
    seen, work = {(0, 0)}, [(0, 0)]
    inside = outside = False
    while work:
        a, b = work.pop()
        if sub[a][0]:
            if lang[b][0]:
                inside = True
            else:
                outside = True
            if inside and outside:
                return None
        for c in {lo for lo, _ in sub[a][1]} | {lo for lo, _ in lang[b][1]}:
            n = (_step(sub, a, c), _step(lang, b, c))
            if n not in seen:
                if len(seen) > 5000:
                    return None
                seen.add(n)
                work.append(n)
    return True if inside and not outside else False if outside and not inside else None


def tail_group(pattern, mode, flags=0):
    """(body pattern, char) for a pattern that matches the whole subject as `(body)c?` where no word of
    the body ends in c: then group 1 is the subject without its last character if that is c"""
    uni = isinstance(pattern, str)
    p = sp.parse(pattern, flags)
    if p.state.flags & (re.I | re.M | re.X):
        return None
    items = list(p)
    while items and items[0][0] is sc.AT and items[0][1] in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
        items = items[1:]
    if mode == 'match':
        if not items or items[-1] != (sc.AT, sc.AT_END_STRING):
            return None
        items = items[:-1]
    elif mode != 'fullmatch':
        return None
    if len(items) != 2 or items[0][0] is not sc.SUBPATTERN or items[1][0] is not sc.MAX_REPEAT:
        return None
    lo, hi, sub = items[1][1]
    if (lo, hi) != (0, 1) or len(sub) != 1 or sub[0][0] is not sc.LITERAL:
        return None
    if items[0][1][0] != 1:
        return None
    inner = list(items[0][1][3])
    if len(inner) != 1 or inner[0][0] is not sc.MAX_REPEAT or len(inner[0][1][2]) != 1 \
            or inner[0][1][2][0][0] is not sc.IN:
        return None
    c = chr(sub[0][1]) if uni else bytes([sub[0][1]])
    nfa, top = NFA(), 0x10FFFF if uni else 255
    s0 = nfa.new()
    x = build(nfa, inner, s0, uni, top, p.state.flags, False, [])
    body = canonical(nfa, s0, x, top)
    esc = re.escape(c)
    if relate(body, language(('.*' if uni else b'.*') + esc, 'fullmatch', re.S)) is not False:
        return None
    return body, c
