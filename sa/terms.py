"""Term language of the abstract domain.

Hash-consed terms with canonical forms: integers and reals are polynomials
over atoms, comparisons are sign-normalised, strings are flattened
concatenations, arrays are a base plus an ordered list of (quantified) guarded
updates, containers are (length, content) and objects are field records.
Two program fragments that compute the same thing in different ways get the
same normal form as long as the difference is bridged by these rules; the
module also decides entailment of linear / monotone facts and separates two
normal forms by a valuation of their atoms (used before anything is reported).
"""
from fractions import Fraction as Q
import random, math, re


class T:
    __slots__ = ('op', 'args', 'sort', 'id', 'h', 'fv', '_p')

    def __repr__(self):
        return show(self)

    def __reduce__(self):
        return (_mk, (self.op, self.args, self.sort))


_tab = {}
_n = [0]


def _scan(args, fv, h):
    for a in args:
        if isinstance(a, T):
            if a.fv:
                fv |= a.fv
            if a.h > h:
                h = a.h
        elif isinstance(a, tuple):
            h = _scan(a, fv, h)
    return h


BINDERS = {'ex', 'sum', 'last', 'first', 'for', 'lam', 'catf', 'fold'}


def _mk(op, args, sort):
    k = (op, args, sort)
    t = _tab.get(k)
    if t is not None:
        return t
    t = T()
    t.op = op
    t.args = args
    t.sort = sort
    _n[0] += 1
    t.id = _n[0]
    fv = set()
    h = _scan(args, fv, 0)
    if op in ('sym', 'bv'):
        fv.add(t)
    if op in BINDERS:
        h = max(h, args[0])
        fv = {v for v in fv if not (v.op == 'bv' and v.args[0] == args[0])}
        if op == 'fold':
            fv = {v for v in fv if not (v.op == 'bv' and v.args[0] == -args[0])}
    t.h = h
    t.fv = frozenset(fv)
    t._p = None
    _tab[k] = t
    return t


def sym(name, sort='i'):
    return _mk('sym', (name,), sort)


_fresh = [0]


def fresh(prefix='t', sort='i'):
    _fresh[0] += 1
    return sym('%s!%d' % (prefix, _fresh[0]), sort)


def bv(h, sort='i'):
    return _mk('bv', (h,), sort)


# ------------------------------------------------------------------ numbers
def C(v):
    v = Q(v)
    return _mk('c', (v,), 'i' if v.denominator == 1 else 'r')


ZERO = C(0)
ONE = C(1)
MONE = C(-1)


def isnum(t):
    return t.sort in ('i', 'r')


def P(t):
    """polynomial dict of numeric term"""
    if t._p is not None:
        return t._p
    if t.op == 'c':
        d = {(): t.args[0]} if t.args[0] != 0 else {}
    elif t.op == 'p':
        d = dict(t.args)
    else:
        d = {((t, 1),): Q(1)}
    t._p = d
    return d


def _mono_key(m):
    return tuple((a.id, e) for a, e in m)


def fromP(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if not m:
            return C(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = tuple(sorted(d.items(), key=lambda x: _mono_key(x[0])))
    real = any(a.sort == 'r' for m, c in items for a, e in m) or any(c.denominator != 1 for m, c in items)
    return _mk('p', items, 'r' if real else 'i')


def _mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = {}
    for a, e in m1:
        d[a] = d.get(a, 0) + e
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda x: x[0].id))


def padd(p, q, k=1):
    d = dict(p)
    for m, c in q.items():
        v = d.get(m, 0) + c * k
        if v == 0:
            d.pop(m, None)
        else:
            d[m] = v
    return d


def pmul(p, q):
    d = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = _mmul(m1, m2)
            v = d.get(m, 0) + c1 * c2
            if v == 0:
                d.pop(m, None)
            else:
                d[m] = v
    return _cancel(d)


def _cancel(d):
    # inv(p)*p is left alone except for single atoms: atom^1 * inv(atom)^1 = 1
    out = None
    for m in list(d):
        inv = [(a, e) for a, e in m if a.op == 'inv']
        if not inv:
            continue
        mm = dict(m)
        ch = False
        for a, e in inv:
            base = a.args[0]
            if base in mm:
                k = min(mm[base], mm[a])
                mm[base] -= k
                mm[a] -= k
                ch = True
        if ch:
            if out is None:
                out = dict(d)
            c = out.pop(m)
            nm = tuple(sorted(((a, e) for a, e in mm.items() if e), key=lambda x: x[0].id))
            v = out.get(nm, 0) + c
            if v == 0:
                out.pop(nm, None)
            else:
                out[nm] = v
    return out if out is not None else d


def istop(t):
    return t.op == 'top'


def top(reason, sort='o'):
    _fresh[0] += 1
    return _mk('top', (reason, _fresh[0]), sort)


def _nt(*ts):
    for t in ts:
        if t.op == 'top':
            return top(t.args[0], 'r')
        if not isnum(t):
            if t.sort == 'b':
                continue
            return top('arithmetic on ' + t.sort, 'r')
    return None


def tonum(t):
    if t.sort == 'b':
        return ite(t, ONE, ZERO)
    return t


def add(*ts):
    b = _nt(*ts)
    if b is not None:
        return b
    d = {}
    for t in ts:
        d = padd(d, P(tonum(t)))
    return fromP(d)


def sub(a, b):
    x = _nt(a, b)
    if x is not None:
        return x
    return fromP(padd(P(tonum(a)), P(tonum(b)), -1))


def neg(a):
    return sub(ZERO, a)


def mul(*ts):
    b = _nt(*ts)
    if b is not None:
        return b
    d = {(): Q(1)}
    for t in ts:
        d = pmul(d, P(tonum(t)))
    return fromP(d)


def lead(p):
    m = max(p, key=_mono_key)
    return m, p[m]


def inv(t):
    x = _nt(t)
    if x is not None:
        return x
    if t.op == 'c':
        if t.args[0] == 0:
            return _mk('inv', (ZERO,), 'r')
        return C(1 / t.args[0])
    p = P(t)
    m, c = lead(p)
    q = fromP({k: v / c for k, v in p.items()})
    if q.op == 'inv':
        return mul(C(1 / c), q.args[0])
    if len(p) == 1:
        r = C(1 / c)
        for a, e in m:
            for _ in range(e):
                r = mul(r, a.args[0] if a.op == 'inv' else _mk('inv', (a,), 'r'))
        return r
    return mul(C(1 / c), _mk('inv', (q,), 'r'))


def rdiv(a, b):
    x = _nt(a, b)
    if x is not None:
        return x
    return mul(a, inv(b))


def idiv(a, b):
    if a.op == 'c' and b.op == 'c' and b.args[0] != 0:
        q = abs(a.args[0]) // abs(b.args[0])
        return C(q if (a.args[0] < 0) == (b.args[0] < 0) else -q)
    if b is ONE:
        return a
    return app('idiv', 'i', a, b)


def imod(a, b):
    if a.op == 'c' and b.op == 'c' and b.args[0] != 0:
        return sub(a, mul(b, idiv(a, b)))
    return app('mod', 'i', a, b)


# ------------------------------------------------------------------ booleans
TRUE = _mk('true', (), 'b')
FALSE = _mk('false', (), 'b')


def Bc(v):
    return TRUE if v else FALSE


def lnot(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    if a.op in ('and', 'or', 'ite'):
        r = _neg.get(a)
        if r is None:
            if a.op == 'ite':
                r = ite(a.args[0], lnot(a.args[1]), lnot(a.args[2]))
            else:
                r = (lor if a.op == 'and' else land)(*[lnot(x) for x in a.args])
            _neg[a] = r
        return r
    if a.op == 'top':
        return a
    return _mk('not', (a,), 'b')


_neg = {}


def _nary(op, unit, zero, ts):
    out = {}
    st = list(ts)
    st.reverse()
    while st:
        t = st.pop()
        if t is unit:
            continue
        if t is zero:
            return zero
        if t.op == op:
            st.extend(reversed(t.args))
            continue
        out[t] = 1
    for t in out:
        if (t.op == 'not' and t.args[0] in out):
            return zero
    if not out:
        return unit
    # absorption: a and (a or b) = a ; a and (not a or b) = a and b
    dual = 'or' if op == 'and' else 'and'
    ch = False
    res = []
    for t in out:
        if t.op == dual:
            if any(x in out for x in t.args):
                ch = True
                continue
            keep = [x for x in t.args if not (_neg_of(x) in out)]
            if len(keep) != len(t.args):
                ch = True
                res.append((lor if dual == 'or' else land)(*keep))
                continue
        res.append(t)
    if ch:
        return _nary(op, unit, zero, res)
    if len(res) == 1:
        return res[0]
    # (a and b) or (a and not b) = a
    if len(res) <= 12:
        for i in range(len(res)):
            for j in range(i + 1, len(res)):
                a, b = res[i], res[j]
                if a.op == dual and b.op == dual and len(a.args) == len(b.args):
                    sa, sb = set(a.args), set(b.args)
                    da, db = sa - sb, sb - sa
                    if len(da) == 1 and len(db) == 1 and _neg_of(next(iter(da))) is next(iter(db)):
                        m = (lor if dual == 'or' else land)(*[x for x in a.args if x in sb])
                        return _nary(op, unit, zero, [m] + [res[k] for k in range(len(res)) if k not in (i, j)])
    res.sort(key=lambda t: t.id)
    return _mk(op, tuple(res), 'b')


def _neg_of(x):
    return x.args[0] if x.op == 'not' else _tab.get(('not', (x,), 'b'))


def land(*ts):
    return _nary('and', TRUE, FALSE, ts)


def lor(*ts):
    return _nary('or', FALSE, TRUE, ts)


def _isreal(p):
    return any(a.sort == 'r' for m in p for a, e in m)


def _gcdnorm(p):
    """integer poly: scale so that the coefficients of non-constant monomials are coprime integers"""
    den = 1
    for c in p.values():
        den = den * c.denominator // math.gcd(den, c.denominator)
    g = 0
    for m, c in p.items():
        if m:
            g = math.gcd(g, int(abs(c * den)))
    return den, g or 1


def ge0(p):
    """poly dict p >= 0"""
    if not p:
        return TRUE
    if set(p) == {()}:
        return Bc(p[()] >= 0)
    it = _top_in(p)
    if it is not None:
        return top(it.args[0], 'b')
    if all(c >= 0 and (not m or all(a.op == 'app' and a.args[0] in NONNEG for a, e in m)) for m, c in p.items()):
        return TRUE
    x = _lift_ite(p, ge0)
    if x is not None:
        return x
    if _isreal(p):
        # p>=0  <=> not (-p > 0)
        return lnot(gt0({m: -c for m, c in p.items()}))
    den, g = _gcdnorm(p)
    q = {}
    for m, c in p.items():
        c = c * den / g
        q[m] = Q(math.floor(c)) if not m else c
    m, c = lead({k: v for k, v in q.items() if k})
    q = {k: v for k, v in q.items() if v != 0}
    if c > 0:
        return _mk('ge', (fromP(q),), 'b')
    r = padd({k: -v for k, v in q.items()}, {(): Q(1)}, -1)
    return lnot(_mk('ge', (fromP(r),), 'b'))


def _top_in(p):
    for m in p:
        for a, e in m:
            if a.op == 'top':
                return a
    return None


def _lift_ite(p, k):
    """comparison over a polynomial having an ite atom with constant branches: split"""
    for m in p:
        for a, e in m:
            if a.op == 'ite' and e == 1 and (a.args[1].op == 'c' or a.args[2].op == 'c' or len(p) <= 3):
                c, x, y = a.args
                return ite(c, k(_substatom(p, a, x)), k(_substatom(p, a, y)))
    return None


def _substatom(p, atom, t):
    d = {}
    pt = P(t)
    for m, c in p.items():
        e = 0
        rest = []
        for a, ee in m:
            if a is atom:
                e = ee
            else:
                rest.append((a, ee))
        q = {tuple(rest): c}
        for _ in range(e):
            q = pmul(q, pt)
        d = padd(d, q)
    return d


def gt0(p):
    if not p:
        return FALSE
    if set(p) == {()}:
        return Bc(p[()] > 0)
    it = _top_in(p)
    if it is not None:
        return top(it.args[0], 'b')
    x = _lift_ite(p, gt0)
    if x is not None:
        return x
    if not _isreal(p):
        return ge0(padd(p, {(): Q(1)}, -1))
    m, c = lead(p)
    q = {k: v / abs(c) for k, v in p.items()}
    if c > 0:
        return _mk('gt', (fromP(q),), 'b')
    r = {k: -v for k, v in q.items()}
    return land(lnot(_mk('gt', (fromP(r),), 'b')), lnot(eqz(r)))


def eqz(p):
    if not p:
        return TRUE
    if set(p) == {()}:
        return FALSE
    it = _top_in(p)
    if it is not None:
        return top(it.args[0], 'b')
    x = _lift_ite(p, eqz)
    if x is not None:
        return x
    if not _isreal(p):
        den, g = _gcdnorm(p)
        q = {m: c * den / g for m, c in p.items()}
        if any(c.denominator != 1 for c in q.values()):
            return FALSE
    else:
        q = p
    m, c = lead({k: v for k, v in q.items() if k})
    if _isreal(p):
        q = {k: v / c for k, v in q.items()}
    elif c < 0:
        q = {k: -v for k, v in q.items()}
    if len(q) == 1:
        (mm,), = [k for k in q if len(k) == 1] or [((None, 0),)]
        if mm[0] is not None and mm[1] == 1 and mm[0].op == 'app' and mm[0].args[0] == 'slen':
            return eq(mm[0].args[1], EMPTY)
    for mm, cc in q.items():
        if len(mm) == 1 and mm[0][1] == 1 and abs(cc) == 1 and mm[0][0].op == 'first':
            # the search went through exactly when nothing was met
            h, n, g = mm[0][0].args
            if P(n) == {k: -v * cc for k, v in q.items() if k != mm}:
                v = fresh('f')
                return land(ge(n, ZERO), lnot(mkex(v, n, subst(g, {bv(h): v}))))
    if len(q) == 2 and q.get(()) == 1:
        f = _found(q)
        if f is not None:
            # a search yields -1 exactly when it fails
            return lnot(ge0({((f, 1),): Q(1)}))
    return _mk('eqz', (fromP(q),), 'b')


def _found(q):
    """the search term when q is exactly one (plus a constant)"""
    m, = [m for m in q if m][:1] or [None]
    if m is not None and len(m) == 1 and m[0][1] == 1 and q[m] == 1:
        f = m[0][0]
        if f.op == 'app' and f.args[0] in FINDLIKE:
            return f
    return None


def le(a, b):
    x = _nt(a, b)
    if x is not None:
        return top(x.args[0], 'b')
    return ge0(padd(P(tonum(b)), P(tonum(a)), -1))


def lt(a, b):
    x = _nt(a, b)
    if x is not None:
        return top(x.args[0], 'b')
    return gt0(padd(P(tonum(b)), P(tonum(a)), -1))


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == 'top' or b.op == 'top':
        return top((a if a.op == 'top' else b).args[0], 'b')
    if a.op == 'ite' and a.sort not in ('i', 'r', 'b'):
        return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    if b.op == 'ite' and b.sort not in ('i', 'r', 'b'):
        return ite(b.args[0], eq(a, b.args[1]), eq(a, b.args[2]))
    if a.sort == 'b' and b.sort == 'b':
        return lor(land(a, b), land(lnot(a), lnot(b)))
    if isnum(a) and isnum(b) or (a.sort == 'b' and isnum(b)) or (isnum(a) and b.sort == 'b'):
        a, b = tonum(a), tonum(b)
        return eqz(padd(P(a), P(b), -1))
    if a.op == 'str' and b.op == 'str':
        return FALSE
    if a.op in ('ptr', 'null', 'fun') and b.op in ('ptr', 'null', 'fun'):
        return ptreq(a, b)
    if a.op == 'struct' and b.op == 'struct' and a.args[0] == b.args[0]:
        return land(*[eq(x, y) for (n1, x), (n2, y) in zip(a.args[1], b.args[1])])
    if a.sort == 's' and b.sort == 's':
        r = _streq(a, b)
        if r is not None:
            return r
        for x, y in ((a, b), (b, a)):
            if x is EMPTY and y.op == 'app' and y.args[0] == 'nthtok':
                    return FALSE
            if x is EMPTY and (isnumtext(y) or y.op == 'cat' and any(isnumtext(z) for z in y.args)):
                    return FALSE
            if x is EMPTY and y.op == 'app' and y.args[0] == 'substr':
                # nothing left, or nothing taken
                return lor(eq(slen(y.args[1]), y.args[2]), eq(y.args[3], ZERO))
    if a.id > b.id:
        a, b = b, a
    return _mk('eq', (a, b), 'b')


def ptr(root, path=()):
    return _mk('ptr', (root, tuple(path)), 'P')


NULL = _mk('null', (), 'P')


def ptreq(a, b):
    """equality of places.  Distinct allocations / variables differ; members of one family
    are equal exactly when their index is."""
    if a.op != 'ptr' or b.op != 'ptr':
        return FALSE
    r1, p1 = a.args
    r2, p2 = b.args
    c = TRUE
    if r1 != r2:
        if r1[0] == 'fam' and r2[0] == 'fam' and r1[1] == r2[1]:
            c = land(*[eq(x, y) for x, y in zip(r1[2:], r2[2:])])
        elif r1[0] == 'deref' and r2[0] == 'deref':
            c = eq(r1[1], r2[1])
        elif 'deref' in (r1[0], r2[0]):
            x, y = (a, b) if a.id < b.id else (b, a)
            return _mk('eq', (x, y), 'b')
        else:
            return FALSE
    if len(p1) != len(p2):
        return FALSE
    for s1, s2 in zip(p1, p2):
        if s1 == s2:
            continue
        if s1[0] != s2[0]:
            return FALSE
        if s1[0] in ('i', 'k'):
            c = land(c, eq(s1[1], s2[1]))
        else:
            return FALSE
    return c


def mapnest(x, f):
    """f over every T in a nested tuple"""
    if isinstance(x, T):
        return f(x)
    if isinstance(x, tuple):
        return tuple(mapnest(y, f) for y in x)
    return x


def _sparts(a):
    return list(a.args) if a.op == 'cat' else [a]


def _streq(a, b):
    x, y = _sparts(a), _sparts(b)
    if len(x) == 1 and len(y) == 1:
        return None
    # strip common prefix / suffix
    while x and y:
        if x[0] is y[0]:
            x.pop(0)
            y.pop(0)
            continue
        if x[0].op == 'str' and y[0].op == 'str':
            u, v = x[0].args[0], y[0].args[0]
            k = min(len(u), len(v))
            if u[:k] != v[:k]:
                return FALSE
            x[0] = S(u[k:])
            y[0] = S(v[k:])
            if not u[k:]:
                x.pop(0)
            if not v[k:]:
                y.pop(0)
            continue
        break
    while x and y:
        if x[-1] is y[-1]:
            x.pop()
            y.pop()
            continue
        if x[-1].op == 'str' and y[-1].op == 'str':
            u, v = x[-1].args[0], y[-1].args[0]
            k = min(len(u), len(v))
            if u[len(u) - k:] != v[len(v) - k:]:
                return FALSE
            x[-1] = S(u[:len(u) - k])
            y[-1] = S(v[:len(v) - k])
            if len(u) == k:
                x.pop()
            if len(v) == k:
                y.pop()
            continue
        break
    if not x and not y:
        return TRUE
    if not x or not y:
        if any(t.op == 'str' and t.args[0] for t in x + y):
            return FALSE
    xa, ya = cat(*x), cat(*y)
    if xa is a and ya is b:
        return None
    if xa.id > ya.id:
        xa, ya = ya, xa
    return _mk('eq', (xa, ya), 'b')


def ne(a, b):
    return lnot(eq(a, b))


# ------------------------------------------------------------------ ite
def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'top':
        return top(c.args[0], a.sort)
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if c.op == 'ite':
        # keep the condition flat
        c = lor(land(c.args[0], c.args[1]), land(lnot(c.args[0]), c.args[2]))
        return ite(c, a, b)
    if a.sort == 'b' and b.sort == 'b':
        if a is TRUE:
            return lor(c, b)
        if a is FALSE:
            return land(lnot(c), b)
        if b is TRUE:
            return lor(lnot(c), a)
        if b is FALSE:
            return land(c, a)
        return lor(land(c, a), land(lnot(c), b))
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if a.op == 'struct' and b.op == 'struct' and a.args[0] == b.args[0]:
        return struct(a.args[0], tuple((n, ite(c, x, dict(b.args[1])[n])) for n, x in a.args[1]))
    if (a.op == 'struct' and b.op not in ('ite', 'top') and b.sort == 'o') or \
            (b.op == 'struct' and a.op not in ('ite', 'top') and a.sort == 'o'):
        s = a if a.op == 'struct' else b
        fs = []
        for n, x in s.args[1]:
            fs.append((n, ite(c, proj(a, n, x.sort), proj(b, n, x.sort))))
        return struct(s.args[0], tuple(fs))
    if a.sort == 'v' and b.sort == 'v' and a.op != 'top' and b.op != 'top' and (a.op == 'vec' or b.op == 'vec'):
        return vec(ite(c, vlen(a), vlen(b)), ite(c, varr(a), varr(b)))
    if a.op == 'ptr' and b.op == 'ptr' and a.args[0] == b.args[0] and len(a.args[1]) == len(b.args[1]):
        out = []
        for x, y in zip(a.args[1], b.args[1]):
            if x == y:
                out.append(x)
            elif x[0] == y[0] == 'i':
                out.append(('i', ite(c, x[1], y[1])) + x[2:])
            else:
                break
        else:
            return ptr(a.args[0], out)
    if a.sort == 'a' and b.sort == 'a':
        r = _arrmerge(c, a, b)
        if r is not None:
            return r
    if c.op == 'ge' and a.sort == 's':
        q = P(c.args[0])
        f = _found(q) if len(q) == 1 else None
        if f is not None and a.op != 'top' and subst(a, {f: MONE}) is b:
            return a
    # ite(c, x, ite(d, x, y)) = ite(c or d, x, y)
    if b.op == 'ite' and b.args[1] is a:
        return ite(lor(c, b.args[0]), a, b.args[2])
    if a.op == 'ite' and a.args[2] is b:
        return ite(land(c, a.args[0]), a.args[1], b)
    if b.op == 'ite' and b.args[2] is a:
        return ite(land(lnot(c), b.args[0]), b.args[1], a)
    if a.op == 'ite' and a.args[1] is b:
        return ite(land(c, lnot(a.args[0])), a.args[2], b)
    # canonical polarity
    nc = lnot(c)
    if nc.op != 'not' and c.op == 'not':
        return ite(nc, b, a)
    if c.op in ('and', 'or') and nc.id < c.id:
        return ite(nc, b, a)
    sort = a.sort if a.sort != 'i' else b.sort
    return _mk('ite', (c, a, b), sort)


def _arrchain(a):
    """-> (base, effects list)"""
    eff = []
    while a.op == 'upd':
        eff = list(a.args[1]) + eff
        a = a.args[0]
    return a, eff


def _arrmerge(c, a, b):
    ba, ea = _arrchain(a)
    bb, eb = _arrchain(b)
    if ba is not bb:
        return None
    k = 0
    while k < len(ea) and k < len(eb) and ea[k] is eb[k]:
        k += 1
    base = upd(ba, tuple(ea[:k])) if k else ba
    out = [_guard_eff(c, e) for e in ea[k:]] + [_guard_eff(lnot(c), e) for e in eb[k:]]
    # merge stores to the same place under complementary guards
    if len(ea) - k == 1 and len(eb) - k == 1:
        x, y = ea[k], eb[k]
        if x.op == 'st' and y.op == 'st' and x.args[1] == y.args[1] and x.args[0] is y.args[0]:
            return upd(base, (_mk('st', (x.args[0], x.args[1], ite(c, x.args[2], y.args[2])), 'e'),))
    return upd(base, tuple(out))


def _guard_eff(c, e):
    if e.op == 'st':
        return _mk('st', (land(c, e.args[0]), e.args[1], e.args[2]), 'e')
    if e.op == 'for':
        # c does not depend on the bound variable (it is closed over an outer one)
        h, n, effs = e.args
        v = fresh('g')
        effs = subst(effs, {bv(h): v})
        return mkfor(v, n, tuple(_guard_eff(c, x) for x in effs))
    raise AssertionError(e.op)


# ------------------------------------------------------------------ strings
def S(s):
    return _mk('str', (s,), 's')


EMPTY = S('')


def cat(*ts):
    out = []
    for t in ts:
        if t.op == 'top':
            return top(t.args[0], 's')
        ps = t.args if t.op == 'cat' else (t,)
        for p in ps:
            if p.op == 'str':
                if p.args[0] == '':
                    continue
                if out and out[-1].op == 'str':
                    out[-1] = S(out[-1].args[0] + p.args[0])
                    continue
            out.append(p)
    if not out:
        return EMPTY
    if len(out) == 1:
        return out[0]
    return _mk('cat', tuple(out), 's')


def slen(s):
    if s.op == 'str':
        return C(len(s.args[0]))
    if s.op == 'cat':
        return add(*[slen(x) for x in s.args])
    if s.op == 'ite':
        return ite(s.args[0], slen(s.args[1]), slen(s.args[2]))
    if isnumtext(s) and s.args[2] is not MONE:
        return s.args[2]
    if s.op == 'app' and s.args[0] == 'substr' and s.args[3] is MONE:
        # defined only for 0 <= position <= length
        return sub(slen(s.args[1]), s.args[2])
    if s.op == 'app' and s.args[0] == 'substr':
        # as long as a search in the same string says
        x, p, n = s.args[1:]
        for d in (n, sub(n, ONE)):
            if d.op == 'app' and d.args[0] in FINDLIKE and d.args[1] is app('substr', 's', x, p, MONE):
                return n if d is not n else ite(ge(d, ZERO), d, sub(slen(x), p))
    return app('slen', 'i', s)


# texts of numbers: app('num', kind, width or -1, name)
NUMKINDS = {'mant': ' +-.0123456789',      # right-aligned in its width
            'expo': '+-0123456789',        # sign and digits
            'tok': '+-.0123456789',
            'utok': '.0123456789'}


def num(kind, name, width=-1):
    """an arbitrary text of a number"""
    return _mk('app', ('num', S(kind), C(width), S(name)), 's')


def isnumtext(x):
    return x.op == 'app' and x.args[0] == 'num'


def is_number(x):
    """x is the text of a number by its shape: one of those, or a sign in front of one without"""
    if x.op == 'cat' and len(x.args) == 2 and x.args[0].op == 'str' and x.args[0].args[0] in ('-', '+'):
        return isnumtext(x.args[1]) and x.args[1].args[1].args[0] == 'utok'
    return isnumtext(x)


def num_text(seed, args):
    """one such text"""
    import random
    kind, w, name = args
    r = random.Random('%s|%s|%s' % (seed, kind, name))
    w = int(w)
    if kind == 'expo':
        return r.choice('+-') + ''.join(r.choice('0123') for _ in range((w if w > 0 else 3) - 1))
    d = r.randint(1, 8)
    t = '%d.%s' % (r.choice([0, 0, 1, 7, 12]), ''.join(r.choice('0123456789') for _ in range(d)))
    if kind != 'utok':
        t = r.choice(['', '-']) + t
    if w >= 0:
        t = t[:w].rjust(w)
    return t


def _items(s):
    """a text as characters, characters of a kind and runs; None for shapes not understood"""
    out = []
    for x in (s.args if s.op == 'cat' else (s,)):
        if x.op == 'str':
            out += [('c', ch) for ch in x.args[0]]
        elif isnumtext(x):
            al = NUMKINDS[x.args[1].args[0]]
            w = int(x.args[2].args[0])
            if w >= 0:
                out += [('k', al)] * w
            elif '-' in al:
                # one sign at most, in front
                out += [('o', '+-'), ('r', al.replace('+-', ''), x)]
            else:
                out.append(('r', al, x))
        else:
            return None
    return out


def _may(items, t, i):
    """can t occur at item i (anywhere in it, for a run)?  0 no, 1 maybe, 2 certainly"""
    st = {i}
    sure = True
    for ch in t:
        nx = set()
        for j in set(st) | {j + 1 for j in st if j < len(items) and items[j][0] == 'o'}:
            if j >= len(items):
                continue
            it = items[j]
            if it[0] == 'c':
                if it[1] == ch:
                    nx.add(j + 1)
            else:
                sure = False
                if ch in it[1]:
                    nx.add(j + 1)
                    if it[0] == 'r':
                        nx.add(j)
        if not nx:
            return 0
        st = nx
    return 2 if sure else 1


def _find_shape(s, t, p):
    """place of the constant text t in s from position p; None if not known"""
    items = _items(s)
    if items is None or not t:
        return None
    acc = ZERO
    seen = 0
    for i, it in enumerate(items):
        if seen < p:
            if it[0] in 'ro':
                return None
            seen += 1
        else:
            m = _may(items, t, i)
            if m == 1:
                return None
            if m == 2:
                return acc
        acc = add(acc, ZERO if it[0] == 'o' else ONE if it[0] != 'r' else slen(it[2]))
    return MONE if seen >= p else None


def _untrim(x):
    """x without the steps that only took blanks off its ends"""
    while x.op == 'app' and x.args[0] == 'substr':
        s, p, n = x.args[1:]
        if n is MONE and p.op == 'app' and p.args[0] == 'lead' and p.args[1] is s:
            x = s
        elif n is MONE and p.op == 'first' and _blank_run(s, p, False):
            x = s
        elif p is ZERO and _cut_end(s, n):
            x = s
        else:
            break
    return x


def _cut_end(s, n):
    d = sub(slen(s), n)
    return d.op == 'first' and _blank_run(s, d, True)


def _blank_run(s, f, rev):
    h, n, g = f.args
    v = fresh('u')
    at = sub(sub(slen(s), ONE), v) if rev else v
    return n is slen(s) and subst(g, {bv(h): v}) is lnot(app('isspace', 'b', app('chr', 'i', s, at)))


def whole_number(s):
    m = _numre.match(s)
    return bool(m) and m.end() == len(s)


def lacks(x, k):
    """no character of k in x, from the shape of x"""
    if isnumtext(x):
        return not any(c in k.args[0] for c in NUMKINDS[x.args[1].args[0]])
    if x.op == 'str':
        return not any(c in k.args[0] for c in x.args[0])
    if x.op == 'cat':
        return all(lacks(y, k) for y in x.args)
    if x.op == 'ite':
        return lacks(x.args[1], k) and lacks(x.args[2], k)
    if x.op == 'app' and x.args[0] == 'substr':
        # behind the last one
        return sub(x.args[2], ONE) is app('lof', 'i', x.args[1], k)
    return False


def _lof_cat(s, k):
    """place of the last character of k in a concatenation; None if not known from the shape"""
    xs = list(s.args)
    while xs:
        x = xs.pop()
        if lacks(x, k):
            continue
        acc = add(*[slen(y) for y in xs]) if xs else ZERO
        if x.op == 'str':
            return add(acc, C(max(i for i, c in enumerate(x.args[0]) if c in k.args[0])))
        if x.op == 'app' and x.args[0] == 'substr' and x.args[2] is ZERO and sub(x.args[3], ONE) is app('lof', 'i', x.args[1], k):
            l = sub(x.args[3], ONE)
            if acc is ZERO:
                return l
            r = _lof_cat(_mk('cat', tuple(xs), 's'), k)
            return None if r is None else ite(ge(l, ZERO), add(acc, l), r)
        return None
    return MONE


# functions that can be folded on constants / evaluated
def _find(s, t, p=0):
    return s.find(t, int(p))


def _substr(s, p, n=-1):
    p = int(p)
    n = int(n)
    if p > len(s):
        raise EvalUndef()
    return s[p:] if n < 0 else s[p:p + n]


def _cutpos(s, t, k):
    """position behind the k-th (at most the last) character of s that is in t"""
    if k < 0:
        raise EvalUndef()
    p = 0
    for i, ch in enumerate(s):
        if k <= 0:
            break
        if ch in t:
            k -= 1
            p = i + 1
    return Q(p)


class EvalUndef(Exception):
    pass


class TopEncountered(Exception):
    pass


_numre = re.compile(r'^[ \t\n\r\f\v]*[-+]?(\d+\.?\d*([eE][-+]?\d+)?|\.\d+([eE][-+]?\d+)?)')
_intre = re.compile(r'^[ \t\n\r\f\v]*[-+]?\d+')


def _stod(s):
    m = _numre.match(s)
    if not m:
        raise EvalUndef()
    return Q(m.group(0).strip())


def _stoi(s):
    m = _intre.match(s)
    if not m:
        raise EvalUndef()
    return Q(int(m.group(0)))


def _pow(a, b):
    if b.denominator == 1 and abs(b) < 20:
        if a == 0 and b < 0:
            raise EvalUndef()
        return a ** int(b)
    return Q(float(a) ** float(b))


FOLD = {
    'slen': lambda s: Q(len(s)),
    'find': lambda s, t, p: Q(s.find(t, int(p)) if p <= len(s) else -1),
    'rfind': lambda s, t: Q(s.rfind(t)),
    'substr': lambda s, p, n: _substr(s, p, n),
    'fnot': lambda s, t: Q(next((i for i, ch in enumerate(s) if ch not in t), -1)),
    'fof': lambda s, t: Q(next((i for i, ch in enumerate(s) if ch in t), -1)),
    'lnotof': lambda s, t: Q(next((i for i in range(len(s) - 1, -1, -1) if s[i] not in t), -1)),
    'lof': lambda s, t: Q(next((i for i in range(len(s) - 1, -1, -1) if s[i] in t), -1)),
    'cntof': lambda s, t: Q(sum(ch in t for ch in s)),
    'cutpos': lambda s, t, k: _cutpos(s, t, k),
    'cutgap': lambda s, t, k: _cutpos(s, t, k + 1) - _cutpos(s, t, k) - 1 if k < sum(ch in t for ch in s) else _undef(),
    'slt': lambda a, b: a < b,
    'lead': lambda s: Q(len(s) - len(s.lstrip(' \t\n\r\f\v'))),
    'atof': lambda s: _stod(s) if _numre.match(s) else Q(0),
    'fofp': lambda s, t, p: Q(next((i for i in range(max(0, int(p)), len(s)) if s[i] in t), -1)),
    'fnotp': lambda s, t, p: Q(next((i for i in range(max(0, int(p)), len(s)) if s[i] not in t), -1)),
    'scmp': lambda a, b: Q((a > b) - (a < b)),
    'chr': lambda s, i: Q(ord(s[int(i)])) if 0 <= i < len(s) else (Q(0) if i == len(s) else _undef()),
    'tos': lambda x: _tos(x),
    'isnumstr': lambda s: bool(_numre.match(s)),
    'isintstr': lambda s: bool(_intre.match(s)),
    'stod': lambda s: _stod(s),
    'stoi': lambda s: _stoi(s),
    'idiv': lambda a, b: Q(abs(a) // abs(b)) * (1 if (a < 0) == (b < 0) else -1) if b != 0 else _undef(),
    'mod': lambda a, b: a - b * (Q(abs(a) // abs(b)) * (1 if (a < 0) == (b < 0) else -1)) if b != 0 else _undef(),
    'trunc': lambda a: Q(int(a)),
    'round': lambda a: Q(math.floor(abs(a) + Q(1, 2))) * (1 if a >= 0 else -1),
    'abs': lambda a: abs(a),
    'pow': _pow,
    'isspace': lambda c: chr(int(c)) in ' \t\n\r\f\v' if 0 <= c < 256 else False,
    'isalpha': lambda c: chr(int(c)).isalpha() if 0 <= c < 128 else False,
    'isdigit': lambda c: chr(int(c)).isdigit() if 0 <= c < 128 else False,
    'toupper': lambda c: Q(ord(chr(int(c)).upper())) if 0 <= c < 128 else c,
    'tolower': lambda c: Q(ord(chr(int(c)).lower())) if 0 <= c < 128 else c,
    'reps': lambda n, c: chr(int(c)) * int(n),
    'chstr': lambda c: chr(int(c)),
    'supper': lambda s: s.upper(),
    'slower': lambda s: s.lower(),
    'max0': lambda a: a if a > 0 else Q(0),
    'eqs': lambda a, b: a == b,
    'blankfree': lambda s: not any(c in ' \t\n\r\f\v' for c in s),
    'ltrim': lambda s: s.lstrip(' \t\n\r\f\v'),
    'rtrim': lambda s: s.rstrip(' \t\n\r\f\v'),
    'nthtok': lambda s, i: s.split()[int(i)] if 0 <= i < len(s.split()) else _undef(),
    'ntok': lambda s: Q(len(s.split())),
}


def _undef():
    raise EvalUndef()


def _tos(x):
    if isinstance(x, bool):
        return str(int(x))
    if x.denominator == 1:
        return str(int(x))
    return '%f' % float(x)


def isconst(t):
    return t.op in ('c', 'str', 'true', 'false')


def cval(t):
    if t.op in ('c', 'str'):
        return t.args[0]
    return t.op == 'true'


def fromval(v, sort):
    if sort == 'b':
        return Bc(v)
    if sort == 's':
        return S(v)
    return C(v)


def app(name, sort, *args):
    for a in args:
        if isinstance(a, T) and a.op == 'top':
            return top(a.args[0], sort)
    if name in FOLD and all(isinstance(a, T) and isconst(a) for a in args):
        try:
            return fromval(FOLD[name](*[cval(a) for a in args]), sort)
        except EvalUndef:
            pass
    if name == 'rfind' and args[1].op == 'str' and len(args[1].args[0]) == 1:
        return app('lof', sort, *args)
    if name == 'isalpha' and args[0].op == 'app' and args[0].args[0] == 'chr' and isnumtext(args[0].args[1]):
        return FALSE
    if name == 'cutpos':
        if args[2] is ZERO:
            return ZERO
        d = P(sub(args[2], app('cntof', 'i', args[0], args[1])))
        if all(c >= 0 and not m for m, c in d.items()):
            return add(app('lof', 'i', args[0], args[1]), ONE)
    if name == 'fof' and args[0].op == 'app' and args[0].args[0] == 'substr' and args[0].args[3] is MONE:
        x, q = args[0].args[1], args[0].args[2]
        if q.op == 'app' and q.args[0] == 'cutpos' and q.args[1] is x and q.args[2] is args[1]:
            k = q.args[3]
            return ite(lt(k, app('cntof', 'i', x, args[1])), app('cutgap', 'i', x, args[1], k), MONE)
    if name in ('fof', 'lof') and args[0].op == 'app' and args[0].args[0] == 'substr' and args[0].args[3] is MONE:
        # what follows the last separator holds none, what starts with the last one holds it in front
        x, q = args[0].args[1], args[0].args[2]
        for m in P(q):
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'app' and m[0][0].args[0] == 'lof' and m[0][0].args[2] is args[1]:
                a = m[0][0]
                d = sub(q, a)
                if a.args[1] is app('substr', 's', x, d, MONE):
                    return ZERO
                if a.args[1] is app('substr', 's', x, sub(d, ONE), MONE):
                    return MONE
    if name == 'tos' and args[0].op == 'ite' and (isconst(args[0].args[1]) or isconst(args[0].args[2])):
        c, x, y = args[0].args
        return ite(c, app('tos', 's', x), app('tos', 's', y))
    if name == 'find' and args[1].op == 'str' and args[2].op == 'c' and (args[0].op == 'cat' or isnumtext(args[0])):
        r = _find_shape(args[0], args[1].args[0], int(args[2].args[0]))
        if r is not None:
            return r
    if name in ('isnumstr', 'stod', 'atof'):
        x = _untrim(args[0])
        if name == 'isnumstr' and is_number(x):
            return TRUE
        if name == 'atof' and (is_number(x) or x.op == 'str' and _numre.match(x.args[0])):
            name = 'stod'
        if x is not args[0]:
            return app(name, sort, x)
    if name == 'isintstr' and isnumtext(args[0]) and args[0].args[1].args[0] == 'expo':
        return TRUE
    if name == 'chr' and args[0].op == 'cat' and args[1].op == 'c':
        q = int(args[1].args[0])
        for x in args[0].args:
            l = slen(x)
            if l.op != 'c' or q < 0:
                break
            if q < l.args[0]:
                return app('chr', 'i', x, C(q))
            q -= int(l.args[0])
    if name in ("fof", "lof") and isnumtext(args[0]) and args[1].op == "str" and not set(args[1].args[0]) & set(NUMKINDS[args[0].args[1].args[0]]):
        return MONE
    if name == 'lof' and args[0].op == 'cat' and args[1].op == 'str':
        r = _lof_cat(*args)
        if r is not None:
            return r
    if name == 'chr' and args[0].op == 'app' and args[0].args[0] == 'substr' and args[0].args[3] is MONE:
        return app('chr', 'i', args[0].args[1], add(args[0].args[2], args[1]))
    if name == 'substr':
        s, p, n = args
        if n is not MONE and p is not ZERO or n.op == 'app' and n.args[0] == 'slen':
            if _past_end(sub(add(p, n), slen(s))):
                n = MONE
                args = (s, p, n)
                if p is ZERO:
                    return s
        if p is ZERO and n is MONE:
            return s
        if n is slen(s):
            # the start is inside the text, so this is the rest
            return app('substr', 's', s, p, MONE)
        if n is ZERO or (n is MONE and p is slen(s)):
            return EMPTY
        if s.op == 'app' and s.args[0] == 'substr' and s.args[3] is MONE:
            return app('substr', 's', s.args[1], add(s.args[2], p), n)
        if s.op == 'app' and s.args[0] == 'substr' and n is not MONE and p is ZERO and s.args[3] is n:
            return s
        if n is not MONE and sub(add(p, n), slen(s)) is ZERO:
            return app('substr', 's', s, p, MONE)
        if n.op == 'app' and n.args[0] in FINDLIKE:
            # as a length, "not found" means all the rest
            return ite(ge(n, ZERO), _mk('app', (name,) + args, sort), app('substr', 's', s, p, MONE))
        if s.op == 'cat':
            r = _cut(s, p, n)
            if r is not None:
                return r
    if name == 'max0':
        p = P(args[0])
        if p and all(c >= 0 and (not m or all(a.op == 'app' and a.args[0] in NONNEG for a, e in m)) for m, c in p.items()):
            return args[0]
    if name == 'trunc' and args[0].sort == 'i':
        return args[0]
    return _mk('app', (name,) + args, sort)


FINDLIKE = {'find', 'rfind', 'fof', 'lof', 'fnot', 'lnotof', 'fofp', 'fnotp'}


def _cut(s, p, n):
    """part of a concatenation whose ends lie at known places of its pieces"""
    xs = s.args

    def find(p):
        acc = ZERO
        for i, x in enumerate(xs + (EMPTY,)):
            d = sub(p, acc)
            if d is ZERO:
                return i, 0
            if d.op == 'c' and x.op == 'str' and 0 < d.args[0] < len(x.args[0]):
                return i, int(d.args[0])
            acc = add(acc, slen(x))
        return None
    a = find(p)
    b = (len(xs), 0) if n is MONE else find(add(p, n))
    if a is None or b is None or b < a:
        return None
    out = []
    for i in range(a[0], min(b[0] + 1, len(xs))):
        x = xs[i]
        lo, hi = a[1] if i == a[0] else 0, b[1] if i == b[0] else None
        if hi == 0:
            continue
        out.append(S(x.args[0][lo:hi]) if lo or hi is not None else x)
    return cat(*out)


def _past_end(d):
    """d >= 0 from the kinds of its atoms alone"""
    if d.op == 'ite':
        return _past_end(d.args[1]) and _past_end(d.args[2])
    k = Q(0)
    for m, c in P(d).items():
        if not m:
            k += c
        elif c < 0:
            return False
        elif all(a.op == 'app' and a.args[0] in NONNEG for a, e in m):
            pass
        elif len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'app' and m[0][0].args[0] in FINDLIKE:
            k -= c
        elif len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'ite' and c > 0:
            lo = _low(m[0][0])
            if lo is None:
                return False
            k += c * lo
        else:
            return False
    return k >= 0


def _low(x):
    if x.op == 'c':
        return x.args[0]
    if x.op == 'ite':
        a, b = _low(x.args[1]), _low(x.args[2])
        return None if a is None or b is None else min(a, b)
    if x.op == 'app' and x.args[0] in NONNEG:
        return Q(0)
    if x.op == 'app' and x.args[0] in FINDLIKE:
        return Q(-1)
    return None


NONNEG = {'lead', 'slen', 'max0', 'ntok', 'cntof', 'cutpos', 'cutgap'}


def max0(t):
    if t.op == 'c':
        return t if t.args[0] > 0 else ZERO
    return app('max0', 'i', t)


# ------------------------------------------------------------------ records
def struct(cls, fields):
    """fields: tuple of (name, T)"""
    base = None
    for n, v in fields:
        if v.op == 'fld' and v.args[1] == n:
            if base is None:
                base = v.args[0]
            if base is not v.args[0]:
                base = False
                break
        else:
            base = False
            break
    if base and fields and base.sort == 'o' and len(fields) > 0 and (base.op != 'struct'):
        k = NFIELDS.get(cls)
        if k is None or k == len(fields):
            return base
    return _mk('struct', (cls, tuple(fields)), 'o')


NFIELDS = {}


def proj(t, name, sort):
    if t.op == 'struct':
        for n, v in t.args[1]:
            if n == name:
                return v
        return top('no field ' + name, sort)
    if t.op == 'ite':
        return ite(t.args[0], proj(t.args[1], name, sort), proj(t.args[2], name, sort))
    if t.op == 'top':
        return top(t.args[0], sort)
    if t.op == 'last':
        h, n, g, v, d = t.args
        x = fresh('q')
        return mklast(x, n, subst(g, {bv(h): x}), proj(subst(v, {bv(h): x}), name, sort), proj(d, name, sort))
    return _mk('fld', (t, name), sort)


def vec(ln, arr):
    if ln.op == 'top':
        return top(ln.args[0], 'v')
    if ln.op == 'fld' and ln.args[1] == '#len' and arr.op == 'fld' and arr.args[1] == '#arr' and ln.args[0] is arr.args[0]:
        return ln.args[0]
    return _mk('vec', (ln, arr), 'v')


def vlen(v):
    if v.op == 'vec':
        return v.args[0]
    if v.op == 'ite':
        return ite(v.args[0], vlen(v.args[1]), vlen(v.args[2]))
    if v.op == 'top':
        return top(v.args[0], 'i')
    return _mk('fld', (v, '#len'), 'i')


def varr(v):
    if v.op == 'vec':
        return v.args[1]
    if v.op == 'ite':
        return ite(v.args[0], varr(v.args[1]), varr(v.args[2]))
    if v.op == 'top':
        return top(v.args[0], 'a')
    return _mk('fld', (v, '#arr'), 'a')


UNINIT = _mk('fill', (_mk('sym', ('uninit', ), 'o'),), 'a')


def fill(v):
    return _mk('fill', (v,), 'a')


def veclit(items):
    a = UNINIT
    for i, x in enumerate(items):
        a = store(a, (C(i),), x)
    return vec(C(len(items)), a)


def vecitems(v, limit=64):
    """list of element terms when the length is constant"""
    if v.op == 'vec' and v.args[0].op == 'c' and v.args[0].args[0] <= limit:
        return [sel(v.args[1], (C(i),), 'o') for i in range(int(v.args[0].args[0]))]
    return None


# ------------------------------------------------------------------ arrays
def upd(base, effs):
    effs = tuple(e for e in effs if not (e.op == 'st' and e.args[0] is FALSE))
    if not effs:
        return base
    if base.op == 'upd':
        return upd(base.args[0], base.args[1] + effs)
    if base.op == 'top':
        return base
    # drop unguarded stores overwritten by a later store to the same place
    if len(effs) > 1:
        last = effs[-1]
        if last.op == 'st' and last.args[0] is TRUE:
            keep = [e for e in effs[:-1] if not (e.op == 'st' and e.args[1] == last.args[1])]
            if len(keep) != len(effs) - 1:
                effs = tuple(keep) + (last,)
        elif last.op == 'st' and effs[-2].op == 'st' and effs[-2].args[1] == last.args[1]:
            p = effs[-2]
            effs = effs[:-2] + (_mk('st', (lor(p.args[0], last.args[0]), last.args[1],
                                           ite(last.args[0], last.args[2], p.args[2])), 'e'),)
    return _mk('upd', (base, tuple(effs)), 'a')


def store(arr, idxs, val, guard=TRUE):
    if arr.op == 'top':
        return arr
    if arr.op == 'ite':
        return ite(arr.args[0], store(arr.args[1], idxs, val, guard), store(arr.args[2], idxs, val, guard))
    return upd(arr, (_mk('st', (guard, tuple(idxs), val), 'e'),))


def _close(v, parts):
    """bind fresh symbol v in parts (tuple) -> (h, parts)"""
    h = 0
    for x in parts:
        if isinstance(x, T):
            h = max(h, x.h)
        elif isinstance(x, tuple):
            h = max(h, _scan(x, set(), 0))
    h += 1
    return h, subst(tuple(parts), {v: bv(h)})


def mkfor(v, n, effs):
    effs = tuple(effs)
    if not effs:
        return None
    if n.op == 'c':
        pass
    h, effs = _close(v, effs)
    return _mk('for', (h, n, effs), 'e')


def mkex(v, n, body):
    if body is FALSE:
        return FALSE
    if n.op == 'c' and n.args[0] <= 0:
        return FALSE
    if body.op == 'top':
        return body
    if v not in body.fv:
        return land(body, ge(n, ONE))
    if n.op == 'c' and n.args[0] <= 4:
        return lor(*[subst(body, {v: C(i)}) for i in range(int(n.args[0]))])
    if body.op == 'or':
        return lor(*[mkex(v, n, b) for b in body.args])
    if body.op == 'and':
        out = [b for b in body.args if v not in b.fv]
        if out:
            inn = [b for b in body.args if v in b.fv]
            return land(*(out + [mkex(v, n, land(*inn))]))
        # solved equality  v = e
    for b in (body.args if body.op == 'and' else (body,)):
        if b.op == 'eqz':
            e = solve_linear(P(b.args[0]), v)
            if e is not None and v not in e.fv:
                rest = land(*[x for x in (body.args if body.op == 'and' else (body,)) if x is not b])
                return land(ge(e, ZERO), lt(e, n), subst(rest, {v: e}))
    h, (bd,) = _close(v, (body,))
    return _mk('ex', (h, n, bd), 'b')


def solve_linear(p, v):
    """p==0 for v, with v having coefficient +-1 as a lone monomial and nowhere else"""
    m = ((v, 1),)
    c = p.get(m)
    if c is None or abs(c) != 1:
        return None
    rest = {k: x for k, x in p.items() if k != m}
    for k in rest:
        for a, e in k:
            if v in a.fv:
                return None
    return fromP({k: -x / c for k, x in rest.items()})


def mksum(v, n, body):
    if body.op == 'top':
        return body
    if n.op == 'c' and n.args[0] <= 0:
        return ZERO
    if n.op == 'c' and n.args[0] <= 4:
        return add(*[subst(body, {v: C(i)}) for i in range(int(n.args[0]))])
    if v not in body.fv:
        return mul(max0(n), body)
    if body.op == 'ite' and v not in body.args[0].fv:
        return ite(body.args[0], mksum(v, n, body.args[1]), mksum(v, n, body.args[2]))
    if body.op == 'ite' and body.args[2] is ZERO:
        # one index at most satisfies the condition
        conj = body.args[0].args if body.args[0].op == 'and' else (body.args[0],)
        for b in conj:
            if b.op == 'eqz':
                e = solve_linear(P(b.args[0]), v)
                if e is not None and v not in e.fv:
                    rest = land(*[x for x in conj if x is not b])
                    return ite(land(ge(e, ZERO), lt(e, n), subst(rest, {v: e})), subst(body.args[1], {v: e}), ZERO)
    # linearity
    p = P(body)
    d = {}
    out = ZERO
    for m, c in p.items():
        inn = tuple((a, e) for a, e in m if v in a.fv)
        ext = tuple((a, e) for a, e in m if v not in a.fv)
        d.setdefault(ext, {})
        d[ext][inn] = c
    for ext, inn in d.items():
        k = {}
        const = inn.pop((), None)
        if const is not None:
            out = add(out, mul(fromP({ext: const}), max0(n)))
        for m, c in inn.items():
            b = fromP({m: Q(1)})
            h, (bd,) = _close(v, (b,))
            out = add(out, mul(fromP({ext: c}), _mk('sum', (h, n, bd), b.sort)))
    return out


def mklast(v, n, g, val, d):
    """value of val at the last v<n with g(v), else d"""
    if g is FALSE or (n.op == 'c' and n.args[0] <= 0):
        return d
    for x in (g, val):
        if x.op == 'top':
            return top(x.args[0], val.sort)
    if v not in g.fv and v not in val.fv:
        return ite(land(g, ge(n, ONE)), val, d)
    if g is TRUE:
        return ite(ge(n, ONE), subst(val, {v: sub(n, ONE)}), d)
    if v not in val.fv:
        return ite(mkex(v, n, g), val, d)
    # guard determined by an equality on v
    conj = g.args if g.op == 'and' else (g,)
    for b in conj:
        if b.op == 'eqz':
            e = solve_linear(P(b.args[0]), v)
            if e is not None and v not in e.fv:
                rest = land(*[x for x in conj if x is not b])
                return ite(land(ge(e, ZERO), lt(e, n), subst(rest, {v: e})), subst(val, {v: e}), d)
    if n.op == 'c' and n.args[0] <= 4:
        r = d
        for i in range(int(n.args[0])):
            r = ite(subst(g, {v: C(i)}), subst(val, {v: C(i)}), r)
        return r
    out = [b for b in conj if v not in b.fv]
    if out:
        inn = [b for b in conj if v in b.fv]
        return ite(land(*out), mklast(v, n, land(*inn), val, d), d)
    h, (g2, v2) = _close(v, (g, val))
    return _mk('last', (h, n, g2, v2, d), val.sort)


def mkfirst(v, n, g):
    """smallest 0<=v<n with g(v), else max0(n)"""
    if g is FALSE:
        return max0(n)
    if g.op == 'top':
        return top(g.args[0], 'i')
    if v not in g.fv:
        return ite(g, ZERO, max0(n))
    if n.op == 'c' and n.args[0] <= 4:
        r = max0(n)
        for i in reversed(range(int(n.args[0]))):
            r = ite(subst(g, {v: C(i)}), C(i), r)
        return r
    h, (g2,) = _close(v, (g,))
    return _mk('first', (h, n, g2), 'i')


def mkcatf(v, n, body):
    if body.op == 'top':
        return body
    if n.op == 'c' and n.args[0] <= 4:
        return cat(*[subst(body, {v: C(i)}) for i in range(int(n.args[0]))])
    h, (b2,) = _close(v, (body,))
    return _mk('catf', (h, n, b2), 's')


def mklam(v, body):
    h, (b,) = _close(v, (body,))
    return _mk('lam', (h, b), 'f')


def mkfold(v, acc, n, body, init):
    """acc_0=init; acc_{t+1}=body(t,acc_t); value acc_n"""
    if body is acc:
        return init
    h = max(body.h, 0) + 1
    b = subst(body, {v: bv(h), acc: bv(-h, acc.sort)})
    return _mk('fold', (h, n, b, init), init.sort)


def expand_effect(e):
    """constant-trip for effect -> plain effects (or None)"""
    h, n, effs = e.args
    if n.op == 'c' and n.args[0] <= 64:
        out = []
        for i in range(max(0, int(n.args[0]))):
            for x in subst(effs, {bv(h): C(i)}):
                if x.op == 'for':
                    y = expand_effect(x)
                    if y is None:
                        out.append(x)
                    else:
                        out.extend(y)
                else:
                    out.append(x)
        return out
    return None


def flatten_for(e):
    """for effect -> list of (vars[(sym,n)], guard, idxs, val) in program order with fresh symbols"""
    out = []

    def go(e, vs):
        if e.op == 'st':
            out.append((list(vs), e.args[0], e.args[1], e.args[2]))
        else:
            h, n, effs = e.args
            v = fresh('k')
            for x in subst(effs, {bv(h): v}):
                go(x, vs + [(v, n)])
    go(e, [])
    return out


def sel(arr, idxs, sort, ctx=None, depth=0):
    idxs = tuple(idxs)
    if arr.op == 'top':
        return top(arr.args[0], sort)
    for i in idxs:
        if i.op == 'top':
            return top(i.args[0], sort)
    if arr.op == 'ite':
        return ite(arr.args[0], sel(arr.args[1], idxs, sort, ctx), sel(arr.args[2], idxs, sort, ctx))
    for k, i in enumerate(idxs):
        if i.op == 'ite':
            return ite(i.args[0], sel(arr, idxs[:k] + (i.args[1],) + idxs[k + 1:], sort, ctx),
                       sel(arr, idxs[:k] + (i.args[2],) + idxs[k + 1:], sort, ctx))
    if arr.op == 'fill':
        return arr.args[0]
    if arr.op == 'upd':
        base, effs = arr.args
        e = effs[-1]
        rest = upd(base, effs[:-1]) if len(effs) > 1 else base
        if e.op == 'st':
            g, ix, v = e.args
            if len(ix) != len(idxs):
                return top('index arity', sort)
            same = land(*[eq(a, b) for a, b in zip(ix, idxs)])
            if ctx is not None:
                same = ctx.simp_bool(same)
            c = land(same, g)
            if c is TRUE:
                return v
            if c is FALSE:
                return sel(rest, idxs, sort, ctx)
            return ite(c, v, sel(rest, idxs, sort, ctx))
        x = expand_effect(e)
        if x is not None and len(x) <= 40:
            return sel(upd(rest, tuple(x)), idxs, sort, ctx)
        r = solve_for(e, rest, idxs, sort, ctx)
        if r is not None:
            return r
    return _mk('asel', (arr,) + idxs, sort)


def digits(p, ctx):
    return None


def _solve_idx(vs, ix, idxs, ctx):
    """Solve ix(vs)==idxs for the loop variables.
    -> (solution dict, residual bool condition) or None.  Unsolved vars stay out of the dict."""
    eqs = [padd(P(a), P(b), -1) if (isnum(a) and isnum(b)) else (a, b) for a, b in zip(ix, idxs)]
    sol = {}
    conds = []
    vars_ = [v for v, n in vs]
    pend = eqs
    prog = True
    while prog and pend:
        prog = False
        nxt = []
        for p in pend:
            if isinstance(p, tuple):
                a, b = subst(p[0], sol), subst(p[1], sol)
                used = [v for v in vars_ if v in a.fv or v in b.fv]
                if not used:
                    conds.append(eq(a, b))
                    prog = True
                    continue
                nxt.append(p)
                continue
            q = P(subst(fromP(p), sol))
            used = [v for v in vars_ if any(v in a.fv for m in q for a, e in m)]
            if not used:
                conds.append(eqz(q))
                prog = True
                continue
            if len(used) == 1:
                e = solve_linear(q, used[0])
                if e is not None:
                    sol[used[0]] = e
                    prog = True
                    continue
            nxt.append(fromP(q) and q)
        pend = nxt
    rest = []
    if pend:
        # mixed radix with provable digit ranges
        for q in pend:
            if isinstance(q, tuple):
                rest.append(eq(subst(q[0], sol), subst(q[1], sol)))
                continue
            q = P(subst(fromP(q), sol))
            r = _radix(q, [(v, subst(n, sol)) for v, n in vs if v not in sol], ctx) if ctx is not None else None
            if r is not None:
                r, res = r
                if res is not TRUE:
                    rest.append(res)
            elif ctx is not None and hasattr(ctx, 'solve_digits'):
                d = ctx.solve_digits(q, [v for v in vars_ if v not in sol])
                if d is not None:
                    r, res = d
                    if res is not TRUE:
                        rest.append(res)
            if r is None:
                rest.append(eqz(q))
                continue
            sol.update(r)
        rest = [subst(x, sol) for x in rest]
    return sol, land(*conds), land(*rest)


def _radix(q, vs, ctx):
    """q = sum v_i*stride_i - target == 0, v_i in [0,n_i).  Unique solution when target has
    the form sum d_i*stride_i with 0<=d_i<n_i' provable and strides nested."""
    strides = []
    rest = dict(q)
    for v, n in vs:
        s = {}
        for m in list(rest):
            es = dict(m)
            if v in es:
                if es[v] != 1:
                    return None
                k = tuple((a, e) for a, e in m if a is not v)
                s[k] = rest.pop(m)
        if not s:
            continue
        strides.append((v, n, s))
    for m in rest:
        for a, e in m:
            if any(v in a.fv for v, n, s in strides):
                return None
    if not strides:
        return None
    tgt = {m: -c for m, c in rest.items()}
    # order strides: larger first (provable multiples)
    strides.sort(key=lambda x: (-max(sum(e for a, e in m) for m in x[2]), -max(abs(c) for c in x[2].values())))
    if any(Q(c).denominator != 1 for c in tgt.values()):
        return None
    # the constant part of a digit may have to be rounded up rather than down
    for up in range(2 ** min(2, sum(1 for v, n, s in strides if max(abs(c) for c in s.values()) > 1))):
        r = _radix1(strides, tgt, up, ctx)
        if r is not None:
            return r
    return None


def _radix1(strides, tgt, up, ctx):
    # express target digit by digit: polynomial division by stride
    sol = {}
    one = {(): Q(1)}
    t = dict(tgt)
    for k, (v, n, s) in enumerate(strides):
        if len(s) != 1:
            return None
        (sm, sc), = s.items()
        if sc <= 0 or Q(sc).denominator != 1:
            return None
        d = {}
        u = up & 1
        if sc > 1:
            up >>= 1
        for m in list(t):
            es = dict(m)
            if any(es.get(a, 0) < e for a, e in sm):
                continue
            r = dict(es)
            for a, e in sm:
                r[a] -= e
            key = tuple(sorted(((a, e) for a, e in r.items() if e), key=lambda x: x[0].id))
            c = t.pop(m)
            q = c // sc
            if c - q * sc and not key:
                q += u
            if q:
                d[key] = Q(q)
            if c - q * sc:
                t[m] = c - q * sc
        sol[v] = fromP(d)
    # uniqueness: all lower digits (of variable and of target) within the stride above
    for k in range(len(strides) - 1):
        # sum_{l>k} (n_l - 1)*s_l < s_k   and the same for target digits
        tot = {}
        tt = t
        for v, n, s in strides[k + 1:]:
            tot = padd(tot, pmul(padd(P(n), one, -1), s))
            tt = padd(tt, pmul(P(sol[v]), s))
        sk = strides[k][2]
        for x in (tot, tt):
            if not ctx.prove_ge(padd(padd(sk, x, -1), one, -1)):
                return None
        if not ctx.prove_ge(tt):
            return None
    if not t:
        return sol, TRUE
    # what is left over is less than the last stride either way: it must be nothing
    sk = strides[-1][2]
    for x in (padd(sk, t, -1), padd(sk, t)):
        if not ctx.prove_ge(padd(x, one, -1)):
            return None
    return sol, eqz(t)


def solve_for(e, rest, idxs, sort, ctx):
    """sel(upd(rest,(e,)), idxs): last iteration writing idxs"""
    stores = flatten_for(e)
    cands = []
    for vs, g, ix, val in stores:
        if len(ix) != len(idxs):
            return None
        if ctx is not None:
            cx = ctx.extend_loops(vs)
            if cx.impossible():
                continue
            r = _solve_idx(vs, ix, idxs, cx)
        else:
            r = _solve_idx(vs, ix, idxs, None)
        if r is None:
            return None
        sol, cond, res = r
        if cond is FALSE or res is FALSE:
            continue
        if res is not TRUE:
            left = [v for v, n in vs if v not in sol and v in res.fv]
            if not left:
                cond = land(cond, res)
            else:
                if len(stores) > 1 or len(left) > 1:
                    return None
                g = land(g, res)
        cands.append((vs, g, val, sol, cond))
    if not cands:
        return sel(rest, idxs, sort, ctx)
    default = sel(rest, idxs, sort, ctx)
    if len(cands) == 1:
        vs, g, val, sol, cond = cands[0]
        return _cand(vs, g, val, sol, cond, default, ctx)[1]
    # several stores: all fully solved at the same iteration -> program order decides
    for vs, g, val, sol, cond in cands:
        if any(v not in sol for v, n in vs):
            return None
    key0 = [cands[0][3][v] for v, n in cands[0][0]]
    samev = all(len(c[0]) == len(cands[0][0]) and [c[3][v] for v, n in c[0]] == key0 for c in cands)
    if samev:
        r = default
        for c in cands:
            r = _cand(*c, r, ctx)[1]
        return r
    # different iterations: lexicographic order, one loop level only
    if all(len(c[0]) == 1 for c in cands):
        r = default
        conds = []
        for c in cands:
            cc, _ = _cand(*c, default, ctx)
            conds.append((cc, c[3][c[0][0][0]], subst(c[2], c[3])))
        # last by iteration, then by order
        r = default
        if len(conds) == 2:
            (c1, t1, v1), (c2, t2, v2) = conds
            later2 = ge(t2, t1)
            return ite(land(c2, lor(lnot(c1), later2)), v2, ite(c1, v1, default))
    return None


def _cand(vs, g, val, sol, cond, default, ctx):
    conds = [cond]
    free = []
    g = subst(g, sol)
    val = subst(val, sol)
    for v, n in vs:
        n = subst(n, sol)
        if v in sol:
            conds.append(ge(sol[v], ZERO))
            conds.append(lt(sol[v], n))
        else:
            free.append((v, n))
    if not free:
        c = land(*(conds + [g]))
        if ctx is not None:
            c = ctx.simp_bool(c)
        return c, ite(c, val, default)
    # undetermined loops: last iteration satisfying the guard (innermost last)
    r = default
    if len(free) == 1:
        v, n = free[0]
        c = land(*conds)
        if ctx is not None:
            c = ctx.simp_bool(c)
        return None, ite(c, mklast(v, n, g, val, default), default)
    # nested: later outer iteration wins
    v, n = free[-1]
    inner_any = mkex(v, n, g)
    dummy = top('nested last', val.sort)
    inner_val = mklast(v, n, g, val, val)
    for v, n in reversed(free[:-1]):
        inner_val = mklast(v, n, inner_any, inner_val, default)
        inner_any = mkex(v, n, inner_any)
    c = land(*conds)
    if ctx is not None:
        c = ctx.simp_bool(c)
    return None, ite(c, inner_val, default)


# ------------------------------------------------------------------ substitution
def subst(x, m, _memo=None):
    if not m:
        return x
    if _memo is None:
        _memo = {}
        m = {k: v for k, v in m.items() if k is not v}
        if not m:
            return x
    keys = m.keys()
    if isinstance(x, tuple):
        return tuple(subst(a, m, _memo) if isinstance(a, (T, tuple)) else a for a in x)
    if not isinstance(x, T):
        return x
    if x in m:
        return m[x]
    if not any(k in x.fv for k in keys if k.op in ('sym', 'bv')) and not any(k.op not in ('sym', 'bv') for k in keys):
        return x
    r = _memo.get(x)
    if r is not None:
        return r
    r = _rebuild(x, lambda a: subst(a, m, _memo))
    _memo[x] = r
    return r


def _rebuild(x, f, sel_ctx=None):
    """rebuild x with f applied to children through the smart constructors"""
    op = x.op
    A = x.args
    if op in ('sym', 'bv', 'c', 'str', 'true', 'false', 'null', 'top', 'fun'):
        return x
    if op == 'p':
        out = ZERO
        acc = {}
        for mono, c in A:
            q = {(): c}
            for a, e in mono:
                b = f(a)
                if b.op == 'top':
                    return top(b.args[0], x.sort)
                pb = P(tonum(b))
                for _ in range(e):
                    q = pmul(q, pb)
            acc = padd(acc, q)
        return fromP(acc)
    if op == 'not':
        return lnot(f(A[0]))
    if op == 'and':
        return land(*[f(a) for a in A])
    if op == 'or':
        return lor(*[f(a) for a in A])
    if op == 'ge':
        b = f(A[0])
        return top(b.args[0], 'b') if b.op == 'top' else ge0(P(b))
    if op == 'gt':
        b = f(A[0])
        return top(b.args[0], 'b') if b.op == 'top' else gt0(P(b))
    if op == 'eqz':
        b = f(A[0])
        return top(b.args[0], 'b') if b.op == 'top' else eqz(P(b))
    if op == 'eq':
        return eq(f(A[0]), f(A[1]))
    if op == 'ite':
        c = f(A[0])
        if c is TRUE:
            return f(A[1])
        if c is FALSE:
            return f(A[2])
        return ite(c, f(A[1]), f(A[2]))
    if op == 'inv':
        return inv(f(A[0]))
    if op == 'cat':
        return cat(*[f(a) for a in A])
    if op == 'app':
        if A[0] == 'slen':
            return slen(f(A[1]))
        if A[0] == 'max0':
            return max0(f(A[1]))
        if A[0] == 'idiv':
            return idiv(f(A[1]), f(A[2]))
        if A[0] == 'mod':
            return imod(f(A[1]), f(A[2]))
        return app(A[0], x.sort, *[f(a) if isinstance(a, T) else (tuple(f(b) if isinstance(b, T) else b for b in a) if isinstance(a, tuple) else a) for a in A[1:]])
    if op == 'fld':
        b = f(A[0])
        if A[1] == '#len':
            return vlen(b)
        if A[1] == '#arr':
            return varr(b)
        return proj(b, A[1], x.sort)
    if op == 'vec':
        return vec(f(A[0]), f(A[1]))
    if op == 'struct':
        return struct(A[0], tuple((n, f(v)) for n, v in A[1]))
    if op == 'fill':
        return fill(f(A[0]))
    if op == 'upd':
        return upd(f(A[0]), tuple(f(e) for e in A[1]))
    if op == 'st':
        return _mk('st', (f(A[0]), tuple(f(i) for i in A[1]), f(A[2])), 'e')
    if op == 'asel':
        return sel(f(A[0]), tuple(f(i) for i in A[1:]), x.sort, sel_ctx)
    if op == 'ptr':
        return _mk('ptr', mapnest(A, f), 'P')
    if op in ('ex', 'sum', 'last', 'first', 'for', 'lam', 'catf'):
        h = A[0]
        v = fresh('r')
        o = lambda t: f(subst(t, {bv(h): v})) if isinstance(t, T) else tuple(o(y) for y in t)
        if op == 'ex':
            return mkex(v, f(A[1]), o(A[2]))
        if op == 'sum':
            return mksum(v, f(A[1]), o(A[2]))
        if op == 'last':
            return mklast(v, f(A[1]), o(A[2]), o(A[3]), f(A[4]))
        if op == 'first':
            return mkfirst(v, f(A[1]), o(A[2]))
        if op == 'for':
            return mkfor(v, f(A[1]), o(A[2]))
        if op == 'catf':
            return mkcatf(v, f(A[1]), o(A[2]))
        return mklam(v, o(A[1]))
    if op == 'fold':
        h, n, b, init = A
        v = fresh('r')
        i2 = f(init)
        acc = fresh('acc', init.sort)
        return mkfold(v, acc, f(n), f(subst(b, {bv(h): v, bv(-h, init.sort): acc})), i2)
    raise AssertionError('rebuild ' + op)


# ------------------------------------------------------------------ printing
def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return '(' + ', '.join(show(a, d + 1) for a in t) + ')'
        return str(t)
    if d > 14:
        return '…'
    op, A = t.op, t.args
    if op == 'sym':
        return str(A[0]) if not isinstance(A[0], tuple) else '.'.join(map(str, A[0]))
    if op == 'bv':
        return '#%d' % A[0]
    if op == 'c':
        return str(A[0])
    if op == 'p':
        out = []
        for m, c in A:
            ms = '*'.join(show(a, d + 1) + ('^%d' % e if e > 1 else '') for a, e in m)
            if not ms:
                out.append(str(c))
            elif c == 1:
                out.append(ms)
            else:
                out.append('%s*%s' % (c, ms))
        return '(' + ' + '.join(out) + ')'
    if op in ('true', 'false', 'null'):
        return op
    if op == 'not':
        return '!' + show(A[0], d + 1)
    if op in ('and', 'or'):
        return '(' + (' && ' if op == 'and' else ' || ').join(show(a, d + 1) for a in A) + ')'
    if op == 'ge':
        return show(A[0], d + 1) + '>=0'
    if op == 'gt':
        return show(A[0], d + 1) + '>0.'
    if op == 'eqz':
        return show(A[0], d + 1) + '==0'
    if op == 'eq':
        return '%s==%s' % (show(A[0], d + 1), show(A[1], d + 1))
    if op == 'ite':
        return '(%s ? %s : %s)' % tuple(show(a, d + 1) for a in A)
    if op == 'str':
        return repr(A[0])
    if op == 'cat':
        return '·'.join(show(a, d + 1) for a in A)
    if op == 'app':
        return '%s(%s)' % (A[0], ', '.join(show(a, d + 1) for a in A[1:]))
    if op == 'fld':
        return '%s.%s' % (show(A[0], d + 1), A[1])
    if op == 'asel':
        return '%s[%s]' % (show(A[0], d + 1), ', '.join(show(a, d + 1) for a in A[1:]))
    if op == 'struct':
        return '%s{%s}' % (A[0], ', '.join('%s=%s' % (n, show(v, d + 1)) for n, v in A[1]))
    if op == 'vec':
        return 'vec<%s>%s' % (show(A[0], d + 1), show(A[1], d + 1))
    if op == 'upd':
        return '%s{%s}' % (show(A[0], d + 1), '; '.join(show(e, d + 1) for e in A[1]))
    if op == 'st':
        g = '' if A[0] is TRUE else show(A[0], d + 1) + ': '
        return '%s[%s]:=%s' % (g, ', '.join(show(i, d + 1) for i in A[1]), show(A[2], d + 1))
    if op in BINDERS:
        return '%s #%d<%s. %s' % (op, A[0], show(A[1], d + 1), ' | '.join(show(a, d + 1) for a in A[2:]))
    return '%s%s' % (op, show(A, d + 1))


def size(t, limit=100000):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
        elif isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            if len(seen) > limit:
                return limit
            st.extend(x.args)
    return len(seen)


def subterms(t):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
        elif isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            yield x
            st.extend(x.args)


def has_top(t):
    for x in subterms(t):
        if x.op == 'top':
            return x
    return None
