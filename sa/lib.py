"""Models of the C++ standard library operations the code base uses."""
from .terms import *
from .terms import _mk, ptr, NULL
from . import terms as tm
from . import types as ty
from . import streams
from .types import kind, strip

NPOS = MONE


def _engine():
    from . import engine
    return engine


# ---------------------------------------------------------------- helpers
def tostr(v, t=None):
    if v.sort == 's':
        return v
    if v.op == 'top':
        return top(v.args[0], 's')
    if v.sort == 'b':
        return app('tos', 's', tm.tonum(v))
    if t is not None and strip(t) in ('char', 'signed char', 'unsigned char'):
        return app('chstr', 's', v)
    if v.sort == 'i':
        return app('tos', 's', v)
    if v.sort == 'r':
        return app('ostr', 's', v)
    return top('printed value', 's')


def charstr(v, node_t):
    """string or character argument -> string"""
    if v.sort == 's':
        return v
    if v.sort == 'i':
        return app('chstr', 's', v)
    return top('string argument', 's')


def place(eng, l):
    return l if not isinstance(l, T) else eng.temp(l)


def begin_of(eng, l, es, idx):
    E = _engine()
    if isinstance(l, E.LVIte):
        return ite(l.c, begin_of(eng, l.a, es, idx(l.a) if callable(idx) else idx), begin_of(eng, l.b, es, idx(l.b) if callable(idx) else idx))
    if isinstance(l, E.LVTop):
        return top(l.why, 'P')
    if isinstance(l, E.LVKV):
        return top('iterator', 'P')
    return ptr(l.root, l.path + (('i', idx(l) if callable(idx) else idx, es),))


def elem(eng, l, i, es):
    E = _engine()
    if isinstance(l, E.LVIte):
        return E.LVIte(l.c, elem(eng, l.a, i, es), elem(eng, l.b, i, es))
    if isinstance(l, E.LV):
        return l.f(('i', i, es))
    if isinstance(l, T):
        return eng.temp(l).f(('i', i, es))
    return l


def rd(eng, a):
    return a if isinstance(a, T) else eng.read(a)


def str_set(eng, v, i, val):
    if v.op == 'str' and i.op == 'c' and val.op == 'c':
        s = v.args[0]
        k = int(i.args[0])
        if 0 <= k < len(s):
            return S(s[:k] + chr(int(val.args[0])) + s[k + 1:])
    return app('setchr', 's', v, i, val)


def map_keys(v, ctx=None):
    """keys of a map/set value in order, or None. Constants; one symbolic key; symbolic keys whose order is a known fact"""
    h = proj(v, '#has', 'a')
    effs = []
    while h.op == 'upd':
        effs = list(h.args[1]) + effs
        h = h.args[0]
    if h.op != 'fill' or h.args[0] is not FALSE:
        return None
    if len(effs) == 1 and effs[0].op == 'st' and effs[0].args[0] is TRUE and effs[0].args[2] is TRUE:
        return [effs[0].args[1][0]]
    if ctx is not None and len(effs) > 1 and all(e.op == 'st' and e.args[0] is TRUE and e.args[2] is TRUE for e in effs):
        ks = [e.args[1][0] for e in effs]
        if all(x.sort == 's' for x in ks) and all(app('slt', 'b', x, y) in ctx.true for x, y in zip(ks, ks[1:])):
            return ks
    ks = {}
    for e in effs:
        if e.op == 'for':
            x = tm.expand_effect(e)
            if x is None:
                return None
        else:
            x = [e]
        for y in x:
            if y.op != 'st' or y.args[0] is not TRUE:
                return None
            k = y.args[1][0]
            c = constkey(k)
            if c is None:
                return None
            if y.args[2] is TRUE:
                ks[c] = k
            elif y.args[2] is FALSE:
                ks.pop(c, None)
            else:
                return None
    return [ks[c] for c in sorted(ks)]


def constkey(k):
    if isconst(k):
        return (cval(k),)
    if k.op == 'struct' and k.args[0] == 'pair':
        a = constkey(k.args[1][0][1])
        b = constkey(k.args[1][1][1])
        return None if a is None or b is None else a + b
    if k.sort == 'v':
        it = vecitems(k)
        if it is None:
            return None
        cs = [constkey(x) for x in it]
        return None if any(c is None for c in cs) else tuple(cs)
    return None


def opaque_keys(eng, v, k):
    return None


def mapval(has, val):
    return struct('map', (('#has', has), ('#val', val)))


def default_of(eng, t):
    return eng.default(t)


# ---------------------------------------------------------------- constructors
def known(eng, v):
    """a chosen string under what is known here"""
    return eng.ctx().simp(v) if v.op == 'ite' and v.sort == 's' else v


def construct(eng, n, k):
    ch = [c for c in n.ch if not (c.k == 'CXXDefaultArgExpr')]
    t = n.t
    if k[0] == 's':
        if not ch:
            return EMPTY
        if len(ch) == 1:
            v = eng.val(ch[0])
            if v.sort == 'v':
                return top('string from list', 's')
            if v.sort == 'P':
                return top('string from pointer', 's') if v.op != 'top' else top(v.args[0], 's')
            return known(eng, v)
        if len(ch) == 2:
            a, b = eng.val(ch[0]), eng.val(ch[1])
            if a.sort == 'i':
                return app('reps', 's', a, b)
            if a.sort == 'P' and b.sort == 'P':
                s = range_string(eng, a, b)
                if s is not None:
                    return s
            if a.sort == 's' and b.sort == 'i':
                return app('substr', 's', a, ZERO, b)
            return top('string constructor', 's')
        if len(ch) == 3:
            a, b, c = [eng.val(x) for x in ch]
            if a.sort == 's':
                return substr(eng, a, b, c, n)
        return top('string constructor', 's')
    if k[0] == 'vec':
        if not ch:
            return vec(ZERO, UNINIT)
        if len(ch) == 1:
            v = eng.val(ch[0])
            if v.sort == 'v' or v.op == 'top':
                return v
            if v.sort == 'i':
                eng.require(ge(v, ZERO), 'alloc', n, 'vector size')
                return vec(v, fill(eng.default(k[1])))
            return top('vector constructor', 'v')
        a, b = eng.val(ch[0]), eng.val(ch[1])
        if a.sort == 'P' and b.sort == 'P':
            r = slice_of(eng, a, b)
            return r if r is not None else top('vector from iterators', 'v')
        if a.sort == 'i':
            eng.require(ge(a, ZERO), 'alloc', n, 'vector size')
            return vec(a, fill(coerce_elem(b, k[1])))
        return top('vector constructor', 'v')
    if k[0] == 'pair':
        if not ch:
            return eng.default(t)
        if len(ch) == 1:
            return eng.val(ch[0])
        a, b = eng.coerce(eng.val(ch[0]), k[1]), eng.coerce(eng.val(ch[1]), k[2])
        return struct('pair', (('first', a), ('second', b)))
    if k[0] in ('map', 'set'):
        if not ch:
            return eng.default(t)
        v = eng.val(ch[0])
        if v.sort == 'P' and len(ch) >= 2:
            b = eng.val(ch[1])
            v = slice_of(eng, v, b) if b.sort == 'P' else None
            if v is None:
                return top('map from a range', 'o')
        if v.sort == 'v':
            items = vecitems(v)
            if items is None:
                return top('map from list of unknown length', 'o')
            m = eng.default(t)
            if k[0] == 'map':
                h, a = proj(m, '#has', 'a'), proj(m, '#val', 'a')
                for it in items:
                    key, val = proj(it, 'first', ty.sort(k[1])), proj(it, 'second', ty.sort(k[2]))
                    # duplicate keys keep the first value
                    a = store(a, (key,), val, lnot(sel(h, (key,), 'b')))
                    h = store(h, (key,), TRUE)
                return mapval(h, a)
            h = proj(m, '#has', 'a')
            for it in items:
                h = store(h, (it,), TRUE)
            return struct('set', (('#has', h),))
        return v if v.sort == 'o' else top('map constructor', 'o')
    if k[0] in ('ptr',):
        if not ch:
            return NULL
        return eng.val(ch[0])
    if k[0] in ('iter', 'miter', 'lam', 'fun'):
        if ch:
            return eng.val(ch[0])
        return top('iterator', 'P') if k[0] == 'iter' else top('iterator', 'o')
    if k[0] == 'os':
        vs = [eng.val(c) for c in ch]
        if vs and vs[0].sort == 's' and 'stringstream' in t:
            return vs[0]
        return EMPTY
    if k[0] == 'cls' and 'istream_iterator<' in t and len(ch) <= 1 and 'basic_string' in t:
        return app('istrit', 'o', eng.ptr_of(eng.lv(ch[0]))) if ch and 'istream_iterator<' not in ch[0].t else eng.val(ch[0]) if ch else app('istrend', 'o')
    if k[0] == 'is' and 'ifstream' in t:
        vs = [eng.val(c) for c in ch]
        if not vs or vs[0].sort != 's':
            return streams.closed()
        l = eng.temp(streams.closed())
        streams.open_file(eng, l, vs[0])
        return eng.read(l)
    if k[0] == 'is':
        vs = [eng.val(c) for c in ch]
        return app('stream', 'o', *[v for v in vs[:1]]) if vs else app('stream', 'o')
    vs = [eng.val(c) for c in ch]
    if k[0] == 'i' and 'fpos<' in t or strip(t) == 'std::streampos':
        # a position in a file is its number
        if not vs:
            return ZERO
        if len(vs) == 1 and vs[0].sort == 'i':
            return vs[0]
    nm = strip(t).split('::')[-1]
    if k[0] == 'cls' and len(vs) >= 1 and (nm.endswith('error') or nm.endswith('argument') or nm in ('out_of_range', 'exception')):
        return app('exc', 'o', vs[0])
    if len(vs) == 1 and vs[0].sort in ('o', 'f'):
        return vs[0]
    return top('construct ' + t, ty.sort(t))


def coerce_elem(v, t):
    if v.sort == 'b' and ty.sort(t) in ('i', 'r'):
        return tm.tonum(v)
    return v


def init_list(eng, n):
    k = kind(n.t)
    if k[0] == 'vec':
        items = [eng.coerce(eng.val(c), k[1]) for c in n.ch]
        return veclit(items)
    if not n.ch:
        return eng.default(n.t)
    if k[0] == 'pair' and len(n.ch) == 2:
        return struct('pair', (('first', eng.coerce(eng.val(n.ch[0]), k[1])), ('second', eng.coerce(eng.val(n.ch[1]), k[2]))))
    if len(n.ch) == 1:
        return eng.coerce(eng.val(n.ch[0]), n.t)
    if k[0] == 'cls':
        fs = eng.fields(k[1])
        if fs is not None and len(fs) == len(n.ch):
            return struct(k[1], tuple((f[0], eng.coerce(eng.val(c), f[1])) for f, c in zip(fs, n.ch)))
    return top('initialiser list', ty.sort(n.t))


def same_place(a, b):
    return a.op == 'ptr' and b.op == 'ptr' and a.args[0] == b.args[0] and len(a.args[1]) == len(b.args[1]) and a.args[1][:-1] == b.args[1][:-1] \
        and a.args[1] and a.args[1][-1][0] == 'i'


def slice_of(eng, a, b):
    """value [a, b) of one container"""
    E = _engine()
    if not same_place(a, b):
        return None
    l = E.LV(a.args[0], a.args[1][:-1])
    c = eng.read(l)
    i, j = a.args[1][-1][1], b.args[1][-1][1]
    es = a.args[1][-1][2]
    if c.sort != 'v':
        return None
    if i is ZERO and j is vlen(c):
        return c
    ln = sub(j, i)
    if not eng.ctx().prove_ge(P(ln)):
        return None
    if i is ZERO:
        return vec(ln, varr(c))
    k = fresh('k')
    return vec(ln, upd(UNINIT, (mkfor(k, ln, (_mk('st', (TRUE, (k,), sel(varr(c), (add(i, k),), es, eng.ctx())), 'e'),)),)))


def range_string(eng, a, b):
    E = _engine()
    if not same_place(a, b):
        return None
    c = eng.read(E.LV(a.args[0], a.args[1][:-1]))
    if c.sort != 's':
        return None
    i, j = a.args[1][-1][1], b.args[1][-1][1]
    if i is ZERO and j is slen(c):
        return c
    return app('substr', 's', c, i, sub(j, i))


# ---------------------------------------------------------------- free functions
def exc_exit(eng, c, n, what):
    """library exception under c"""
    eng.fail_if(c, 'throw', n, what)


def call(eng, name, args, n):
    if name in ('move', 'forward'):
        return eng.lv(args[0]) if args[0].a.get('valueCategory') in ('lvalue', 'xvalue') else eng.val(args[0])
    if name in ('printf', 'fprintf', 'puts', 'fflush', 'putchar'):
        for a in args:
            eng.any(a)
        return ZERO
    if name in ('exit', '_exit', 'abort', 'terminate', 'quick_exit'):
        v = eng.val(args[0]) if args else None
        eng.exit('exit', n, v)
    if name == 'swap' and len(args) == 2:
        a, b = eng.lv(args[0]), eng.lv(args[1])
        x, y = rd(eng, a), rd(eng, b)
        eng.write(a, y)
        eng.write(b, x)
        return None
    if name == 'stat':
        p = eng.val(args[0])
        b = eng.val(args[1])
        if b.op == 'ptr':
            l = eng.lv_of_ptr(b, 'stat')
            eng.write(l, app('statbuf', 'o', p))
        return ite(app('exists', 'b', p), ZERO, MONE)
    if name == 'getline':
        l = eng.lv(args[0])
        s = eng.lv(args[1])
        if len(args) == 2:
            streams.next_line(eng, l, s)
        else:
            eng.write(s, top('text read from a stream', 's'))
        return l
    if name in ('sort', 'stable_sort'):
        return sort_call(eng, args, n)
    if name in ('copy', 'copy_n', 'copy_backward', 'transform', 'back_inserter', 'for_each', 'remove_if', 'remove', 'unique', 'reverse', 'iota', 'fill', 'fill_n', 'replace', 'rotate', 'copy_if', 'generate', 'inserter',
                'swap_ranges', 'accumulate', 'inner_product', 'equal', 'partial_sum', 'sort_heap', 'partial_sort', 'nth_element', 'random_shuffle', 'shuffle', 'partition', 'stable_partition', 'replace_if', 'uninitialized_copy', 'uninitialized_fill', 'generate_n', 'merge', 'set_union', 'set_difference', 'next_permutation', 'iter_swap', 'memcpy', 'memmove', 'memset'):
        vs = [eng.arg_any(a) for a in args]
        return algo(eng, name, vs, args, n)
    vs = [eng.val(a) for a in args]
    return call_vals(eng, name, vs, n)


class Seq:
    """[first, last) of one container, or a start position only"""

    def __init__(self, eng, a, b=None):
        E = _engine()
        self.eng = eng
        self.ok = a.op == 'ptr' and a.args[1] and a.args[1][-1][0] == 'i' and (b is None or same_place(a, b))
        if not self.ok:
            return
        self.root, self.path = a.args[0], a.args[1][:-1]
        self.l = E.LV(self.root, self.path)
        self.c = eng.read(self.l)
        self.es = a.args[1][-1][2]
        self.i = a.args[1][-1][1]
        self.n = sub(b.args[1][-1][1], self.i) if b is not None else None
        self.len = slen(self.c) if self.c.sort == 's' else vlen(self.c) if self.c.sort == 'v' else None
        self.ok = self.len is not None and self.c.op != 'top'
        self.place = (self.root, self.path)

    def get(self, k):
        q = add(self.i, k)
        return app('chr', 'i', self.c, q) if self.c.sort == 's' else sel(varr(self.c), (q,), self.es, self.eng.ctx())

    def within(self, n, node, what):
        """the first n positions lie inside the container"""
        self.eng.require(ge(n, ZERO), 'bounds', node, what + ' of a negative length')
        self.eng.require(lor(le(n, ZERO), land(ge(self.i, ZERO), le(add(self.i, n), self.len))), 'bounds', node, '%s of %s from %s in %s' % (what, show(n)[:60], show(self.i)[:60], show(self.len)[:60]))
        if self.path == () or True:
            E = _engine()
            if hasattr(self.eng, 'check_live'):
                self.eng.check_live(E.LV(self.root, self.path + (('i', self.i, self.es),)), node)

    def end(self, n):
        return ptr(self.root, self.path + (('i', add(self.i, n), self.es),))

    def put(self, n, fn):
        """positions 0..n-1 become fn(k)"""
        eng = self.eng
        if n.op == 'c' and 0 <= n.args[0] <= 8:
            ar = varr(self.c)
            for q in range(int(n.args[0])):
                ar = store(ar, (add(self.i, C(q)),), fn(C(q)))
            eng.write(self.l, vec(vlen(self.c), ar))
            return
        k = fresh('k')
        saved = eng.st
        eng.st = eng.st.fork(ge(k, ZERO), lt(k, n))
        try:
            x = fn(k)
        finally:
            eng.st = saved
        eng.write(self.l, vec(vlen(self.c), upd(varr(self.c), (mkfor(k, n, (_mk('st', (TRUE, (add(self.i, k),), x), 'e'),)),))))


def apply_fun(eng, f, xs, n):
    r = eng.quiet(lambda: eng.call_value(f, [eng.temp(x) for x in xs], n))
    return rd(eng, r)


def seq_loop(eng, q, cnt, body, n, init=None):
    """for k in 0..cnt-1: acc = body(k, acc)"""
    E = _engine()
    idx, acc = eng.fresh_root('v'), eng.fresh_root('v')
    eng.st.mem[idx] = ZERO
    if init is not None:
        eng.st.mem[acc] = init

    def bd():
        r = body(eng.st.mem[idx], eng.st.mem.get(acc))
        if init is not None:
            eng.st.mem[acc] = r

    def inc():
        eng.st.mem[idx] = add(eng.st.mem[idx], ONE)
    eng.loop(n, lambda: lt(eng.st.mem[idx], cnt), bd, inc)
    r = eng.st.mem.pop(acc, None)
    eng.st.mem.pop(idx, None)
    return r


def seq_algo(eng, name, vals, n):
    """algorithms with element-wise meaning; None if not modelled for these arguments"""
    E = _engine()
    def src(i):
        q = Seq(eng, vals[i], vals[i + 1])
        return q if q.ok else None
    if name == 'copy' and len(vals) == 3 and vals[0].op == 'app' and vals[0].args[0] == 'istrit' and vals[1].op == 'app' and vals[1].args[0] == 'istrend':
        w = stream_words(eng, vals[0].args[1])
        d = vals[2]
        if w is None or not (d.op == 'app' and d.args[0] == 'backins' and d.args[1].op == 'ptr'):
            return None
        l = E.LV(*d.args[1].args)
        old = eng.read(l)
        if vlen(old) is not ZERO:
            return None
        eng.write(l, w)
        return d
    if name in ('copy', 'copy_n', 'transform', 'copy_backward'):
        if name == 'copy_n':
            q = Seq(eng, vals[0])
            if not q.ok or len(vals) != 3:
                return None
            q.n = vals[1]
            dst, f, q2 = vals[2], None, None
        else:
            q = src(0)
            if q is None:
                return None
            f = q2 = None
            if name == 'transform':
                f = vals[-1]
                if len(vals) == 5:
                    q2 = Seq(eng, vals[2])
                    if not q2.ok:
                        return None
                elif len(vals) != 4:
                    return None
                dst = vals[-2]
            elif len(vals) != 3:
                return None
            else:
                dst = vals[2]
        q.within(q.n, n, name)
        if q2 is not None:
            q2.within(q.n, n, name)

        def elem_(k):
            if f is None:
                return q.get(k)
            return apply_fun(eng, f, [q.get(k)] + ([q2.get(k)] if q2 is not None else []), n)
        if dst.op == 'app' and dst.args[0] == 'backins' and dst.args[1].op == 'ptr':
            l = E.LV(*dst.args[1].args)
            c = eng.read(l)
            if c.sort != 'v' or c.op == 'top':
                return None
            k = fresh('k')
            saved = eng.st
            eng.st = eng.st.fork(ge(k, ZERO), lt(k, q.n))
            try:
                x = elem_(k)
            finally:
                eng.st = saved
            if x.op == 'top':
                return None
            eng.write(l, vec(add(vlen(c), q.n), upd(varr(c), (mkfor(k, q.n, (_mk('st', (TRUE, (add(vlen(c), k),), x), 'e'),)),))))
            return dst
        d = Seq(eng, dst)
        if not d.ok or d.c.sort != 'v':
            return None
        if name == 'copy_backward':
            d.i = sub(d.i, q.n)
        if d.place == q.place:
            safe = le(d.i, q.i) if name != 'copy_backward' else ge(d.i, q.i)
            if f is not None:
                safe = eq(d.i, q.i)
            if q2 is not None and d.place == q2.place:
                safe = land(safe, eq(d.i, q2.i))
            if eng.simp(safe) is not TRUE:
                return None
        elif q2 is not None and d.place == q2.place and eng.simp(eq(d.i, q2.i)) is not TRUE:
            return None
        d.within(q.n, n, name)
        d.put(q.n, elem_)
        return d.end(ZERO if name == 'copy_backward' else q.n)
    if name in ('fill', 'fill_n', 'iota'):
        if name == 'fill_n':
            d = Seq(eng, vals[0])
            if not d.ok or d.c.sort != 'v':
                return None
            d.n = vals[1]
        else:
            d = src(0)
            if d is None or d.c.sort != 'v':
                return None
        x = vals[2]
        if x.sort == 'b':
            x = tm.tonum(x)
        d.within(d.n, n, name)
        d.put(d.n, (lambda k: add(x, k)) if name == 'iota' else (lambda k: x))
        return d.end(d.n)
    if name == 'swap_ranges':
        q = src(0)
        d = Seq(eng, vals[2])
        if q is None or not d.ok or q.c.sort != 'v' or d.c.sort != 'v':
            return None
        q.within(q.n, n, name)
        d.within(q.n, n, name)
        if q.place != d.place:
            q.put(q.n, d.get)
            d.put(q.n, q.get)
            return d.end(q.n)
        if eng.simp(lor(le(add(q.i, q.n), d.i), le(add(d.i, q.n), q.i))) is not TRUE:
            return None
        old_q, old_d = q.get, d.get
        c0 = q.c
        q.put(q.n, d.get)
        e = Seq(eng, d.end(ZERO))
        e.put(q.n, lambda k: sel(varr(c0), (add(q.i, k),), q.es, eng.ctx()))
        return d.end(q.n)
    if name == 'for_each':
        q = src(0)
        if q is None or len(vals) != 3:
            return None
        q.within(q.n, n, name)
        f = vals[2]

        def one(k, _):
            l = E.LV(q.root, q.path + (('i', add(q.i, k), q.es),))
            eng.call_value(f, [l], n)
        seq_loop(eng, q, q.n, one, n)
        return f
    if name in ('accumulate', 'inner_product'):
        q = src(0)
        q2 = Seq(eng, vals[2]) if name == 'inner_product' else None
        if q is None or q2 is not None and not q2.ok:
            return None
        q.within(q.n, n, name)
        if q2 is not None:
            q2.within(q.n, n, name)
        init, fs = (vals[2], vals[3:]) if q2 is None else (vals[3], vals[4:])

        def step(k, acc):
            x, y = q.get(k), q2.get(k) if q2 is not None else None
            if q2 is not None:
                x = rd(eng, eng.call_value(fs[1], [eng.temp(x), eng.temp(y)], n)) if len(fs) == 2 else mul(x, y)
            if fs:
                return rd(eng, eng.call_value(fs[0], [eng.temp(acc), eng.temp(x)], n))
            if acc.sort == 's':
                return cat(acc, x)
            return add(acc, x)
        return seq_loop(eng, q, q.n, step, n, init)
    if name == 'equal':
        q, d = src(0), Seq(eng, vals[2])
        if q is None or not d.ok or len(vals) > 4:
            return None
        q.within(q.n, n, name)
        same = TRUE
        f = None
        if len(vals) == 4:
            if vals[3].sort == 'P':
                d = Seq(eng, vals[2], vals[3])
                if not d.ok:
                    return None
                same = eq(d.n, q.n)
            else:
                f = vals[3]
        if same is TRUE:
            d.within(q.n, n, name)
        k = fresh('k')
        saved = eng.st
        eng.st = eng.st.fork(ge(k, ZERO), lt(k, q.n), same)
        try:
            g = eng.tobool(apply_fun(eng, f, [q.get(k), d.get(k)], n)) if f is not None else eq(q.get(k), d.get(k))
        finally:
            eng.st = saved
        if g.op == 'top':
            return None
        return land(same, lnot(mkex(k, q.n, lnot(g))))
    if name == 'rotate':
        if not (same_place(vals[0], vals[1]) and same_place(vals[1], vals[2])):
            return None
        q = Seq(eng, vals[0], vals[2])
        if not q.ok or q.c.sort != 'v':
            return None
        m = Seq(eng, vals[0], vals[1]).n
        q.within(q.n, n, name)
        eng.require(land(ge(m, ZERO), le(m, q.n)), 'bounds', n, 'middle of a rotation')
        rest = sub(q.n, m)
        q.put(q.n, lambda k: ite(lt(k, rest), q.get(add(k, m)), q.get(sub(k, rest))))
        return q.end(rest)
    return None


def algo(eng, name, vs, args, n):
    E = _engine()
    if name == 'back_inserter' or name == 'inserter':
        return app('backins', 'o', eng.ptr_of(vs[0]))
    vals = [rd(eng, v) for v in vs]
    if all(v.op != 'top' for v in vals):
        r = seq_algo(eng, name, vals, n)
        if r is not None:
            return r
    if name == 'transform' and len(vals) == 4 and same_place(vals[0], vals[1]) and vals[2].op == 'ptr' and vals[2] is vals[0]:
        l = E.LV(vals[0].args[0], vals[0].args[1][:-1])
        c = eng.read(l)
        f = vals[3]
        i, j = vals[0].args[1][-1][1], vals[1].args[1][-1][1]
        if f.op == 'fun' and c.sort == 's' and i is ZERO and j is slen(c) and f.args[0] in ('toupper', 'tolower'):
            eng.write(l, app('s' + f.args[0][2:], 's', c))
            return vals[2]
    if name == 'reverse' and same_place(vals[0], vals[1]):
        l = E.LV(vals[0].args[0], vals[0].args[1][:-1])
        c = eng.read(l)
        if c.sort == 'v' and vals[0].args[1][-1][1] is ZERO and vals[1].args[1][-1][1] is vlen(c):
            k = fresh('k')
            es = vals[0].args[1][-1][2]
            eng.write(l, vec(vlen(c), upd(UNINIT, (mkfor(k, vlen(c), (_mk('st', (TRUE, (k,), sel(varr(c), (sub(sub(vlen(c), ONE), k),), es, eng.ctx())), 'e'),)),))))
            return None
    if name in ('accumulate', 'inner_product', 'equal'):
        return search(eng, name, vals, n) if name == 'accumulate' and len(vals) >= 3 else top('algorithm ' + name, ty.sort(n.t))
    # unknown algorithm: everything reachable from its iterators is unknown
    for v in vals:
        if v.op == 'ptr':
            eng.write(E.LV(v.args[0], v.args[1][:-1]) if v.args[1] else E.LV(v.args[0]), top('algorithm ' + name, 'o'))
        elif v.op == 'app' and v.args[0] == 'backins':
            p = v.args[1]
            if p.op == 'ptr':
                eng.write(E.LV(*p.args), top('algorithm ' + name, 'v'))
            else:
                eng.havoc('algorithm ' + name)
        elif v.sort == 'P':
            eng.havoc('algorithm ' + name)
    return top('algorithm ' + name, ty.sort(n.t))


def sort_call(eng, args, n):
    E = _engine()
    a, b = eng.val(args[0]), eng.val(args[1])
    if not same_place(a, b):
        eng.havoc('sort')
        return None
    l = E.LV(a.args[0], a.args[1][:-1])
    c = eng.read(l)
    es = a.args[1][-1][2]
    # comparison as a canonical two-argument function
    x, y = fresh('x', es), fresh('y', es)
    if len(args) > 2:
        f = eng.val(args[2])
        et = None
        ct = kind(args[0].t)
        et = ct[1] if ct[0] in ('iter', 'ptr') else 'int'
        vx = eng.expand(x, et) if es == 'o' else x
        vy = eng.expand(y, et) if es == 'o' else y
        r = eng.quiet(lambda: eng.call_value(f, [eng.temp(vx), eng.temp(vy)], n))
        r = rd(eng, r)
        r = eng.tobool(r)
    else:
        r = lt(x, y) if isnum(x) else app('slt', 'b', x, y) if es == 's' else top('order', 'b')
    if r.op == 'top':
        eng.write(l, top('sort', 'v'))
        return None
    k = mklam(x, mklam(y, r))
    eng.event('sort', n, (l, k))
    i, j = a.args[1][-1][1], b.args[1][-1][1]
    if c.sort != 'v' or i is not ZERO or j is not vlen(c):
        eng.write(l, top('sort of a part', 'v'))
        return None
    eng.write(l, vec(vlen(c), app('sorted', 'a', vlen(c), varr(c), k)))
    return None


def call_vals(eng, name, vs, n):
    s = ty.sort(n.t) if n.t else 'o'
    if name in ('stoi', 'stol', 'stoul', 'stoll', 'stoull') and vs and vs[0].sort == 's':
        exc_exit(eng, lnot(app('isintstr', 'b', vs[0])), n, 'std::invalid_argument')
        return app('stoi', 'i', vs[0])
    if name in ('stod', 'stof', 'stold') and vs and vs[0].sort == 's':
        exc_exit(eng, lnot(app('isnumstr', 'b', vs[0])), n, 'std::invalid_argument')
        return app('stod', 'r', vs[0])
    if name in ('atoi', 'atol'):
        return app('atoi', 'i', vs[0])
    if name == 'atof':
        return app('atof', 'r', vs[0])
    if name == 'to_string':
        if vs[0].op == 'top':
            return top(vs[0].args[0], 's')
        return app('tos', 's', vs[0])
    if name in ('pow', 'fabs', 'abs', 'round', 'floor', 'ceil', 'sqrt', 'exp', 'log', 'lround', 'trunc'):
        if name == 'pow':
            a, b = vs
            if b.op == 'c' and b.args[0].denominator == 1 and 0 <= b.args[0] <= 8:
                return mul(*([a] * int(b.args[0]))) if b.args[0] > 0 else ONE
            return app('pow', 'r', a, b)
        nm = {'fabs': 'abs', 'lround': 'round'}.get(name, name)
        if nm == 'abs':
            # |x| = |-x|
            x = vs[0]
            if x.op == 'top':
                return x
            return ite(ge(x, ZERO), x, tm.neg(x)) if x.sort == 'i' else app('abs', x.sort, absarg(x))
        if nm in ('round', 'floor', 'ceil', 'trunc') and vs[0].sort == 'i':
            return vs[0]
        return app(nm, 'r', vs[0])
    if name in ('max', 'min') and len(vs) == 2:
        a, b = vs
        return ite(lt(a, b), b, a) if name == 'max' else ite(lt(b, a), b, a)
    if name in ('max', 'min') and not vs:
        return sym(('limit', name, n.t), s)
    if name == 'lowest':
        return sym(('limit', 'lowest', n.t), s)
    if name == 'infinity':
        return sym(('limit', 'inf', n.t), s)
    if name == 'make_pair':
        return struct('pair', (('first', vs[0]), ('second', vs[1])))
    if name in ('move', 'forward'):
        return vs[0]
    if name in ('isspace', 'isalpha', 'isdigit', 'isalnum', 'isupper', 'islower', 'ispunct'):
        return ite(app(name, 'b', vs[0]), ONE, ZERO)
    if name in ('toupper', 'tolower'):
        return app(name, 'i', vs[0])
    if name in ('next', 'prev', 'advance'):
        k = vs[1] if len(vs) > 1 else ONE
        if name == 'prev':
            k = tm.neg(k)
        if vs[0].sort == 'P':
            return eng.ptradd(vs[0], k, n)
        return miter_next(eng, vs[0])
    if name == 'distance':
        return eng.ptrdiff(vs[1], vs[0])
    if name in ('begin', 'end', 'cbegin', 'cend'):
        return top(name, 'P')
    if name in ('find_if', 'find', 'find_if_not', 'any_of', 'all_of', 'none_of', 'count', 'count_if', 'max_element', 'min_element'):
        return search(eng, name, vs, n)
    if name in ('not1', 'ptr_fun'):
        if name == 'ptr_fun':
            return vs[0]
        return _mk('fun', ('not', vs[0]), 'f') if vs[0].op == 'fun' else top('predicate', 'f')
    if name in ('time', 'clock', 'rand', 'strlen'):
        return top(name, s)
    if name == 'unary_negate':
        return vs[0]
    # an unknown external function may change what it gets by pointer
    for v in vs:
        if v.op == 'ptr':
            E = _engine()
            eng.write(E.LV(*v.args), top('external function ' + name, 'o'))
    eng.notes.append(('lib', 'unmodelled function ' + str(name)))
    return top('external function %s' % name, s)


def absarg(x):
    y = tm.neg(x)
    px, py = P(x), P(y)
    # canonical sign
    kx = min(px, key=lambda m: tm._mono_key(m)) if px else ()
    return x if px.get(kx, 0) > 0 else y


def predicate(eng, f, v, n, es):
    if f.op == 'fun' and f.args[0] == 'not':
        return lnot(predicate(eng, f.args[1], v, n, es))
    if f.op == 'fun' and f.args[0] in ('isspace', 'isalpha', 'isdigit', 'isalnum') and v.op == 'c' and 0 <= v.args[0] < 128:
        c = chr(int(v.args[0]))
        return Bc({'isspace': c in ' \t\n\r\v\f', 'isalpha': c.isalpha(), 'isdigit': c.isdigit(), 'isalnum': c.isalnum()}[f.args[0]])
    if f.op == 'fun' and f.args[0] in ('isspace', 'isalpha', 'isdigit', 'isalnum'):
        return app(f.args[0], 'b', v)
    r = eng.call_value(f, [eng.temp(v)], n)
    return eng.tobool(rd(eng, r))


BLANKS = ' \t\n\r\v\f'


def blankfree(ctx, x):
    """no white space in x (known from its shape or assumed)"""
    if x.op == 'str':
        return not any(q in BLANKS for q in x.args[0])
    if x.op == 'cat':
        return all(blankfree(ctx, y) for y in x.args)
    if x.op == 'ite':
        return blankfree(ctx, x.args[1]) and blankfree(ctx, x.args[2])
    if x.op == 'app' and x.args[0] in ('substr', 'supper', 'slower'):
        return blankfree(ctx, x.args[1])
    if tm.isnumtext(x):
        return ' ' not in tm.NUMKINDS[x.args[1].args[0]]
    if x.op == 'app' and x.args[0] == 'tos':
        return True
    return x.sort == 's' and x.op != 'top' and ctx.simp_bool(app('blankfree', 'b', x)) is TRUE


def filled(ctx, x):
    """x is known to be non-empty"""
    if x.op == 'str':
        return x.args[0] != ''
    if x.op == 'cat':
        return any(filled(ctx, y) for y in x.args)
    if x.op == 'ite':
        return filled(ctx, x.args[1]) and filled(ctx, x.args[2])
    if x.op == 'app' and x.args[0] == 'tos' or tm.isnumtext(x):
        return True
    return ctx.simp_bool(ne(x, EMPTY)) is TRUE


def pieces(x):
    return list(x.args) if x.op == 'cat' else [x]


def blank_scan(eng, c, rev=False, blanks=BLANKS):
    """number of blanks before the first (rev: behind the last) other character; None if not known"""
    ctx = eng.ctx()
    n, run = ZERO, None
    for p in reversed(pieces(c)) if rev else pieces(c):
        if p.op == 'str':
            t = p.args[0][::-1] if rev else p.args[0]
            if run is not None and t and t[0] in BLANKS:
                return None         # a run that may be empty ends here
            k = 0
            while k < len(t) and t[k] in blanks:
                k += 1
            if k < len(t):
                if t[k] in BLANKS:
                    return None
                return run if run is not None else add(n, C(k))
            n = add(n, C(k))
        elif blankfree(ctx, p):
            run = run if run is not None else n
            if filled(ctx, p):
                return run
        elif tm.isnumtext(p) and p.args[2] is not MONE and run is None:
            # right-aligned
            return n if rev else add(n, app('lead', 'i', p))
        elif p.op == 'app' and p.args[0] == 'substr' and tm.isnumtext(p.args[1]) and p.args[3] is tm.MONE and run is None \
                and p.args[2] is app('lead', 'i', p.args[1]):
            return n
        else:
            return None
    # (a text without any blank: 0, also if it is empty)
    return n if run is None or n is ZERO else None


def words_of(eng, s):
    """the blank-separated words of a string, as a sequence"""
    ctx = eng.ctx()
    out, cur = [], []
    ok = True

    def close():
        nonlocal ok, cur
        if cur:
            w = cat(*cur)
            if not filled(ctx, w):
                ok = False
            out.append(w)
        cur = []
    for p in pieces(s):
        if p.op == 'str':
            t = ''
            for q in p.args[0]:
                if q in BLANKS:
                    if t:
                        cur.append(S(t))
                        t = ''
                    close()
                else:
                    t += q
            if t:
                cur.append(S(t))
        elif blankfree(ctx, p):
            cur.append(p)
        else:
            ok = False
    close()
    if ok:
        a = fill(EMPTY)
        for i, w in enumerate(out):
            a = store(a, (C(i),), w)
        return vec(C(len(out)), a)
    k = fresh('k')
    n = app('ntok', 'i', s)
    return vec(n, upd(UNINIT, (mkfor(k, n, (_mk('st', (TRUE, (k,), app('nthtok', 's', s, k)), 'e'),)),)))


def stream_words(eng, p):
    """words left in the stream p points to; the stream is used up"""
    if p.op != 'ptr':
        return None
    E = _engine()
    l = E.LV(*p.args)
    v = eng.read(l)
    if v.op == 'app' and v.args[0] == 'stream' and len(v.args) > 1 and v.args[1].sort == 's':
        s = v.args[1]
        eng.write(l, streams.sstream(EMPTY, FALSE, TRUE))
    elif v.sort == 's' and v.op != 'top':
        s = v
    else:
        return None
    return words_of(eng, s)


def search(eng, name, vs, n):
    a, b = vs[0], vs[1]
    s = ty.sort(n.t)
    E = _engine()
    rev = is_riter(a) and is_riter(b)
    if rev:
        if name not in ('find', 'find_if', 'find_if_not'):
            return top('reverse search', s)
        a, b = b.args[1][0][1], a.args[1][0][1]
    if not same_place(a, b):
        return top('search', s)
    c = eng.read(E.LV(a.args[0], a.args[1][:-1]))
    i, j = a.args[1][-1][1], b.args[1][-1][1]
    es = a.args[1][-1][2]
    base = ZERO
    if i is not ZERO:
        if rev:
            return top('search from the middle', s)
        base, j = i, sub(j, i)
    cn = base is ZERO and isconst(c) and c.sort == 's' and j.op == 'c' and len(c.args[0]) == j.args[0]
    if cn and name in ('find', 'find_if', 'find_if_not', 'any_of', 'all_of', 'none_of'):
        n_ = len(c.args[0])
        for q in range(n_):
            el = C(ord(c.args[0][n_ - 1 - q if rev else q]))
            g = eq(el, vs[2]) if name == 'find' else eng.quiet(lambda: predicate(eng, vs[2], el, n, es))
            if name in ('find_if_not', 'all_of'):
                g = lnot(g)
            if g is TRUE:
                break
            if g is not FALSE:
                cn = False
                break
        else:
            q = n_
        if cn:
            if name.startswith('find'):
                at = a.args[1][:-1]
                return riter(ptr(a.args[0], at + (('i', C(n_ - q), es),))) if rev else ptr(a.args[0], at + (('i', C(q), es),))
            return Bc((q < n_) == (name == 'any_of'))
    k = fresh('k')
    saved = eng.st
    eng.st = eng.st.fork(ge(k, ZERO), lt(k, j))
    try:
        kk = sub(sub(j, ONE), k) if rev else add(base, k)
        el = app('chr', 'i', c, kk) if c.sort == 's' else sel(varr(c), (kk,), es, eng.ctx())
        if name in ('find', 'count'):
            g = eq(el, vs[2])
        elif name == 'accumulate':
            g = None
        elif name in ('max_element', 'min_element'):
            return top(name, s)
        else:
            g = eng.quiet(lambda: predicate(eng, vs[2], el, n, es))
    finally:
        eng.st = saved
    if name == 'accumulate':
        if len(vs) == 3 and isnum(el):
            return add(vs[2], mksum(k, j, el))
        return top(name, s)
    if g.op == 'top':
        return top('search predicate', s)
    if name in ('find', 'find_if', 'find_if_not'):
        if name == 'find_if_not':
            g = lnot(g)
        first = None
        if c.sort == 's' and base is ZERO and j is slen(c) and g is lnot(app('isspace', 'b', el)):
            first = blank_scan(eng, c, rev)
        if first is None:
            first = mkfirst(k, j, g)
        if rev:
            return riter(ptr(a.args[0], a.args[1][:-1] + (('i', sub(j, first), es),)))
        return ptr(a.args[0], a.args[1][:-1] + (('i', add(base, first), es),))
    if name == 'any_of':
        return mkex(k, j, g)
    if name == 'none_of':
        return lnot(mkex(k, j, g))
    if name == 'all_of':
        return lnot(mkex(k, j, lnot(g)))
    return mksum(k, j, ite(g, ONE, ZERO))


# ---------------------------------------------------------------- members
def method(eng, kd, name, l, args, n):
    E = _engine()
    if isinstance(l, E.LVIte) and kd[0] not in ('is',) and name in ('push_back', 'emplace_back', 'clear', 'insert', 'erase', 'resize', 'pop_back', 'append', 'assign', 'find', 'begin', 'end'):
        return eng.branch(l.c, lambda: method(eng, kd, name, l.a, args, n), lambda: method(eng, kd, name, l.b, args, n))
    h = globals().get('m_' + kd[0])
    if h is not None:
        r = h(eng, kd, name, l, args, n)
        if r is not NotImplemented:
            return r
    vs = [eng.arg_any(a) for a in args if not a.k == 'CXXDefaultArgExpr']
    if kd[0] == 'cls' and name == 'what':
        return top('message', 's')
    eng.notes.append(('lib', 'unmodelled member %s of %s' % (name, kd)))
    if kd[0] not in ('is',):
        eng.write(l, top('member ' + name, eng.read(l).sort))
    return top('member %s' % name, ty.sort(n.t) if n.t else 'o')


def nonconst_args(eng, args):
    return [eng.val(a) for a in args if a.k != 'CXXDefaultArgExpr']


def substr(eng, s, p, k, n):
    exc_exit(eng, lor(lt(p, ZERO), gt(p, slen(s))), n, 'std::out_of_range')
    return app('substr', 's', s, p, k)


def riter(base):
    """reverse iterator, represented by the forward position behind the element"""
    return _mk('struct', ('riter', (('base', base),)), 'o')


def is_riter(v):
    return v.op == 'struct' and v.args[0] == 'riter'


def m_cls(eng, kd, name, l, args, n):
    if name == 'base' and 'reverse_iterator' in kd[1]:
        v = eng.read(l)
        if is_riter(v):
            return v.args[1][0][1]
        return top('reverse iterator', 'P')
    return NotImplemented


def m_s(eng, kd, name, l, args, n):
    v = eng.read(l)
    if v.op == 'top':
        v = top(v.args[0], 's')
    a = nonconst_args(eng, args)
    if name in ('size', 'length'):
        return slen(v)
    if name == 'empty':
        return eq(v, EMPTY)
    if name in ('c_str', 'data'):
        return v
    if name == 'compare' and len(a) == 1:
        return ite(eq(v, a[0]), ZERO, ite(app('slt', 'b', v, a[0]), MONE, ONE))
    if name == 'compare' and len(a) in (3, 4, 5) and a[0].sort == 'i' and a[1].sort == 'i' and a[2].sort == 's':
        x, y = substr(eng, v, a[0], a[1], n), a[2]
        if len(a) == 5:
            y = substr(eng, y, a[3], a[4], n)
        elif len(a) == 4:
            y = app('substr', 's', y, ZERO, a[3])
        return ite(eq(x, y), ZERO, ite(app('slt', 'b', x, y), MONE, ONE))
    if name in ('append', 'push_back', 'operator+='):
        if len(a) == 1:
            eng.write(l, cat(v, charstr(a[0], None)))
            return l if name == 'append' else None
    if name == 'clear':
        eng.write(l, EMPTY)
        return None
    if name == 'assign' and len(a) == 1:
        eng.write(l, a[0])
        return l
    if name == 'substr':
        p = a[0] if a else ZERO
        k = a[1] if len(a) > 1 else MONE
        return substr(eng, v, p, k, n)
    if name == 'find':
        return app('find', 'i', v, charstr(a[0], None), a[1] if len(a) > 1 else ZERO)
    if name == 'rfind' and len(a) == 1:
        return app('rfind', 'i', v, charstr(a[0], None))
    if name in ('find_first_not_of', 'find_last_not_of') and len(a) == 1 and a[0].op == 'str' and ' ' in a[0].args[0] and all(q in BLANKS for q in a[0].args[0]):
        r = blank_scan(eng, v, name == 'find_last_not_of', a[0].args[0])
        if r is not None:
            none = eq(r, slen(v))
            return ite(none, MONE, r if name == 'find_first_not_of' else sub(sub(slen(v), r), ONE))
    m = {'find_first_of': 'fof', 'find_last_of': 'lof', 'find_first_not_of': 'fnot', 'find_last_not_of': 'lnotof'}
    if name in m:
        if len(a) == 1:
            return app(m[name], 'i', v, charstr(a[0], None))
        if name == 'find_first_of' or name == 'find_first_not_of':
            return app(m[name] + 'p', 'i', v, charstr(a[0], None), a[1])
    if name == 'at':
        exc_exit(eng, lor(lt(a[0], ZERO), ge(a[0], slen(v))), n, 'std::out_of_range')
        return elem(eng, l, a[0], 'i')
    if name in ('back', 'front'):
        i = sub(slen(v), ONE) if name == 'back' else ZERO
        eng.require(ge(slen(v), ONE), 'bounds', n, name + ' of an empty string')
        return elem(eng, l, i, 'i')
    if name in ('begin', 'cbegin'):
        return begin_of(eng, l, 'i', ZERO)
    if name in ('end', 'cend'):
        return begin_of(eng, l, 'i', lambda x: slen(eng.read(x)))
    if name in ('rbegin', 'rend', 'crbegin', 'crend'):
        return riter(begin_of(eng, l, 'i', ZERO if name.endswith('end') else lambda x: slen(eng.read(x))))
    if name == 'pop_back':
        eng.require(ge(slen(v), ONE), 'bounds', n, 'pop_back of an empty string')
        eng.write(l, app('substr', 's', v, ZERO, sub(slen(v), ONE)))
        return None
    if name == 'erase':
        if a and all(x.sort == 'i' for x in a):
            p = a[0]
            exc_exit(eng, lor(lt(p, ZERO), gt(p, slen(v))), n, 'std::out_of_range')
            if len(a) == 1 or a[1] is MONE:
                eng.write(l, app('substr', 's', v, ZERO, p))
            else:
                eng.write(l, cat(app('substr', 's', v, ZERO, p), app('substr', 's', v, add(p, a[1]), MONE)))
            return l
        if len(a) == 2 and same_place(a[0], a[1]):
            i, j = a[0].args[1][-1][1], a[1].args[1][-1][1]
            eng.write(l, cat(app('substr', 's', v, ZERO, i), app('substr', 's', v, j, MONE)))
            return a[0]
        eng.write(l, top('erase', 's'))
        return top('erase', 'P')
    if name == 'insert' and len(a) == 2 and a[1].sort == 's' and a[0].sort == 'i':
        eng.write(l, cat(app('substr', 's', v, ZERO, a[0]), a[1], app('substr', 's', v, a[0], MONE)))
        return l
    return NotImplemented


def m_vec(eng, kd, name, l, args, n):
    es = ty.sort(kd[1])
    v = eng.read(l)
    if v.op == 'top':
        v = top(v.args[0], 'v')
    if name == 'size':
        return vlen(v)
    if name == 'empty':
        return eq(vlen(v), ZERO)
    if name in ('begin', 'cbegin'):
        return begin_of(eng, l, es, ZERO)
    if name in ('end', 'cend'):
        return begin_of(eng, l, es, lambda x: vlen(eng.read(x)))
    if name in ('push_back', 'emplace_back'):
        a = [c for c in args if c.k != 'CXXDefaultArgExpr']
        if len(a) == 1:
            x = eng.coerce(eng.val(a[0]), kd[1])
            if eng.class_of(kd[1]) is not None and a[0].a.get('valueCategory') == 'lvalue':
                x = eng.copy_object(kd[1], eng.lv(a[0]), n)
            v = eng.read(l)
            if v.op == 'top':
                return None
            eng.write(l, vec(add(vlen(v), ONE), store(varr(v), (vlen(v),), x)))
            return None
        return NotImplemented
    if name == 'push_front' and len(args) == 1:
        x = eng.coerce(eng.val(args[0]), kd[1])
        k = fresh('k')
        eng.write(l, vec(add(vlen(v), ONE), store(upd(UNINIT, (mkfor(k, vlen(v), (_mk('st', (TRUE, (add(k, ONE),), sel(varr(v), (k,), es, eng.ctx())), 'e'),)),)), (ZERO,), x)))
        return None
    if name == 'at':
        i = eng.val(args[0])
        exc_exit(eng, lor(lt(i, ZERO), ge(i, vlen(v))), n, 'std::out_of_range')
        return elem(eng, l, i, es)
    if name in ('front', 'back'):
        eng.require(ge(vlen(v), ONE), 'bounds', n, name + ' of an empty container')
        return elem(eng, l, ZERO if name == 'front' else sub(vlen(v), ONE), es)
    if name == 'clear':
        eng.write(l, vec(ZERO, UNINIT))
        return None
    if name == 'pop_back':
        eng.require(ge(vlen(v), ONE), 'bounds', n, 'pop_back of an empty container')
        eng.write(l, vec(sub(vlen(v), ONE), varr(v)))
        return None
    if name in ('reserve', 'shrink_to_fit'):
        for a in args:
            eng.any(a)
        return None
    if name == 'data':
        return begin_of(eng, l, es, ZERO)
    if name in ('resize', 'assign'):
        a = nonconst_args(eng, args)
        if a and a[0].sort == 'i':
            x = a[1] if len(a) > 1 else eng.default(kd[1])
            if name == 'assign':
                eng.write(l, vec(a[0], fill(x)))
            else:
                k = fresh('k')
                grow = sub(a[0], vlen(v))
                eng.write(l, vec(a[0], upd(varr(v), (mkfor(k, grow, (_mk('st', (TRUE, (add(vlen(v), k),), x), 'e'),)),))))
            return None
        if name == 'assign' and len(a) == 2:
            r = slice_of(eng, a[0], a[1])
            eng.write(l, r if r is not None else top('assign', 'v'))
            return None
    if name == 'insert':
        a = nonconst_args(eng, args)
        if len(a) == 3 and a[0].op == 'ptr' and same_place(a[1], a[2]):
            pos = a[0].args[1][-1][1]
            if pos is vlen(v):
                r = slice_of(eng, a[1], a[2])
                if r is not None:
                    k = fresh('k')
                    eng.write(l, vec(add(vlen(v), vlen(r)), upd(varr(v), (mkfor(k, vlen(r), (_mk('st', (TRUE, (add(vlen(v), k),), sel(varr(r), (k,), es, eng.ctx())), 'e'),)),))))
                    return a[0]
        if len(a) == 2 and a[0].op == 'ptr' and a[0].args[1] and a[0].args[1][-1][0] == 'i':
            pos = a[0].args[1][-1][1]
            if pos is vlen(v):
                eng.write(l, vec(add(vlen(v), ONE), store(varr(v), (vlen(v),), a[1])))
                return a[0]
            k = fresh('k')
            sh = upd(varr(v), (mkfor(k, sub(vlen(v), pos), (_mk('st', (TRUE, (add(add(pos, k), ONE),), sel(varr(v), (add(pos, k),), es, eng.ctx())), 'e'),)),))
            eng.write(l, vec(add(vlen(v), ONE), store(sh, (pos,), a[1])))
            return a[0]
        eng.write(l, top('insert', 'v'))
        return top('insert', 'P')
    if name == 'erase':
        a = nonconst_args(eng, args)
        if len(a) == 1 and a[0].op == 'ptr' and a[0].args[1] and a[0].args[1][-1][0] == 'i':
            pos = a[0].args[1][-1][1]
            eng.require(land(ge(pos, ZERO), lt(pos, vlen(v))), 'bounds', n, 'erase position')
            k = fresh('k')
            sh = upd(varr(v), (mkfor(k, sub(sub(vlen(v), pos), ONE), (_mk('st', (TRUE, (add(pos, k),), sel(varr(v), (add(add(pos, k), ONE),), es, eng.ctx())), 'e'),)),))
            eng.write(l, vec(sub(vlen(v), ONE), sh))
            return a[0]
        eng.write(l, top('erase', 'v'))
        return top('erase', 'P')
    if name == 'swap':
        o = eng.lv(args[0])
        w = rd(eng, o)
        eng.write(l, w)
        eng.write(o, v)
        return None
    return NotImplemented


def kvptr(eng, l, key, kd):
    vs, ks = ty.sort(kd[2]), ty.sort(kd[1])
    return _mk('app', ('kvptr', eng.ptr_of(l), key, vs, ks), 'P')


def miter(eng, l, key, valid, pos, kd):
    return _mk('struct', ('miter', (('m', eng.ptr_of(l)), ('key', key), ('valid', valid), ('pos', pos))), 'o')


def miter_next(eng, it):
    if it.op != 'struct' or it.args[0] != 'miter':
        return top('map iterator', 'o')
    f = dict(it.args[1])
    p = f['pos']
    if p.op != 'c' or f['m'].op != 'ptr':
        return top('map iterator', 'o')
    E = _engine()
    ks = map_keys(eng.read(E.LV(*f['m'].args)), eng.ctx())
    if ks is None:
        return top('map iterator', 'o')
    i = int(p.args[0]) + 1
    if i < len(ks):
        return _mk('struct', ('miter', (('m', f['m']), ('key', ks[i]), ('valid', TRUE), ('pos', C(i)))), 'o')
    return _mk('struct', ('miter', (('m', f['m']), ('key', ks[-1] if ks else EMPTY), ('valid', FALSE), ('pos', C(i)))), 'o')


def keyval(v, t):
    if v.sort == 'b':
        return tm.tonum(v)
    return v


def map_count(has):
    """number of keys present"""
    if has.op == 'ite':
        return ite(has.args[0], map_count(has.args[1]), map_count(has.args[2]))
    if has.op == 'fill' and has.args[0] is FALSE:
        return ZERO
    if has.op == 'upd' and has.args[0].op == 'fill' and has.args[0].args[0] is FALSE and len(has.args[1]) <= 6 and all(e.op == 'st' for e in has.args[1]):
        # a key counts where it is written last
        n = ZERO
        es = has.args[1]
        for j, e in enumerate(es):
            g, ix, v = e.args
            later = [lnot(land(f.args[0], *[eq(x, y) for x, y in zip(f.args[1], ix)])) for f in es[j + 1:]]
            n = add(n, ite(land(g, v, *later), ONE, ZERO))
        return n
    return app('msize', 'i', has)


def m_map(eng, kd, name, l, args, n, isset=False):
    v = eng.read(l)
    if v.op == 'top':
        v = top(v.args[0], 'o')
    has = proj(v, '#has', 'a')
    E = _engine()
    if name in ('size', 'empty'):
        ks = map_keys(v, eng.ctx()) if v.op != 'top' else None
        if ks is not None:
            return C(len(ks)) if name == 'size' else Bc(not ks)
        k = map_count(has)
        return k if name == 'size' else eq(k, ZERO)
    if name == 'count':
        k = eng.val(args[0])
        return ite(sel(has, (k,), 'b', eng.ctx()), ONE, ZERO)
    if name == 'clear':
        eng.write(l, eng.default(kd_str(kd)) if False else (struct('set', (('#has', fill(FALSE)),)) if isset else mapval(fill(FALSE), proj(v, '#val', 'a'))))
        return None
    if name in ('end', 'cend'):
        return miter(eng, l, EMPTY, FALSE, MONE, kd)
    if name in ('begin', 'cbegin'):
        ks = map_keys(v, eng.ctx()) if v.op != 'top' else None
        if ks is None:
            return top('map iteration', 'o')
        if not ks:
            return miter(eng, l, EMPTY, FALSE, ZERO, kd)
        return miter(eng, l, ks[0], TRUE, ZERO, kd)
    if name == 'find':
        k = eng.val(args[0])
        ks = map_keys(v, eng.ctx()) if v.op != 'top' else None
        pos = sym(('pos',), 'i')
        return miter(eng, l, k, sel(has, (k,), 'b', eng.ctx()), top('position', 'i'), kd)
    if name in ('lower_bound', 'upper_bound') and len(args) == 1:
        k = eng.val(args[0])
        ks = map_keys(v, eng.ctx()) if v.op != 'top' else None
        if ks is None or k.sort not in ('s', 'i'):
            return top('map iteration', 'o')
        less = (lambda x, y: app('slt', 'b', x, y)) if k.sort == 's' else lt
        # first key not less than k (greater than k)
        hit = [lnot(less(x, k)) if name == 'lower_bound' else less(k, x) for x in ks]
        key, pos, valid = (ks[-1] if ks else EMPTY), C(len(ks)), FALSE
        for i in range(len(ks) - 1, -1, -1):
            key, pos, valid = ite(hit[i], ks[i], key), ite(hit[i], C(i), pos), ite(hit[i], TRUE, valid)
        return miter(eng, l, key, valid, pos, kd)
    if name == 'erase' and len(args) == 1:
        k = eng.val(args[0])
        if k.op == 'struct' and k.args[0] == 'miter':
            k = dict(k.args[1])['key']
        h2 = store(has, (k,), FALSE)
        eng.write(l, struct('set', (('#has', h2),)) if isset else mapval(h2, proj(v, '#val', 'a')))
        return top('erase', ty.sort(n.t))
    if isset:
        if name in ('insert', 'emplace') and len(args) == 1:
            k = eng.val(args[0])
            old = sel(has, (k,), 'b', eng.ctx())
            eng.write(l, struct('set', (('#has', store(has, (k,), TRUE)),)))
            return struct('pair', (('first', miter(eng, l, k, TRUE, top('position', 'i'), ('map', kd[1], kd[1]))), ('second', lnot(old))))
        return NotImplemented
    vs = ty.sort(kd[2])
    if name == 'at':
        k = eng.val(args[0])
        exc_exit(eng, lnot(sel(has, (k,), 'b', eng.ctx())), n, 'std::out_of_range')
        if isinstance(l, E.LV):
            return l.f(('k', k, vs))
        return eng.temp(sel(proj(v, '#val', 'a'), (k,), vs, eng.ctx()))
    if name in ('insert', 'emplace'):
        if len(args) == 1:
            p = eng.val(args[0])
            k, x = proj(p, 'first', ty.sort(kd[1])), proj(p, 'second', vs)
        elif len(args) == 2 and kind(args[0].t)[0] not in ('miter',):
            k, x = eng.val(args[0]), eng.val(args[1])
        else:
            return NotImplemented
        v = eng.read(l)
        has, arr = proj(v, '#has', 'a'), proj(v, '#val', 'a')
        old = sel(has, (k,), 'b', eng.ctx())
        eng.write(l, mapval(store(has, (k,), TRUE), store(arr, (k,), x, lnot(old))))
        return struct('pair', (('first', miter(eng, l, k, TRUE, top('position', 'i'), kd)), ('second', lnot(old))))
    return NotImplemented


def m_set(eng, kd, name, l, args, n):
    return m_map(eng, kd, name, l, args, n, True)


def m_ptr(eng, kd, name, l, args, n):
    """smart pointers"""
    v = eng.read(l)
    if name == 'get':
        return v
    if name == 'reset':
        a = nonconst_args(eng, args)
        eng.write(l, a[0] if a else NULL)
        return None
    if name == 'release':
        eng.write(l, NULL)
        return v
    if name == 'operator bool':
        return ne(v, NULL)
    return NotImplemented


def m_os(eng, kd, name, l, args, n):
    if name == 'str':
        if args:
            a = eng.val(args[0])
            eng.write(l, a)
            return None
        v = eng.read(l)
        return v if v.sort == 's' else top('stream content', 's')
    a = nonconst_args(eng, args)
    if name in ('width', 'precision', 'setf', 'flags', 'flush', 'close', 'open', 'clear', 'unsetf', 'fill', 'seekp'):
        return ZERO if ty.sort(n.t) == 'i' else None
    if name in ('good', 'is_open', 'fail', 'bad', 'eof', 'operator!', 'operator bool'):
        return top('stream state', 'b')
    return NotImplemented


def m_is(eng, kd, name, l, args, n):
    a = [rd(eng, eng.arg_any(x)) for x in args if x.k != 'CXXDefaultArgExpr']
    return streams.member(eng, name, l, a, n)


# ---------------------------------------------------------------- operators
CMP = {'operator==': '==', 'operator!=': '!=', 'operator<': '<', 'operator>': '>', 'operator<=': '<=', 'operator>=': '>='}


def operator(eng, name, args, n):
    E = _engine()
    a0 = args[0]
    k0 = kind(a0.t)
    if name == 'operator<<' and (k0[0] in ('os',) or 'stream' in a0.t or 'basic_ios' in a0.t):
        return insert_op(eng, args, n)
    if name == 'operator>>':
        l = eng.lv(a0)
        t = eng.lv(args[1])
        streams.extract(eng, l, t, n, args[1].t)
        return l
    if name == 'operator[]':
        l = eng.lv(a0)
        i = eng.val(args[1])
        if k0[0] == 'map':
            return map_index(eng, l, k0, i, n)
        es = 'i' if k0[0] == 's' else ty.sort(k0[1]) if k0[0] in ('vec', 'ptr') else 'o'
        if k0[0] == 'ptr':
            p = eng.ptradd(rd(eng, l), i, n)
            return eng.lv_of_ptr(p, n.t)
        v = rd(eng, l)
        ln = slen(v) if v.sort == 's' else vlen(v)
        eng.require(land(ge(i, ZERO), lt(i, ln) if k0[0] != 's' else le(i, ln)), 'bounds', n, 'index %s of %s' % (show(i)[:80], show(ln)[:80]))
        return elem(eng, l, i, es)
    if name in ('operator*', 'operator->') and len(args) == 1:
        v = eng.val(a0)
        if v.op == 'top':
            return top(v.args[0], 'P') if name == 'operator->' else E.LVTop(v.args[0])
        if v.sort == 'P':
            if name == 'operator->':
                l = eng.lv_of_ptr(v, pointee(n.t, True))
                eng.bounds_of(l, n)
                return v
            l = eng.lv_of_ptr(v, n.t)
            eng.bounds_of(l, n)
            return l
        if v.op == 'struct' and v.args[0] == 'miter':
            f = dict(v.args[1])
            eng.require(f['valid'], 'bounds', n, 'dereference of the end iterator of a map')
            if f['m'].op != 'ptr' and not (f['m'].op == 'app' or f['m'].op == 'sym' or f['m'].op == 'fld'):
                return top('map iterator', 'P')
            pt = pointee(n.t, name == 'operator->')
            kp = kind(pt)
            lm = E.LV(*f['m'].args) if f['m'].op == 'ptr' else E.LV(('deref', f['m']))
            if kp[0] == 'pair':
                kd = ('map', kp[1].replace('const ', ''), kp[2])
                if name == 'operator->':
                    return _mk('app', ('kvptr', f['m'], f['key'], ty.sort(kp[2]), ty.sort(kp[1])), 'P')
                return E.LVKV(lm.f(('k', f['key'], ty.sort(kp[2]))), f['key'], ty.sort(kp[2]), ty.sort(kp[1]))
            return eng.temp(f['key'])
        if v.op == 'ite':
            return eng.branch(v.args[0], lambda: deref_val(eng, name, v.args[1], n), lambda: deref_val(eng, name, v.args[2], n))
        return top('dereference', 'P' if name == 'operator->' else ty.sort(n.t))
    if name in ('operator++', 'operator--'):
        l = eng.lv(a0)
        v = rd(eng, l)
        if v.sort == 'P':
            w = eng.ptradd(v, ONE if name == 'operator++' else MONE, n)
        elif name == 'operator++':
            w = miter_next(eng, v)
        else:
            w = top('map iterator', 'o')
        eng.write(l, w)
        return v if len(args) > 1 else l
    if name in ('operator+=', 'operator-='):
        l = eng.lv(a0)
        y = eng.val(args[1])
        v = rd(eng, l)
        if v.sort == 's':
            eng.write(l, cat(v, charstr(y, None)))
            return l
        if v.sort == 'P':
            eng.write(l, eng.ptradd(v, y if name == 'operator+=' else tm.neg(y), n))
            return l
    if name == 'operator=':
        y = eng.val(args[1])
        l = eng.lv(a0)
        k = kind(a0.t)
        if k[0] == 's' and y.sort == 'i':
            y = app('chstr', 's', y)
        if k[0] == 'ptr' and y.op == 'null':
            y = NULL
        eng.write(l, known(eng, eng.coerce(y, a0.t)))
        return l
    if name == 'operator!' and k0[0] in ('is', 'os'):
        l = eng.lv(a0)
        return streams.member(eng, name, l, [], n) if k0[0] == 'is' else top('stream state', 'b')
    if name == 'operator()' or name == 'operator()':
        v = eng.val(a0)
        return eng.call_value(v, [eng.arg_any(x) for x in args[1:]], n)
    vs = [eng.val(x) for x in args]
    if len(vs) == 2:
        x, y = vs
        if name == 'operator+':
            if x.sort == 's' or y.sort == 's':
                return cat(charstr(x, None), charstr(y, None))
            if x.sort == 'P':
                return eng.ptradd(x, y, n)
            if y.sort == 'P':
                return eng.ptradd(y, x, n)
        if name == 'operator-':
            if x.sort == 'P' and y.sort == 'P':
                return eng.ptrdiff(x, y)
            if x.sort == 'P':
                return eng.ptradd(x, tm.neg(y), n)
        if name in CMP:
            return compare_vals(eng, CMP[name], x, y, n)
    eng.notes.append(('lib', 'unmodelled operator %s' % name))
    for a in args:
        if a.a.get('valueCategory') == 'lvalue' and name not in CMP:
            pass
    return top('operator ' + str(name), ty.sort(n.t))


def deref_val(eng, name, v, n):
    E = _engine()
    if v.sort == 'P':
        if name == 'operator->':
            return v
        l = eng.lv_of_ptr(v, n.t)
        eng.bounds_of(l, n)
        return l
    return top('dereference', 'P' if name == 'operator->' else ty.sort(n.t))


def pointee(t, arrow):
    t = strip(t)
    if arrow:
        k = kind(t)
        return k[1] if k[0] in ('ptr', 'iter') else t
    return t


def compare_vals(eng, op, x, y, n):
    if x.op == 'top' or y.op == 'top':
        return top((x if x.op == 'top' else y).args[0], 'b')
    mi = [v for v in (x, y) if v.op == 'struct' and v.args[0] == 'miter']
    if mi:
        if len(mi) == 2 and op in ('==', '!='):
            fx, fy = dict(x.args[1]), dict(y.args[1])
            if fx['valid'] is FALSE:
                r = lnot(fy['valid'])
            elif fy['valid'] is FALSE:
                r = lnot(fx['valid'])
            else:
                r = lor(land(lnot(fx['valid']), lnot(fy['valid'])), land(fx['valid'], fy['valid'], eq(fx['key'], fy['key'])))
            return r if op == '==' else lnot(r)
        return top('map iterator comparison', 'b')
    if x.op == 'ite' and x.sort == 'o':
        return ite(x.args[0], compare_vals(eng, op, x.args[1], y, n), compare_vals(eng, op, x.args[2], y, n))
    if op in ('==', '!='):
        r = eq(x, y)
        return r if op == '==' else lnot(r)
    if x.sort == 's' and y.sort == 's':
        if op == '<':
            return app('slt', 'b', x, y)
        if op == '>':
            return app('slt', 'b', y, x)
        if op == '<=':
            return lnot(app('slt', 'b', y, x))
        return lnot(app('slt', 'b', x, y))
    if x.sort == 'P' and y.sort == 'P':
        d = eng.ptrdiff(x, y)
        return {'<': lt, '>': gt, '<=': le, '>=': ge}[op](d, ZERO)
    return top('comparison', 'b')


def map_index(eng, l, k0, i, n):
    E = _engine()
    v = rd(eng, l)
    vs = ty.sort(k0[2])
    if not isinstance(l, E.LV):
        if isinstance(l, E.LVIte):
            return eng.branch(l.c, lambda: map_index(eng, l.a, k0, i, n), lambda: map_index(eng, l.b, k0, i, n))
        return E.LVTop('map element')
    has, arr = proj(v, '#has', 'a'), proj(v, '#val', 'a')
    old = eng.simp(sel(has, (i,), 'b', eng.ctx()))
    if old is not TRUE:
        eng.write(l, mapval(store(has, (i,), TRUE), store(arr, (i,), eng.default(k0[2]), lnot(old))))
    return l.f(('k', i, vs))


def insert_op(eng, args, n):
    E = _engine()
    l = eng.lv(args[0])
    a = args[1]
    t = strip(a.t)
    x = eng.peel(a)
    if ty.kind(t)[0] == 'fun' or (x.k in ('DeclRefExpr', 'ImplicitCastExpr') and 'ostream' in a.t and '(' in a.t):
        nm = None
        for y in a.walk():
            if y.k == 'DeclRefExpr':
                nm = y.a.get('referencedDecl', {}).get('name')
        s = S('\n') if nm == 'endl' else EMPTY
    elif '_Set' in t or 'ios_base' in t:
        eng.any(a)
        s = EMPTY
    else:
        v = eng.val(a)
        s = tostr(v, a.t)
    if isinstance(l, E.LV) and l.root[0] == 'g' and not eng.opts.get('track_out'):
        return l
    if isinstance(l, (E.LV, E.LVIte)):
        c = eng.read(l)
        if c.sort != 's':
            c = top('stream', 's')
        eng.write(l, cat(c, s))
    return l
