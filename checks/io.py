"""Command line handling: option values, files, parser, parameters."""
from sa.terms import *
from sa.terms import has_top
from sa.lab import Lab
from sa.engine import LV, loc, Dead
from sa import types as ty
from sa.report import Vanished
from checks.matrix import where


# ------------------------------------------------------------------ objects
def kd(t):
    return ty.kind(ty.strip(t))[0]


def meth(c, cls, name, kinds):
    """the member function an object of class cls answers to"""
    def go(k):
        C = c.prog.classes.get(k)
        if C is None:
            return None
        for g in C.methods:
            if g.name == name and len(g.params) == len(kinds) and all(kd(p.t) == w for p, w in zip(g.params, kinds)):
                g = c.prog.funcs.get(g.mangled, g)
                if g.body is not None:
                    return g
        for b in C.bases:
            r = go(ty.strip(b))
            if r is not None:
                return r
        return None
    f = go(cls)
    if f is None:
        raise Vanished('member %s(%s) of %s' % (name, ', '.join(kinds), cls))
    return f


class Obj:
    """an object of the program under analysis, driven through its public members"""

    def __init__(self, lab, cls, args=(), must=True):
        """must: nothing may refuse to construct it"""
        self.lab, self.c, self.cls = lab, lab.chk, cls
        self.c.cls(cls)
        self.l = LV(('o', cls + str(len(lab.e.st.mem))))
        lab.e.st.mem[self.l.root] = lab.e.uninit(cls)
        fs = [f for f in self.c.funcs(cls + '::' + cls) if len(f.params) == len(args)]
        if not fs:
            raise Vanished('constructor of ' + cls)
        self.ct = fs[0]
        n0 = len(lab.e.exits)
        r, ok = lab.run(self.ct, self.l, self.pack(self.ct, args))
        if must:
            self.succeeds('%s is constructed' % cls, self.ct, ok, n0)
        if not ok:
            raise Dead()

    def succeeds(self, nm, f, ok, n0):
        c, e = self.c, self.lab.e
        for x in e.exits[n0:]:
            c.never('%s: nothing refuses it' % nm, loc(x.node), e.ctx_of(x.pc))
        if not ok:
            c.holds('%s: succeeds' % nm, where(f), FALSE, e.ctx())

    def pack(self, f, args):
        e = self.lab.e
        out = []
        for p, a in zip(f.params, args):
            t = p.t.strip()
            out.append(e.temp(a) if t.endswith('&') and isinstance(a, T) else a)
        return out

    def f(self, name, args, kinds=None):
        return meth(self.c, self.cls, name, kinds or [sortkind(a) for a in args])

    def call(self, name, *args, kinds=None):
        """-> (value, alive); state changes stay"""
        f = self.f(name, args, kinds)
        r, ok = self.lab.run(f, self.l, self.pack(f, args))
        return (self.lab.val(r) if ok and r is not None else r), ok

    def do(self, name, *args, kinds=None):
        n0 = len(self.lab.e.exits)
        r, ok = self.call(name, *args, kinds=kinds)
        self.succeeds('%s of %s' % (name, self.cls), self.f(name, args, kinds), ok, n0)
        if not ok:
            raise Dead()
        return r

    def refuses(self, nm, bad, name, *args, kinds=None, then=None, only=True, unless=None):
        """the call ends abnormally exactly when bad holds; in the surviving state then() is evaluated.
        unless: situations the property leaves open"""
        c, e = self.c, self.lab.e
        f = self.f(name, args, kinds)
        base = e.st.fork()
        n0 = len(e.exits)
        if isinstance(bad, T) is False:
            bad = bad()
        skip = [lnot(unless)] if unless is not None else []
        r, ok = self.call(name, *args, kinds=kinds)
        if only:
            for x in e.exits[n0:]:
                c.never('%s: refuses only what is not allowed' % nm, loc(x.node), e.ctx_of(x.pc).extend(lnot(bad), *skip))
        if ok:
            c.never('%s: refuses what is not allowed' % nm, where(f), e.ctx().extend(bad, *skip))
            if then is not None:
                then(r)
        else:
            c.holds('%s: accepts something' % nm, where(f), bad, e.ctx_of(base.pc).extend(*skip))
        e.st = base
        del e.exits[n0:]


def sortkind(a):
    if a.op == 'struct' and a.args[0] == 'set':
        return 'set'
    return {'i': 'i', 'r': 'r', 's': 's', 'v': 'vec', 'b': 'b'}.get(a.sort, a.sort)


def strset(*items):
    h = fill(FALSE)
    for x in items:
        h = store(h, (x,), TRUE)
    return struct('set', (('#has', h),))


def strvec(*items):
    a = fill(EMPTY)
    for i, x in enumerate(items):
        a = store(a, (C(i),), x)
    return vec(C(len(items)), a)


def ascending(*xs):
    """names for the elements of a set in its own order"""
    out = []
    for i, x in enumerate(xs):
        for y in xs[i + 1:]:
            out += [app('slt', 'b', x, y), ne(x, y)]
    return out


def isin(v, *xs):
    return lor(*[eq(v, S(x) if isinstance(x, str) else x) for x in xs])


def limit(which, t):
    """the extreme value of a C++ type, as the library model names it"""
    return sym(('limit', which, t), 'r' if t == 'double' else 'i')


SWITCH_ON, SWITCH_OFF = ('ON', 'TRUE', '1'), ('OFF', 'FALSE', '0')


# ------------------------------------------------------------------ C11
def c11(c):
    """Each value rule is built by its own constructor, its limits are set to symbolic values through the public option
    setter, and the condition under which a symbolic value is refused is compared with the declared range, both ways."""
    c.rules.append('a value is refused exactly when it lies outside the declared limits')
    v, a, b, n = sym('v'), sym('a'), sym('b'), sym('n')
    s = sym('s', 's')

    def number(cls, kind, t):
        lo, hi = limit('min' if kind == 'i' else 'lowest', t), limit('max', t)
        x, p, q = (sym(z, kind) for z in 'xpq')

        def default():
            lab = Lab(c)
            o = Obj(lab, cls)
            o.refuses(cls + ' without limits', lor(lt(x, lo), gt(x, hi)), 'propValid', x)
        c.group(cls + ' default', default)

        def limits():
            lab = Lab(c)
            o = Obj(lab, cls)
            o.do('setPropOption', S('MIN'), p, kinds=['s', kind])
            o.do('setPropOption', S('MAX'), q, kinds=['s', kind])
            o.refuses(cls + ' with limits', lor(lt(x, p), gt(x, q)), 'propValid', x)
        c.group(cls + ' limits', limits)

        def one(which):
            lab = Lab(c)
            o = Obj(lab, cls)
            o.do('setPropOption', S(which), p, kinds=['s', kind])
            o.refuses('%s with %s only' % (cls, which), lor(lt(x, p), gt(x, hi)) if which == 'MIN' else lor(lt(x, lo), gt(x, p)), 'propValid', x)
        for w in ('MIN', 'MAX'):
            c.group('%s %s' % (cls, w), lambda w=w: one(w))
    number('PropertyInt', 'i', 'int')
    number('PropertyDouble', 'r', 'double')

    def length():
        lab = Lab(c, [ge(a, ZERO), ge(b, ZERO)])
        o = Obj(lab, 'PropertyString')
        o.do('setPropOption', S('MIN_LENGTH'), a, kinds=['s', 'i'])
        o.do('setPropOption', S('MAX_LENGTH'), b, kinds=['s', 'i'])
        o.refuses('PropertyString with limits', lor(lt(slen(s), a), gt(slen(s), b)), 'propValid', s)
    c.group('string length', length)

    def length0():
        lab = Lab(c, [le(slen(s), limit('max', 'unsigned long'))])
        o = Obj(lab, 'PropertyString')
        o.refuses('PropertyString without limits', FALSE, 'propValid', s)
    c.group('string length default', length0)
    x1, x2, x3 = (sym(q, 's') for q in ('x1', 'x2', 'x3'))

    def choice(enforced, k):
        xs = (x1, x2, x3)[:k]
        lab = Lab(c, ascending(*xs))
        o = Obj(lab, 'PropertyStringChoice')
        o.do('setPropOption', S('STRING_CHOICES'), strset(*xs))
        if enforced is not None:
            o.do('setPropOption', S('STRING_CHOICE_ENFORCED'), strset(S(enforced)))
        bad = land(*[ne(s, x) for x in xs]) if enforced == 'true' else FALSE
        o.refuses('choice of %d, enforced %s' % (k, enforced), bad, 'propValid', s)
    for k in (1, 2, 3):
        for enf in (None, 'true', 'false'):
            c.group('choice %d %s' % (k, enf), lambda k=k, enf=enf: choice(enf, k))

    def enforce():
        lab = Lab(c)
        o = Obj(lab, 'PropertyStringChoice')
        o.refuses('enforcement switch of the choice', lnot(isin(s, 'true', 'false')), 'setPropOption', S('STRING_CHOICE_ENFORCED'), strset(s))
    c.group('choice enforcement', enforce)

    def switch():
        lab = Lab(c)
        o = Obj(lab, 'PropertySwitch')
        o.refuses('switch given text', lnot(isin(s, *(SWITCH_ON + SWITCH_OFF))), 'propValid', s)
        o.refuses('switch given a number', lor(lt(v, ZERO), gt(v, ONE)), 'propValid', v)
    c.group('switch', switch)

    def positive():
        lab = Lab(c)
        o = Obj(lab, 'ArgumentSwitch')

        def then(r):
            c.equal('meaning of a switch value', where(o.f('positive', (s,))), r, isin(s, *SWITCH_ON), lab.e.ctx())
        o.refuses('meaning of a switch value', lnot(isin(s, *(SWITCH_ON + SWITCH_OFF))), 'positive', s, then=then)
    c.group('switch meaning', positive)

    # the same through the argument
    def arg(cls, prop, kind, mn, mx, t):
        x, p, q = (sym(z, kind) for z in 'xpq')
        lab = Lab(c)
        o = Obj(lab, cls)
        o.do('setArgPropertyOpt', S(prop), S(mn), p, kinds=['s', 's', kind])
        o.do('setArgPropertyOpt', S(prop), S(mx), q, kinds=['s', 's', kind])
        o.refuses(cls, lor(lt(x, p), gt(x, q)), 'argValid', x)
    c.group('int argument', lambda: arg('ArgumentInt', 'PROPERTY_INT', 'i', 'MIN', 'MAX', 'int'))
    c.group('double argument', lambda: arg('ArgumentDouble', 'PROPERTY_DOUBLE', 'r', 'MIN', 'MAX', 'double'))

    def argstr(enf):
        lab = Lab(c, [le(slen(s), limit('max', 'unsigned long'))] + ascending(x1, x2))
        o = Obj(lab, 'ArgumentString')
        o.do('setArgPropertyOpt', S('PROPERTY_STRING_CHOICE'), S('STRING_CHOICES'), strset(x1, x2))
        o.do('setArgPropertyOpt', S('PROPERTY_STRING_CHOICE'), S('STRING_CHOICE_ENFORCED'), strset(S(enf)))
        o.refuses('ArgumentString enforced ' + enf, land(ne(s, x1), ne(s, x2)) if enf == 'true' else FALSE, 'argValid', s)
    c.group('string argument', lambda: argstr('true'))
    c.group('string argument, not enforced', lambda: argstr('false'))

    def argsw():
        lab = Lab(c)
        o = Obj(lab, 'ArgumentSwitch')
        o.refuses('ArgumentSwitch', lnot(isin(s, *(SWITCH_ON + SWITCH_OFF))), 'argValid', s)
    c.group('switch argument', argsw)


# ------------------------------------------------------------------ C12
def last_component(s):
    return app('substr', 's', s, add(app('lof', 'i', s, S('/')), ONE), MONE)


def extension(s):
    n = last_component(s)
    d = app('lof', 'i', n, S('.'))
    return ite(lt(d, ZERO), S(''), app('substr', 's', n, d, MONE))


def wild(x):
    """an allowed extension beginning with a star admits everything"""
    return eq(app('chr', 'i', x, ZERO), C(ord('*')))


def bad_ext(x, star=True):
    """not of the form '', '*...' or '.ext' with one dot"""
    return land(ne(x, S('')), lnot(wild(x)) if star else TRUE, ne(app('lof', 'i', x, S('.')), ZERO))


def exists(p):
    return app('exists', 'b', p)


def c12(c):
    """The rules for file names are built by their own constructors and options; acceptance, stored existence flags and
    sister file names are compared with their definition in terms of the path."""
    c.rules.append('file names are accepted, and companions derived, by extension and existence only')
    s, m = sym('s', 's'), sym('m')
    x1, x2, x3 = (sym(q, 's') for q in ('x1', 'x2', 'x3'))

    def exts(k, how):
        xs = (x1, x2, x3)[:k]
        allowed = lor(*[lor(wild(x), eq(x, extension(s))) for x in xs])
        lab = Lab(c, ascending(*xs))
        if how == 'ArgumentFile':
            o = Obj(lab, how)
            o.do('setArgPropertyOpt', S('PROPERTY_FILE_EXT'), S('ALLOWED_FILE_EXT'), strset(*xs))
            o.refuses('file argument, %d extensions' % k, lnot(allowed), 'argValid', s)
        else:
            o = Obj(lab, how)
            o.do('setPropOption', S('ALLOWED_FILE_EXT'), strset(*xs))
            o.refuses('%d allowed extensions' % k, lnot(allowed), 'propValid', s)
    for k in (1, 2, 3):
        c.group('extensions %d' % k, lambda k=k: exts(k, 'PropertyFileExt'))
    c.group('extensions of the file argument', lambda: exts(2, 'ArgumentFile'))

    def default():
        lab = Lab(c)
        Obj(lab, 'PropertyFileExt').refuses('no extensions configured', FALSE, 'propValid', s)
        Obj(lab, 'ArgumentFile').refuses('file argument as created', FALSE, 'argValid', s)
    c.group('extension default', default)

    def must(through):
        lab = Lab(c)
        if through:
            o = Obj(lab, 'ArgumentFile')
            o.do('setArgPropertyOpt', S('PROPERTY_FILE_EXIST'), S('FILE_MUST_EXIST'), m, kinds=['s', 's', 'i'])
            chk, post = 'argValid', 'postArgCheck'

            def flag(nm, w, v):
                r = o.do('getPropertyValues', S('PROPERTY_FILE_EXIST'), S('FILE_DOES_EXIST'))
                c.equal(nm, w, r, ite(v, S('1'), S('0')), lab.e.ctx())
        else:
            o = Obj(lab, 'PropertyFileExist')
            o.do('setPropOption', S('FILE_MUST_EXIST'), m, kinds=['s', 'i'])
            chk, post = 'propValid', 'postCheck'

            def flag(nm, w, v):
                r = o.do('getPropOption', S('FILE_DOES_EXIST'))
                c.equal(nm, w, r, ite(v, ONE, ZERO), lab.e.ctx())
        nm = 'file argument existence' if through else 'existence'
        base = lab.fork()
        o.refuses(nm + ': closing check without a file', ne(m, ZERO), post)
        lab.e.st = base.fork()

        def then(r):
            flag(nm + ': recorded', where(o.f(chk, (s,))), exists(s))
            o.refuses(nm + ': closing check', land(ne(m, ZERO), lnot(exists(s))), post)
        o.refuses(nm, land(ne(m, ZERO), lnot(exists(s))), chk, s, then=then)
        # a second file replaces the first
        s2 = sym('s2', 's')
        lab.e.st = base.fork(eq(m, ZERO))
        o.do(chk, s)
        o.do(chk, s2)
        flag(nm + ': of the latest file', where(o.f(chk, (s,))), exists(s2))
    c.group('existence', lambda: must(False))
    c.group('existence through the argument', lambda: must(True))

    def sisters(k):
        lab = Lab(c)
        ys = (x1, x2, x3)[:k]
        o = Obj(lab, 'PropertySisterFile')
        for y in ys:
            lab.e.st = lab.e.st.fork(ne(y, S('NOT_DEFINED')), eq(app('lof', 'i', y, S('.')), ZERO))
        if k == 1:
            o.do('setPropOption', S('ALLOWED_SISTER_FILE_EXT'), x1)
        else:
            o.do('setPropOption', S('ALLOWED_SISTER_FILE_EXT'), strvec(*ys))
        r = o.do('propValid', s)
        w = where(o.f('propValid', (s,)))
        cx = lab.e.ctx()
        comp = last_component(s)
        d = app('lof', 'i', comp, S('.'))
        core = ite(lt(d, ZERO), comp, app('substr', 's', comp, ZERO, d))
        path = app('substr', 's', s, ZERO, add(app('lof', 'i', s, S('/')), ONE))
        for opt, fn in (('SISTER_FILE_NAME', lambda y: cat(core, y)), ('SISTER_FILE_PATH', lambda y: path),
                        ('SISTER_FILE_PATH_NAME', lambda y: cat(path, core, y)),
                        ('SISTER_FILE_EXISTS', lambda y: ite(exists(cat(path, core, y)), S('true'), S('false')))):
            v = o.do('getPropOption', S(opt))
            c.equal('%d sisters: number of %s' % (k, opt), w, vlen(v), C(k), cx)
            for i, y in enumerate(ys):
                c.equal('%d sisters: %s' % (k, opt), w, sel(varr(v), (C(i),), 's', cx), fn(y), cx)
    for k in (1, 2, 3):
        c.group('sisters %d' % k, lambda k=k: sisters(k))

    def form():
        lab = Lab(c)
        o = Obj(lab, 'PropertySisterFile')
        o.refuses('form of a sister extension', ne(app('lof', 'i', x1, S('.')), ZERO), 'setPropOption', S('ALLOWED_SISTER_FILE_EXT'), x1, unless=eq(x1, S('')))
        for opt in ('SISTER_FILE_NAME', 'SISTER_FILE_PATH', 'SISTER_FILE_PATH_NAME', 'SISTER_FILE_EXISTS'):
            o.refuses('derived option ' + opt, TRUE, 'setPropOption', S(opt), x1)
    c.group('form of sister extensions', form)


# ------------------------------------------------------------------ C13
# public names of the value rules: class -> (rule name, options, kind of the option value)
RULES = {
    'PropertyInt': ('PROPERTY_INT', ('MIN', 'MAX'), 'i'),
    'PropertyDouble': ('PROPERTY_DOUBLE', ('MIN', 'MAX'), 'r'),
    'PropertyString': ('PROPERTY_STRING', ('MIN_LENGTH', 'MAX_LENGTH'), 'i'),
    'PropertySwitch': ('PROPERTY_SWITCH', ('DEFAULT',), 's'),
    'PropertyStringChoice': ('PROPERTY_STRING_CHOICE', ('STRING_CHOICES', 'STRING_CHOICE_ENFORCED'), 'set'),
    'PropertyFileExist': ('PROPERTY_FILE_EXIST', ('FILE_MUST_EXIST', 'FILE_DOES_EXIST'), 'i'),
    'PropertyFileExt': ('PROPERTY_FILE_EXT', ('ALLOWED_FILE_EXT',), 'set'),
    'PropertySisterFile': ('PROPERTY_SISTER_FILE', ('ALLOWED_SISTER_FILE_EXT', 'SISTER_FILE_NAME', 'SISTER_FILE_PATH', 'SISTER_FILE_PATH_NAME', 'SISTER_FILE_EXISTS'), 'vec'),
}


def c13(c):
    """Option names are symbolic: acceptance of a name, the value read back under another symbolic name and the value
    read through the argument are compared with a table holding one value per known name."""
    c.rules.append('an option name is accepted exactly when the rule knows it; setting an option changes that option only')
    o1, o2, prop = sym('o1', 's'), sym('o2', 's'), sym('prop', 's')
    a, b = sym('a', 's'), sym('b', 's')

    def value(k, n):
        return {'i': sym(n, 'i'), 'r': sym(n, 'r'), 's': sym(n, 's'), 'set': strset(sym(n, 's')), 'vec': strvec(sym(n, 's'))}[k]

    def same(nm, w, k, x, y, cx):
        """equality of option values, sets and lists element-wise"""
        if k == 'set':
            q = sym('q', 's')
            c.equal(nm, w, sel(proj(x, '#has', 'a'), (q,), 'b', cx), sel(proj(y, '#has', 'a'), (q,), 'b', cx), cx)
        elif k == 'vec':
            c.equal(nm + ' (length)', w, vlen(x), vlen(y), cx)
            i = sym('i')
            cx = cx.extend(ge(i, ZERO), lt(i, vlen(y)))
            c.equal(nm, w, sel(varr(x), (i,), 's', cx), sel(varr(y), (i,), 's', cx), cx)
        else:
            c.equal(nm, w, x, y, cx)

    def rule(cls):
        name, opts, k = RULES[cls]
        lab = Lab(c)
        o = Obj(lab, cls)
        w = where(o.f('getPropOption', (o1,)))
        r = o.do('getPropertyName')
        c.equal(cls + ': name', where(o.f('getPropertyName', ())), r, S(name), lab.e.ctx())
        ops = o.do('getPropertyOptions')
        c.equal(cls + ': number of options', w, vlen(ops), C(len(opts)), lab.e.ctx())
        for n in opts:
            i = sym('i')
            c.holds(cls + ': lists ' + n, w, lor(*[eq(sel(varr(ops), (C(j),), 's'), S(n)) for j in range(len(opts))]), lab.e.ctx())
        o.refuses(cls + ': reading an option', lnot(isin(o1, *opts)), 'getPropOption', o1)
        start = {}
        for n in opts:
            start[n] = o.do('getPropOption', S(n))
        if cls in ('PropertyStringChoice', 'PropertySisterFile'):
            # own rules for the values: C11, C12. The name must be known in any case
            f = o.f('setPropOption', (o1, value(k, 'a')), ['s', k])
            base = lab.fork()
            lab.e.st = base.fork(lnot(isin(o1, *opts)))
            o.refuses(cls + ': setting an unknown option', TRUE, 'setPropOption', o1, value(k, 'a'))
            lab.e.st = base
            n = opts[0]
            o.do('setPropOption', S(n), strset(a, b) if k == 'set' else strvec(S('.log')))
            for m in opts[1:]:
                same('%s: %s after setting %s' % (cls, m, n), where(f), k, o.do('getPropOption', S(m)), start[m], lab.e.ctx())
            same('%s: %s as set' % (cls, n), where(f), k, o.do('getPropOption', S(n)), strset(a, b) if k == 'set' else strvec(S('.log')), lab.e.ctx())
            return

        def then(_):
            for n in opts:
                v = o.do('getPropOption', S(n))
                for p, (u, g) in enumerate((('as set', eq(o1, S(n))), ('unchanged', ne(o1, S(n))))):
                    cx = lab.e.ctx().extend(g)
                    if not cx.dead:
                        same('%s: %s %s' % (cls, n, u), where(o.f('setPropOption', (o1, value(k, 'a')), ['s', k])), k, v, value(k, 'a') if p == 0 else start[n], cx)
        o.refuses(cls + ': setting an option', lnot(isin(o1, *opts)), 'setPropOption', o1, value(k, 'a'), kinds=['s', k], then=then)
    for cls in RULES:
        c.group('rule ' + cls, lambda cls=cls: rule(cls))

    # arguments hand options to the rule that is named, or refuse
    ARGS = {'ArgumentInt': ('PropertyInt',), 'ArgumentDouble': ('PropertyDouble',), 'ArgumentString': ('PropertyString', 'PropertyStringChoice'),
            'ArgumentSwitch': ('PropertySwitch',), 'ArgumentFile': ('PropertyFileExist', 'PropertyFileExt', 'PropertySisterFile')}

    def argument(cls):
        lab = Lab(c)
        o = Obj(lab, cls)
        mine = [RULES[p] for p in ARGS[cls]]
        known = {'i': [m for m in mine if m[2] == 'i' and m[0] != 'PROPERTY_STRING'], 'r': [m for m in mine if m[2] == 'r']}
        n, r = sym('n'), sym('r', 'r')
        for k, v in (('i', n), ('r', r)):
            try:
                o.f('setArgPropertyOpt', (prop, o1, v), ['s', 's', k])
            except Vanished:
                continue        # this overload of the template is used nowhere
            good = lor(*[land(eq(prop, S(m[0])), isin(o1, *m[1])) for m in known[k]])

            def then(_, k=k, v=v):
                if k != 'i':
                    return
                got = o.do('getPropertyValues', prop, o1)
                c.equal(cls + ': value reads back', where(o.f('getPropertyValues', (prop, o1))), got, app('tos', 's', v), lab.e.ctx())
            o.refuses('%s: option of a rule (%s)' % (cls, {'i': 'integer', 'r': 'real'}[k]), lnot(good), 'setArgPropertyOpt', prop, o1, v, kinds=['s', 's', k], then=then)
        good = lor(*[land(eq(prop, S(m[0])), isin(o1, *m[1])) for m in mine])
        o.refuses(cls + ': reading an option', lnot(good), 'getPropertyValues', prop, o1)
        names = o.do('getProperties')
        cx = lab.e.ctx()
        w = where(o.f('getProperties', ()))
        c.equal(cls + ': number of rules', w, vlen(names), C(len(mine)), cx)
        for m in mine:
            c.holds('%s: has %s' % (cls, m[0]), w, lor(*[eq(sel(varr(names), (C(j),), 's'), S(m[0])) for j in range(len(mine))]), cx)
    for cls in ARGS:
        c.group('argument ' + cls, lambda cls=cls: argument(cls))


# ------------------------------------------------------------------ C14
INTMIN, INTMAX = sym(('limit', 'min', 'int'), 'i'), sym(('limit', 'max', 'int'), 'i')
# documented command line: long flag -> (short flag, kind, default)
FLAGS = {
    '--pun_P': ('-p_P', 'orb', None), '--pun_1': ('-p_1', 'orb', None), '--pun_2': ('-p_2', 'orb', None),
    '--log_P': ('-l_P', 'log', None), '--log_1': ('-l_1', 'log', None), '--log_2': ('-l_2', 'log', None),
    '--spin_P': ('-s_P', 'spin', 'Alpha'), '--spin_1': ('-s_1', 'spin', 'Alpha'), '--spin_2': ('-s_2', 'spin', 'Alpha'),
    '--orbital_type_1': ('-orb_ty_1', 'type', 'HOMO'), '--orbital_type_2': ('-orb_ty_2', 'type', 'HOMO'),
    '--orbital_num_1': ('-orb_num_1', 'int', 0), '--orbital_num_2': ('-orb_num_2', 'int', 0),
    '--counter_poise': ('-cp', 'switch', 'OFF'),
}
SPELLINGS = [x for k, v in FLAGS.items() for x in (k, v[0])] + ['--citation', '-cite', '--version', '-v', '--help', '-h']
ORBEXT = ('.7', '.orb', '.pun')


def allowed(kind, v):
    """values a flag takes"""
    if kind == 'spin':
        return isin(v, 'Alpha', 'Beta')
    if kind == 'type':
        return isin(v, 'HOMO', 'LUMO')
    if kind == 'switch':
        return isin(v, *(SWITCH_ON + SWITCH_OFF))
    if kind == 'int':
        return app('isintstr', 'b', v)
    return isin(extension(v), *(ORBEXT if kind == 'orb' else ('.log',)))


def length_fact(v):
    return le(slen(v), limit('max', 'unsigned long'))


def int_fact(v):
    return land(ge(app('stoi', 'i', v), INTMIN), le(app('stoi', 'i', v), INTMAX))


class Cli:
    """the prepared parser, ready to take a command line"""

    def __init__(self, c, facts=()):
        self.c = c
        self.lab = Lab(c, facts)
        c.cls('ArgumentParser')
        r, ok = self.lab.run(c.func('prepareParser'), None, [])
        for x in self.lab.exits():
            c.never('the program prepares its parser', loc(x.node), self.lab.e.ctx_of(x.pc))
        if not ok:
            c.holds('the program prepares its parser', where(c.func('prepareParser')), FALSE, self.lab.e.ctx())
            raise Dead()
        self.l = self.lab.e.lv_of_ptr(self.lab.val(r), 'ArgumentParser')
        self.parser = c.func('ArgumentParser::parse')
        self.base = self.lab.fork()
        self.handle = r

    def parse(self, words, facts=()):
        """fresh command line -> alive; exits are in self.exits"""
        e = self.lab.e
        e.st = self.base.fork(*facts)
        self.facts = list(facts)
        n0 = len(e.exits)
        root = ('h', 'argv')
        e.st.mem[root] = strvec(S('calc_J'), *[S(w) if isinstance(w, str) else w for w in words])
        args = {'P': ptr(root, (('i', ZERO, 's'),)), 'i': C(len(words) + 1)}
        vals = [args[ty.sort(p.t)] for p in self.parser.params]
        r, ok = self.lab.run(self.parser, self.l, vals)
        self.exits = e.exits[n0:]
        del e.exits[n0:]
        return ok

    def outcome(self, nm, words, good, facts=(), then=None):
        """the command line is refused exactly when good does not hold"""
        c, e = self.c, self.lab.e
        ok = self.parse(words, facts)
        w = where(self.parser)
        for x in self.exits:
            c.never('%s: refused only if wrong' % nm, loc(x.node), e.ctx_of(x.pc).extend(good))
        if ok:
            c.holds('%s: refused if wrong' % nm, w, good, e.ctx())
            if then is not None:
                then()
        else:
            c.holds('%s: accepted if right' % nm, w, lnot(good), e.ctx_of(self.base.fork(*facts).pc))

    def get(self, name, flag):
        """value read under a flag -> (value, alive)"""
        f = self.c.func('ArgumentParser::' + name, 1)
        st = self.lab.fork()
        n0 = len(self.lab.e.exits)
        fl = S(flag)
        r, ok = self.lab.run(f, self.l, [self.lab.e.temp(fl) if ty.isref(f.params[0].t) else fl])
        v = self.lab.val(r) if ok else None
        exits = self.lab.e.exits[n0:]
        del self.lab.e.exits[n0:]
        self.lab.e.st = st
        return v, ok, exits

    def holdings(self, nm, given):
        """every flag reads as given or as its default"""
        c = self.c
        cx = self.lab.e.ctx()
        for flag, (short, kind, dflt) in FLAGS.items():
            how = 'getInt' if kind in ('int', 'switch') else 'getStr'
            w = where(c.func('ArgumentParser::' + how, 1))
            v, ok, exits = self.get(how, flag)
            if flag in given:
                x = given[flag]
                want = app('stoi', 'i', x) if kind == 'int' else ite(isin(x, *SWITCH_ON), ONE, ZERO) if kind == 'switch' else x
            elif dflt is None:
                if ok:
                    c.holds('%s: %s was not given' % (nm, flag), w, FALSE, cx)
                continue
            else:
                want = ZERO if kind == 'switch' else S(dflt) if isinstance(dflt, str) else C(dflt)
            if not ok:
                c.holds('%s: %s can be read' % (nm, flag), w, FALSE, cx)
                continue
            for x in exits:
                c.never('%s: %s can be read' % (nm, flag), w, self.lab.e.ctx_of(x.pc))
            c.equal('%s: %s' % (nm, flag), w, v, want, cx)
            if kind == 'switch' and flag in given:
                # read as text it is the word that was given
                v, ok, exits = self.get('getStr', flag)
                if not ok:
                    c.holds('%s: %s can be read as text' % (nm, flag), w, FALSE, cx)
                    continue
                c.equal('%s: %s as text' % (nm, flag), w, v, given[flag], cx)


def c14(c):
    """The parser is prepared as the program does it, a command line with symbolic values is parsed, and acceptance and all
    values read afterwards are compared with the documented table of flags."""
    c.rules.append('a flag takes its own values only, stores them under itself, and everything else keeps its default')
    v, w, f = sym('v', 's'), sym('w', 's'), sym('f', 's')
    cli = Cli(c)
    notflag = [ne(v, S(x)) for x in SPELLINGS] + [length_fact(v), int_fact(v)]
    for flag, (short, kind, dflt) in FLAGS.items():
        for sp in (flag, short):
            def one():
                cli.outcome(sp + ' value', [sp, v], allowed(kind, v), notflag, lambda: cli.holdings(sp + ' value', {flag: v}))
                if kind == 'switch':
                    cli.outcome(sp + ' alone', [sp], TRUE, [], lambda: cli.holdings(sp + ' alone', {flag: S('ON')}))
                else:
                    cli.outcome(sp + ' without value', [sp], FALSE)
            c.group(sp, one)

    def unknown():
        nf = [ne(f, S(x)) for x in SPELLINGS]
        cli.outcome('unknown flag', [f], FALSE, nf)
        cli.outcome('unknown flag with a value', [f, v], FALSE, nf + notflag)
        cli.outcome('unknown flag after a known one', ['--spin_1', 'Beta', f, v], FALSE, nf + notflag)
        cli.outcome('unknown flag before a known one', [f, v, '--spin_1', 'Beta'], FALSE, nf + notflag)
        cli.outcome('nothing given', [], FALSE)
    c.group('unknown flags', unknown)

    nw = [ne(w, S(x)) for x in SPELLINGS] + [length_fact(w), int_fact(w)]
    names = list(FLAGS)

    def pair(a, b, short):
        ka, kb = FLAGS[a][1], FLAGS[b][1]
        nm = '%s then %s' % (a, b)
        if a == b:
            cli.outcome(nm, [a, v, b, w], land(allowed(ka, v), allowed(kb, w)), notflag + nw, lambda: cli.holdings(nm, {b: w}))
        else:
            x, y = (a, FLAGS[b][0]) if short else (FLAGS[a][0], b) if c.tier != 'thorough' else (a, b)
            cli.outcome(nm, [x, v, y, w], land(allowed(ka, v), allowed(kb, w)), notflag + nw, lambda: cli.holdings(nm, {a: v, b: w}))
    for i, a in enumerate(names):
        for j, b in enumerate(names):
            if c.tier == 'thorough' or i == j or (j - i) % len(names) in (1, 5):
                c.group('%s %s' % (a, b), lambda: pair(a, b, (j - i) % 2))

    def switch_then():
        for b in names:
            kb = FLAGS[b][1]
            nm = '--counter_poise alone, then ' + b
            for sp in (b, FLAGS[b][0]):
                nm = '--counter_poise alone, then ' + sp
                if kb != 'switch':
                    cli.outcome(nm, ['-cp', sp, w], allowed(kb, w), nw, lambda: cli.holdings(nm, {'--counter_poise': S('ON'), b: w}))
    c.group('switch before a flag', switch_then)

    def everything():
        vals = {flag: sym('v%d' % i, 's') for i, flag in enumerate(names)}
        facts = [ne(x, S(y)) for x in (vals['--counter_poise'],) for y in SPELLINGS] + [length_fact(x) for x in vals.values()] + \
            [int_fact(vals[k]) for k in names if FLAGS[k][1] == 'int']
        good = land(*[allowed(FLAGS[k][1], x) for k, x in vals.items()])
        words = [y for k, x in vals.items() for y in (k, x)]
        cli.outcome('all flags', words, good, facts, lambda: cli.holdings('all flags', vals))
    c.group('all flags', everything)


# ------------------------------------------------------------------ C15
TRIO = ('P', '1', '2')


def blankfree(x):
    return app('blankfree', 'b', x)


def sister(s, ext):
    """path of the file beside s that has another extension"""
    comp = last_component(s)
    d = app('lof', 'i', comp, S('.'))
    core = app('substr', 's', comp, ZERO, d)
    return cat(app('substr', 's', s, ZERO, add(app('lof', 'i', s, S('/')), ONE)), core, S(ext))


def c15(c):
    c.rules.append('every parameter comes from the flag of the same unit; a missing file is replaced by its sister or refused')
    prepare = c.func('prepareParameters', 1)
    cli = Cli(c)
    lab, e = cli.lab, cli.lab.e

    def params(nm):
        """run prepareParameters -> (parameters or None, exits)"""
        n0 = len(e.exits)
        h = cli.handle
        r, ok = lab.run(prepare, None, [e.temp(lab.val(h)) if ty.isref(prepare.params[0].t) else lab.val(h)])
        ex = e.exits[n0:]
        del e.exits[n0:]
        if not ok:
            return None, ex
        return e.lv_of_ptr(lab.val(r), 'Parameters'), ex

    def get(l, name):
        f = c.func('Parameters::' + name, 0)
        return lab.quietly(lambda: lab.val(e.call(f, l, [], f.node)))

    def run(nm, words, facts, good, want):
        """accepted command line; the parameters are refused unless good, and hold what is wanted"""
        if not cli.parse(words, facts):
            c.holds(nm + ': command line accepted', where(cli.parser), FALSE, e.ctx_of(cli.base.fork(*facts).pc))
            return
        w = where(prepare)
        l, ex = params(nm)
        for x in ex:
            c.never('%s: refused only if something is missing or contradictory' % nm, loc(x.node), e.ctx_of(x.pc).extend(good))
        if l is None:
            return
        c.holds('%s: refused if something is missing or contradictory' % nm, w, good, e.ctx())
        cx = e.ctx().extend(good)
        for name, v in want.items():
            c.equal('%s: %s' % (nm, name), w, get(l, name), v, cx)

    roles = [k + u for k in ('pun', 'log') for u in TRIO]
    paths = {k: sym(k, 's') for k in roles}
    flags = {k: '--%s_%s' % (k[:3], k[3]) for k in roles}
    SIS = {'log': ('.orb', '.7', '.pun'), 'pun': ('.log',)}
    DEF = {'getSpinP': S('Alpha'), 'getSpin1': S('Alpha'), 'getSpin2': S('Alpha'), 'getOrbType1': S('HOMO'), 'getOrbType2': S('HOMO'),
           'getOrbNum1': ZERO, 'getOrbNum2': ZERO, 'getCounterPoise': FALSE, 'getCitation': FALSE}

    def partner(k):
        return ('log' if k[:3] == 'pun' else 'pun') + k[3:]

    def files(nm, given, missing=(), beside=(), ext='.pun', extra=(), more=(), want=(), good=TRUE):
        """given: roles on the command line; missing: those whose file is not there;
        beside: (role, extension) of the sisters that are there"""
        facts, there = list(more), {}
        for k in given:
            p = paths[k]
            x = ext if k[:3] == 'pun' else '.log'
            facts += [ge(app('lof', 'i', last_component(p), S('.')), ONE), eq(extension(p), S(x)), length_fact(p), blankfree(p)]
            ok = k not in missing
            facts.append(exists(p) if ok else lnot(exists(p)))
            if ok:
                there[k] = p
            for y in SIS[k[:3]]:
                q = sister(p, y)
                ok = (k, y) in beside
                facts.append(exists(q) if ok else lnot(exists(q)))
                if ok and (partner(k) not in given or partner(k) in missing):
                    there[partner(k)] = q
        w = dict(DEF)
        w.update(want)
        for k in roles:
            if k in there:
                w['get' + k[0].upper() + k[1:]] = there[k]
        words = [x for k in given for x in (flags[k], paths[k])] + list(extra)
        run(nm, words, facts, good if len(there) == 6 else FALSE, w if len(there) == 6 else {})
    puns, logs = roles[:3], roles[3:]
    for x in ORBEXT:
        c.group('all files ' + x, lambda: files('all files, coefficients in ' + x, roles, ext=x))
        c.group('coefficient files ' + x, lambda: files('%s files only, logs beside' % x, puns, beside=[(k, '.log') for k in puns], ext=x))
        c.group('log files, sister ' + x, lambda: files('log files only, %s beside' % x, logs, beside=[(k, x) for k in logs]))
    c.group('files and sisters', lambda: files('all files and sisters there', roles, beside=[(k, '.log') for k in puns] + [(k, '.orb') for k in logs]))
    for k in roles:
        c.group('missing ' + k, lambda: files('%s missing' % k, roles, missing=[k]))
        c.group('not given ' + k, lambda: files('%s not given' % k, [r for r in roles if r != k]))
        y = '.log' if k[:3] == 'log' else '.7'
        c.group('missing with sister ' + k, lambda: files('%s missing, sister there' % k, roles, missing=[k], beside=[(partner(k), y)]))

    SPINS = ('Alpha', 'Beta')

    def spin(u):
        x = sym('sp' + u, 's')
        files('spin of ' + u, roles, extra=['--spin_' + u, x], more=[isin(x, *SPINS), length_fact(x)], want={'getSpin' + u: x})

    def orbital(u, ty):
        x = sym('nu' + u, 's')
        num = app('stoi', 'i', x)
        files('%s orbital of %s' % (ty, u), roles, extra=['--orbital_type_' + u, S(ty), '--orbital_num_' + u, x],
              more=[app('isintstr', 'b', x), int_fact(x), length_fact(x)], want={'getOrbType' + u: S(ty), 'getOrbNum' + u: num},
              good=le(num, ZERO) if ty == 'HOMO' else ge(num, ZERO))

    def number(u):
        x = sym('nu' + u, 's')
        num = app('stoi', 'i', x)
        files('orbital of %s without a type' % u, roles, extra=['--orbital_num_' + u, x], more=[app('isintstr', 'b', x), int_fact(x), length_fact(x)],
              want={'getOrbNum' + u: num}, good=le(num, ZERO))
    for u in TRIO:
        c.group('spin ' + u, lambda: spin(u))
    for u in '12':
        c.group('HOMO ' + u, lambda: orbital(u, 'HOMO'))
        c.group('LUMO ' + u, lambda: orbital(u, 'LUMO'))
        c.group('number ' + u, lambda: number(u))
    c.group('type without a number', lambda: files('type only', roles, extra=['--orbital_type_1', S('LUMO'), '--orbital_type_2', S('LUMO')],
                                                   want={'getOrbType1': S('LUMO'), 'getOrbType2': S('LUMO')}))

    def counter():
        for x in SWITCH_ON + SWITCH_OFF:
            files('counter poise %s' % x, roles, extra=['--counter_poise', S(x)], want={'getCounterPoise': TRUE if x in SWITCH_ON else FALSE})
        files('counter poise alone', roles, extra=['--counter_poise'], want={'getCounterPoise': TRUE})
    c.group('counter poise', counter)

    def every():
        v = {n: sym(n, 's') for n in ('spP', 'sp1', 'sp2')}
        files('all settings', roles, extra=['--spin_P', v['spP'], '--spin_1', v['sp1'], '--spin_2', v['sp2'], '--orbital_type_1', S('HOMO'), '--orbital_type_2', S('LUMO'),
                                            '--orbital_num_1', S('-2'), '--orbital_num_2', S('3'), '--counter_poise', S('ON')],
              more=[isin(x, *SPINS) for x in v.values()] + [length_fact(x) for x in v.values()],
              want={'getSpinP': v['spP'], 'getSpin1': v['sp1'], 'getSpin2': v['sp2'], 'getOrbType1': S('HOMO'), 'getOrbType2': S('LUMO'),
                    'getOrbNum1': C(-2), 'getOrbNum2': C(3), 'getCounterPoise': TRUE})
    c.group('all settings', every)
