"""Text helpers and the settings record."""
from sa.terms import *
from sa.terms import has_top, num
from sa.lab import Lab
from sa.engine import LV, loc, Dead
from sa import types as ty
from sa.report import Vanished
from checks.matrix import where
from checks.io import Obj, isin, last_component, length_fact, limit

SMALL = 2 ** 31 - 1


def free(c, name, n):
    """the free function name with n parameters"""
    return c.func(name, n)


def c17(c):
    c.rules.append('result of each helper equals its definition over positions in the text')
    s, n, k = sym('s', 's'), sym('n'), sym('k')
    short = [length_fact(s), le(slen(s), C(SMALL))]

    def run(name, args, facts, then, refuse=FALSE):
        lab = Lab(c, facts)
        e = lab.e
        f = free(c, name, len(args))
        vals = [e.temp(a) if ty.isref(p.t) else a for p, a in zip(f.params, args)]
        r, ok = lab.run(f, None, vals)
        for x in lab.exits():
            c.never('%s: no failure' % name, loc(x.node), e.ctx_of(x.pc))
        if not ok:
            c.holds('%s: completes' % name, where(f), FALSE, lab.ctx())
            return
        then(lab, f, lab.val(r) if r is not None else None, vals)

    def is_(name, args, want, facts=(), what='result'):
        def then(lab, f, r, vals):
            c.equal('%s: %s' % (name, what), where(f), r, want, lab.ctx())
        c.group(name, lambda: run(name, args, list(facts) + short, then))

    some = [ge(n, ZERO), le(n, C(SMALL))]
    L = slen(s)
    cutn = ite(le(n, L), n, L)
    is_('lastN', [s, n], app('substr', 's', s, sub(L, cutn), MONE), some)
    is_('cut_end', [s, n], app('substr', 's', s, ZERO, sub(L, cutn)), some)
    is_('firstN', [s, n], app('substr', 's', s, ZERO, n), some)
    is_('cut_beg', [s, n], app('substr', 's', s, n, MONE), some + [le(n, L)])
    is_('lastStringInPath', [s], last_component(s))
    is_('getPath', [s], app('substr', 's', s, ZERO, add(app('lof', 'i', s, S('/')), ONE)))

    # texts put together from arbitrary parts: decided also where a loop over the text has no closed form
    a, b, d = (num('expo', x) for x in 'abd')

    def shaped(name, parts, want, more=(), what=None):
        t = cat(*[S(x) if isinstance(x, str) else x for x in parts])
        want = cat(*[S(x) if isinstance(x, str) else x for x in want]) if isinstance(want, (list, tuple)) else want
        is_(name, [t] + list(more), want, what='result for %s' % ''.join(x if isinstance(x, str) else '#' for x in parts))
    for parts in ((a,), (a, '/', b), ('/', a), (a, '/', b, '/', d), (a, '/'), (a, '//', b), ('/', a, '/', b, '.', d), ('../', a), ('/',)):
        cut = max([i for i, x in enumerate(parts) if isinstance(x, str) and '/' in x], default=-1)
        head, tail = list(parts[:cut + 1]), list(parts[cut + 1:])
        if head:
            x = head[-1]
            tail = [x[x.rindex('/') + 1:]] + tail
            head[-1] = x[:x.rindex('/') + 1]
        shaped('lastStringInPath', parts, tail)
        shaped('getPath', parts, head)
    for parts in ((a,), (' ', a), (a, '  '), ('   ', a, ' ', b, ' '), (' ',), ('\t', a, ' \t', b, '\n')):
        ks = list(parts)
        l = [k.lstrip(' \t\n') if i == 0 and isinstance(k, str) else k for i, k in enumerate(ks)]
        r_ = [k.rstrip(' \t\n') if i == len(ks) - 1 and isinstance(k, str) else k for i, k in enumerate(ks)]
        lr = [k.rstrip(' \t\n') if i == len(ks) - 1 and isinstance(k, str) else k for i, k in enumerate(l)]
        shaped('ltrimmed', parts, l)
        shaped('rtrimmed', parts, r_)
        shaped('trimmed', parts, lr)

    o = sym('o', 's')
    p = app('find', 'i', s, o, ZERO)
    none = lt(p, ZERO)
    is_('foundSubStrInStr', [s, o], ge(p, ZERO), [length_fact(o)])
    is_('grabStrAfterFirstOccurance', [s, o], ite(none, EMPTY, app('substr', 's', s, add(p, slen(o)), MONE)), [length_fact(o)])
    is_('grabStrBeforeFirstOccurance', [s, o], ite(none, s, app('substr', 's', s, ZERO, p)), [length_fact(o)])
    for ch in ('.', '/', 'D', ' '):
        q = app('lof', 'i', s, S(ch))
        none = lt(q, ZERO)
        w = 'result for "%s"' % ch
        is_('grabStrAfterLastOccurance', [s, S(ch)], ite(none, EMPTY, app('substr', 's', s, add(q, ONE), MONE)), what=w)
        is_('grabStrAfterLastOccuranceInclusive', [s, S(ch)], ite(none, EMPTY, app('substr', 's', s, q, MONE)), what=w)
        is_('grabStrBeforeLastOccurance', [s, S(ch)], ite(none, s, app('substr', 's', s, ZERO, q)), what=w)
        is_('grabStrBeforeLastOccuranceInclusive', [s, S(ch)], ite(none, s, app('substr', 's', s, ZERO, add(q, ONE))), what=w)

    def words():
        def then(lab, f, r, vals):
            i = sym('i')
            c.equal('splitSt: number of words', where(f), vlen(r), app('ntok', 'i', s), lab.ctx())
            c.equal('splitSt: words', where(f), sel(varr(r), (i,), 's'), app('nthtok', 's', s, i), lab.ctx(ge(i, ZERO), lt(i, app('ntok', 'i', s))))
        run('splitSt', [s], short, then)
    c.group('splitSt', words)

    j = fresh('j')

    def firstof(n, at):
        return mkfirst(j, n, lnot(app('isspace', 'b', app('chr', 'i', s, at))))
    lead = firstof(L, j)
    rest = sub(L, lead)
    is_('ltrimmed', [s], app('substr', 's', s, lead, MONE))
    is_('rtrimmed', [s], app('substr', 's', s, ZERO, sub(L, firstof(L, sub(sub(L, ONE), j)))))
    both = app('substr', 's', s, lead, sub(rest, firstof(rest, sub(sub(L, ONE), j))))
    is_('trimmed', [s], both)

    def trim():
        def then(lab, f, r, vals):
            c.equal('trim: result', where(f), lab.val(vals[0]), both, lab.ctx())
        run('trim', [s], short, then)
    c.group('trim', trim)

    def alpha():
        def then(lab, f, r, vals):
            c.equal('isAlphabetical: result', where(f), r, land(gt(L, ZERO), lnot(mkex(j, L, lnot(app('isalpha', 'b', app('chr', 'i', s, j)))))), lab.ctx())
        run('isAlphabetical', [s], short, then)
    c.group('isAlphabetical', alpha)

    # ---- the settings record
    texts = ['Log1', 'Log2', 'LogP', 'Pun1', 'Pun2', 'PunP', 'SpinP', 'Spin1', 'Spin2', 'OrbType1', 'OrbType2']
    nums = ['OrbNum1', 'OrbNum2']
    bits = ['CounterPoise', 'Citation']

    def record(k):
        lab = Lab(c, short)
        ob = Obj(lab, 'Parameters')
        every = [x for x in texts + nums + bits]
        start = {x: ob.do('get' + x) for x in every}
        v = {'i': n, 'b': sym('q', 'b'), 's': s}['i' if k in nums else 'b' if k in bits else 's']

        def then(_):
            for x in every:
                f = ob.f('get' + x, ())
                c.equal('%s after setting %s' % (x, k), where(f), ob.do('get' + x), v if x == k else start[x], lab.e.ctx())
        bad = FALSE
        if k[:3] == 'Log':
            bad = ne(app('substr', 's', s, sub(L, C(4)), MONE), S('.log'))
            bad = lor(lt(L, C(4)), bad)
        elif k[:3] == 'Pun':
            d = app('lof', 'i', last_component(s), S('.'))
            bad = lor(lt(d, ZERO), lnot(isin(app('substr', 's', last_component(s), d, MONE), '.pun', '.orb', '.7')))
        ob.refuses('setting ' + k, bad, 'set' + k, v, then=then)
    for k in texts + nums + bits:
        c.group('setting ' + k, lambda: record(k))

    # ---- blanks of a character array
    def squeezed(pattern):
        facts, cs = [], []
        for i, x in enumerate(pattern):
            if x == '_':
                cs.append(C(32))
            else:
                cs.append(sym('c%d' % i))
                facts += [ne(cs[-1], C(32)), ne(cs[-1], ZERO), ge(cs[-1], C(-128)), le(cs[-1], C(127))]
        lab = Lab(c, facts)
        e = lab.e
        f = free(c, 'removeSpace', 1)
        root = ('h', 'text')
        arr = fill(UNINIT)
        for i, x in enumerate(cs + [ZERO]):
            arr = store(arr, (C(i),), x)
        e.st.mem[root] = vec(C(len(cs) + 1), arr)
        p = ptr(root, (('i', ZERO, 'i'),))
        r, ok = lab.run(f, None, [p])
        if not ok:
            c.holds('removeSpace: completes', where(f), FALSE, lab.ctx())
            return
        want = [x for x in cs if x.op != 'c'] + [ZERO]
        for i, x in enumerate(want):
            c.equal('removeSpace: character %d of "%s"' % (i, pattern), where(f), sel(varr(e.st.mem[root]), (C(i),), 'i'), x, lab.ctx())
    for pattern in ('', 'x', '_', 'xy', 'x_y', '_x', 'x_', '__x', 'x__y_z', 'xyz'):
        c.group('removeSpace "%s"' % pattern, lambda: squeezed(pattern))
