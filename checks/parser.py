"""A command line parser set up by its user: flags of any kind with limits, defaults and choices."""
from sa.terms import *
from sa.terms import _mk
from sa.lab import Lab
from sa.engine import loc, Dead
from sa import types as ty
from sa.report import Vanished
from checks.matrix import where
from checks.io import Obj, strset, strvec, isin, limit, ascending, extension, exists, SWITCH_ON, SWITCH_OFF, INTMIN, INTMAX


def words(*xs):
    a = fill(UNINIT)
    for i, x in enumerate(xs):
        a = store(a, (C(i),), S(x) if isinstance(x, str) else x)
    return vec(C(len(xs)), a)


def definitions(*flags):
    h = fill(FALSE)
    for f in flags:
        h = store(h, (words(*f),), TRUE)
    return struct('set', (('#has', h),))


def c22(c):
    """A parser is built from constant flag names and set up through its public functions with symbolic limits and defaults; a command line
    of symbolic values is parsed, and refusal, values and defaults are compared with what was set up."""
    c.rules.append('a value is refused exactly when a rule of its flag refuses it; every flag reads as given or as its default')
    v, w = sym('v', 's'), sym('w', 's')
    p, q, d = sym('p'), sym('q'), sym('d')
    x, y, z = sym('x', 'r'), sym('y', 'r'), sym('z', 'r')
    TWO = (('--first', '-f', 'one'), ('--second', '-s', 'the other'))
    NAMES = ('--first', '-f', '--second', '-s', '--help', '-h', '--citation', '-cite', '--version', '-v')

    def fresh(facts=()):
        lab = Lab(c, list(facts))
        return Obj(lab, 'ArgumentParser', [definitions(*TWO)])

    def text(t, asint=False, asreal=False):
        """facts about a value on the command line"""
        out = [ne(t, S(n)) for n in NAMES] + [le(slen(t), limit('max', 'unsigned long'))]
        if asint:
            out += [app('isintstr', 'b', t), ge(app('stoi', 'i', t), INTMIN), le(app('stoi', 'i', t), INTMAX)]
        if asreal:
            out += [app('isnumstr', 'b', t), ge(app('stod', 'r', t), limit('lowest', 'double')), le(app('stod', 'r', t), limit('max', 'double'))]
        return out

    def parse(o, nm, line, good, then=None):
        """the line is refused exactly when good does not hold"""
        lab, e = o.lab, o.lab.e
        f = c.func('ArgumentParser::parse')
        base = e.st.fork()
        n0 = len(e.exits)
        root = ('h', 'argv')
        e.st.mem[root] = strvec(S('program'), *[S(t) if isinstance(t, str) else t for t in line])
        args = {'P': ptr(root, (('i', ZERO, 's'),)), 'i': C(len(line) + 1)}
        r, ok = lab.run(f, o.l, [args[ty.sort(t.t)] for t in f.params])
        for t in e.exits[n0:]:
            c.never('%s: refused only if wrong' % nm, loc(t.node), e.ctx_of(t.pc).extend(good))
        del e.exits[n0:]
        if ok:
            c.holds('%s: refused if wrong' % nm, where(f), good, e.ctx())
            if then is not None:
                then()
        else:
            c.holds('%s: accepted if right' % nm, where(f), lnot(good), e.ctx_of(base.pc))
        e.st = base

    def reads(o, nm, how, flag, want):
        """want None: nothing can be read"""
        lab, e = o.lab, o.lab.e
        base = e.st.fork()
        n0 = len(e.exits)
        r, ok = o.call(how, S(flag))
        f = o.f(how, (S(flag),))
        cx = e.ctx()
        if want is None:
            if ok:
                c.holds('%s: %s of %s' % (nm, how, flag), where(f), FALSE, cx, 'nothing was set')
        elif not ok:
            c.holds('%s: %s of %s' % (nm, how, flag), where(f), FALSE, e.ctx_of(base.pc), 'cannot be read')
        else:
            for t in e.exits[n0:]:
                c.never('%s: %s of %s can be read' % (nm, how, flag), loc(t.node), e.ctx_of(t.pc))
            c.equal('%s: %s of %s' % (nm, how, flag), where(f), r, want, cx)
        del e.exits[n0:]
        e.st = base

    def opt(o, flag, kind, prop, option, val, sort=None):
        o.do('setFlagArgOpt', S(flag), S(kind), S(prop), S(option), val, kinds=['s', 's', 's', 's', sort or {'v': 'vec'}.get(val.sort, 'set' if val.op == 'struct' else val.sort)])

    def default(o, flag, val, kind=None):
        fs = [f for f in c.funcs('ArgumentParser::setFlagDefaultValue') if kind in ty.strip(f.params[1].t).replace('basic_string<char>', 'string')]
        if not fs:
            raise Vanished('default of kind ' + kind)
        n0 = len(o.lab.e.exits)
        r, ok = o.lab.run(fs[0], o.l, o.pack(fs[0], [S(flag), val]))
        o.succeeds('default of kind ' + kind, fs[0], ok, n0)
        if not ok:
            raise Dead()

    # ---- numbers
    def integer(which, spelled):
        o = fresh(text(v, asint=True))
        n = app('stoi', 'i', v)
        good = TRUE
        if 'MIN' in which:
            opt(o, '--first', 'ARGUMENT_INT', 'PROPERTY_INT', 'MIN', p)
            good = land(good, ge(n, p))
        if 'MAX' in which:
            opt(o, '--first', 'ARGUMENT_INT', 'PROPERTY_INT', 'MAX', q)
            good = land(good, le(n, q))
        if not which:
            o.do('addFlagArg', S('--first'), S('ARGUMENT_INT'))
        default(o, '--first', d, 'int')
        default(o, '--second', sym('d2', 's'), 'string')
        nm = 'integer flag with %s' % (' and '.join(which) or 'no limits')

        def then():
            reads(o, nm, 'getInt', '--first', n)
            reads(o, nm, 'getStr', '--second', sym('d2', 's'))
            reads(o, nm, 'getDouble', '--first', None)
            reads(o, nm, 'getInt', '--second', None)
        parse(o, nm + ' ' + spelled, [spelled, v], good, then)
        parse(o, nm + ' without value', [spelled], FALSE)
    for which in ((), ('MIN',), ('MAX',), ('MIN', 'MAX')):
        for sp in ('--first', '-f'):
            c.group('integer %s %s' % (which, sp), lambda: integer(which, sp))

    def real(which, spelled):
        o = fresh(text(v, asreal=True))
        n = app('stod', 'r', v)
        good = TRUE
        if 'MIN' in which:
            opt(o, '--first', 'ARGUMENT_DOUBLE', 'PROPERTY_DOUBLE', 'MIN', x)
            good = land(good, ge(n, x))
        if 'MAX' in which:
            opt(o, '--first', 'ARGUMENT_DOUBLE', 'PROPERTY_DOUBLE', 'MAX', y)
            good = land(good, le(n, y))
        if not which:
            o.do('addFlagArg', S('--first'), S('ARGUMENT_DOUBLE'))
        default(o, '--second', z, 'double')
        nm = 'real flag with %s' % (' and '.join(which) or 'no limits')

        def then():
            reads(o, nm, 'getDouble', '--first', n)
            reads(o, nm, 'getDouble', '--second', z)
            reads(o, nm, 'getInt', '--first', None)
        parse(o, nm + ' ' + spelled, [spelled, v], good, then)
        parse(o, nm + ' without value', [spelled], FALSE)
    for which in ((), ('MIN',), ('MAX',), ('MIN', 'MAX')):
        for sp in ('--first', '-f'):
            c.group('real %s %s' % (which, sp), lambda: real(which, sp))

    # ---- texts
    def plain():
        o = fresh(text(v))
        o.do('addFlagArg', S('--first'), S('ARGUMENT_STRING'))
        parse(o, 'text flag', ['--first', v], TRUE, lambda: reads(o, 'text flag', 'getStr', '--first', v))
        parse(o, 'text flag without value', ['--first'], FALSE)
    c.group('any text', plain)

    def choice():
        a, b = sym('a', 's'), sym('b', 's')
        o = fresh(text(v) + ascending(a, b))
        opt(o, '--first', 'ARGUMENT_STRING', 'PROPERTY_STRING_CHOICE', 'STRING_CHOICES', strset(a, b))
        opt(o, '--first', 'ARGUMENT_STRING', 'PROPERTY_STRING_CHOICE', 'STRING_CHOICE_ENFORCED', S('true'))
        default(o, '--first', sym('d2', 's'), 'string')
        parse(o, 'text flag with choices', ['--first', v], lor(eq(v, a), eq(v, b)), lambda: reads(o, 'text flag with choices', 'getStr', '--first', v))
    c.group('text choices', choice)

    # ---- files
    def file_(must):
        o = fresh(text(v))
        opt(o, '--first', 'ARGUMENT_FILE', 'PROPERTY_FILE_EXT', 'ALLOWED_FILE_EXT', S('.dat'))
        good = eq(extension(v), S('.dat'))
        if must is not None:
            opt(o, '--first', 'ARGUMENT_FILE', 'PROPERTY_FILE_EXIST', 'FILE_MUST_EXIST', C(must))
            if must:
                good = land(good, exists(v))
        nm = 'file flag, must exist %s' % must
        parse(o, nm, ['--first', v], good, lambda: reads(o, nm, 'getStr', '--first', v))
    for must in (None, 0, 1):
        c.group('file %s' % must, lambda: file_(must))

    # ---- switches
    def switch(dflt):
        o = fresh(text(v))
        o.do('addFlagArg', S('--first'), S('ARGUMENT_SWITCH'))
        if dflt:
            default(o, '--first', S('OFF'), 'string')
        on = isin(v, *SWITCH_ON)

        def given():
            reads(o, 'switch', 'getInt', '--first', ite(on, ONE, ZERO))
            reads(o, 'switch', 'getStr', '--first', v)
        parse(o, 'switch with value', ['--first', v], isin(v, *(SWITCH_ON + SWITCH_OFF)), given)
        parse(o, 'switch alone', ['-f'], TRUE, lambda: (reads(o, 'switch alone', 'getInt', '--first', ONE), reads(o, 'switch alone', 'getStr', '--first', S('ON'))))
        reads(o, 'switch not given', 'getInt', '--first', ZERO if dflt else None)
        reads(o, 'switch not given', 'getStr', '--first', S('OFF') if dflt else None)
    for dflt in (True, False):
        c.group('switch %s' % dflt, lambda: switch(dflt))

    # ---- two flags
    def both(swap):
        o = fresh(text(v, asint=True) + text(w, asreal=True))
        opt(o, '--first', 'ARGUMENT_INT', 'PROPERTY_INT', 'MAX', q)
        opt(o, '--second', 'ARGUMENT_DOUBLE', 'PROPERTY_DOUBLE', 'MIN', x)
        default(o, '--first', d, 'int')
        default(o, '--second', z, 'double')
        a, b = app('stoi', 'i', v), app('stod', 'r', w)
        good = land(le(a, q), ge(b, x))
        line = ['--second', w, '-f', v] if swap else ['--first', v, '-s', w]
        parse(o, 'two flags', line, good, lambda: (reads(o, 'two flags', 'getInt', '--first', a), reads(o, 'two flags', 'getDouble', '--second', b)))
        parse(o, 'the first flag only', ['--first', v], le(a, q), lambda: (reads(o, 'the first only', 'getInt', '--first', a), reads(o, 'the first only', 'getDouble', '--second', z)))
        parse(o, 'the second flag only', ['--second', w], ge(b, x), lambda: (reads(o, 'the second only', 'getInt', '--first', d), reads(o, 'the second only', 'getDouble', '--second', b)))
        parse(o, 'a flag in place of a value', ['--first', '--second'], FALSE)
    for swap in (False, True):
        c.group('two flags %s' % swap, lambda: both(swap))

    # ---- two flags of one kind, set up alternately
    def alternately(order):
        p2, q2 = sym('p2'), sym('q2')
        o = fresh(text(v, asint=True) + text(w, asint=True))
        a, b = app('stoi', 'i', v), app('stoi', 'i', w)
        todo = {'f': ('--first', 'MIN', p), 'F': ('--first', 'MAX', q), 's': ('--second', 'MIN', p2), 'S': ('--second', 'MAX', q2)}
        for k in order:
            opt(o, todo[k][0], 'ARGUMENT_INT', 'PROPERTY_INT', todo[k][1], todo[k][2])
        good, other = land(ge(a, p), le(a, q)), land(ge(b, p2), le(b, q2))
        nm = 'two integer flags'
        parse(o, nm, ['--first', v, '--second', w], land(good, other), lambda: (reads(o, nm, 'getInt', '--first', a), reads(o, nm, 'getInt', '--second', b)))
        parse(o, nm + ', the first', ['-f', v], good, lambda: (reads(o, nm, 'getInt', '--first', a), reads(o, nm, 'getInt', '--second', None)))
        parse(o, nm + ', the second', ['-s', w], other, lambda: (reads(o, nm, 'getInt', '--second', b), reads(o, nm, 'getInt', '--first', None)))
        for k in order:
            r = o.do('getFlagArgOptValue', S(todo[k][0]), S('ARGUMENT_INT'), S('PROPERTY_INT'), S(todo[k][1]))
            c.equal('%s: option %s of %s reads back' % (nm, todo[k][1], todo[k][0]), where(o.f('getFlagArgOptValue', (S(''),) * 4)), r, app('tos', 's', todo[k][2]), o.lab.e.ctx())
    for order in ('fFsS', 'sSfF', 'fsFS', 'sfSF', 'fsSF', 'sfFS'):
        c.group('two integer flags ' + order, lambda: alternately(order))

    def reals(order):
        x2, y2 = sym('x2', 'r'), sym('y2', 'r')
        o = fresh(text(v, asreal=True) + text(w, asreal=True))
        a, b = app('stod', 'r', v), app('stod', 'r', w)
        todo = {'f': ('--first', 'MIN', x), 'F': ('--first', 'MAX', y), 's': ('--second', 'MIN', x2), 'S': ('--second', 'MAX', y2)}
        for k in order:
            opt(o, todo[k][0], 'ARGUMENT_DOUBLE', 'PROPERTY_DOUBLE', todo[k][1], todo[k][2])
        good, other = land(ge(a, x), le(a, y)), land(ge(b, x2), le(b, y2))
        nm = 'two real flags'
        parse(o, nm, ['--first', v, '--second', w], land(good, other), lambda: (reads(o, nm, 'getDouble', '--first', a), reads(o, nm, 'getDouble', '--second', b)))
        parse(o, nm + ', the first', ['-f', v], good, lambda: (reads(o, nm, 'getDouble', '--first', a), reads(o, nm, 'getDouble', '--second', None)))
        parse(o, nm + ', the second', ['-s', w], other, lambda: (reads(o, nm, 'getDouble', '--second', b), reads(o, nm, 'getDouble', '--first', None)))
    for order in ('fFsS', 'fsFS', 'sfSF', 'fsSF', 'sfFS'):
        c.group('two real flags ' + order, lambda: reals(order))

    def texts(order):
        a, b, a2, b2 = (sym(n, 's') for n in ('a', 'b', 'a2', 'b2'))
        o = fresh(text(v) + text(w) + ascending(a, b) + ascending(a2, b2))
        todo = {'f': ('--first', 'STRING_CHOICES', strset(a, b)), 'F': ('--first', 'STRING_CHOICE_ENFORCED', S('true')),
                's': ('--second', 'STRING_CHOICES', strset(a2, b2)), 'S': ('--second', 'STRING_CHOICE_ENFORCED', S('true'))}
        for k in order:
            opt(o, todo[k][0], 'ARGUMENT_STRING', 'PROPERTY_STRING_CHOICE', todo[k][1], todo[k][2])
        good = isin(v, a, b) if 'F' in order else TRUE
        other = isin(w, a2, b2) if 'S' in order else TRUE
        nm = 'two text flags'
        parse(o, nm, ['--first', v, '--second', w], land(good, other), lambda: (reads(o, nm, 'getStr', '--first', v), reads(o, nm, 'getStr', '--second', w)))
        parse(o, nm + ', the first', ['-f', v], good, lambda: (reads(o, nm, 'getStr', '--first', v), reads(o, nm, 'getStr', '--second', None)))
        parse(o, nm + ', the second', ['-s', w], other, lambda: (reads(o, nm, 'getStr', '--second', w), reads(o, nm, 'getStr', '--first', None)))
    for order in ('fFsS', 'fsFS', 'sfSF', 'fsSF', 'fsF', 'fsS'):
        c.group('two text flags ' + order, lambda: texts(order))

    def files(order):
        o = fresh(text(v) + text(w))
        todo = {'f': ('PROPERTY_FILE_EXT', '--first', 'ALLOWED_FILE_EXT', S('.dat')), 'F': ('PROPERTY_FILE_EXIST', '--first', 'FILE_MUST_EXIST', C(1)),
                's': ('PROPERTY_FILE_EXT', '--second', 'ALLOWED_FILE_EXT', strset(S('.dat'), S('.txt'))), 'S': ('PROPERTY_FILE_EXIST', '--second', 'FILE_MUST_EXIST', C(1))}
        for k in order:
            opt(o, todo[k][1], 'ARGUMENT_FILE', todo[k][0], todo[k][2], todo[k][3])
        good = land(*([eq(extension(v), S('.dat'))] + ([exists(v)] if 'F' in order else [])))
        other = land(*([isin(extension(w), '.dat', '.txt')] + ([exists(w)] if 'S' in order else [])))
        nm = 'two file flags'
        parse(o, nm, ['--first', v, '--second', w], land(good, other), lambda: (reads(o, nm, 'getStr', '--first', v), reads(o, nm, 'getStr', '--second', w)))
        # a file that has to exist has to be given
        parse(o, nm + ', the first', ['-f', v], good if 'S' not in order else FALSE, lambda: (reads(o, nm, 'getStr', '--first', v), reads(o, nm, 'getStr', '--second', None)))
        parse(o, nm + ', the second', ['-s', w], other if 'F' not in order else FALSE, lambda: (reads(o, nm, 'getStr', '--second', w), reads(o, nm, 'getStr', '--first', None)))
    for order in ('fFsS', 'fsFS', 'sfF', 'fsS'):
        c.group('two file flags ' + order, lambda: files(order))

    def defaults():
        o = fresh()
        for kind, val, how in (('int', d, 'getInt'), ('double', z, 'getDouble'), ('string', v, 'getStr'), ('unsigned long', q, 'getSize_t')):
            default(o, '--first', val, kind)
            reads(o, 'default', how, '--first', val)
            reads(o, 'default', how, '--second', None)
    c.group('defaults', defaults)

    # ---- set-up
    def setup():
        k, f = sym('k', 's'), sym('f', 's')
        kinds = ('ARGUMENT_INT', 'ARGUMENT_DOUBLE', 'ARGUMENT_STRING', 'ARGUMENT_SWITCH', 'ARGUMENT_FILE')
        o = fresh()
        o.refuses('kind of a new flag', lnot(isin(k, *kinds)), 'addFlagArg', f, k)
        for n in kinds:
            o = fresh()
            o.do('addFlagArg', S('--first'), S(n))
            o.refuses('%s a second time' % n, eq(f, S('--first')), 'addFlagArg', f, S(n))
            o.refuses('another kind than %s' % n, lnot(isin(k, *kinds)), 'addFlagArg', S('--first'), k, unless=eq(k, S(n)))
    c.group('adding', setup)

    def known():
        o = fresh()
        opt(o, '--first', 'ARGUMENT_INT', 'PROPERTY_INT', 'MAX', q)
        opt(o, '--first', 'ARGUMENT_INT', 'PROPERTY_INT', 'MIN', p)
        opt(o, '--second', 'ARGUMENT_INT', 'PROPERTY_INT', 'MIN', d)
        for flag, option, val in (('--first', 'MAX', q), ('--first', 'MIN', p), ('--second', 'MIN', d)):
            r = o.do('getFlagArgOptValue', S(flag), S('ARGUMENT_INT'), S('PROPERTY_INT'), S(option))
            c.equal('option %s of %s reads back' % (option, flag), where(o.f('getFlagArgOptValue', (S(''),) * 4)), r, app('tos', 's', val), o.lab.e.ctx())
        f, k, t, u = (sym(n, 's') for n in 'fktu')
        o.refuses('reading an option', lnot(land(isin(f, '--first', '--second'), eq(k, S('ARGUMENT_INT')), eq(t, S('PROPERTY_INT')), isin(u, 'MIN', 'MAX'))), 'getFlagArgOptValue', f, k, t, u)
    c.group('options read back', known)

    def defined(nm, items, good):
        def go():
            lab = Lab(c)
            e = lab.e
            try:
                Obj(lab, 'ArgumentParser', [definitions(items)], must=False)
                ok = True
            except Dead:
                ok = False
            ct = [g for g in c.funcs('ArgumentParser::ArgumentParser') if len(g.params) == 1]
            wh = where(ct[0]) if ct else ''
            for t in e.exits:
                c.never('definition %s: refused only if wrong' % nm, loc(t.node), e.ctx_of(t.pc).extend(TRUE if good else FALSE))
            if ok:
                c.holds('definition %s: refused if wrong' % nm, wh, TRUE if good else FALSE, e.ctx())
            elif good:
                c.holds('definition %s: accepted' % nm, wh, FALSE, lab.ctx())
        c.group('definition ' + nm, go)
    defined('long name only', ('--long',), True)
    defined('long and short name', ('--long', '-l'), True)
    defined('short name first', ('-l', '--long'), True)
    defined('description first', ('what it does', '--long', '-l'), True)
    defined('long name and description', ('--long', 'what it does'), True)
    defined('short name only', ('-l',), False)
    defined('description only', ('what it does',), False)
    defined('nothing', (), False)
    defined('two long names', ('--long', '--longer'), False)
    defined('two short names', ('--long', '-l', '-m'), False)
    defined('two descriptions', ('--long', 'this', 'that'), False)
    defined('four texts', ('--long', '-l', 'this', 'more'), False)
