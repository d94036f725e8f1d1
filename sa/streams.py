"""Text input: files as sequences of lines, streams over a text."""
from .terms import *
from .terms import _mk
from . import terms as tm
from . import types as ty

# a file stream: the lines of the file, index of the next line, flags.
# Every line of a file ends with a line break.
FIELDS = (('lines', 'v'), ('pos', 'i'), ('ok', 'b'), ('eof', 'b'))


def fstream(lines, pos=ZERO, ok=TRUE, eof=FALSE):
    return _mk('struct', ('fstream', (('lines', lines), ('pos', pos), ('ok', ok), ('eof', eof))), 'o')


def closed():
    return fstream(vec(ZERO, fill(EMPTY)))


def sstream(text, ok=TRUE, eof=FALSE):
    if ok is TRUE and eof is FALSE:
        return app('stream', 'o', text)
    return app('stream', 'o', text, ok, eof)


def is_file(v):
    return v.op == 'struct' and v.args[0] == 'fstream'


def is_text(v):
    return v.op == 'app' and v.args[0] == 'stream' and len(v.args) > 1 and v.args[1].sort == 's'


def parts(v):
    """text, ok, eof of a stream over a text"""
    return v.args[1], v.args[2] if len(v.args) > 2 else TRUE, v.args[3] if len(v.args) > 3 else FALSE


def flags(v):
    if is_file(v):
        d = dict(v.args[1])
        return d['ok'], d['eof']
    if is_text(v):
        return parts(v)[1:]
    t = top('stream state', 'b')
    return t, t


def open_file(eng, l, path):
    f = eng.opts.get('files')
    lines = f(eng, path) if f else None
    eng.write(l, fstream(lines) if lines is not None else top('stream of an unknown file', 'o'))


def next_line(eng, l, s):
    """getline: the next line of the stream at l into the text at s"""
    v = eng.read(l)
    if not is_file(v):
        eng.write(s, top('text read from a stream', 's'))
        if v.op != 'top':
            eng.write(l, top('stream after reading a line', 'o'))
        return
    d = dict(v.args[1])
    n = vlen(d['lines'])
    have = eng.simp(land(d['ok'], lt(d['pos'], n)))
    end = eng.simp(land(d['ok'], ge(d['pos'], n)))
    old = eng.read(s)
    line = EMPTY
    if have is not FALSE:
        line = sel(varr(d['lines']), (d['pos'],), 's', eng.ctx())
    eng.write(s, ite(have, line, ite(end, EMPTY, old)))
    eng.write(l, fstream(d['lines'], ite(have, add(d['pos'], ONE), d['pos']), land(d['ok'], lnot(end)), lor(d['eof'], end)))


def first_word(eng, s):
    """(word, rest) of a text known well enough; (None, '') if it has no word; None if not known"""
    ctx = eng.ctx()
    lib = eng.lib
    ps = lib.pieces(s)
    cur = []
    for i, p in enumerate(ps):
        if p is EMPTY:
            continue
        if p.op == 'str':
            t = p.args[0]
            k = 0
            if not cur:
                while k < len(t) and t[k] in lib.BLANKS:
                    k += 1
            e = k
            while e < len(t) and t[e] not in lib.BLANKS:
                e += 1
            if e > k:
                cur.append(S(t[k:e]))
            if e < len(t):
                return cat(*cur), cat(S(t[e:]), *ps[i + 1:])
        elif lib.blankfree(ctx, p) and (cur or lib.filled(ctx, p)):
            cur.append(p)
        else:
            return None
    return (cat(*cur), EMPTY) if cur else (None, EMPTY)


def extract(eng, l, t, node, tt):
    """stream >> place t"""
    v = eng.read(l)
    so = ty.sort(tt)

    def unknown():
        eng.write(t, top('text read from a stream', so))
        if is_text(v) or is_file(v):
            eng.write(l, top('stream after reading', 'o'))
    if not is_text(v):
        return unknown()
    s, ok, eof = parts(v)
    if eof not in (TRUE, FALSE) or ok not in (TRUE, FALSE):
        return unknown()
    if ok is FALSE or eof is TRUE:
        eng.write(l, sstream(s, FALSE, eof))
        if so in 'ir' and ok is TRUE and so != 's':
            return
        return
    w = first_word(eng, eng.ctx().simp(s))
    if w is None:
        return unknown()
    word, rest = w
    if word is None:
        eng.write(l, sstream(EMPTY, FALSE, TRUE))
        return
    if so == 's':
        val = word
    elif so == 'r' and eng.simp(app('isnumstr', 'b', word)) is TRUE and (not isconst(word) or tm.whole_number(word.args[0])):
        val = app('stod', 'r', word)
    elif so == 'i' and ty.kind(tt)[0] == 'i' and isconst(word) and word.args[0].lstrip('+-').isdigit():
        val = app('stoi', 'i', word)
    else:
        return unknown()
    eng.write(t, val)
    eng.write(l, sstream(rest, TRUE, Bc(rest is EMPTY)))


def member(eng, name, l, args, n):
    """member function of an input stream"""
    v = eng.read(l)
    ok, eof = flags(v)
    if name in ('operator bool',):
        return ok
    if name in ('fail', 'operator!'):
        return lnot(ok) if ok.op != 'top' else ok
    if name == 'eof':
        return eof
    if name == 'good':
        return land(ok, lnot(eof)) if ok.op != 'top' else ok
    if name == 'bad':
        return FALSE if ok.op != 'top' else ok
    if name == 'clear' and not args:
        if is_file(v):
            d = dict(v.args[1])
            eng.write(l, fstream(d['lines'], d['pos']))
        elif is_text(v):
            eng.write(l, sstream(parts(v)[0]))
        return None
    if name == 'str' and is_text(v):
        if args:
            eng.write(l, sstream(args[0], ok, eof))
            return None
        return parts(v)[0]
    if name == 'str':
        if args:
            eng.write(l, top('stream', 'o'))
            return None
        return top('stream content', 's')
    if name == 'open' and args and args[0].sort == 's':
        open_file(eng, l, args[0])
        return None
    if name == 'close':
        if is_file(v):
            d = dict(v.args[1])
            eng.write(l, fstream(vec(ZERO, fill(EMPTY)), ZERO, d['ok'], d['eof']))
        return None
    if name == 'is_open':
        return top('stream state', 'b')
    if name == 'tellg' and is_file(v):
        d = dict(v.args[1])
        eng.write(l, fstream(d['lines'], d['pos'], land(d['ok'], lnot(d['eof'])), d['eof']))
        return ite(land(d['ok'], lnot(d['eof'])), d['pos'], MONE)
    if name == 'seekg' and is_file(v) and len(args) == 1 and args[0].sort == 'i':
        d = dict(v.args[1])
        p = args[0]
        eng.write(l, fstream(d['lines'], ite(land(d['ok'], ge(p, ZERO)), p, d['pos']), land(d['ok'], ge(p, ZERO)), FALSE))
        return None
    if name == 'ignore' and is_file(v):
        eng.write(l, top('stream after skipping', 'o'))
        return None
    if is_file(v) or is_text(v):
        eng.write(l, top('stream member ' + name, 'o'))
    return top('stream member ' + name, ty.sort(n.t))
