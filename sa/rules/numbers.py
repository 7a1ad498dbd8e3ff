"""H03/F04: names of numeric types and what they stand for."""
import re
from core import *
from rules.owners import last, of

N = 'Typelib::Numeric'
KINDS = {'SInt': 'signed integer', 'UInt': 'unsigned integer', 'Float': 'floating point'}
COMMON = ('char', 'signed char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned int', 'long', 'unsigned long', 'long long', 'unsigned long long', 'float', 'double', 'bool', 'void') \
    + tuple('%sint%d_t' % (u, n) for u in ('', 'u') for n in (8, 16, 32, 64))


def flat(t):
    """a term without the versions of what it reads"""
    if not isinstance(t, tuple):
        return t
    if t and t[0] == 'rd' and len(t) == 3:
        return ('rd', flat(t[1]))
    return tuple(flat(x) for x in t)


def text(t, known=None):
    """the pieces of a string: literals and ('num', term); None if it is not understood"""
    while isinstance(t, tuple) and t and t[0] in ('cast', 'tmp', 'ptr', 'addr', 'refto') and len(t) > 1 and isinstance(t[1], tuple):
        t = t[1]
    if not isinstance(t, tuple) or not t:
        return None
    if t[0] == 'str':
        return [t[1]]
    if known is not None and t[0] == 'rd' and t[1] in known:
        return known[t[1]]
    if of(t, ('operator+',)):
        ps = [text(x, known) for x in t[2:]] if t[0] == 'pure' else [text(x, known) for x in t[3:]]
        if len(ps) < 2 or None in ps[-2:]:
            return None
        return join(ps[-2] + ps[-1])
    if of(t, ('lexical_cast', 'to_string')):
        x = t[-1]
        return [str(x[1])] if x[0] == 'int' else [('num', x)]
    if t[0] == 'int' and 32 <= t[1] < 127:
        return [chr(t[1])]
    return None


def join(ps):
    res = []
    for p in ps:
        if res and isinstance(p, str) and isinstance(res[-1], str):
            res[-1] += p
        else:
            res.append(p)
    return res


def means(name):
    """(size, kind) of the C type of this name on this machine (LP64, plain char signed)"""
    m = re.match(r'^(u?)int(8|16|32|64)_t$', name)
    if m:
        return int(m.group(2)) // 8, 'UInt' if m.group(1) else 'SInt'
    ws = name.split()
    if not ws or not set(ws) <= {'signed', 'unsigned', 'char', 'short', 'int', 'long', 'float', 'double', 'bool', 'wchar_t', 'size_t', 'ssize_t'}:
        return None
    if name in ('float', 'double', 'bool', 'wchar_t', 'long double', 'size_t', 'ssize_t'):
        return {'float': (4, 'Float'), 'double': (8, 'Float'), 'bool': (1, 'UInt'), 'wchar_t': (4, 'SInt'), 'long double': (16, 'Float'), 'size_t': (8, 'UInt'), 'ssize_t': (8, 'SInt')}[name]
    size = 1 if 'char' in ws else 2 if 'short' in ws else 8 if 'long' in ws else 4
    return size, 'UInt' if 'unsigned' in ws else 'SInt'


def kinds(ctx):
    e = ctx.P.enums.get(N + '::NumericCategory')
    ctx.need(e, 'numeric categories not found')
    return {c['v']: c['n'] for c in e['consts']}


def standard(ctx):
    """every numeric type made under a standard name has the width and kind of the name, every alias too"""
    ks = kinds(ctx)
    P = ctx.P
    fs = []
    for f in P.functions.values():
        if 'body' not in f or f['file'].startswith('/usr') or not f['file'].startswith('lang/csupport'):
            continue
        for n in walk_ast(f['body']):
            if n['k'] == 'ctor' and n.get('cls', '') == N or n['k'] == 'new' and N in str(n.get('ty', n.get('t', ''))) or n['k'] == 'call' and n.get('qn') == 'Typelib::Registry::alias':
                fs.append(f)
                break
    ctx.need(fs, 'no function makes numeric types')
    made = 0; aliased = 0
    names = set(); open_ = False

    def numeric(wh, e):
        nonlocal made, open_
        nm = text(e.args[0])
        size, kind = e.args[1], ks.get(e.args[2][1]) if e.args[2][0] == 'int' else None
        txt = 'a number registered under a standard name has its width and kind'
        if nm is None or kind is None:
            open_ = True
            ctx.unk(wh, txt, 'name %s' % show(e.args[0])[:80])
            return
        made += 1
        if len(nm) == 1:
            names.add(nm[0].lstrip('/'))
            want = means(nm[0].lstrip('/'))
            if want is None:
                return
            ctx.check((size == I(want[0]) if size[0] == 'int' else None) and kind == want[1], wh, txt, '%s is made as a %s of %s bytes' % (nm[0], KINDS.get(kind, kind), show(size)))
            return
        if len(nm) == 3 and nm[2] == '_t' and nm[0] in ('/int', '/uint') and isinstance(nm[1], tuple):
            w = flat(nm[1][1]); s = flat(size)
            c, ps = lin_parts(w)
            c2, ps2 = lin_parts(s)
            ok = c == 8 * c2 and {x: 8 * k for x, k in ps2} == dict(ps)
            ctx.check(ok if ps and ps2 and (ok or {x for x, k in ps} == {x for x, k in ps2}) else None, wh, txt, 'a type of %s bytes is named after %s bits' % (show(size)[:50], show(nm[1][1])[:60]))
            ctx.check((nm[0] == '/uint') == (kind == 'UInt') and kind != 'Float', wh, txt, '%s..._t is a %s' % (nm[0], KINDS.get(kind, kind)))
        else:
            ctx.unk(wh, txt, 'name %s' % show(e.args[0])[:80])

    def alias(wh, e):
        nonlocal aliased, open_
        base, new = text(e.args[0]), text(e.args[1])
        txt = 'a standard name stands for a type of its width and kind'
        if new is None or len(new) != 1:
            open_ = True
            if base is not None:
                ctx.unk(wh, txt, 'name %s' % show(e.args[1])[:80])
            return
        names.add(new[0].lstrip('/'))
        if new[0] == '/void':
            ctx.check(base == ['/nil'], wh, txt, '%s stands for %s' % (new[0], base))
            return
        want = means(new[0].lstrip('/'))
        if want is None:
            return
        aliased += 1
        if base is None or len(base) != 1:
            ctx.unk(wh, txt, 'the type is %s' % show(e.args[0])[:80])
            return
        got = means(base[0].lstrip('/'))
        ctx.check(got == want if got else False, wh, txt, '%s stands for %s' % (new[0], base[0]))

    for f in fs:
        outs = ctx.run(f, opaque=lambda g: g.get('cls') == 'Typelib::Registry' or g.get('ctor') and g['cls'] == N or g.get('cls', '').startswith('Typelib::') and not g['file'].startswith('lang/csupport'))
        seen = set()
        for o in outs:
            for e, _o, l in eventsof([o]):
                key = (e.line, e.k, flat(tuple(e.d.get('args', ()))))
                if key in seen:
                    continue
                seen.add(key)
                wh = ctx.at(e)
                if e.k == 'ctor' and e.qn == N + '::Numeric' and len(e.args) == 3:
                    numeric(wh, e)
                elif e.k == 'call' and e.qn == 'Typelib::Registry::alias' and len(e.args) >= 2:
                    alias(wh, e)
    ctx.need(made, 'no numeric type is made')
    ctx.need(aliased, 'no standard name is registered')
    main = [f for f in fs if f['n'] == 'addStandardTypes'] or fs
    for n in COMMON:
        wild = re.match(r'^u?int\d+_t$', n)
        if n in names:
            ctx.ok(ctx.where(main[0]), 'the common standard names are registered')
        elif not wild:
            ctx.check(None if open_ else False, ctx.where(main[0]), 'the common standard names are registered', '%s is not' % n)


IDLNAMES = {(1, 'SInt'): ('octet',), (1, 'UInt'): ('octet',), (2, 'SInt'): ('short',), (2, 'UInt'): ('unsigned short',), (4, 'SInt'): ('long',), (4, 'UInt'): ('unsigned long',),
            (8, 'SInt'): ('long long',), (8, 'UInt'): ('unsigned long long',), (4, 'Float'): ('float',), (8, 'Float'): ('double',)}
STR = 'std::basic_string'


def written(ctx, o, member):
    """the text in a member at the end of a path"""
    val = {}
    for e in o.events:
        if e.k == 'store':
            r = text(e.val, val)
            val[e.loc] = r
        elif e.k == 'call' and e.obj is not None and e.obj[0] == 'addr' and e.qn.startswith(STR):
            loc = e.obj[1]
            n = last(e.qn)
            if n in ('operator+=', 'append', 'push_back') and len(e.args) == 1:
                a = text(e.args[0], val)
                b = val.get(loc, [''] if loc[0] == 'var' or loc[:1] == ('fld',) else None)
                val[loc] = join(b + a) if a is not None and b is not None else None
            elif n in ('operator=', 'assign') and len(e.args) == 1:
                val[loc] = text(e.args[0], val)
            elif n == 'clear':
                val[loc] = ['']
            elif n in ('insert', 'replace', 'erase', 'resize', 'pop_back', 'swap'):
                val[loc] = None
    for loc, v in val.items():
        if loc[0] == 'fld' and loc[2] == member:
            return v
    return ['']


def idlnames(ctx):
    """each number is written as the IDL type of its width, kind and sign"""
    ks = kinds(ctx)
    fs = [f for f in ctx.P.functions.values() if 'body' in f and f['file'].startswith('lang/idl') and f['n'] == 'visit_' and N in f['params'][0]['t'] and 'Identifier' in f['qn']]
    ctx.need(len(fs) == 1, 'the function that names numbers in IDL')
    f = fs[0]
    cls = ctx.P.records.get(f['cls'])
    outs = [o for o in ctx.run(f, merge=False) if o.kind in ('return', 'throw')]
    txt = 'a number is written as the IDL type of its width, kind and sign'
    prm = ('sym', f['params'][0]['n'])

    def term(o, fields, getters):
        res = []
        for a in o.facts:
            has_sub(a, lambda y: res.append(y) or False if isinstance(y, tuple) and y and (y[0] == 'rd' and y[1][0] == 'fld' and y[1][2].split('@')[0] in fields and has_sub(y, lambda z: z == prm)
                                                                                       or of(y, getters) and has_sub(y, lambda z: z == prm)) else False)
        return set(res)

    n = 0
    for v, kind in sorted(ks.items()):
        if kind not in KINDS:
            continue
        for size in (1, 2, 4, 8):
            if (size, kind) not in IDLNAMES:
                # IDL has no such number; the statement is about those it has
                continue
            for o in outs:
                m = {t: I(v) for t in term(o, ('m_category',), ('getNumericCategory',)) if '@Numeric' in str(t) or of(t, ('getNumericCategory',))}
                m.update({t: I(size) for t in term(o, ('m_size',), ('getSize',))})
                if not fact_ok(o.facts, m):
                    continue
                isbool = [w for a, w in o.facts.items() if a[0] == 'eq' and has_sub(a, lambda y: y == ('str', '/bool'))]
                if isbool and isbool[0] and (size, kind) != (1, 'UInt'):
                    continue
                wh = ctx.where(f)
                n += 1
                want = ('boolean',) if isbool and isbool[0] else IDLNAMES.get((size, kind))
                if o.kind == 'throw':
                    ctx.bad(wh, txt, 'a %s of %d bytes is refused' % (KINDS[kind], size))
                    continue
                got = written(ctx, o, 'm_front')
                if got is not None and len(got) == 1:
                    ctx.check(got[0].strip() in want, wh, txt, "a %s of %d bytes is written as '%s'" % (KINDS[kind], size, got[0]))
                else:
                    ctx.unk(wh, txt, 'not understood: %s' % (got,))
    ctx.need(n, 'no path names a number')
