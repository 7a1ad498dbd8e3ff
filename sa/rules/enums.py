"""A13: the bytes an enumeration is initialised with are those of one of its symbols."""
import sys
from core import *
from rules.layout import *
from rules import compiler as K
from rules.endian import bits

VALUES = 'm_values'


def symbol(t):
    """the term is the value of an entry of the symbol table"""
    return isinstance(t, tuple) and t[0] == 'rd' and t[1][0] == 'fld' and t[1][2] == 'second' and has_sub(t[1][1], lambda x: x[0] == 'fld' and x[2] == VALUES or x[0] == 'pure' and sq(x[1]).endswith('Enum::values'))


def past_end(t):
    """the entry behind the last one"""
    x = t[1][1]
    return x[0] == 'deref' and x[1][0] in ('pure', 'res') and str(x[1][1 if x[1][0] == 'pure' else 2]).endswith(('::end', '::cend'))


def size_of(t, tsym):
    return K.is_sizeof_type(t, tsym) or t[0] == 'rd' and t[1] == ('fld', deref(tsym), 'm_size')


def with_size(t, tsym, n):
    return subst(t, {x: I(n) for x in subterms(t) if size_of(x, tsym)})


def holds(a, v):
    """a fact on constants: is it true?"""
    x = a[1]
    if x[0] != 'int':
        return None
    return (x[1] == 0) == v if a[0] == 'eq' else (x[1] < 0) == v if a[0] == 'lt' else None


def unrolled(e, tsym, n, vec, inits):
    """the bytes a loop leaves in the vector: {index: bits}, None if not understood"""
    cur = {s: inits.get(s, v) for s, v in e.init.items()}
    data = {}
    for k in range(n + 2):
        went = False
        for i in e.iters:
            if i.kind not in ('continue',):
                return None
            # the condition of the loop for this round
            ok = True
            for a, v in i.facts.items():
                if a[0] in ('eq', 'lt') and any(has_sub(a, lambda x: x == s) for s in cur):
                    h = holds((a[0], with_size(subst(a[1], cur), tsym, n)), v)
                    if h is None:
                        return None
                    ok = ok and h
            if not ok:
                continue
            went = True
            for x in i.events:
                if x.k == 'store' and x.loc[0] in ('elt', 'idx') and has_sub(x.loc, lambda y: y == vec):
                    j = with_size(subst(x.loc[2], cur), tsym, n)
                    if j[0] != 'int':
                        return None
                    data[j[1]] = subst(x.val, cur)
                elif x.k not in ('store', 'index', 'decl', 'call'):
                    return None
            nxt = {}
            for s in cur:
                l = e.d['symloc'].get(s)
                if e.step.get(s) is not None:
                    nxt[s] = add(cur[s], e.step[s])
                    continue
                v = i.st.heap.get(l)
                if v is None:
                    ws = [x for x in i.events if x.k == 'store' and x.loc == l]
                    v = ws[-1].val if ws else s
                nxt[s] = subst(v, cur)
            cur = nxt
            break
        if not went:
            return data
    return None


def initial(ctx):
    cls, lf = K.visitor_class(ctx)
    f = K.visit_of(ctx, cls, 'Enum').get('Typelib::Enum')
    ctx.need(f is not None, 'no handler for enumerations')
    wh = ctx.where(f)
    tsym = ('sym', f['params'][0]['n'])
    n = 4
    text = 'an enumeration is initialised with the value of one of its symbols'
    seen = 0
    for o in ctx.run(f, opaque=lambda g: g['n'] in ('pushMemcpy',), signs='bits', merge=False):
        if o.kind != 'return':
            continue
        none = any(a[0] == 'eq' and v and has_sub(a[1], lambda x: x[0] == 'fld' and x[2] == VALUES) and any(t[0] == 'pure' and str(t[1]).endswith(('::size', '::empty', '::begin')) for t, k in lin_parts(a[1])[1]) for a, v in o.facts.items())
        ps = [e for e in o.events if e.k == 'call' and last_(e.qn) == 'pushMemcpy']
        if len(ps) != 1:
            ctx.check(None, wh, text, '%d blocks pushed' % len(ps))
            continue
        seen += 1
        p = ps[0]
        vec = p.locs[1] if len(p.locs) > 1 else None
        if len(p.args) < 2 or vec is None or p.args[1][0] == 'empty':
            ctx.check(True if none else False, wh, text, 'no initial bytes though there are symbols')
            continue
        if none:
            ctx.check(None, wh, text, 'an enumeration without symbols')
            continue
        # the vector has the size of the type
        rs = [e for e in o.events if e.k == 'call' and last_(e.qn) in ('resize', 'assign') and e.obj == ('addr', vec)]
        ctor = [e for e in o.events if e.k == 'decl' and e.loc == vec]
        ls = [e for e in o.events if e.k == 'loop']
        if any(e.k == 'loop0' for e in o.events) and not ls:
            continue          # the loop body is not entered: not for a type of 4 bytes
        data = {}
        src = set()
        for e in ls:
            for x in [x for i in e.iters for x in i.events if x.k == 'store'] + [None]:
                if x is not None:
                    src |= {y for y in subterms(x.val) if symbol(y)}
            src |= {y for v in e.init.values() for y in subterms(v) if symbol(y)}
            d = unrolled(e, tsym, n, vec, {})
            data = None if d is None or data is None else {**data, **d}
        mem = [e for e in o.events if e.k == 'call' and last_(e.qn) in ('memcpy', 'copy', '__builtin_memcpy', 'assign', 'memmove')]
        if data is None or mem or not ls:
            ctx.check(None, wh, text, 'the bytes could not be followed')
            continue
        if len(src) != 1:
            ctx.check(False if not src and all(has_sub(v, lambda x: False) or v[0] == 'int' for v in data.values()) else None, wh, text, 'the bytes are not taken from a symbol')
            continue
        s = src.pop()
        ctx.check(not past_end(s), wh, text, 'it is the entry behind the last symbol')
        for k in range(n):
            want = [('b', 8 * (k if sys.byteorder == 'little' else n - 1 - k) + j) for j in range(8)]
            if k not in data:
                ctx.bad(wh, text, 'byte %d is not set' % k)
                continue
            got = bits(data[k], s, 32)[:8]
            ctx.check(True if got == want else None if None in got else False, wh, text, 'byte %d is %s' % (k, show(data[k])[:80]))
        extra = [k for k in data if k >= n or k < 0]
        ctx.check(not extra, wh, 'no byte behind the value is written', str(extra))
        for e in rs:
            if last_(e.qn) == 'resize':
                ctx.check(True if size_of(e.args[0], tsym) else None, wh, 'there are as many initial bytes as the value has', show(e.args[0]))
    ctx.need(seen >= 2, 'initial bytes of enumerations not found')


def last_(q):
    return sq(q).rsplit('::', 1)[-1]
