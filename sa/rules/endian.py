"""B01, B02: byte order conversion."""
import sys
from core import *
from rules.layout import *
from rules import words as W

NS = 'Typelib::Endian::'
CLS = 'Typelib::CompileEndianSwapVisitor'


# ------------------------------------------------------------------ bits
def bits(t, src, width):
    """the value of t as a list of 64 bits, each 0, 1, ('b', i): bit i of src, or None"""
    Z = [0] * 64
    if t == src:
        return [('b', i) for i in range(width)] + [0 if width < 64 else None] * (64 - width)
    k = t[0]
    if k == 'int':
        v = t[1] & (1 << 64) - 1
        return [v >> i & 1 for i in range(64)]
    if k == 'trunc' and isinstance(t[1], int):
        b = bits(t[2], src, width)
        return b[:8 * t[1]] + [0] * (64 - 8 * t[1])
    if k == 'conv':
        b = bits(t[4], src, width)[:8 * t[1]]
        b = b + [b[-1] if t[2] else 0] * (64 - len(b))
        return b[:8 * t[3]] + [0] * (64 - 8 * t[3])
    if k == 'cast':
        return bits(t[-1], src, width)
    if k == 'lin':
        acc = bits(I(t[1]), src, width)
        for x, c in t[2]:
            if c <= 0 or c & (c - 1):
                return [None] * 64
            s = c.bit_length() - 1
            b = ([0] * s + bits(x, src, width))[:64]
            acc = [m if n == 0 else n if m == 0 else None for m, n in zip(acc, b)]
        return acc
    if k == 'op' and len(t) == 4:
        op, a, b = t[1], t[2], t[3]
        if op in ('<<', '>>'):
            if b[0] != 'int' or not 0 <= b[1] < 64:
                return [None] * 64
            x = bits(a, src, width)
            n = b[1]
            return ([0] * n + x)[:64] if op == '<<' else (x + Z)[n:n + 64]
        x, y = bits(a, src, width), bits(b, src, width)
        res = []
        single = lambda z: isinstance(z, tuple) and z[0] == 'b'
        for m, n in zip(x, y):
            if op in ('|', '&', '^') and single(m) and single(n) and m != n:
                res.append(('mix',))             # depends on two bits, is neither of them
            elif op == '|':
                res.append(1 if 1 in (m, n) else m if n == 0 or m == n and m != ('mix',) else n if m == 0 else None)
            elif op == '&':
                res.append(0 if m == 0 or n == 0 else m if n == 1 or m == n and m != ('mix',) else n if m == 1 else None)
            elif op == '^':
                res.append(m if n == 0 else n if m == 0 else 0 if m == n and single(m) else (1 - m) if n == 1 and m in (0, 1) else None)
            else:
                res.append(None)
        return res
    if k in ('res', 'pure', 'call') and any(isinstance(x, str) and 'builtin_bswap' in x for x in t):
        n = int([x for x in t if isinstance(x, str) and 'builtin_bswap' in x][0].rsplit('bswap', 1)[1])
        b = bits(t[-1], src, width)
        return sum((b[i:i + 8] for i in range(n - 8, -1, -8)), []) + [0] * (64 - n)
    return [None] * 64


def reversed_bits(n):
    return [('b', 8 * (n - 1 - i // 8) + i % 8) for i in range(8 * n)]


def verdict(got, want):
    """True/False/None"""
    g = got[:len(want)]
    if g == want:
        return True
    return None if None in g else False


def bits_verdict(t, src, n, rev=True):
    return verdict(bits(t, src, 8 * n), reversed_bits(n) if rev else [('b', i) for i in range(8 * n)])


def tsize(ctx, t):
    return (ctx.P.types.get(strip(ctx, t)) or {}).get('size')


def swaps(ctx):
    """B01"""
    little = sys.byteorder == 'little'
    n = 0
    for name in ('swap', 'to_big', 'from_big', 'to_network', 'from_network', 'to_little', 'from_little'):
        rev = name == 'swap' or (('little' in name) != little)
        for f in ctx.fn(NS + name):
            ps = f['params']
            size = tsize(ctx, ps[0]['t'])
            ti = ctx.P.types.get(strip(ctx, ps[0]['t'])) or {}
            if size is None or ti.get('k') not in ('int', 'float', 'bool', 'enum'):
                ctx.unk(ctx.where(f), 'the bytes are %s' % ('reversed' if rev else 'kept'), ps[0]['t'])
                continue
            n += 1
            src = ('sym', ps[0]['n'])
            text = '%s of %s: the bytes are %s' % (name, strip(ctx, ps[0]['t']), 'reversed' if rev else 'kept')
            for o in ctx.run(f, signs='bits'):
                if o.kind != 'return':
                    ctx.bad(ctx.where(f), text, o.kind)
                    continue
                if len(ps) == 1:
                    v = o.val
                else:
                    v = None
                    for e in o.events:
                        if e.k == 'store' and (e.loc == deref(('sym', ps[1]['n'])) or e.loc == ('deref', ('refto', ('sym', ps[1]['n']))) or e.loc == ('sym', ps[1]['n'])):
                            v = e.val
                    if v is None:
                        for h, x in o.st.heap.items():
                            if h[0] == 'deref' and has_sub(h, lambda y: y == ('sym', ps[1]['n'])) or h == ('var', ps[1]['n']):
                                v = x
                if v is None:
                    ctx.unk(ctx.where(f), text, 'no result seen')
                    continue
                r = bits_verdict(v, src, size, rev)
                ctx.check(r, ctx.where(f), text, show(v)[:200])
    ctx.need(n >= 20, 'only %d instances of the byte order functions seen' % n)


# ------------------------------------------------------------------ the compiled form
def opcode_values(ctx):
    res = {}
    for n in ('FLAG_SKIP', 'FLAG_ARRAY', 'FLAG_END', 'FLAG_SWAP_4', 'FLAG_SWAP_8'):
        v = W.const_of(ctx, ('glob', CLS + '::' + n))
        if v[0] == 'int':
            res[n] = v[1]
    ctx.need('FLAG_SKIP' in res and 'FLAG_END' in res and 'FLAG_ARRAY' in res, 'opcodes of the swap compiler not found')
    return res


def sfield(t, *names):
    """t reads a field of that name (or calls that accessor)"""
    return t[0] == 'rd' and t[1][0] == 'fld' and t[1][2] in names or t[0] == 'pure' and sq(t[1]).rsplit('::', 1)[-1] in names or t[0] == 'fldv' and t[2] in names


def nested_visits(ctx):
    def nested(en, st, c):
        last = c.name.rsplit('::', 1)[-1]
        if c.name in ('Typelib::TypeVisitor::dispatch', 'Typelib::TypeVisitor::apply', CLS + '::dispatch') or last == 'visit_' and c.e.get('n') == 'visit_':
            f = ctx.P.functions.get(c.e.get('fn')) or {}
            if last == 'visit_' and f and f.get('cls') == 'Typelib::TypeVisitor' and not c.e.get('virt'):
                return None        # the base class version: followed
            o = c.ol if c.ol is not None else deref(c.obj)
            vec = ('fld', o, 'm_compiled')
            st = st.copy()
            idx = en.load(st, ('fld', o, 'm_output_index'), 'unsigned long')
            # what the nested visit does to the index
            en.havoc(st, ('fld', o, 'm_output_index'))
            tgt = c.locs[-1] if c.locs and c.locs[-1] is not None else c.vals[-1]
            return st, vec, dict(target=tgt, index=idx)
        return None
    return nested


OPAQ = ('Typelib::Type::getName', 'Typelib::Type::getSize', 'Typelib::Indirect::getIndirection', 'Typelib::Array::getDimension', 'Typelib::Field::getOffset', 'Typelib::Field::getType',
        'Typelib::Compound::getFields', 'Typelib::Type::getCategory')


def run(ctx, f):
    return ctx.run(f, hook=W.hook_for(ctx, nested_visits(ctx)), opaque=lambda g: sq(g['qn']) in OPAQ)


def visit_fn(ctx, tname):
    r = [f for f in ctx.fn(CLS + '::visit_') if len(f['params']) == 1 and strip(ctx, f['params'][0]['t']) == 'Typelib::' + tname]
    return r[0] if len(r) == 1 else None


THIS = ('sym', 'this')


def vec_of(o):
    for h in o.st.heap:
        if h[0] == 'fld' and h[2] == W.SIZE and h[1][0] == 'fld' and h[1][2] == 'm_compiled':
            return h[1]
    return None


def decode(ws, ops, out):
    """words -> list of ('skip', n) ('swap', k) ('idx', term relative to the index of the byte written), or None"""
    res = []
    i = 0
    pos = ZERO
    while i < len(ws):
        w = ws[i]
        if w == I(ops['FLAG_SKIP']):
            if i + 1 >= len(ws):
                return None
            res.append(('skip', ws[i + 1])); pos = add(pos, ws[i + 1]); i += 2
        elif w in (I(ops.get('FLAG_SWAP_4', -1)), I(ops.get('FLAG_SWAP_8', -1))):
            k = 4 if w == I(ops.get('FLAG_SWAP_4', -1)) else 8
            res.append(('swap', k)); pos = add(pos, I(k)); i += 1
        elif w[0] == 'int' and w[1] > 1 << 60 or w[0] == 'unk':
            return None
        else:
            res.append(('idx', sub(sub(w, out), pos))); pos = add(pos, I(1)); i += 1
    return res


def reverses(dec, k):
    """does the decoded code reverse k bytes?"""
    if dec == [('swap', k)] or k == 1 and dec == [('skip', I(1))]:
        return True
    return dec is not None and len(dec) == k and all(d[0] == 'idx' for d in dec) and [d[1] for d in dec] == [I(k - 1 - 2 * i) for i in range(k)]


def appended(ctx, o, ops, start_st=None, start=None, vec=None):
    """what was appended between two states: ('words', [..]) or ('merged', n): the SKIP at the end got longer by n"""
    vec = vec or vec_of(o)
    if vec is None:
        # nothing pushed; perhaps the last word was changed
        vec = ('fld', deref(THIS), 'm_compiled')
    s0 = start if start is not None else W.base_size(vec)
    s1 = W.wsize(o.st, vec)
    ws = W.words_between(ctx, o.st, vec, s0, s1)
    last = ('elt', vec, sub(s0, I(1)))
    merged = None
    for e in o.events:
        if e.k == 'store' and e.loc == last:
            before = [w for w in (o.st.heap.get(('elt', vec, sub(s0, I(2)))),) if w is not None]
            op = ('rd', ('elt', vec, sub(s0, I(2))))
            isskip = any(a[0] == 'eq' and v and lin_parts(a[1])[0] == -ops['FLAG_SKIP'] and any(x[0] == 'rd' and x[1] == op[1] for x, k in lin_parts(a[1])[1]) for a, v in o.facts.items())
            isskip = isskip or before == [I(ops['FLAG_SKIP'])]
            merged = sub(e.val, e.old) if isskip and e.d.get('old') is not None else ('unk', 'last word changed')
    return ws, merged


def size_fact(o):
    """the value getSize() has on this path, as the facts say"""
    for a, v in o.facts.items():
        if a[0] == 'eq' and v:
            c, parts = lin_parts(a[1])
            if len(parts) == 1 and sfield(parts[0][0], 'getSize', 'm_size') and parts[0][1] in (1, -1):
                return -c * parts[0][1]
    return None


def compile_rule(ctx):
    """B02: the compiler of swap plans"""
    ops = opcode_values(ctx)
    for t in ('OpaqueType', 'Pointer', 'Container'):
        f = visit_fn(ctx, t)
        if f is None:
            # not overridden: the base class accepts it
            ctx.bad(CLS, '%s is refused' % t, 'the visitor has no handler for it')
            continue
        for o in run(ctx, f):
            ctx.check(o.kind == 'throw', ctx.where(f), '%s is refused' % t, 'the visitor returns')
    # numbers
    f = visit_fn(ctx, 'Numeric')
    ctx.need(f is not None, 'no handler for numbers')
    wh = ctx.where(f)
    handled = set()
    outs = run(ctx, f)
    out = ('rd', ('fld', deref(THIS), 'm_output_index'))
    for o in outs:
        if o.kind != 'return':
            continue
        k = size_fact(o)
        ws, merged = appended(ctx, o, ops)
        if k is None:
            ctx.unk(wh, 'the code for a number reverses its bytes', 'size not known on a path')
            continue
        handled.add(k)
        if k == 1 and merged is not None and not ws:
            ctx.check(merged == I(1), wh, 'the code for a number of 1 bytes leaves 1 byte as it is', 'skips %s' % show(merged))
            continue
        base = index_of(o, ws)
        dec = decode(ws, ops, base) if ws is not None else None
        ctx.check(None if dec is None else bool(reverses(dec, k)), wh, 'the code for a number of %d bytes reverses its bytes' % k, str([(d[0], show(d[1]) if isinstance(d[1], tuple) else d[1]) for d in dec or []]))
    ctx.check({1, 2, 4, 8} <= handled, wh, 'numbers of 1, 2, 4 and 8 bytes can be swapped', 'handled: %s' % sorted(handled))
    # enums
    f = visit_fn(ctx, 'Enum')
    if f is None:
        ctx.bad(CLS, 'the code for an enumeration reverses its bytes', 'no handler')
    else:
        enum(ctx, ops, f)
    f = visit_fn(ctx, 'Compound')
    ctx.need(f is not None, 'no handler for compounds')
    compound(ctx, ops, f)
    f = visit_fn(ctx, 'Array')
    ctx.need(f is not None, 'no handler for arrays')
    array(ctx, ops, f)
    # entry point
    for f in ctx.fn(CLS + '::apply'):
        for o in run(ctx, f):
            bl = [e for e in o.events if e.k == 'block']
            if o.kind != 'return':
                continue
            ctx.check(len(bl) == 1 and bl[0].d.get('at') == ZERO and bl[0].index == ZERO, ctx.where(f), 'a plan starts empty and at the first byte', 'starts at %s' % [(show(e.at), show(e.index)) for e in bl])


def index_of(o, ws):
    """the term of m_output_index at entry"""
    for w in ws or []:
        for t in subterms(w):
            if t[0] == 'rd' and t[1][0] == 'fld' and t[1][2] == 'm_output_index':
                return t
    return ('rd', ('fld', deref(THIS), 'm_output_index'), 0)


def enum(ctx, ops, f):
    wh = ctx.where(f)
    for o in run(ctx, f):
        if o.kind != 'return':
            ctx.check(o.kind == 'throw' and False, wh, 'enumerations can be swapped', 'throws')
            continue
        Ls = [e for e in o.events if e.k == 'loop']
        if not Ls:
            ws, m = appended(ctx, o, ops)
            dec = decode(ws, ops, index_of(o, ws)) if ws is not None else None
            ctx.check(None if dec is None else bool(reverses(dec, 4)), wh, 'the code for an enumeration reverses its bytes', show_words(ws))
            continue
        L = Ls[0]
        trip = L.trip
        for i in L.iters:
            if i.kind != 'continue':
                ctx.unk(wh, 'the code for an enumeration reverses its bytes', i.kind)
                continue
            w = [e for e in i.events if e.k == 'word']
            if len(w) != 1 or trip is None or trip[0] != 'int':
                ctx.check(None, wh, 'the code for an enumeration reverses its bytes', '%d words per byte, %s bytes' % (len(w), show(trip) if trip else '?'))
                continue
            v = w[0].val
            base = index_of(i, [v])
            c, parts = lin_parts(sub(v, base))
            ok = False
            if len(parts) == 1 and parts[0][0] in L.init:
                s, k = parts[0]
                first = add(scale(L.init[s], k), I(c))
                ok = first == I(trip[1] - 1) and mul(L.step.get(s, ZERO), I(k)) == I(-1) and trip[1] == 4
            ctx.check(ok, wh, 'the code for an enumeration reverses its bytes', 'word %s, %s times' % (show(v), show(trip)))


def show_words(ws):
    return '[%s]' % ', '.join(show(w) for w in ws) if ws is not None else 'unknown words'


def compound(ctx, ops, f):
    wh = ctx.where(f)
    outs = run(ctx, f)
    for o in outs:
        if o.kind != 'return':
            continue
        Ls = [e for e in o.events if e.k == 'loop' and any(x.k == 'block' for i in e.iters for x in i.events)]
        zero = [e for e in o.events if e.k == 'loop0']
        if not Ls:
            ctx.check(bool(zero) or None, wh, 'every field is visited', 'no loop over the fields')
        for L in Ls:
            for i in L.iters:
                one_field(ctx, ops, wh, L, i)
        # trailing padding
        L = Ls[-1] if Ls else None
        vec = vec_of(o) or ('fld', deref(THIS), 'm_compiled')
        start = None
        if L is not None:
            for t in (('X', L.id, ('fld', vec, W.SIZE)), ('L', L.id, ('fld', vec, W.SIZE))):
                if has_sub(W.wsize(o.st, vec), lambda x: x == t):
                    start = t
            if start is None:
                ctx.unk(wh, 'the padding at the end is skipped', 'size after the loop not known')
                continue
        ws, merged = appended(ctx, o, ops, start=start, vec=vec)
        n = None
        if merged is not None and not ws:
            n = merged
        elif ws is not None and len(ws) == 2 and ws[0] == I(ops['FLAG_SKIP']):
            n = ws[1]
        elif ws == []:
            n = ZERO
        gapcheck(ctx, o, wh, n, lambda x: sfield(x, 'getSize', 'm_size'), 'the padding at the end of a compound is skipped', [e for e in Ls], f)


def gapcheck(ctx, o, wh, n, is_end, text, loops, f):
    """n bytes are skipped; is that the distance from the byte reached to the end?"""
    if n is None:
        ctx.unk(wh, text, 'not understood')
        return
    if n == ZERO:
        # nothing skipped: facts must say there is nothing to skip
        good = []
        for a, v in o.facts.items():
            if a[0] not in ('eq', 'lt'):
                continue
            c, parts = lin_parts(a[1])
            ends = [k for x, k in parts if is_end(x)]
            if len(ends) == 1 and len(parts) >= 1:
                k = ends[0]
                if a[0] == 'eq' and v and c == 0 or a[0] == 'lt' and (k == 1 and v or k == -1 and not v and c == 0):
                    good.append(a)
        ctx.check(bool(good), wh, text, 'nothing is skipped')
        return
    while n[0] in ('trunc', 'cast') and isinstance(n[-1], tuple):
        n = n[-1]
    c, parts = lin_parts(n)
    ends = [k for x, k in parts if is_end(x)]
    cur = [x for x, k in parts if k == -1]
    ctx.check(c == 0 and ends == [1] and len(cur) == (1 if loops else 0) and len(parts) == (3 if loops else 1), wh, text, 'skips %s' % show(n))


def one_field(ctx, ops, wh, L, i):
    if i.kind == 'throw' or i.kind == 'noreturn':
        return
    bl = [e for e in i.events if e.k == 'block']
    if not bl:
        # left out: only when it overlaps what was already written
        good = False
        for a, v in i.facts.items():
            if a[0] == 'lt':
                c, parts = lin_parts(a[1])
                offs = [k for x, k in parts if sfield(x, 'getOffset', 'm_offset')]
                # offset + base < reached
                if offs and (offs[0] == 1 and v and c == 0):
                    good = True
        ctx.check(good, wh, 'every field is compiled, unless it overlaps an earlier one', 'a field is left out')
        return
    if len(bl) != 1:
        ctx.bad(wh, 'every field is compiled once', '%d times' % len(bl))
        return
    b = bl[0]
    vec = b.vec
    s0 = ('L', L.id, ('fld', vec, W.SIZE))
    d = sub(b.at, s0)
    if has_sub(d, lambda x: x[0] in ('L', 'X', 'sym')) and d[0] != 'int':
        ctx.unk(wh, 'the gap before a field is skipped', 'size %s' % show(b.at))
        return
    ws = W.words_between(ctx, i.st, vec, s0, b.at)
    last = ('elt', vec, sub(s0, I(1)))
    merged = None
    for e in i.events:
        if e is b:
            break
        if e.k == 'store' and e.loc == last and e.d.get('old') is not None:
            prev = ('elt', vec, sub(s0, I(2)))
            if any(a[0] == 'eq' and v and lin_parts(a[1])[0] == -ops['FLAG_SKIP'] and any(x[0] == 'rd' and x[1] == prev for x, k in lin_parts(a[1])[1]) for a, v in i.facts.items()):
                merged = sub(e.val, e.old)
            else:
                merged = ('unk', 'x')
    n = merged if merged is not None and not ws else ws[1] if ws is not None and len(ws) == 2 and ws[0] == I(ops['FLAG_SKIP']) else ZERO if ws == [] else None
    gapcheck(ctx, i, wh, n, lambda x: sfield(x, 'getOffset', 'm_offset'), 'the gap before a field is skipped', [L], None)
    # the field is compiled at its own position
    c, parts = lin_parts(b.index)
    offs = [k for x, k in parts if sfield(x, 'getOffset', 'm_offset')]
    base = [x for x, k in parts if k == 1 and x[0] == 'rd' and x[1][0] == 'fld' and x[1][2] == 'm_output_index']
    # where there is no gap the position reached is the position of the field
    at_head = len(parts) == 1 and parts[0][0][0] == 'L' and c == 0 and n == ZERO
    ctx.check(c == 0 and offs == [1] and len(base) == 1 and len(parts) == 2 or at_head, wh, 'a field is compiled at its own offset', 'at %s' % show(b.index))
    tgt = b.target
    ctx.check(any(sfield(x, 'getType', 'm_type') for x in subterms(tgt)) or sfield(tgt, 'getType', 'm_type') or None, wh, 'a field is compiled from its type', show(tgt))
    # and after it the position is its end
    fin = None
    for h, v in i.st.heap.items():
        if h[0] == 'fld' and h[2] == 'm_output_index':
            fin = v
    good = None
    if fin is not None:
        c, parts = lin_parts(sub(fin, b.index))
        good = c == 0 and len(parts) == 1 and parts[0][1] == 1 and sfield(parts[0][0], 'getSize', 'm_size')
    ctx.check(good if fin is not None else False, wh, 'after a field the position is its end', show(fin) if fin is not None else 'not set')
    # nothing after the block
    end = W.wsize(i.st, vec)
    ctx.check(sub(end, add(b.at, b.size)) == ZERO, wh, 'nothing else is generated for a field', show(end))


def array(ctx, ops, f):
    wh = ctx.where(f)
    for o in run(ctx, f):
        if o.kind != 'return':
            continue
        bl = [e for e in o.events if e.k == 'block']
        vec = vec_of(o) or ('fld', deref(THIS), 'm_compiled')
        N = W.base_size(vec)
        end = W.wsize(o.st, vec)
        if not bl:
            z = [a for a, v in o.facts.items() if a[0] == 'eq' and v and len(lin_parts(a[1])[1]) == 1 and lin_parts(a[1])[0] == 0
                 and sfield(lin_parts(a[1])[1][0][0], 'getSize', 'm_size', 'getDimension', 'm_dimension')]
            ctx.check(bool(z) and end == N, wh, 'the elements of an array are compiled', 'no code for the elements')
            continue
        if len(bl) != 1:
            ctx.bad(wh, 'the elements of an array are compiled once', '%d times' % len(bl))
            continue
        b = bl[0]
        dim = lambda t: sfield(t, 'getDimension', 'm_dimension')
        isdim = lambda t: t is not None and (dim(t) or t[0] in ('cast', 'trunc') and dim(t[-1]))
        ctx.check(any(sfield(x, 'getIndirection', 'm_indirection') for x in subterms(b.target)) or None, wh, 'array elements are compiled from the element type', show(b.target))
        ctx.check(b.index[0] == 'rd' and b.index[1][0] == 'fld' and b.index[1][2] == 'm_output_index', wh, 'array elements are compiled relative to the start of the array', show(b.index))
        if b.at == N:
            # code of the inner array, repeated more often
            loc = ('elt', vec, add(N, I(1)))
            sts = [e for e in o.events if e.k == 'store' and e.loc == loc]
            inner = any(a[0] == 'eq' and v and any(sfield(x, 'getCategory', 'm_category') for x, k in lin_parts(a[1])[1]) for a, v in o.facts.items())
            good = len(sts) == 1 and sts[0].d.get('op') == '*=' and isdim(sts[0].b)
            if len(sts) == 1 and not good:
                v = sts[0].val
                good = has_sub(v, dim) and v[0] == 'mul'
            ctx.check(good, wh, 'an array of arrays has the product of both element counts', '; '.join(show(e.val) for e in sts) or 'the count is not adapted')
            ctx.check(inner, wh, 'only an array is compiled as more elements of an array', 'no check of the category')
            ctx.check(end == add(N, b.size), wh, 'an array of arrays is one instruction', show(end))
            continue
        head = W.words_between(ctx, o.st, vec, N, add(N, I(3)))
        if b.at != add(N, I(3)):
            ctx.check(None, wh, 'the elements of an array are one block', 'block at %s' % show(b.at))
            continue
        bstore = {e.loc: e for e in o.events if e.k == 'store' and e.loc[0] == 'elt' and e.loc[1] == vec}
        tail = sub(end, add(b.at, b.size))
        if tail == I(1):
            lastw = o.st.heap.get(('elt', vec, add(b.at, b.size)))
            ctx.check(head[0] == I(ops['FLAG_ARRAY']) and isdim(head[1]) and sfield(head[2], 'getSize', 'm_size') and has_sub(head[2], lambda x: 'ndirection' in str(x)) and lastw == I(ops['FLAG_END']),
                      wh, 'an array is its element count, the size of its elements, their code and an end', show_words(head + [lastw or ('unk', '?')]))
        else:
            # turned into one skip
            two = any(a[0] == 'eq' and v and lin_parts(a[1]) == (-2, [(b.size, 1)]) or a[0] == 'eq' and v and lin_parts(a[1])[1] == ((b.size, 1),) and lin_parts(a[1])[0] == -2 for a, v in o.facts.items())
            two = two or any(a[0] == 'eq' and v and abs(lin_parts(a[1])[0]) == 2 and [x for x, k in lin_parts(a[1])[1]] == [b.size] for a, v in o.facts.items())
            first = ('elt', vec, b.at)
            skip = any(a[0] == 'eq' and v and abs(lin_parts(a[1])[0]) == ops['FLAG_SKIP'] and any(x[0] == 'rd' and x[1] == first for x, k in lin_parts(a[1])[1]) for a, v in o.facts.items())
            w0, w1 = o.st.heap.get(('elt', vec, N)), o.st.heap.get(('elt', vec, add(N, I(1))))
            n = sub(end, N)
            # block size is 2: end = N + 2
            n = subst(n, {b.size: I(2)})
            prod = w1 is not None and has_sub(w1, dim) and has_sub(w1, lambda x: x[0] == 'rd' and x[1] == ('elt', vec, add(b.at, I(1))))
            ctx.check(two and skip and W.const_of(ctx, w0 or ZERO) == I(ops['FLAG_SKIP']) and prod and n == I(2), wh, 'an array of skipped elements is a skip over all of them', '%s, size %s' % (show_words([w0 or ZERO, w1 or ZERO]), show(n)))


# ------------------------------------------------------------------ the interpreter
def interpret(ctx):
    """B02: the interpreter of swap plans"""
    ops = opcode_values(ctx)
    fs = [f for f in ctx.fn(CLS + '::swap') if len(f['params']) >= 5]
    ctx.need(len(fs) == 1, 'interpreter of swap plans not found')
    f = fs[0]
    wh = ctx.where(f)
    pn = [p['n'] for p in f['params']]
    vals = [p['n'] for p in f['params'] if 'Value' in p['t']]
    nums = [p['n'] for p in f['params'] if (ctx.P.types.get(strip(ctx, p['t'])) or {}).get('k') == 'int']
    ctx.need(len(vals) == 2 and len(nums) == 2, 'parameters of the interpreter of swap plans not understood')
    inb, outb = ('fldv', ('sym', vals[0]), 'm_data'), ('fldv', ('sym', vals[1]), 'm_data')
    outs = ctx.run(f)
    Ls = {}
    for o in outs:
        for e in o.events:
            if e.k == 'loop':
                Ls[id(e)] = e
    ctx.need(len(Ls) >= 1, 'no loop over the plan')
    seen = {}
    for L in Ls.values():
        heads = [(s, l) for s, l in L.symloc.items()]
        off = [s for s, l in heads if root(l)[0] == 'var' and l[1] == nums[0]]
        its = [s for s, l in heads if root(l)[0] == 'var' and 'iterator' in str(ctx.last.loc_of_type(i_st(L), l) if False else '') or l[0] == 'var' and l[1] in pn and l[1] not in nums]
        if len(off) != 1 or len(its) != 1:
            ctx.unk(wh, 'the interpreter of swap plans is understood', 'loop state %s' % [show(s) for s, l in heads])
            continue
        off, it = off[0], its[0]
        for i in L.iters:
            if i.kind in ('throw', 'noreturn'):
                continue
            op = which(ops, i, it)
            seen[op] = seen.get(op, 0) + 1
            instr(ctx, ops, wh, L, i, op, off, it, inb, outb, f, nums, vals)
    for n in ops:
        ctx.check(n in seen, wh, 'the interpreter handles %s' % n, 'no path does')
    # the public form starts at the beginning
    for g in ctx.fn(CLS + '::swap'):
        if len(g['params']) == 2:
            for o in ctx.run(g, opaque=lambda h: h['key'] == f['key']):
                cs = [e for e in o.events if e.k == 'call' and e.key == f['key']]
                if o.kind != 'return':
                    continue
                good = len(cs) == 1 and cs[0].args[0] == ZERO and cs[0].args[1] == ZERO and 'begin' in show(cs[0].args[2]) and 'end' in show(cs[0].args[3]) and cs[0].args[4] == ('sym', g['params'][0]['n']) and cs[0].args[5] == ('sym', g['params'][1]['n'])
                ctx.check(good, ctx.where(g), 'the whole plan is applied to the whole value', '; '.join(show(a) for c in cs for a in c.args))


def i_st(L):
    return L.iters[0].st


def which(ops, i, it):
    for a, v in i.facts.items():
        if a[0] == 'eq' and v:
            c, parts = lin_parts(a[1])
            if len(parts) == 1 and parts[0][0][0] == 'rd' and parts[0][0][1] == deref(it):
                for n, x in ops.items():
                    if abs(c) == x:
                        return n
    return 'index'


def rdof(t, p):
    return t[0] == 'rd' and t[1] == deref(p)


def instr(ctx, ops, wh, L, i, op, off, it, inb, outb, f, nums, vals):
    fin = lambda s: i.st.heap.get(L.symloc[s])
    if i.kind == 'return':
        v = i.val
        ctx.check(op == 'FLAG_END' and v[0] == 'pair' and v[1] == off and v[2] == it, wh, 'only the end of a block ends the interpretation, with the position reached', '%s returns %s' % (op, show(v)))
        return
    stores = [e for e in i.events if e.k == 'store' and e.loc[0] == 'deref' and has_sub(e.loc, lambda x: x == outb)]
    din = sub(fin(it) or it, it)
    dout = sub(fin(off) or off, off)
    if op == 'FLAG_SKIP':
        Ls = [e for e in i.events if e.k == 'loop']
        l0 = [e for e in i.events if e.k == 'loop0']
        ctx.check(din == I(2), wh, 'a skip is two words', show(din))
        if l0 and not Ls:
            return
        cp = [e for e in i.events if e.k == 'call' and sq(e.qn) in ('memcpy', 'std::memcpy', 'memmove', 'std::memmove')]
        cnt = lambda t: t is not None and rdof(t, add(it, I(1)))
        if Ls:
            l = Ls[0]
            ok = cnt(l.trip)
            for k in l.iters:
                ss = [e for e in k.events if e.k == 'store' and has_sub(e.loc, lambda x: x == outb)]
                o2 = [s for s, x in l.symloc.items() if x == L.symloc[off]]
                ok = ok and len(ss) == 1 and len(o2) <= 1
                if ok:
                    p = sub(ss[0].loc[1], outb)
                    ok = ss[0].val[0] == 'rd' and ss[0].val[1] == deref(add(inb, p))
                    if o2:
                        ok = ok and p == o2[0] and l.step.get(o2[0]) == I(1)
                    else:
                        c, ps = lin_parts(sub(p, off))
                        ok = ok and c == 0 and len(ps) == 1 and ps[0][1] == 1 and l.init.get(ps[0][0]) == ZERO and l.step.get(ps[0][0]) == I(1)
            adv = has_sub(fin(off) or ZERO, lambda x: x[0] in ('X', 'L') and x[1] == l.id) or cnt(dout) or True
            ctx.check(ok, wh, 'a skip copies that many bytes', 'loop %s times' % (show(l.trip) if l.trip else '?'))
            if not o2:
                ctx.check(cnt(dout), wh, 'a skip moves by that many bytes', show(dout))
        elif cp:
            a = cp[0].args
            ctx.check(a[0] == add(outb, off) and a[1] == add(inb, off) and cnt(a[2]), wh, 'a skip copies that many bytes', '; '.join(show(x) for x in a))
            ctx.check(cnt(dout), wh, 'a skip moves by that many bytes', show(dout))
        else:
            ctx.check(None, wh, 'a skip copies that many bytes', 'no copy seen')
    elif op in ('FLAG_SWAP_4', 'FLAG_SWAP_8'):
        n = 4 if op == 'FLAG_SWAP_4' else 8
        ok = False
        if len(stores) == 1 and stores[0].loc == deref(add(outb, off)):
            srcs = [t for t in subterms(stores[0].val) if rdof(t, add(inb, off))]
            ok = bits_verdict(stores[0].val, srcs[0], n) if srcs else False
        elif not stores:
            ok = None
        ctx.check(ok, wh, '%s reverses %d bytes' % (op, n), '; '.join(show(e.val)[:120] for e in stores) or 'no store seen')
        ctx.check(dout == I(n), wh, '%s moves by %d bytes' % (op, n), show(dout))
        ctx.check(din == I(1), wh, '%s is one word' % op, show(din))
    elif op == 'FLAG_ARRAY':
        Ls = [e for e in i.events if e.k == 'loop']
        if not Ls:
            return        # no elements: the compiler generates no such instruction
        l = Ls[0]
        ctx.check(l.trip is not None and rdof(l.trip, add(it, I(1))), wh, 'an array is repeated as often as it has elements', show(l.trip) if l.trip else 'count not known')
        for k in l.iters:
            cs = [e for e in k.events if e.k == 'call' and e.key == f['key']]
            if len(cs) != 1:
                ctx.check(None, wh, 'each element of an array is swapped', '%d calls' % len(cs))
                continue
            a = dict(zip([p['n'] for p in f['params']], cs[0].args))
            o2 = [s for s, x in l.symloc.items() if x == L.symloc[off]]
            ctx.check(len(o2) == 1 and a[nums[0]] == o2[0] and l.init[o2[0]] == off, wh, 'each element is written behind the one before', show(a[nums[0]]))
            d = sub(a[nums[1]], ('sym', nums[1]))
            ok = False
            for s, st in l.step.items():
                if l.init.get(s) == ZERO and has_sub(d, lambda x: x == s):
                    z = subst(d, {s: ZERO}); one = subst(d, {s: I(1)})
                    per = mul(one, st) if st != I(1) else one
                    ok = z == ZERO and (rdof(one, add(it, I(2))) and st == I(1) or one == I(1) and st[0] == 'rd' and rdof(st, add(it, I(2))))
            ctx.check(ok, wh, 'each element is read from where it is', show(a[nums[1]]))
            ctx.check(any(x == add(it, I(3)) for x in a.values()), wh, 'the code of the elements follows the array words', show_words(list(a.values())))
            ctx.check(a[vals[0]] == ('sym', vals[0]) and a[vals[1]] == ('sym', vals[1]), wh, 'the elements are read from and written to the same values', show_words(list(a.values())))
            upd = [e for e in k.events if e.k == 'store' and e.loc == L.symloc[off]]
            ctx.check(len(upd) == 1 and has_sub(upd[0].val, lambda x: x == cs[0].res), wh, 'the position after an element is where the next is written', show(upd[0].val) if upd else 'not set')
        r = fin(it)
        c, ps = lin_parts(r)
        ctx.check(c == 1 and len(ps) == 1 and ps[0][0][0] == 'X', wh, 'after an array the interpretation goes on behind its end', show(r))
    elif op == 'index':
        ok = len(stores) == 1 and stores[0].loc == deref(add(outb, off)) and stores[0].val[0] == 'rd' and stores[0].val[1][0] == 'deref'
        if ok:
            d = sub(stores[0].val[1][1], add(inb, ('sym', nums[1])))
            ok = rdof(d, it)
        ctx.check(ok, wh, 'a byte index copies the byte of that index', '; '.join('%s = %s' % (show(e.loc), show(e.val)) for e in stores))
        ctx.check(dout == I(1) and din == I(1), wh, 'a byte index is one word and one byte', '%s words, %s bytes' % (show(din), show(dout)))
    elif op == 'FLAG_END':
        ctx.bad(wh, 'only the end of a block ends the interpretation, with the position reached', 'the interpretation goes on after the end')


# ------------------------------------------------------------------ the direct form
def direct(ctx):
    """B02: swapping a value in place"""
    cls = 'Typelib::EndianSwapVisitor'
    base = ctx.P.records.get('Typelib::ValueVisitor')
    ctx.need(base is not None and cls in ctx.P.records, 'value visitor not found')
    want = set()
    for m in base['methods']:
        f = ctx.P.functions.get(m['key'])
        if f and f['n'] == 'visit_' and len(f['params']) == 1:
            t = strip(ctx, f['params'][0]['t'])
            if (ctx.P.types.get(t) or {}).get('k') in ('int', 'float'):
                want.add(t)
    ctx.need(len(want) >= 10, 'numeric handlers of the value visitor not found')
    have = {}
    for f in ctx.fn(cls + '::visit_'):
        key = tuple(strip(ctx, p['t']) for p in f['params'])
        have[key] = f
    for t in sorted(want) + ['enum']:
        f = have.get((t,)) if t != 'enum' else next((g for k, g in have.items() if len(k) == 2 and k[1] == 'Typelib::Enum'), None)
        if f is None:
            ctx.bad(cls, 'a %s in a value is swapped' % t, 'there is no handler for it')
            continue
        n = tsize(ctx, f['params'][0]['t'])
        p = ('sym', f['params'][0]['n'])
        for o in ctx.run(f):
            if o.kind != 'return':
                ctx.bad(ctx.where(f), 'a %s in a value is swapped' % t, o.kind)
                continue
            v = None
            for h, x in o.st.heap.items():
                if h[0] == 'deref' and has_sub(h, lambda y: y == p):
                    v = x
            srcs = [y for y in subterms(v) if y[0] == 'rd' and has_sub(y[1], lambda z: z == p)] if v is not None else []
            r = False if v is None else bits_verdict(v, srcs[0], n) if srcs else None
            ctx.check(r, ctx.where(f), 'a %s in a value is swapped' % t, show(v)[:150] if v is not None else 'it is left as it was')
            ctx.check(o.val != ZERO, ctx.where(f), 'swapping goes on after a %s' % t, 'the visit ends')
    f = next((g for k, g in have.items() if len(k) == 2 and k[1] == 'Typelib::Pointer'), None)
    if f is None:
        ctx.bad(cls, 'pointers are refused', 'no handler: they are followed')
    else:
        for o in ctx.run(f):
            ctx.check(o.kind == 'throw', ctx.where(f), 'pointers are refused', 'the visit goes on')
    for f in ctx.fn('Typelib::endian_swap'):
        for o in ctx.run(f, opaque=lambda g: sq(g['qn']) in ('Typelib::ValueVisitor::apply',)):
            cs = [e for e in o.events if e.k == 'call' and sq(e.qn) == 'Typelib::ValueVisitor::apply']
            ctx.check(o.kind == 'return' and len(cs) == 1 and cs[0].args[-1] == ('sym', f['params'][0]['n']), ctx.where(f), 'the whole value is swapped', '%d visits' % len(cs))
