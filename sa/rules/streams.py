"""A05, A06, A07: the streams values are dumped to and loaded from."""
from core import *
from rules.layout import *
from rules import a_layout as AL
from rules import containers as C

COPY = ('memcpy', 'memmove', '__builtin_memcpy')


def lower(facts, L):
    """the greatest lower bound of the linear term L that the facts state, or None"""
    best = None

    def up(b):
        nonlocal best
        if best is None or b > best:
            best = b
    for a, v in facts.items():
        if a[0] == 'lt':
            d = a[1]
            if not v:                      # d >= 0
                k = const(sub(d, L))
                if k is not None:
                    up(-k)
            else:                          # d <= -1
                k = const(add(d, L))
                if k is not None:
                    up(k + 1)
        elif a[0] == 'eq' and v:
            for s in (1, -1):
                k = const(sub(scale(a[1], s), L))
                if k is not None:
                    up(-k)
    return best


def const(t):
    c, p = lin_parts(t)
    return c if not p else None


def has(t, x):
    return has_sub(t, lambda y: y == x)


def copy_events(o):
    """(event, destination, source, length) of the block copies of a path"""
    res = []
    for e in o.events:
        if e.k == 'call' and sq(e.qn) in COPY:
            res.append((e, e.args[0], e.args[1], e.args[2]))
        elif e.k == 'call' and sq(e.qn) in ('std::copy', 'std::copy_n') and len(e.args) == 3:
            if sq(e.qn) == 'std::copy':
                res.append((e, e.args[2], e.args[0], sub(e.args[1], e.args[0])))
            else:
                res.append((e, e.args[2], e.args[0], e.args[1]))
    return res


def position(t):
    """address inside the buffer -> (buffer, index term)"""
    if t[0] == 'addr' and t[1][0] == 'elt':
        return ('vec', t[1][1]), t[1][2]
    c, parts = lin_parts(t)
    ptrs = [x for x, n in parts if n == 1 and (x[0] == 'rd' or x[0] == 'pure' and x[1].endswith(('::begin', '::data')))]
    return None, t


def field_change(o, this):
    """field location -> value at the end of the path"""
    return {l: v for l, v in o.st.heap.items() if isinstance(v, tuple) and l[0] == 'fld' and l[1] == deref(this)}


def buffer_stream(ctx, cls, f, verb):
    """a stream method that moves `size` bytes between its argument and a bounded buffer"""
    wh = ctx.where(f)
    outs = ctx.run(f)
    this = ('sym', 'this')
    data, size = [('sym', p['n']) for p in f['params'][:2]]
    copied = 0
    for o in outs:
        if o.kind not in ('return',):
            continue
        cps = copy_events(o)
        inner = [e for e, _, l in eventsof([o]) if e.k == 'call' and sq(e.qn) in COPY and l]
        if not cps:
            empty = decide(o.facts, cnorm(('cmp', '==', size, ZERO))[0])
            if empty or inner or any(e.k in ('loop', 'loop0') for e in o.events):
                ctx.check(True if empty and not inner else None, wh, 'the bytes are moved', 'in a loop')
            else:
                ctx.bad(wh, 'every %s moves the bytes it is asked for' % verb, 'a path moves none and reports no error')
            continue
        pos = None
        for e, dst, src, n in cps:
            w = ctx.at(e)
            mine, theirs = (dst, src) if verb == 'write' else (src, dst)
            copied += 1
            ctx.check(n == size, w, '%s moves as many bytes as it is asked for' % verb, 'moves %s' % show(n))
            ctx.check(theirs == data, w, '%s moves the bytes of its argument' % verb, show(theirs))
            # candidates for the space left: every fact that bounds size
            cands = []
            for a, v in o.facts.items():
                if a[0] in ('lt', 'eq') and has(a[1], size):
                    c, parts = lin_parts(a[1])
                    k = dict(parts).get(size)
                    if k is None:
                        cands.append((None, a))
                    else:
                        L = a[1] if k < 0 else scale(a[1], -1)
                        cands.append((add(L, I(-lin_parts(L)[0])), a))
            if not cands:
                ctx.bad(w, '%s is bounded by the space left in the buffer' % verb, 'no check involves the number of bytes')
                continue
            good = [c for c, a in cands if c is not None]
            if not good:
                cut = any(has_sub(a, lambda x: x[0] in ('trunc',)) for c, a in cands)
                ctx.check(False if cut else None, w, '%s is bounded by the space left in the buffer' % verb, 'the check is made on %s' % '; '.join(show(a) for c, a in cands))
                continue
            fc = field_change(o, this)

            def after(t):
                return subst(t, {('rd', l, 0): v for l, v in fc.items()})
            best = None
            for L in good:
                lo = lower(o.facts, L)
                if lo is not None and (best is None or lo > best[1]):
                    best = (L, lo)
            if best is None:
                ctx.unk(w, '%s is bounded by the space left in the buffer' % verb, 'no lower bound')
                continue
            L, lo = best
            space = add(L, size)
            ctx.check(lo >= 0, w, '%s stays inside the buffer' % verb, 'it is let through when up to %d bytes too many are asked for' % -lo)
            ctx.check(lo <= 0, w, '%s accepts what fits the buffer' % verb, 'it is refused although %d bytes would be left' % lo)
            ctx.check(sub(after(space), space) == scale(size, -1), w, 'the space left shrinks by what was moved', 'it becomes %s, was %s' % (show(after(space)), show(space)))
            addr_ = mine
            if addr_[0] == 'addr' and addr_[1][0] == 'elt':
                idx = addr_[1][2]
                base = addr_[1][1]
                # a vector: the space is its size minus the index
                want = sub(space, scale(idx, -1))
                isz = has_sub(space, lambda x: x[0] == 'pure' and sq(x[1]).endswith('::size'))
                ctx.check((isz and const(sub(add(space, idx), [x for x in subterms(space) if x[0] == 'pure' and sq(x[1]).endswith('::size')][0])) == 0) if isz else None, w,
                          'the space left is counted from the position used', 'space %s, index %s' % (show(space), show(idx)))
                moved = sub(after(idx), idx)
            else:
                moved = sub(after(addr_), addr_)
                initial(ctx, cls, f, space, addr_, w)
            ctx.check(moved == size, w, 'the position advances by what was moved', 'by %s' % show(moved))
    # refusals are exact
    for o in outs:
        if o.kind != 'throw' or not copied:
            continue
        fs = [(a, v) for a, v in o.facts.items() if a[0] == 'lt' and has(a[1], size)]
        for a, v in fs:
            c, parts = lin_parts(a[1])
            k = dict(parts).get(size)
            if k == -1 and v or k == 1 and not v:
                exact = (c == 0) if k == -1 else (c == -1)
                ctx.check(exact, wh, '%s refuses only what does not fit' % verb, 'refuses when %s%s' % ('' if v else 'not ', show(a)))
    return copied


def initial(ctx, cls, f, space, addr_, w):
    """at construction the position is the buffer given and the space the size given"""
    for m in cls['methods']:
        g = ctx.P.functions.get(m['key'])
        if not g or not g.get('ctor') or g.get('copy') or 'body' not in g:
            continue
        ps = [('sym', p['n']) for p in g['params']]
        for o in ctx.run(g):
            if o.kind != 'return':
                continue
            fc = field_change(o, ('sym', 'this'))
            m2 = {('rd', l, 0): v for l, v in fc.items()}
            s0, a0 = subst(space, m2), subst(addr_, m2)
            bufs = [p for p, d in zip(ps, g['params']) if ptype(ctx, d['t']) == 'byte*']
            ctx.check(True if a0 in bufs else None if has_sub(a0, lambda x: x[0] in ('rd', 'unk')) else False, ctx.where(g), 'a stream starts at the start of the buffer', show(a0))
            nums = [p for p, d in zip(ps, g['params']) if (ctx.P.types.get(strip(ctx, d['t'])) or {}).get('k') == 'int']
            x = s0
            while x[0] in ('trunc', 'zext', 'sext', 'cast') and isinstance(x[-1], tuple):
                x = x[-1]
            ctx.check(True if x in nums else None if has_sub(s0, lambda y: y[0] in ('rd', 'unk')) else False, ctx.where(g), 'a stream has the size of the buffer to start with', show(s0))


def bounded_input(ctx):
    n = 0
    for cls, f in C.stream_writers(ctx, 'read', 'Typelib::InputStream'):
        n += bool(buffer_stream(ctx, cls, f, 'read'))
    ctx.need(n >= 1, 'no bounded input stream found')


def bounded_output(ctx):
    n = 0
    for cls, f in C.stream_writers(ctx):
        if vector_writer(ctx, cls, f):
            continue
        outs = ctx.run(f)
        if any(True for e, o, l in eventsof(outs, ('call',)) if sq(e.qn) in COPY + ('std::copy', 'std::copy_n')):
            n += bool(buffer_stream(ctx, cls, f, 'write'))
    ctx.need(n >= 1, 'no bounded output stream found')


def vector_writer(ctx, cls, f):
    """a stream that grows its buffer: resized before the copy"""
    outs = ctx.run(f)
    res = False
    size = ('sym', f['params'][1]['n'])
    for o in outs:
        rs = [e for e in o.events if e.k == 'call' and sq(e.qn).endswith('vector::resize')]
        cps = copy_events(o)
        ins = [e for e in o.events if e.k == 'call' and sq(e.qn).endswith('vector::insert')]
        if ins and not cps:
            res = True
        if not rs or not cps:
            continue
        res = True
        e, dst, src, n = cps[0]
        wh = ctx.at(e)
        from rules.lifetimes import elt_index
        v_, idx = elt_index(dst)
        if v_ is None:
            ctx.unk(wh, 'a growing buffer is large enough for what is written', show(dst))
            continue
        new = rs[-1].args[0]
        order = [x for x in o.events if x is e or x is rs[-1]]
        ctx.check(order[0] is rs[-1] and sub(new, idx) == n and n == size, wh, 'a growing buffer is extended by what is written, before it is written', 'resized to %s, written at %s, %s bytes' % (show(new), show(idx), show(n)))
        ctx.check(idx[0] == 'pure' and sq(idx[1]).endswith('::size') or None, wh, 'what is written is appended', show(idx))
    return res


def appending(ctx):
    """a stream into a vector writes all of what it is given, at the end"""
    n = 0
    for c, f in C.stream_writers(ctx):
        n += bool(vector_writer(ctx, c, f))
    ctx.need(n, 'no stream into a growing buffer found')


def entry_points(ctx, name, verb):
    """public functions of that name that build a stream from a buffer themselves"""
    by = AL.by_operation(ctx)
    ks = set(f['key'] for f in by[name])
    base = 'Typelib::InputStream' if verb == 'read' else 'Typelib::OutputStream'
    streams = {c['qn']: c for c, f in C.stream_writers(ctx, verb, base)}
    for f in ctx.P.by_qn.get('Typelib::' + name, []):
        if 'body' not in f:
            continue
        outs = ctx.run(f, opaque=lambda g: g['key'] in ks or g['n'] == 'layout_of', may_throw=lambda e, q: q.startswith('Typelib::ValueOps::'))
        for o in outs:
            ds = [e for e in o.events if e.k == 'decl' and sq(e.ty) in streams]
            if ds:
                yield f, outs, streams
                break


def whole_input(ctx):
    """A05: all of the layout and all of the input was consumed"""
    n = 0
    by = AL.by_operation(ctx)
    ks = set(f['key'] for f in by['load'])
    for f, outs, streams in entry_points(ctx, 'load', 'read'):
        n += 1
        wh = ctx.where(f)
        ps = {p['n']: ptype(ctx, p['t']) for p in f['params']}
        for o in outs:
            calls = [e for e in o.events if e.k == 'call' and e.key in ks]
            if o.kind != 'return':
                continue
            if not calls:
                ctx.check(None, wh, 'a load walks the value', 'a path walks nothing')
                continue
            res = calls[0].res
            eqs = [a[1] for a, v in o.facts.items() if a[0] == 'eq' and v]
            ends = [a for a in eqs if has_sub(a, lambda x: x == res) and has_sub(a, lambda x: x[0] == 'pure' and sq(x[1]).endswith(('::end', '::cend')))]
            ctx.check(bool(ends), wh, 'a load that did not reach the end of the layout is an error', 'returns without having checked')
            # consumed == supplied, or differs by the trailing padding
            dec = [e for e in o.events if e.k == 'decl' and sq(e.ty) in streams][0]
            pos = lambda x: x[0] == 'rd' and root(x[1]) == dec.loc

            def split(a):
                c, rest = lin_parts(a)
                cons = [(x, k) for x, k in rest if pos(x)]
                tot = [(x, k) for x, k in rest if x[0] == 'sym' and ps.get(x[1]) not in (None,) or x[0] == 'pure' and sq(x[1]).endswith('::size')]
                pad = [(x, k) for x, k in rest if x[0] in ('pure', 'res') and 'getTrailingPadding' in str(x[1:3])]
                return c, cons, tot, pad, len(rest) == len(cons) + len(tot) + len(pad)
            good = False
            near = []
            for a, v in o.facts.items():
                if a[0] not in ('eq', 'lt') or not any(pos(x) for x, k in lin_parts(a[1])[1]):
                    continue
                c, cons, tot, pad, exactly = split(a[1])
                near.append(exactly or all(pos(x) or x[0] == 'sym' or x[0] == 'rd' and x[1][0] == 'fld' and x[1][2] == 'm_size' or x[0] in ('pure', 'res') and str(x[1 if x[0] == 'pure' else 2]).endswith(('::getSize', '::size', '::getTrailingPadding')) for x, k in lin_parts(a[1])[1]))
                if not exactly or len(cons) != 1:
                    continue
                s = cons[0][1]
                if a[0] == 'eq' and v and c == 0:
                    good |= (len(tot) == 1 and s == -tot[0][1] and (not pad or len(pad) == 1 and pad[0][1] == s)) or not tot
                elif a[0] == 'lt' and not pad and (not tot or len(tot) == 1 and tot[0][1] == -s):
                    # position >= supplied (never more, which bounded-input shows)
                    low = -c if (s == 1 and not v) else c + 1 if (s == -1 and v) else None
                    good |= low is not None and low >= 0
            ctx.check(True if good else False if all(near) else None, wh, 'input that was not used up is an error', 'returns without having checked that all of it was' )
    ctx.need(n >= 2, 'load from buffers not found')


def dump_result(ctx):
    """A06: the number of bytes written, or 0"""
    n = 0
    by = AL.by_operation(ctx)
    ks = set(f['key'] for f in by['dump'])
    for f, outs, streams in entry_points(ctx, 'dump', 'write'):
        if (ctx.P.types.get(strip(ctx, f['ret'])) or {}).get('k') != 'int':
            continue
        n += 1
        wh = ctx.where(f)
        for o in outs:
            if o.kind == 'throw':
                failed = any(e.k == 'callthrow' for e in o.events)
                if failed and (o.val or '').startswith('std::'):
                    ctx.bad(wh, 'a value that does not fit is reported by returning 0', 'the error escapes')
                continue
            if o.kind != 'return':
                continue
            failed = any(e.k == 'callthrow' for e in o.events)
            if failed:
                ctx.check(o.val == ZERO, wh, 'a value that does not fit is reported by returning 0', 'returns %s' % show(o.val))
                continue
            dec = [e for e in o.events if e.k == 'decl' and sq(e.ty) in streams]
            if not dec:
                ctx.unk(wh, 'the number of bytes written is returned', 'no stream')
                continue
            v = o.val
            while v[0] in ('trunc', 'cast') and isinstance(v[-1], tuple):
                v = v[-1]
            cl = streams[sq(dec[0].ty)]
            used = advancing(ctx, cl)
            isf = v[0] == 'rd' and v[1][0] == 'fld' and v[1][1] == dec[0].loc
            ctx.check(True if isf and v[1][2] in used else False if isf or v[0] in ('int', 'sym') else None, wh, 'the number of bytes written is returned', 'returns %s' % show(v))
            # the stream is over the caller's buffer
            eqs = [a[1] for a, x in o.facts.items() if a[0] == 'eq' and x]
            ends = [a for a in eqs if has_sub(a, lambda x: x[0] == 'tget' or x[0] == 'res')]
            ctx.check(bool(ends), wh, 'a dump that did not reach the end of the layout is an error', 'returns without having checked')
    ctx.need(n, 'dump to a buffer not found')


def advancing(ctx, cls):
    """fields a write advances by the number of bytes written, starting at 0"""
    res = set()
    f = C.methods(ctx, cls, 'write')[0]
    size = ('sym', f['params'][1]['n'])
    outs = [o for o in ctx.run(f) if o.kind == 'return']
    for fl in cls['fields']:
        l = ('fld', deref(('sym', 'this')), fl['n'])
        if all(o.st.heap.get(l) is not None and sub(o.st.heap[l], ('rd', l, 0)) == size for o in outs) and outs:
            res.add(fl['n'])
    return res


# ------------------------------------------------------------------ A07
def writes_checked(ctx):
    """every system or C library write is checked against the number of bytes asked for"""
    n = 0
    for f in ctx.P.functions.values():
        if 'body' not in f or not any(c.get('qn') in ('write', 'fwrite', 'send', 'pwrite') for c in walk_ast(f['body']) if c['k'] == 'call'):
            continue
        n += 1
        for o in ctx.run(f):
            if o.kind != 'return':
                continue
            for e, _, l in eventsof([o], ('call',)):
                if e.qn not in ('write', 'fwrite', 'send', 'pwrite'):
                    continue
                w = ctx.at(e)
                if l:
                    ctx.unk(w, 'a short write is reported', 'written in a loop')
                    continue
                want = e.args[2]
                if e.qn == 'fwrite':
                    # the item size must not hide a partial item
                    ctx.check(e.args[1] == I(1) or e.args[2] == I(1) or None, w, 'fwrite counts bytes', '')
                diff = sub(e.res, want)
                r = e.res
                eq = any(a[0] == 'eq' and v and a[1] in (diff, scale(diff, -1)) for a, v in o.facts.items())
                lo = lower(o.facts, diff)
                seen = any(has(a, r) for a in o.facts)
                trunc = any(has_sub(a, lambda x: x[0] == 'trunc' and has(x, r)) for a in o.facts)
                ctx.check(True if eq or lo is not None and lo >= 0 else None if trunc else False, w, 'a failed or short write is reported',
                          'the function returns normally without the result having been compared with the number of bytes' if not seen else
                          'the function returns normally under %s only' % ' and '.join(('' if v else 'not ') + show(a) for a, v in o.facts.items() if has(a, r)))
    ctx.need(n >= 2, 'no function writing to files found')


STATE = ('good', 'fail', 'bad', 'operator!', 'operator bool', 'is_open', 'rdstate')


def mask(t):
    if t[0] == 'int':
        return t[1]
    if t[0] in ('res', 'pure') and 'operator|' in str(t[1:3]):
        r = 0
        for x in t:
            if isinstance(x, tuple):
                for y in ([x] if x and x[0] == 'int' else x):
                    if isinstance(y, tuple) and y and y[0] == 'int':
                        r |= y[1]
        return r
    return 0


def asks_stream(g):
    """a part of its caller that sets up, looks at or finishes a stream it is given"""
    return any('stream' in p['t'] for p in g['params']) and any(x['k'] == 'call' and (x.get('n') in STATE or x.get('n') in ('exceptions', 'close', 'flush')) and 'stream' in ((x.get('obj') or {}).get('t') or x.get('cls') or x.get('qn') or '')
                                                                for x in walk_ast(g.get('body')))


def file_streams(ctx):
    """every file stream opened for writing is checked when opened, while written and when closed"""
    n = 0
    for f in ctx.P.functions.values():
        if 'body' not in f or not any('basic_ofstream' in (v.get('t') or '') or 'ofstream' in (v.get('t') or '') for v in walk_ast(f['body'])):
            continue
        outs = ctx.run(f, opaque=lambda g: not asks_stream(g))
        for o in outs:
            if o.kind != 'return':
                continue
            for d in [e for e in o.events if e.k == 'decl' and 'ofstream' in e.ty and not e.ty.endswith(('&', '*'))]:
                n += 1
                wh = ctx.where(f)
                loc = d.loc
                me = ('addr', loc)
                exc = 0
                opened = used = False
                pending = False      # data not yet known to be written
                fin = None
                state = [e for e in o.events if e.k == 'call' and e.obj in (me,) and sq(e.qn).rsplit('::', 1)[-1] in STATE]
                for e in o.events:
                    if e.k != 'call':
                        continue
                    last = sq(e.qn).rsplit('::', 1)[-1]
                    mine = e.obj == me
                    passed = any(x == loc or isinstance(x, tuple) and has_sub(x, lambda y: y == loc) for x in list(e.locs) + list(e.args))
                    if mine and last in STATE:
                        if any(has(a, e.res) for a in o.facts):
                            opened = True
                            if fin:
                                pending = False
                    elif mine and last == 'exceptions' and e.args:
                        exc = mask(e.args[0])
                        if exc & 5:
                            opened = True
                    elif mine and last in ('close', 'flush'):
                        fin = last
                        if last == 'close' and exc & 4 or last == 'flush' and exc & 1:
                            pending = False
                    elif mine and last in ('open', 'imbue', 'precision', 'setf', 'width'):
                        pass
                    elif mine or passed:
                        if not opened:
                            ctx.bad(wh, 'a file that cannot be opened is reported', 'written to without having been checked')
                            opened = True
                        used = True
                        pending = True; fin = None
                if used:
                    ctx.check(not pending, wh, 'an error while writing the file or its last buffered data is reported', 'the function returns without having closed or flushed the file and checked the result')
    ctx.need(n, 'no file export found')
