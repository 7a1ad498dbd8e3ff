"""A03, A09, A10: container types."""
from core import *
from rules.layout import *
from rules import a_layout as AL


def container_classes(ctx):
    res = []
    for r in ctx.P.records.values():
        if 'Typelib::Container' in base_names(ctx.P, r['qn']):
            if any(m['n'] == 'resize' or m['n'] == 'dump' for m in r['methods']) and has_body(ctx, r, 'dump'):
                res.append(r)
    return sorted(res, key=lambda r: r['qn'])


def has_body(ctx, r, name):
    return bool(methods(ctx, r, name))


def methods(ctx, r, name, pred=None):
    res = []
    for m in r['methods']:
        f = ctx.P.functions.get(m['key'])
        if m['n'] == name and f and 'body' in f and (pred is None or pred(f)):
            res.append(f)
    return res


def rank_map(ctx, f):
    """parameters by role: same role, same symbol in the dumper and in the loader"""
    m = {}
    cnt = {}
    for p in f['params']:
        k = ptype(ctx, p['t'])
        cnt[k] = cnt.get(k, 0) + 1
        m[('sym', p['n'])] = ('sym', '%s%d' % (k if k in ('cur', 'byte*', 'size', 'stream') else 'x', cnt[k]))
    return m


def const_word(en, loc, t):
    return loc[0] == 'deref' and (t or '').replace('const ', '').strip() in ('unsigned long', 'size_t')


def record_paths(ctx, f, verb, interp_keys, which):
    """[(mode facts, [records], path)] of a container's dump or load"""
    def opaque(g):
        return g['key'] in interp_keys or sq(g['qn']) in ('Typelib::Type::getSize', 'Typelib::Indirect::getIndirection', 'Typelib::Type::getName') or g['n'] in ('resize', 'clear', 'getElementCount', 'layout_of')
    outs = ctx.run(f, opaque=opaque, immut=const_word)
    m = rank_map(ctx, f)
    res = []

    def recs(o):
        r = []
        for e in o.events:
            if e.k == 'call' and sq(e.qn).endswith('::' + verb) and e.d.get('virt'):
                r.append(('raw', subst(e.args[1], m), subst(e.args[0], m), e))
            elif e.k == 'call' and e.key in interp_keys:
                g = ctx.P.functions[e.key]
                pts = [ptype(ctx, p['t']) for p in g['params']]
                pos = ZERO
                for a, t in zip(e.args, pts):
                    if t in ('byte*', 'size'):
                        pos = add(pos, a)
                cs = [subst(a, m) for a, t in zip(e.args, pts) if t == 'cur']
                r.append(('element', tuple(cs), pos, e))
            elif e.k == 'loop':
                inner = []
                for i in e.iters:
                    if i.kind == 'continue':
                        inner.append(recs(i))
                if any(inner):
                    r.append(('each', subst(e.trip, m) if e.trip else None, inner, e))
        return r
    for o in outs:
        if o.kind != 'return':
            continue
        mode = {}
        for a, v in o.facts.items():
            a = subst(a, m)
            if a[0] in ('eq', 'lt') and has_sub(a, lambda x: x[0] == 'sym' and str(x[1]).startswith('cur')) and not has_sub(a, lambda x: x[0] in ('res', 'X')):
                mode[a] = v
        skipped = any(e.k == 'loop0' and any(recs(i) for i in e.iters if i.kind == 'continue') for e in o.events)
        res.append((mode, recs(o), o, skipped))
    return res


def norm_addr(t):
    """address of an element -> (base object, offset)"""
    if t[0] == 'addr' and t[1][0] == 'elt':
        return t[1][1], t[1][2]
    return None, t


def is_size(t):
    return t[0] == 'pure' and sq(t[1]).endswith('::getSize')


def canon_size(t):
    m = {x: ('sym', '#E') for x in subterms(t) if is_size(x)}
    return subst(t, m)


def records(ctx):
    """each container loads the records it dumps"""
    ops = opcodes(ctx)
    by = AL.by_operation(ctx)
    dk = set(f['key'] for f in by['dump']); lk = set(f['key'] for f in by['load'])
    classes = container_classes(ctx)
    ctx.need(len(classes) >= 1, 'no container class found')
    for r in classes:
        fd = methods(ctx, r, 'dump'); fl = methods(ctx, r, 'load')
        if not fd or not fl:
            ctx.unk(r['qn'], 'dump and load of a container', 'not both defined')
            continue
        fd, fl = fd[0], fl[0]
        pd = record_paths(ctx, fd, 'write', dk, 'dump')
        pl = record_paths(ctx, fl, 'read', lk, 'load')

        def sig(rs):
            out = []
            for x in rs:
                if x[0] == 'raw':
                    out.append(('raw', canon_size(x[1])))
                elif x[0] == 'element':
                    out.append(('element', x[1]))
                else:
                    out.append(('each', canon_size(x[1]) if x[1] else None, tuple(sorted(repr(sig(i)) for i in x[2]))))
            return tuple(out)
        for d in pd:
            if d[3]:
                continue
            wh = ctx.where(fd)
            mates = [l for l in pl if not l[3] and compatible(d[0], l[0])]
            if not mates:
                ctx.unk(wh, '%s loads what it dumps' % r['qn'], 'no matching path in load')
            for l in mates:
                a, b = sig(d[1]), sig(l[1])
                und = 'None' in repr(a) or 'None' in repr(b) or has_unk(a) or has_unk(b)
                ctx.check(True if a == b else None if und else False, ctx.where(fl), '%s reads for each layout what dump writes' % r['qn'],
                          'dump writes %s, load reads %s' % (showrec(a), showrec(b)))
        for f, ps in ((fd, pd), (fl, pl)):
            for mode, rs, o, skipped in ps:
                ctx.check(bool(rs) or skipped, ctx.where(f), '%s transfers the elements of %s' % (f['n'], r['qn']), 'a path transfers nothing')
                element_addresses(ctx, r, f, rs, o)
                if o.val is not None:
                    ends(ctx, f, rs, o, skipped)


def ends(ctx, f, rs, o, skipped):
    m = rank_map(ctx, f)
    v = subst(o.val, m)
    good = v == add(('sym', 'cur1'), I(2)) or v[0] in ('tget', 'X') or v == ('sym', 'cur1') and skipped or has_sub(v, lambda x: x[0] == 'tget')
    if skipped and not good:
        # without elements nothing was walked, and the interpreters skip the element layout themselves
        return
    stuck = v in (('sym', 'cur1'), ('sym', 'cur2')) and not skipped
    ctx.check(good or (False if stuck else None), ctx.where(f), '%s returns the end of the element layout' % f['n'], 'returns %s' % show(v))


def has_unk(t):
    return has_sub(t, lambda x: x[0] in ('unk', 'X', '?'))


def showrec(a):
    return ', '.join('%s(%s)' % (x[0], show(x[1]) if isinstance(x[1], tuple) else x[1]) for x in a) or 'nothing'


def compatible(a, b):
    for k, v in a.items():
        d = decide(b, k)
        if d is not None and d != v:
            return False
    return True


def element_addresses(ctx, r, f, rs, o):
    for x in rs:
        wh = ctx.at(x[3])
        if x[0] == 'each':
            for inner in x[2]:
                es = [y for y in inner if y[0] == 'element']
                ctx.check(len(es) == 1 if not [y for y in inner if y[0] != 'element'] else None, wh, '%s transfers each element once' % f['n'], '%d times' % len(es))
                for y in es:
                    base, off = norm_addr(y[2])
                    off = canon_size(off)
                    loop = x[3]
                    # offset at iteration i is i * element size
                    first = subst(off, {s: v for s, v in loop.init.items()})
                    nxt = subst(off, {s: add(v, loop.step[s]) if s in loop.step else v for s, v in loop.init.items()})
                    st = canon_size(sub(nxt, first))
                    good = first == ZERO and st == ('sym', '#E')
                    if base is None:
                        ctx.unk(wh, '%s steps from element to element by the element size' % f['n'], show(y[2]))
                    else:
                        ctx.check(good, wh, '%s steps from element to element by the element size' % f['n'], 'starts at %s, steps by %s' % (show(first), show(st)))
        elif x[0] == 'raw':
            base, off = norm_addr(x[2])
            ok = off == ZERO if base is not None else None
            if base is None and 'c_str' in repr(x[2]) or base is None and x[2][0] in ('rd',):
                ok = True
            ctx.check(ok if ok is not False else False, wh, '%s transfers a block from the first element on' % f['n'], show(x[2]))


# ------------------------------------------------------------------ the container instruction in dump and load
def container_records(ctx):
    """element count: same width, before the elements; empty containers are emptied"""
    ops = opcodes(ctx)
    by = AL.by_operation(ctx)
    width = {}
    for name in ('dump', 'load'):
        verb = 'write' if name == 'dump' else 'read'
        for f in by[name]:
            w = AL.analyse(ctx, f, ops, False)
            if w is None:
                continue
            p0 = w.pos[0]
            for o in w.loop.iters:
                wh = ctx.where(f, AL.lines(f, o))
                sigs = AL.sig_events(o)
                if w.relevant(o, ops['MEMCPY']) and o.kind == 'continue':
                    AL.one_effect(ctx, w, wh, name, 'MEMCPY', sigs, verb, lambda e: tuple(e.args) == (p0, w.op1), '%s transfers every byte of a data block' % name)
                if w.relevant(o, ops['SKIP']) and o.kind == 'continue':
                    ctx.check(not sigs, wh, '%s transfers nothing for padding' % name, ', '.join(s[0] for s in sigs))
                if w.relevant(o, ops['ARRAY']) and o.kind == 'continue':
                    for e in o.events:
                        if e.k != 'loop':
                            continue
                        for i in e.iters:
                            for x in i.events:
                                if x.k == 'call' and x.d.get('rec'):
                                    pos = ZERO
                                    for a, p in zip(x.args, ctx.P.functions[x.key]['params']):
                                        if ptype(ctx, p['t']) in ('byte*', 'size'):
                                            pos = add(pos, a)
                                    start = subst(pos, e.init)
                                    sp = sub(subst(pos, {s: add(v, e.step.get(s, ZERO)) for s, v in e.init.items()}), start)
                                    ctx.check(start == p0 and sp == span(x.begin), wh, '%s walks each array element at its place' % name, 'starts at %s, steps by %s' % (show(start), show(sp)))
                if not (w.relevant(o, ops['CONTAINER']) and o.kind == 'continue'):
                    continue
                cnt = [s[1] for s in sigs if s[0] == verb]
                sub_ = [s[1] for s in sigs if s[0] == name]
                clr = [s[1] for s in sigs if s[0] in ('clear',)]
                if len(cnt) != 1:
                    ctx.check(None if any(s[0] == 'loop' for s in sigs) else False, wh, '%s transfers the element count of a container' % name, '%d records' % len(cnt))
                    continue
                c = cnt[0]
                ctx.check(c.args[1] == I(8), wh, '%s transfers the element count of a container as 8 bytes' % name, '%s bytes' % show(c.args[1]))
                n = None
                if c.args[0][0] == 'addr':
                    loc = c.args[0][1]
                if sub_:
                    e = sub_[0]
                    ctx.check(e.args[0] == p0 and has_sub(e.obj, lambda x: x == w.op1), wh, '%s hands the container over to its type' % name, show(e.args[0]))
                    order = [x for x in o.events if x is c or x is e]
                    ctx.check(order[0] is c, wh, '%s transfers the element count before the elements' % name, 'after them')
                    n = e.args[1]
                    if name == 'dump':
                        ctx.check(n[0] in ('pure', 'res') and sq(n[1] if n[0] == 'pure' else n[2]).endswith('getElementCount') and has_sub(n, lambda x: x == p0) or None if True else None, wh, 'dump uses the element count of the container itself', show(n))
                        v = c.facts
                        cv = count_value(o, c)
                        ctx.check(cv == n if cv is not None else None, wh, 'dump announces the number of elements it writes', 'announces %s' % (show(cv) if cv else None))
                    else:
                        isread = n[0] in ('rd', 'hv') and has_sub(n, lambda x: x == c.args[0][1]) if c.args[0][0] == 'addr' else None
                        ctx.check(True if isread else None, wh, 'load reads as many elements as announced', show(n))
                else:
                    # without elements: only when the count is zero
                    zf = [a for a, v in o.facts.items() if a[0] == 'eq' and v and (has_sub(a, lambda x: x[0] in ('pure', 'res') and 'getElementCount' in str(x[1]) + str(x[2] if len(x) > 2 else '')) or c.args[0][0] == 'addr' and has_sub(a, lambda x: x == c.args[0][1]))]
                    ctx.check(bool(zf), wh, '%s leaves the elements out only if there are none' % name, 'not conditioned on the element count')
                    if name == 'load':
                        good = [x for x in clr if tuple(x.args) == (p0,) and has_sub(x.obj, lambda y: y == w.op1)]
                        ctx.check(bool(good) or (None if any(s[0] == 'loop' for s in sigs) else False), wh, 'loading an empty container empties the target', 'its elements stay')


def count_value(o, c):
    """value stored in the buffer a record is written from"""
    if c.args[0][0] != 'addr':
        return None
    loc = c.args[0][1]
    val = None
    for e in o.events:
        if e is c:
            break
        if e.k in ('store', 'decl') and e.d.get('loc') == loc:
            val = e.d.get('val')
    return val


def dump_size(ctx):
    """the size computation is the dumper run with a counting stream"""
    by = AL.by_operation(ctx)
    dk = set(f['key'] for f in by['dump'])
    for f in by['getDumpSize']:
        ctx.check(f['key'] in dk or None, ctx.where(f), 'the size computation walks values with the dumper', f['qn'])
    for r in AL.roots(ctx, 'getDumpSize'):
        outs = ctx.run(r, opaque=lambda g: g['key'] in dk)
        for o in outs:
            if o.kind != 'return':
                continue
            calls = [e for e in o.events if e.k == 'call' and e.key in dk]
            ctx.check(len(calls) == 1 or None, ctx.where(r), 'getDumpSize dumps the value once', '%d times' % len(calls))
    # the counting stream
    n = 0
    for c, f in stream_writers(ctx):
        outs = ctx.run(f, opaque=lambda g: False)
        size = ('sym', f['params'][1]['n'])
        fields = [fl['n'] for fl in c['fields']]
        if any(e.k == 'call' for e, o, l in eventsof(outs)):
            continue
        stores = [e for e, o, l in eventsof(outs, ('store',)) if e.loc[0] == 'fld']
        if not stores:
            continue
        n += 1
        for o in outs:
            ss = [e for e in o.events if e.k == 'store' and e.loc[0] == 'fld']
            rest = sub(ss[-1].val, size) if ss else None      # what it was before
            good = bool(ss) and len({e.loc for e in ss}) == 1 and rest[:2] == ('rd', ss[-1].loc)
            ctx.check(good, ctx.where(f), 'the counting stream counts every byte written', ', '.join(show(e.val) for e in ss) or 'a path counts nothing')
    ctx.need(n, 'no counting stream found')


def whole_value(ctx):
    """every entry point hands the value from its first byte, and the whole of its layout, to the interpreter; what dumps, loads and counts uses the same layout"""
    by = AL.by_operation(ctx)
    fields = {}
    opts = []
    for name in ('dump', 'load', 'getDumpSize', 'init', 'zero', 'destroy', 'copy', 'compare'):
        ks = set(f['key'] for f in by[name])
        for r in AL.roots(ctx, name):
            outs = ctx.run(r, opaque=lambda g: g['key'] in ks or sq(g['qn']).endswith('layout_of'))
            vals = [p['n'] for p in r['params'] if strip(ctx, p['t']) == 'Typelib::Value']
            typed = [p['n'] for p in r['params'] if strip(ctx, p['t']) == 'Typelib::Type']
            ptrs = [p['n'] for p in r['params'] if '*' in p['t'] and p['n'] not in vals]
            for o in outs:
                for e in o.events:
                    if e.k != 'call':
                        continue
                    if sq(e.qn).endswith('layout_of'):
                        t = e.args[0]
                        mine = [n for n in vals + typed if has_sub(t, lambda x: x == ('sym', n) or x == ('var', n) or len(x) > 1 and x[0] in ('addr', 'deref', 'fld', 'fldv') and repr(('sym', n)) in repr(x)) or n in show(t)]
                        ctx.check(bool(mine) or None, ctx.at(e), '%s follows the layout of the type of its value' % name, show(t))
                        if name in ('dump', 'load', 'getDumpSize'):
                            opts.append((tuple(e.args[1:]), e))
                    if e.key not in ks:
                        continue
                    g = ctx.P.functions[e.key]
                    pts = [ptype(ctx, p['t']) for p in g['params']]
                    wh = ctx.at(e)
                    ds = [a for a, t in zip(e.args, pts) if t == 'byte*']
                    for a in ds:
                        c, parts = lin_parts(a)
                        one = len(parts) == 1 and parts[0][1] == 1
                        base = parts[0][0] if one else None
                        known = base is not None and (base[0] == 'sym' and base[1] in ptrs or base[0] in ('fldv', 'rd') and any(n in show(base) for n in vals))
                        ctx.check(c == 0 if known else None, wh, '%s starts at the first byte of the value' % name, show(a))
                    for a, t in zip(e.args, pts):
                        if t == 'size':
                            ctx.check(a == ZERO if a[0] == 'int' else None, wh, '%s starts at the first byte of the value' % name, 'at offset %s' % show(a))
                    cs = [a for a, t in zip(e.args, pts) if t == 'cur']
                    if len(cs) == 2:
                        kinds = []
                        for a in cs:
                            p = [x for x in subterms(a) if x[0] == 'pure' and sq(x[1]).rsplit('::', 1)[-1] in ('begin', 'end', 'cbegin', 'cend')]
                            kinds.append((sq(p[0][1]).rsplit('::', 1)[-1].lstrip('c'), [x[2] for x in subterms(p[0]) if x[0] == 'fld' and len(x) == 3], a == p[0]) if p else None)
                        if None in kinds:
                            ctx.unk(wh, '%s walks the layout from its beginning to its end' % name, show(cs[0]))
                        else:
                            ctx.check(kinds[0][0] == 'begin' and kinds[1][0] == 'end' and kinds[0][2] and kinds[1][2] and kinds[0][1] == kinds[1][1], wh, '%s walks the layout from its beginning to its end' % name, '%s to %s' % (show(cs[0]), show(cs[1])))
                            if kinds[0][1]:
                                fields.setdefault(kinds[0][1][0], []).append((name, e))
    # values are initialised by the one list, everything else follows the other
    best = max(fields, key=lambda k: len(fields[k])) if fields else None
    for k, es in fields.items():
        for name, e in es:
            ctx.check((k == best) == (name != 'init'), ctx.at(e), '%s walks the list of instructions meant for it' % name, k)
    if opts:
        cnt = {}
        for a, e in opts:
            cnt[a] = cnt.get(a, 0) + 1
        main = max(cnt, key=lambda a: cnt[a])
        for a, e in opts:
            ctx.check(a == main if all(x[0] == 'int' for x in a) else None, ctx.at(e), 'dumping, loading and counting follow the same layout of a type', 'made with other options (%s)' % ', '.join(map(show, a)))
    ctx.need(opts and fields, 'no walk of a layout found')


def stream_writers(ctx, method='write', base='Typelib::OutputStream'):
    res = []
    for r in ctx.P.records.values():
        if base in base_names(ctx.P, r['qn']):
            for f in methods(ctx, r, method):
                res.append((r, f))
    return sorted(res, key=lambda x: x[1]['key'])
