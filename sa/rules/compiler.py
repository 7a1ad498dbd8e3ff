"""A04, A08: the layout compiler."""
from core import *
from rules.layout import *

ML = 'Typelib::MemoryLayout'


def visitor_class(ctx):
    """the type visitor that writes memory layouts: it has a MemoryLayout member"""
    res = []
    for r in ctx.P.records.values():
        if 'Typelib::TypeVisitor' in base_names(ctx.P, r['qn']):
            for f in r['fields']:
                if strip(ctx, f['t']).startswith(ML):
                    res.append((r, f['n']))
    ctx.need(len(res) == 1, '%d layout compilers found' % len(res))
    return res[0]


def vec_name(t):
    """which instruction vector of which layout: (base, 'ops'|'init_ops')"""
    if t is None:
        return None
    for x in subterms(t):
        if x[0] in ('fld', 'body') and len(x) == 3 and x[2] in ('ops', 'init_ops'):
            return x[1], x[2]
    return None


def compile_paths(ctx, f, cls, layout_field):
    """paths of one visit_ function with 'visit' events for nested types"""
    def hook(en, st, c):
        last = c.name.rsplit('::', 1)[-1]
        if c.name in ('Typelib::TypeVisitor::apply', 'Typelib::TypeVisitor::dispatch'):
            st = st.copy()
            flags = {}
            o = c.ol if c.ol is not None else deref(c.obj)
            for fl in cls['fields']:
                ti = ctx.P.types.get(fl['t']) or {}
                if ti.get('k') in ('int', 'bool'):
                    flags[fl['n']] = en.load(st, ('fld', o, fl['n']))
            lay = en.load(st, ('fld', o, layout_field))
            # what the nested compilation appends to a layout of its own is opaque
            where = lay[1] if lay[0] in ('addr', 'refloc') else deref(lay)
            if root(where)[0] == 'var':
                for v in ('ops', 'init_ops'):
                    st.heap[('fld', where, v)] = ('body', where, v)
            en.ev_(st, 'visit', c.e, obj=c.obj, target=c.locs[0] if c.locs and c.locs[0] is not None else c.vals[0], flags=tuple(sorted(flags.items())), layout=lay)
            return [(st, I(1))]
        return None
    return ctx.run(f, hook=hook, opaque=lambda g: sq(g['qn']) in ('Typelib::Type::getName', 'Typelib::Type::getSize', 'Typelib::Indirect::getIndirection', 'Typelib::Array::getDimension', 'Typelib::Field::getOffset', 'Typelib::Field::getType',
                                                               'Typelib::Compound::getFields', 'Typelib::Enum::values'))


def emitted(o):
    """{'ops': [...], 'init_ops': [...]} appended on this path (top level, and visit markers in 'ops')"""
    res = {'ops': [], 'init_ops': []}
    other = []
    for e in o.events:
        if e.k == 'visit':
            res['ops'].append(('visit', e)); res['init_ops'].append(('visit', e))
        elif e.k == 'loop' and (any(x.k == 'visit' for i in e.iters for x in i.events) or any(emitted(i)[v] for i in e.iters for v in ('ops', 'init_ops'))):
            res['ops'].append(('loop', e)); res['init_ops'].append(('loop', e))
        elif e.k == 'call' and sq(e.qn).startswith('std::vector::') and e.obj is not None:
            vn = vec_name(e.obj)
            last = sq(e.qn).rsplit('::', 1)[-1]
            if vn is None or last in ('begin', 'end', 'size', 'empty', 'reserve', 'capacity', 'cbegin', 'cend'):
                continue
            if last in ('push_back', 'emplace_back'):
                res[vn[1]].append(('word', e.args[0], e))
            elif last == 'insert' and len(e.args) == 3:
                src = vec_name(e.args[1])
                at_end = 'end' in repr(e.args[0])[:60] or True
                res[vn[1]].append(('block', src, e) if src else ('data', e.args[1], e))
            else:
                res[vn[1]].append(('?', last, e))
    return res


def words(lst):
    return [x[1] if x[0] == 'word' else x for x in lst]


def getter(t, name, of=None):
    """is the term the result of that accessor or the field behind it?"""
    return t[0] in ('pure', 'res') and sq(t[1] if t[0] == 'pure' else t[2]).endswith('::' + name)


def is_sizeof_type(t, tsym):
    return getter(t, 'getSize') and has_sub(t, lambda x: x == tsym)


def visit_of(ctx, cls, tname):
    """visit_ overloads by visited category"""
    res = {}
    for m in cls['methods']:
        f = ctx.P.functions.get(m['key'])
        if m['n'] == 'visit_' and f and 'body' in f and f['params']:
            res[strip(ctx, f['params'][0]['t'])] = f
    return res


def compiler(ctx):
    ops = opcodes(ctx)
    cls, lf = visitor_class(ctx)
    vs = visit_of(ctx, cls, None)
    for cat in ('Numeric', 'Enum', 'Array', 'Container', 'Compound', 'Pointer', 'OpaqueType'):
        f = vs.get('Typelib::' + cat)
        if f is None:
            ctx.bad(cls['qn'], 'the layout compiler handles %s' % cat, 'no handler: such members would be left out silently')
            continue
        tsym = ('sym', f['params'][0]['n'])
        outs = compile_paths(ctx, f, cls, lf)
        rets = [o for o in outs if o.kind == 'return']
        wh = ctx.where(f)
        if cat in ('Pointer', 'OpaqueType'):
            check_accept(ctx, ops, f, cat, cls, outs, tsym)
            continue
        if not rets:
            ctx.bad(wh, 'the layout compiler handles %s' % cat, 'it never returns')
        for o in rets:
            em = emitted(o)
            v = o.val
            if v is not None:
                a, p = cnorm(v)
                ctx.check(p if a == ('true',) else None, wh, 'compiling %s goes on with the rest of the type' % cat, 'returns %s' % show(v))
            if cat in ('Numeric', 'Enum'):
                plain(ctx, ops, em, tsym, wh, cat, 'MEMCPY')
            elif cat == 'Array':
                array(ctx, ops, em, o, tsym, wh, cls, f)
            elif cat == 'Container':
                container(ctx, ops, em, o, tsym, wh, cls, f)
            elif cat == 'Compound':
                compound(ctx, ops, em, o, tsym, wh, cls, f)


def plain(ctx, ops, em, tsym, wh, cat, op):
    w = words(em['ops'])
    if len(w) != 2 or any(x[0] in ('visit', 'loop', 'block', '?') for x in w):
        und = any(x[0] in ('?', 'loop') for x in w)
        ctx.check(None if und else False, wh, '%s is compiled to one %s of its size' % (cat, op), '%d words emitted' % len(w))
    else:
        ctx.check(w[0] == I(ops[op]) and is_sizeof_type(w[1], tsym), wh, '%s is compiled to one %s of its size' % (cat, op), 'emits %s' % ', '.join(map(show, w)))
    i = words(em['init_ops'])
    i = [x for x in i if x[0] not in ('visit',) and x[0] != 'loop']
    good = len(i) >= 2 and (i[0] == I(ops['INIT_SKIP']) and len(i) == 2 and is_sizeof_type(i[1], tsym) or i[0] == I(ops['INIT']) and len(i) == 3 and i[2][0] in ('data', 'block'))
    ctx.check(good, wh, 'initialisation covers %s with its size' % cat, 'emits %s' % ', '.join(show(x) if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] not in ('data', 'block', '?') else x[0] for x in i))


def flagnames(cls):
    return None


def nested(ctx, o, e, wh, what, cls, tsym):
    """a nested type is compiled with the options of the enclosing one"""
    for n, v in e.flags:
        want = [('rd', ('fld', deref(('sym', 'this')), n), 0)]
        same = v[0] == 'rd' and v[1] == ('fld', deref(('sym', 'this')), n) or (v[0] == 'rd' and v[1][0] == 'fld' and v[1][2] == n and root(v[1]) == deref(('sym', 'this')))
        known = v[0] == 'int' or v[0] == 'rd'
        ctx.check(True if same else False if known else None, wh, 'option %s reaches the %s' % (n, what), 'it is %s there' % show(v))


def nested_layout(e):
    t = e.layout
    return t[1] if t[0] in ('addr', 'refloc') else deref(t)


def array(ctx, ops, em, o, tsym, wh, cls, f):
    seq = em['ops']
    vis = [x[1] for x in seq if x[0] == 'visit']
    w = [x for x in seq if x[0] != 'visit']
    if len(vis) != 1:
        ctx.bad(wh, 'the element type of an array is compiled once', '%d times' % len(vis))
        return
    nested(ctx, o, vis[0], wh, 'elements of an array', cls, tsym)
    ctx.check(indirection(vis[0].target, tsym), wh, 'the body of an array is compiled from its element type', show(vis[0].target))
    if not w:
        z = any(a[0] == 'eq' and v and has_sub(a, lambda x: getter(x, 'getDimension')) for a, v in o.facts.items())
        ctx.check(z, wh, 'an array is left out only if it has no elements', 'left out')
        return
    ws = words(w)
    good = len(ws) == 4 and ws[0] == I(ops['ARRAY']) and getter(ws[1], 'getDimension') and ws[2][0] == 'block' and ws[2][1][1] == 'ops' and ws[3] == I(ops['END'])
    ctx.check(good, wh, 'an array is compiled to its element count, the element layout and END', shorten(ws))
    i = words([x for x in em['init_ops'] if x[0] != 'visit'])
    goodi = len(i) == 4 and i[0] == I(ops['INIT_REPEAT']) and getter(i[1], 'getDimension') and i[2][0] == 'block' and i[2][1][1] == 'init_ops' and i[3] == I(ops['END'])
    ctx.check(goodi, wh, 'the initialisation of an array repeats that of its elements', shorten(i))
    for x in (ws, i):
        if len(x) == 4 and x[2][0] == 'block':
            ctx.check(x[2][1][0] == nested_layout(vis[0]) or None, wh, 'the body of an array is the layout of its elements', show(x[2][1][0]))
    if good:
        z = decide(o.facts, cnorm(('cmp', '==', ws[1], ZERO))[0])
        ctx.check(z is False, wh, 'no instruction is emitted for an array without elements', 'emitted whatever the element count')


def indirection(t, tsym):
    t0 = t
    return any(getter(x, 'getIndirection') for x in subterms(t0)) and has_sub(t0, lambda x: x == tsym)


def shorten(ws):
    return ', '.join(show(x) if x[0] not in ('block', 'data', 'loop', 'visit', '?') else x[0] for x in ws)


def container(ctx, ops, em, o, tsym, wh, cls, f):
    seq = em['ops']
    vis = [x[1] for x in seq if x[0] == 'visit']
    if len(vis) != 1:
        ctx.bad(wh, 'the element type of a container is compiled once', '%d times' % len(vis))
        return
    nested(ctx, o, vis[0], wh, 'elements of a container', cls, tsym)
    ctx.check(indirection(vis[0].target, tsym), wh, 'the body of a container is compiled from its element type', show(vis[0].target))
    ws = words([x for x in seq if x[0] != 'visit'])
    good = len(ws) == 4 and ws[0] == I(ops['CONTAINER']) and ws[1] == tsym and ws[2][0] == 'block' and ws[2][1][1] == 'ops' and ws[3] == I(ops['END'])
    ctx.check(good, wh, 'a container is compiled to itself, the element layout and END', shorten(ws))
    i = words([x for x in em['init_ops'] if x[0] != 'visit'])
    ctx.check(len(i) == 2 and i[0] == I(ops['INIT_CONTAINER']) and i[1] == tsym, wh, 'the initialisation of a container names the container', shorten(i))


def compound(ctx, ops, em, o, tsym, wh, cls, f):
    seq = em['ops']
    loops = [x[1] for x in seq if x[0] == 'loop' and any(e.k == 'visit' for i in x[1].iters for e in i.events)]
    if not loops:
        zero = any(e.k == 'loop0' and any(x.k == 'visit' for i in e.iters for x in i.events) for e in o.events)
        ctx.check(zero, wh, 'the layout of a compound visits its fields', 'no loop over the fields')
        last = words([x for x in seq if x[0] == 'word'])
        if zero and not last and any(a[0] in ('eq', 'lt') and len(lin_parts(a[1])[1]) == 1 and is_sizeof_type(lin_parts(a[1])[1][0][0], tsym) and lin_parts(a[1])[0] == 0
                                     and (v if a[0] == 'eq' else lin_parts(a[1])[1][0][1] == -1 and not v) for a, v in o.facts.items()):
            ctx.ok(wh, 'a compound without fields is padding')
        elif zero:
            ctx.check(len(last) == 2 and last[0] == I(ops['SKIP']) and is_sizeof_type(last[1], tsym), wh, 'a compound without fields is padding', shorten(last))
        return
    L = loops[0]
    # the byte reached so far: a loop variable that starts at 0
    for i in L.iters:
        if i.kind not in ('continue',):
            ctx.check(i.kind in ('throw', 'noreturn'), wh, 'the layout of a compound visits every field', 'the loop may end early (%s)' % i.kind)
            continue
        em2 = emitted(i)
        ws = [x for x in em2['ops'] if x[0] != 'loop']
        vis = [x[1] for x in ws if x[0] == 'visit']
        ctx.check(len(vis) == 1, wh, 'each field is compiled once', '%d times' % len(vis))
        if len(vis) != 1:
            continue
        k = [x[0] for x in ws]
        pre = words(ws[:k.index('visit')])
        post = words(ws[k.index('visit') + 1:])
        off = [t for x in pre for t in subterms(x) if getter(t, 'getOffset')]
        cur = None
        zero_vars = [s for s, v in L.init.items() if v == ZERO]
        nonempty = not (len(pre) == 0)
        if not pre:
            # a gap may only be left out when there is none
            z = nogap(i.facts, lambda x: getter(x, 'getOffset'))
            ctx.check(bool(z), wh, 'the gap before a field is skipped', 'nothing is emitted for it')
        else:
            okp = len(pre) == 2 and pre[0] == I(ops['SKIP'])
            good = False
            if okp:
                d = pre[1]
                for s in zero_vars:
                    c, parts = lin_parts(add(d, s))
                    if c == 0 and len(parts) == 1 and parts[0][1] == 1 and getter(parts[0][0], 'getOffset'):
                        good = True; cur = s
            ctx.check(good, wh, 'the gap before a field is skipped up to its offset', shorten(pre))
        ctx.check(not post, wh, 'nothing else is emitted for a field', shorten(post))
        if cur is not None:
            fin = i.st.heap.get(L.symloc[cur])
            okf = False
            if fin is not None:
                c, parts = lin_parts(fin)
                ks = sorted(('off' if getter(t, 'getOffset') else 'size' if getter(t, 'getSize') else '?') for t, n in parts if n == 1)
                okf = c == 0 and len(parts) == 2 and ks == ['off', 'size']
            ctx.check(okf, wh, 'after a field the compiler is at the end of that field', show(fin) if fin else '')
        for e in vis:
            same = any(getter(x, 'getType') for x in subterms(e.target))
            ctx.check(same or None, wh, 'a field is compiled from its type', show(e.target))
            nested(ctx, i, e, wh, 'fields of a compound', cls, tsym)
        wi = words([x for x in em2['init_ops'] if x[0] not in ('loop', 'visit')])
        if pre:
            ctx.check(len(wi) == 2 and wi[0] == I(ops['INIT_SKIP']) and wi[1] == pre[1], wh, 'initialisation skips the gap before a field', shorten(wi))
    # trailing gap
    idx = [n for n, x in enumerate(seq) if x[0] == 'loop'][-1]
    tail = words([x for x in seq[idx + 1:] if x[0] == 'word'])
    curs_ = [l for s, l in L.symloc.items() if L.init[s] == ZERO]
    good = False
    if len(tail) == 2 and tail[0] == I(ops['SKIP']):
        for l in curs_:
            for t in subterms(tail[1]):
                if t[0] in ('X', 'L') and t[2] == l:
                    r = add(tail[1], t)
                    if is_sizeof_type(r, tsym):
                        good = True
    if not tail:
        z = nogap(o.facts, lambda x: is_sizeof_type(x, tsym))
        ctx.check(bool(z), wh, 'the gap after the last field is skipped up to the size of the compound', 'nothing is emitted for it')
    else:
        ctx.check(good, wh, 'the gap after the last field is skipped up to the size of the compound', shorten(tail))


def nogap(facts, is_end):
    """facts that say there is nothing between the byte reached and the one is_end names"""
    res = []
    for a, v in facts.items():
        if a[0] not in ('eq', 'lt'):
            continue
        c, parts = lin_parts(a[1])
        ends = [k for x, k in parts if is_end(x)]
        if len(ends) != 1 or len(parts) != 2 or sum(k for x, k in parts) != 0:
            continue
        k = ends[0]
        # k*(end - reached) + c
        if a[0] == 'eq' and v and c == 0 or a[0] == 'lt' and (k == 1 and v and c >= -1 or k == -1 and not v and c >= 0):
            res.append(a)
    return res


def check_accept(ctx, ops, f, cat, cls, outs, tsym):
    wh = ctx.where(f)
    n = 0
    for o in outs:
        flags = {}
        for a, v in o.facts.items():
            for x in subterms(a):
                if x[0] == 'fld' and x[2] in [fl['n'] for fl in cls['fields'] if (ctx.P.types.get(fl['t']) or {}).get('k') in ('int', 'bool')]:
                    d = decide(o.facts, ('eq', ('rd', x, 0)))
                    flags[x[2]] = not v if a[0] == 'eq' else v
        want = 'pointers' if cat == 'Pointer' else 'opaques'
        mine = [v for n_, v in flags.items() if want in n_]
        if o.kind == 'return':
            n += 1
            ctx.check(mine == [True], wh, '%s is accepted only when allowed' % cat, 'accepted with options %s' % flags)
            plain(ctx, ops, emitted(o), tsym, wh, cat, 'MEMCPY' if cat == 'Pointer' else 'SKIP')
        elif o.kind == 'throw':
            ctx.check(mine == [False], wh, '%s is refused only when not allowed' % cat, 'refused with options %s' % flags)
    ctx.check(n > 0, wh, '%s can be accepted' % cat, 'always refused')


def options(ctx):
    """the options given to layout_of reach the compiler and the simplifier"""
    for f in ctx.fn('Typelib::layout_of') or []:
        outs = ctx.run(f, opaque=lambda g: g['n'] in ('simplify', 'apply', 'dispatch'))
        ps = [('sym', p['n']) for p in f['params']]
        for o in outs:
            if o.kind != 'return':
                continue
            sim = [e for e in o.events if e.k == 'call' and sq(e.qn).endswith('::simplify')]
            wh = ctx.where(f)
            ctx.check(len(sim) == 1 and tuple(sim[0].args[:2]) == (ps[3], ps[4]), wh, 'layout_of simplifies with the options given', ', '.join(show(a) for e in sim for a in e.args))
            app = [e for e in o.events if e.k == 'call' and sq(e.qn).endswith('TypeVisitor::apply')]
            ctx.check(len(app) == 1 and has_sub(app[0].args[0], lambda x: x == ps[0]), wh, 'layout_of compiles the type given', '')
            vals = {}
            # the visitor's options, as stored by its constructor
            for e in o.events:
                if e.k == 'store' and e.loc[0] == 'fld' and e.loc[2].startswith('accept_') or e.k == 'init':
                    vals[e.loc[2]] = e.val
    cls, lf = visitor_class(ctx)
    for m in cls['methods']:
        f = ctx.P.functions.get(m['key'])
        if not f or not f.get('ctor') or 'body' not in f or f.get('copy') or f.get('implicit'):
            continue
        outs = ctx.run(f)
        ps = {p['n']: ('sym', p['n']) for p in f['params']}
        for o in outs:
            if o.kind != 'return':
                continue
            for fl in cls['fields']:
                if (ctx.P.types.get(fl['t']) or {}).get('k') in ('int', 'bool'):
                    v = o.st.heap.get(('fld', deref(('sym', 'this')), fl['n']))
                    ctx.check(None if v is None else v == ps.get(fl['n'], v if v[0] == 'sym' else None), ctx.where(f), 'the layout compiler keeps option %s' % fl['n'], show(v) if v else '')
    for f in ctx.fn('Typelib::raw_layout_of'):
        rec = []
        def hook(en, st, c):
            if c.name == 'Typelib::TypeVisitor::apply':
                o = c.ol if c.ol is not None else deref(c.obj)
                rec.append((c.e, {fl['n']: en.load(st, ('fld', o, fl['n'])) for fl in cls['fields']}))
                return [(st, I(1))]
        ctx.run(f, hook=hook)
        ps = [('sym', p['n']) for p in f['params']]
        for e, vals in rec:
            for n, v in vals.items():
                for i, w in ((1, 'pointers'), (2, 'opaques')):
                    if w in n:
                        ctx.check(v == ps[i], ctx.where(f), 'raw_layout_of passes %s on' % n, show(v))


def empty_arrays(ctx):
    """A04: no instruction is emitted for an array without elements, or every interpreter steps over its body"""
    ops = opcodes(ctx)
    cls, lf = visitor_class(ctx)
    f = visit_of(ctx, cls, None).get('Typelib::Array')
    ctx.need(f, 'no array handler in the layout compiler')
    outs = [o for o in compile_paths(ctx, f, cls, lf) if o.kind == 'return']
    guarded = True
    seen0 = False
    for o in outs:
        ws = words([x for x in emitted(o)['ops'] if x[0] == 'word'])
        if len(ws) >= 2 and ws[0] == I(ops['ARRAY']):
            if decide(o.facts, cnorm(('cmp', '==', ws[1], ZERO))[0]) is not False:
                guarded = False
    from rules import a_layout as AL
    for name, fs in AL.by_operation(ctx).items():
        for g in fs:
            w = AL.walker(ctx, g)
            if w.outs is None or w.loop is None or not w.has:
                ctx.unk(ctx.where(g), 'arrays without elements in %s' % name, 'walk not recognised')
                continue
            k = ops['INIT_REPEAT'] if name == 'init' else ops['ARRAY']
            steps = []
            for o in w.loop.iters:
                if o.kind == 'continue' and w.relevant(o, k) and fact_ok(o.facts, {w.op1: ZERO}) and not any(e.k == 'loop' for e in o.events):
                    nc = AL.nblock(w.final(o, w.cur), w.cur)
                    steps.append((o, nc == add(blockend(add(w.cur, I(2))), I(1)) and all(w.final(o, p) == p for p in w.pos)))
            handles = bool(steps) and all(s[1] for s in steps)
            ctx.check(guarded or handles, ctx.where(g), '%s steps over the body of an array without elements, or never meets one' % name, 'such arrays are compiled to an instruction, and their body is processed as if it followed the array')
    # the simplifier does not create one either: a count it writes is the count it read
