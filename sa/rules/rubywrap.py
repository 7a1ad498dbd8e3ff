"""J04: what Ruby is handed is the value it asked for, kept alive by the object
it lies in; whole values are only combined when their types say they may be."""
from core import *
from rules.owners import last
from rules.rubyapi import ext, name
from rules.rubyaccess import KEEP, can, bare, Sum, to_sum, address, equal_types, interesting, loop_sums

EXT = 'bindings/ruby/ext'
QNIL = (('int', 4), ('int', 8))
MERGE = ('copy', 'compare', 'memcmp')


def has_call(f, names):
    return any(x['k'] in ('call', 'ctor') and name(x) in names for x in walk_ast(f['body']))


def without_types(t):
    """the term without what only says which type a value has"""
    if not isinstance(t, tuple):
        return t
    if t[:1] in (('pure',), ('res',)) and ('getType' in t[1:3] or 'getIndirection' in t[1:3]):
        return ('type',)
    return tuple(without_types(x) for x in t)


def owners(t):
    """Ruby objects whose value the term is a part of"""
    return {x[3] for x in subterms(without_types(can(t))) if x[:1] == ('res',) and len(x) > 3 and x[2] == 'rb_data_object_get'}


def made(t):
    """(data, type) of a value made on the spot"""
    for x in subterms(t):
        if x[:2] == ('pure', 'make') and len(x) > 4 and last(str(x[2])) == 'Value':
            return x[3], x[4]
        if x[:1] == ('make',) and len(x) > 3 and last(str(x[1])) == 'Value':
            return x[2], x[3]
    return None


def whole(t):
    c = can(t)
    while isinstance(c, tuple) and c[:1] == ('rd',) and isinstance(c[1], tuple):
        c = c[1][1] if c[1][:1] == ('deref',) else c[1]
    return isinstance(c, tuple) and c[:1] == ('res',) and c[2] == 'rb_data_object_get'


def elsewhere(d):
    """the address was read from memory"""
    while isinstance(d, tuple) and d[:1] in (('ptr',), ('refto',), ('op',)):
        d = d[2] if d[0] == 'op' else d[1]
    return isinstance(d, tuple) and d[:1] == ('rd',) and any(x[:1] in (('pure',), ('res',)) and 'getData' in (last(str(x[1])), last(str(x[2]))) for x in subterms(d[1]) if len(x) > 2)


def param_of(f, t):
    """the parameter a term is, possibly behind a reference"""
    c = can(t)
    while isinstance(c, tuple) and c[:1] in (('rd',), ('deref',), ('addr',)):
        c = c[1]
    for i, p in enumerate(f['params']):
        if c == ('sym', p['n']) or isinstance(c, tuple) and c[:1] == ('var',) and c[1] == p['n']:
            return i
    return None


def member_of(t):
    c = can(t)
    if isinstance(c, tuple) and c[:1] == ('rd',) and isinstance(c[1], tuple) and c[1][:1] == ('fld',):
        l = c[1]
        if has_sub(('x', l[1]), lambda y: y == ('sym', 'this')):
            return l[2]
    return None


def run(ctx, f, stop):
    # not_inlined: what hands a value on is seen as a call
    return ctx.run(f, opaque=lambda g: g is not f and (not g['file'].startswith(EXT) or g['n'] in KEEP or g['key'] in stop or g['n'] in ('value_root_ptr',)),
                   merge=False, events_deref=True, signs=True)


def functions(P):
    return [f for f in P.functions.values() if 'body' in f and f['file'].startswith(EXT) and not f['n'].startswith('Typelib_init') and not f['n'].startswith('Init_')]


def kept(ctx):
    """every value handed to Ruby keeps the object it lies in"""
    P = ctx.P
    fs = functions(P)
    base = {f['key']: (0, 1, 2) for f in fs if f['qn'].endswith('cxx2rb::value_wrap')}
    ctx.need(len(base) == 1, 'cxx2rb::value_wrap')
    hand = dict(base)
    classes = {}                       # class -> {member: 'parent' or 'registry'}
    runs = {}
    todo = True
    rounds = 0

    def sites(f):
        """(event, value, registry, parent, path)"""
        for e, o, l in eventsof(runs[f['key']], ('call', 'ctor')):
            k = e.d.get('key') or e.d.get('fn')
            h = next((hand[k2] for k2 in ([k] if k in hand else []) if True), None)
            if h is None:
                qn = e.d.get('qn')
                for kk in hand:
                    g = P.functions[kk]
                    if qn and g['qn'] == qn and len(g['params']) >= max(x for x in hand[kk] if x is not None) + 1:
                        h = hand[kk]
            if h is None:
                continue
            if len(e.args) > max(x for x in h if x is not None):
                yield e, e.args[h[0]], e.args[h[1]] if h[1] is not None else None, e.args[h[2]], o, l

    while todo and rounds < 6:
        todo = False
        rounds += 1
        runs.clear()
        names = {P.functions[k]['n'] for k in hand}
        for f in fs:
            if f['key'] in base or not has_call(f, names):
                continue
            try:
                runs[f['key']] = run(ctx, f, set(hand))
            except Overflow:
                ctx.unk(ctx.where(f), 'a value keeps what it lies in', 'there are too many paths')
        for f in fs:
            if f['key'] not in runs:
                continue
            for e, v, r, par, o, l in sites(f):
                i, j = param_of(f, v), param_of(f, par)
                if i is not None and j is not None and i != j and f['key'] not in hand:
                    hand[f['key']] = (i, param_of(f, r) if r is not None else None, j)
                    todo = True
                m = member_of(par)
                if i is not None and m and f.get('cls') and (f['cls'], m) not in classes:
                    classes[(f['cls'], m)] = (f, member_of(r) if r is not None else None)
                    todo = True
        # what gives these members their value
        for (cls, m), (user, reg) in list(classes.items()):
            for g in fs:
                if g.get('cls') != cls or g['key'] in hand:
                    continue
                try:
                    outs = ctx.run(g, opaque=lambda x: True, merge=False, hook=still)
                except Overflow:
                    continue
                got = member_values(outs, m)
                ps = {param_of(g, x) for x in got}
                if got and len(ps) == 1 and None not in ps:
                    vi = [i for i, p in enumerate(g['params']) if 'Typelib::Value' in p['t']]
                    if vi:
                        ri = {param_of(g, x) for x in member_values(outs, reg)} if reg else {None}
                        hand[g['key']] = (vi[0], ri.pop() if len(ri) == 1 else None, ps.pop())
                        todo = True
    makers = {}
    for (cls, m), (user, reg) in classes.items():
        set_ = False
        for g in fs:
            if g.get('cls') != cls:
                continue
            try:
                outs = ctx.run(g, opaque=lambda x: True, merge=False, hook=still)
            except Overflow:
                continue
            got = member_values(outs, m)
            if not got or g.get('dtor') or g['n'].startswith('~'):
                continue
            ps = {param_of(g, x) for x in got}
            wh = ctx.where(g)
            if g['key'] in hand:
                set_ = True
                continue
            if all(any(q in QNIL for q in [can(x)]) for x in got):
                continue
            set_ = True
            if ps == {None}:
                ctx.unk(wh, 'a value keeps what it lies in', 'what %s is set to was not recognised' % m)
            else:
                makers[g['key']] = sorted(x for x in ps if x is not None)[0]
        ctx.check(set_, ctx.where(user), 'a value keeps what it lies in', '%s is never given the object the values lie in' % m)
    n = 0
    res = {}

    def put(wh, what, v, why=''):
        res.setdefault((wh, what), []).append((v, why))

    text = 'a value handed to Ruby keeps the object it lies in'
    for f in fs:
        if f['key'] not in runs:
            continue
        for e, v, r, par, o, l in sites(f):
            if not e.file.startswith(EXT):
                continue
            n += 1
            wh = ctx.at(e)
            P_ = can(par)
            mk = made(v)
            d = mk[0] if mk else v
            # a pointer that walks through the data started there
            own = owners(d)
            for lp in tuple(l) + tuple(x for x in o.events if x.k in ('loop', 'loop0')):
                for sym, init in ((lp.d.get('symloc') or {}).items() if isinstance(lp.d.get('symloc'), dict) else ()):
                    pass
            if mk:
                a = address(d, l + tuple(x for x in o.events if x.k in ('loop', 'loop0') and x not in l))
                if a is not None:
                    for t in a[0].p:
                        own |= owners(t) if isinstance(t, tuple) else set()
            const = P_ in QNIL
            if mk and elsewhere(d):
                put(wh, text, True)
                continue
            if whole(v) and not mk and e.d.get('qn') and last(e.qn) != 'value_wrap':
                put(wh, text, True)     # the value itself, not a part
                continue
            if own:
                if P_ in own:
                    put(wh, text, True)
                elif const or registry_of(P_) or variable(P_) in {q['n'] for q in f['params']} - {variable(x) for x in own}:
                    put(wh, text, False, 'the wrapper does not keep the object whose memory it points into')
                else:
                    put(wh, text, None, 'what it keeps was not recognised')
            else:
                if const:
                    put(wh, text, False if param_of(f, v) is not None else None, 'the wrapper keeps nothing')
                else:
                    put(wh, text, True if param_of(f, par) is not None or member_of(par) else None, 'what it keeps was not recognised')
            # the registry the type of the value belongs to
            if r is not None:
                rr = can(r)
                src = [x[3] for x in subterms(rr) if x[:1] == ('res',) and len(x) > 3 and x[2] in ('value_get_registry', 'type_get_registry')]
                ty = types_owner(mk[1] if mk else v)
                if src and ty:
                    put(wh, 'the wrapper belongs to the registry of its type', True if src[0] in ty else False if not any(x[:1] == ('res',) for x in ty) else None, 'it is looked up in the registry of another object')
                elif rr in QNIL:
                    put(wh, 'the wrapper belongs to the registry of its type', False, 'no registry is given')
    # objects that hold what the values they wrap keep, and functions handed over
    for f in fs:
        mk_names = {P.functions[k]['n'] for k in makers} | {'bind', 'ref', 'bind_front'}
        if not any(x['k'] in ('call', 'ctor') and (x.get('fn') in makers or name(x) in mk_names) or x['k'] == 'lambda' for x in walk_ast(f['body'])):
            continue
        try:
            outs = run(ctx, f, set(hand) | set(makers))
        except Overflow:
            continue
        objs = {x[3] for o in outs for e in o.events for a in list(getattr(e, 'args', None) or []) + ([e.obj] if getattr(e, 'obj', None) is not None else []) for x in subterms(can(a)) if x[:1] == ('res',) and len(x) > 3 and x[2] == 'rb_data_object_get'}
        for e, o, l in eventsof(outs, ('call', 'ctor')):
            k = e.d.get('key') or e.d.get('fn')
            args = e.args or []
            idx = None
            if k in makers and len(args) > makers[k]:
                idx = makers[k]
            elif e.k == 'ctor' and any(P.functions[m].get('cls') == e.cls and len(P.functions[m]['params']) == len(args) for m in makers):
                m = next(m for m in makers if P.functions[m].get('cls') == e.cls and len(P.functions[m]['params']) == len(args))
                idx = makers[m]
            elif e.k == 'call' and last(e.d.get('qn') or '') == 'bind' and args:
                fn = [x for x in subterms(can(args[0])) if x[:1] == ('func',)]
                h = next((hand[kk] for kk in hand for x in fn if kk in x or P.functions[kk]['qn'] in x or P.functions[kk]['n'] in x), None)
                if h is not None and len(args) > h[2] + 1:
                    idx = h[2] + 1
            if idx is None:
                continue
            n += 1
            A = can(args[idx])
            while isinstance(A, tuple) and A[:1] in (('rd',), ('deref',), ('addr',)) and A not in objs:
                A = A[1]
            wh = ctx.at(e)
            if A in objs or isinstance(A, tuple) and A[:1] == ('var',) and any(o_ == ('sym', A[1]) for o_ in objs):
                put(wh, text, True)
            elif A in QNIL:
                put(wh, text, False, 'the wrappers keep nothing')
            elif registry_of(A):
                put(wh, text, False, 'the wrappers keep the registry, not what they point into')
            elif any(A == ('sym', q['n']) for q in f['params']) and objs:
                put(wh, text, False, 'the wrappers keep an object whose memory they do not point into')
            else:
                put(wh, text, None, 'what it keeps was not recognised: %s' % (show(A)[:60],))
    settle(ctx, res)
    ctx.need(n >= 8, 'only %d places hand values to Ruby' % n)


def settle(ctx, res):
    for (wh, what), vs in sorted(res.items()):
        bad = [w for v, w in vs if v is False]
        if bad:
            ctx.bad(wh, what, bad[0])
        elif any(v is None for v, w in vs):
            ctx.unk(wh, what, next(w for v, w in vs if v is None))
        else:
            ctx.ok(wh, what)


def types_owner(t):
    """Ruby objects the type or value is that of"""
    res = set()
    for x in subterms(can(t)):
        if x[:1] == ('res',) and len(x) > 3 and x[2] == 'rb_data_object_get':
            y = x[3]
            res.add(y[3] if isinstance(y, tuple) and y[:1] == ('res',) and y[2] == 'rb_iv_get' and len(y) > 3 else y)
    return res


def registry_of(t):
    return isinstance(t, tuple) and t[:1] == ('res',) and t[2] in ('value_get_registry', 'type_get_registry')


def variable(t):
    """the variable a term is the value of"""
    while isinstance(t, tuple) and t[:1] in (('rd',), ('deref',), ('addr',)):
        t = t[1]
    return t[1] if isinstance(t, tuple) and t[:1] in (('sym',), ('var',)) else None


def still(en, st, c):
    """calls leave the members alone: only what the function itself sets counts"""
    if '::operator' in c.name or c.want_loc:
        return None
    st = st.copy()
    st.n += 1
    return [(st, ('res', st.n, c.name) + tuple(c.vals))]


def member_values(outs, m):
    """what a function leaves in a member of its object"""
    res = []
    if not m:
        return res
    for o in outs:
        for l, v in o.st.heap.items():
            if isinstance(l, tuple) and l[:1] == ('fld',) and l[2] == m and has_sub(('x', l[1]), lambda y: y == ('sym', 'this')):
                res.append(v)
    return res


def indexes(e, loops):
    """terms compared with the number of elements of an array or container"""
    res = []
    for a in list(e.facts):
        if a[0] not in ('lt', 'eq'):
            continue
        c, ps = lin_parts(a[1])
        ts = [(bare(can(t)), k) for t, k in ps]
        dims = [t for t, k in ts if counted(t)]
        if dims:
            res += [t for t, k in ts if not counted(t)]
    return res


def counted(t):
    t = bare(can(t))
    return isinstance(t, tuple) and t[:1] in (('pure',), ('res',)) and ('getDimension' in t[1:3] or 'getElementCount' in t[1:3])


def elements(ctx):
    """an index names the element at that index"""
    P = ctx.P
    res = {}
    n = 0

    def put(wh, v, why=''):
        res.setdefault((wh, 'the element asked for is the one found'), []).append((v, why))

    for f in functions(P):
        if f['n'] in KEEP or not interesting(f):
            continue
        try:
            outs = run(ctx, f, ())
        except Overflow:
            ctx.unk(ctx.where(f), 'the element asked for is the one found', 'there are too many paths')
            continue
        for e, o, l in eventsof(outs, ('ctor', 'call')):
            if not e.file.startswith(EXT):
                continue
            wh = ctx.at(e)
            ls = l + tuple(x for x in o.events if x.k in ('loop', 'loop0') and x not in l)
            if e.k == 'call' and last(e.d.get('qn') or '') in ('getElement', 'setElement') and len(e.args) >= 2:
                n += 1
                i = bare(can(e.args[1]))
                varies = any(x[:1] in (('res',), ('sym',), ('L',), ('X',)) for x in subterms(i))
                put(wh, True if varies and not isinstance(i, int) else False, 'always the same element, whatever the index')
                ix = [t for t in indexes(e, ls)]
                if ix and varies:
                    put(wh, True if any(same(i, t) for t in ix) or any(x in ix for x in subterms(i)) and not i[:1] == ('lin',) else False if i[:1] == ('lin',) and i[1] != 0 else None, 'the element next to the one asked for')
            if e.k == 'ctor' and e.cls == 'Typelib::Value' and len(e.args) == 2:
                ty = can(e.args[1])
                inner = [x for x in subterms(ty) if x[:1] == ('pure',) and x[1] == 'getIndirection']
                if not inner or elsewhere(e.args[0]) or not owners(e.args[0]) and not any(True for _ in ls):
                    continue
                a = address(e.args[0], ls)
                if a is None:
                    put(wh, None, 'the address was not recognised')
                    continue
                s, muls, extra = a
                if not any(x[:2] == ('pure', 'getData') for t in s.p for x in subterms(t) if isinstance(t, tuple)):
                    continue
                n += 1
                ix = indexes(e, ls)
                if not muls:
                    put(wh, False if ix else None, 'the index is not used to find the element')
                    continue
                if s.c or len(s.p) != 1:
                    put(wh, None if len(s.p) != 1 else False, 'the address is beside the element')
                    continue
                if len(muls) != 1:
                    put(wh, None, 'the address was not recognised')
                    continue
                num, size = muls[0]
                sz = [t for t in size.p if isinstance(t, tuple) and t[:2] == ('pure', 'getSize')]
                if size.c == 0 and len(size.p) == 1 and sz and list(size.p.values()) == [1]:
                    if not any(x == inner[0] for x in subterms(sz[0])):
                        put(wh, False, 'the distance between elements is not the size of one')
                        continue
                else:
                    put(wh, None if len(size.p) != 0 else False, 'the distance between elements is not the size of one')
                    continue
                loopy = [t for t in num.p if isinstance(t, tuple) and (t[:1] in (('round',), ('L',), ('X',)) or any(x[:1] in (('L',), ('round',)) for x in subterms(t)))]
                if loopy:
                    # a slice starts at the index asked for
                    asked = [t for t in ix if isinstance(t, tuple) and t[:1] == ('res',)]
                    starts = [init for t, (init, _c, _s, _t) in loop_sums(ls).items() if any(y == t for x in num.p for y in subterms(can(x)))]
                    if asked and starts and not any(t in [bare(can(y)) for y in subterms(can(x))] or bare(can(x)) == t for t in asked for x in starts + list(num.p)):
                        put(wh, False if all(can(x)[:1] == ('int',) for x in starts) else None, 'the index is not used to find the element')
                        continue
                    if len(num.p) > 1 or list(num.p.values()) != [1]:
                        # counted from the first index
                        put(wh, True if all(v == 1 for v in num.p.values()) and num.c == 0 else None if num.c == 0 else False, 'the element next to the one asked for')
                    else:
                        put(wh, num.c == 0, 'the element next to the one asked for')
                    continue
                if l:
                    put(wh, False, 'every round of the loop finds the same element')
                    continue
                if len(num.p) == 1 and list(num.p.values()) == [1]:
                    t = list(num.p)[0]
                    put(wh, num.c == 0 if any(same(bare(t), i) for i in ix) else None, 'the element next to the one asked for')
                else:
                    put(wh, False if not num.p or num.c else None, 'not the element asked for')
    settle(ctx, res)
    ctx.need(n >= 5, 'only %d elements are found for Ruby' % n)


def same(a, b):
    return a == b or bare(can(a)) == bare(can(b))


def val_of(t, mixed):
    """the Ruby object whose data, type or value the term is"""
    c = can(t)
    xs = {x[3] for x in subterms(c) if x[:1] == ('res',) and len(x) > 3 and x[2] == 'rb_data_object_get'}
    return xs


def compatible(ctx):
    """two values are combined only when their types are known to go together"""
    P = ctx.P
    res = {}
    n = 0
    text = 'values are combined only when their types go together'

    def put(wh, v, why=''):
        res.setdefault((wh, text), []).append((v, why))

    for f in functions(P):
        if f['n'] in KEEP or not has_call(f, MERGE + ('container_element', 'push', 'erase', 'setElement')):
            continue
        try:
            outs = run(ctx, f, ())
        except Overflow:
            ctx.unk(ctx.where(f), text, 'there are too many paths')
            continue
        for e, o, l in eventsof(outs, ('call',)):
            if not e.file.startswith(EXT):
                continue
            nm = last(e.d.get('qn') or '')
            qn = e.d.get('qn') or ''
            wh = ctx.at(e)
            pairs = equal_types(e)
            if nm in MERGE and (qn.startswith('Typelib::') or nm == 'memcmp') and len(e.args) >= 2:
                a, b = owners(e.args[0]), owners(e.args[1])
                if len(a) != 1 or len(b) != 1 or a == b:
                    continue
                n += 1
                x, y = a.pop(), b.pop()
                hit = any({x} <= types_owner(p) | set() and {y} <= types_owner(q) or {y} <= types_owner(p) and {x} <= types_owner(q) for p, q in pairs)
                if hit:
                    put(wh, True)
                else:
                    # the same memory
                    eq = any(k[0] == 'eq' and v and len(lin_parts(k[1])[1]) == 2 and all(can(t)[:2] in (('pure', 'getData'), ('res', 'getData')) for t, _c in lin_parts(k[1])[1])
                             and {x, y} <= {z[3] for z in subterms(can(k[1])) if z[:1] == ('res',) and len(z) > 3 and z[2] == 'rb_data_object_get'} for k, v in e.facts.items())
                    other = any({x, y} <= {z[3] for z in subterms(can(k[1])) if z[:1] == ('res',) and len(z) > 3 and z[2] == 'rb_data_object_get'} and
                                any(w[:1] == ('res',) and w[2] not in ('operator==', 'operator!=', 'canCastTo', 'rb_data_object_get', 'getType', 'getData') for w in subterms(can(k[1]))) for k in e.facts)
                    put(wh, True if eq else None if other else False, 'the types of the two values were not compared on a path')
                if len(e.args) > 2 and nm != 'memcmp':
                    t = types_owner(e.args[2])
                    put(wh, True if t and t <= {x, y} else None)
            elif nm in ('push', 'erase', 'setElement') and len(e.args) >= 2 and e.obj is not None and 'Container' in qn:
                v = e.args[-1]
                n += 1
                mk = made(v)
                cont = types_owner(e.obj)
                if mk:
                    ty = can(mk[1])
                    put(wh, True if any(x[:2] == ('pure', 'getIndirection') for x in subterms(ty)) and types_owner(ty) & cont else None)
                    continue
                own = owners(v)
                if len(own) != 1:
                    put(wh, None, 'the element was not recognised')
                    continue
                y = own.pop()
                hit = any(any(s[:2] == ('pure', 'getIndirection') for s in subterms(p)) and {y} <= types_owner(q) or any(s[:2] == ('pure', 'getIndirection') for s in subterms(q)) and {y} <= types_owner(p) for p, q in pairs)
                put(wh, True if hit else False, 'the type of the element was not compared with that of the elements of the container on a path')
    settle(ctx, res)
    ctx.need(n >= 3, 'only %d places combine values' % n)


def wrapper(ctx):
    """the object made for a value"""
    P = ctx.P
    fs = [f for f in functions(P) if f['qn'].endswith('cxx2rb::value_wrap')]
    ctx.need(len(fs) == 1, 'cxx2rb::value_wrap')
    f = fs[0]
    wh = ctx.where(f)
    pv, pr, pp = [('sym', p['n']) for p in f['params'][:3]]
    for o in ctx.run(f, opaque=lambda g: g is not f and (not g['file'].startswith(EXT) or g['n'] in KEEP or g['n'] in ('value_root_ptr', 'type_wrap', 'memory_wrap')), merge=False):
        if o.kind != 'return':
            continue
        cs = [e for e in o.events if e.k == 'call']
        ret = can(o.val)
        sets = [e for e in cs if last(e.d.get('qn') or '') == 'rb_iv_set' and len(e.args) == 3 and has_sub(('x', e.args[1]), lambda y: y == ('str', '@parent'))]
        if not sets:
            other = any(can(a) == pp for e in cs for a in (e.args or []) if last(e.d.get('qn') or '') != 'value_root_ptr')
            ctx.check(None if other else False, wh, 'a wrapper refers to the object its value lies in', 'it is not told on a path')
        for e in sets:
            ctx.check(True if can(e.args[2]) == pp and can(e.args[0]) == ret else False if can(e.args[2]) in QNIL else None, ctx.at(e), 'a wrapper refers to the object its value lies in', 'it is given %s' % (show(e.args[2])[:40],))
        mws = [e for e in cs if last(e.d.get('qn') or '') == 'memory_wrap']
        ctx.check(True if mws else None, wh, 'a wrapper has the memory of its value')
        for e in mws:
            a = [can(x) for x in e.args]
            ctx.check(True if any(x[:2] == ('pure', 'getData') for x in subterms(a[0])) and pv in subterms(a[0]) or has_sub(('x', a[0]), lambda y: y == ('var', 'v')) else None, ctx.at(e), 'a wrapper has the memory of its value')
            if len(a) > 1:
                ctx.check(True if a[1] == ('int', 0) else False if a[1][:1] == ('int',) else None, ctx.at(e), 'memory inside a value is not released with the wrapper', 'the wrapper takes memory over that belongs to the value')
            if len(a) > 2:
                ok = any(x[:1] == ('res',) and x[2] == 'value_root_ptr' and pp in subterms(x) for x in subterms(a[2]))
                ctx.check(True if ok else False if a[2] in (('int', 0), ('null',)) else None, ctx.at(e), 'memory inside a value is known to belong to its root', 'no root is given')
        tws = [e for e in cs if last(e.d.get('qn') or '') == 'type_wrap' and len(e.args) == 2]
        for e in tws:
            ctx.check(can(e.args[1]) == pr or None, ctx.at(e), 'the class of a wrapper comes from the registry given')
    # a value made over a memory zone keeps the zone
    zs = [g for g in functions(P) if g['n'] == 'value_from_memory_zone']
    for g in zs:
        zone = ('sym', g['params'][1]['n'])
        for o in ctx.run(g, opaque=lambda x: x is not g and (not x['file'].startswith(EXT) or x['n'] in KEEP or x['n'] in ('memory_cptr', 'value_create_empty', 'value_call_typelib_initialize')), merge=False):
            if o.kind != 'return':
                continue
            keep = [e for e in o.events if e.k == 'call' and last(e.d.get('qn') or '') == 'rb_iv_set' and len(e.args) == 3 and can(e.args[2]) == zone]
            ctx.check(True if any(can(e.args[0]) == can(o.val) for e in keep) else None if keep else False, ctx.where(g), 'a value keeps the memory zone it lies in', 'the zone is not stored in the object')
    # a type keeps its registry
    ts = [g for g in functions(P) if g['qn'].endswith('cxx2rb::type_wrap')]
    for g in ts:
        reg = ('sym', g['params'][1]['n'])
        for o in ctx.run(g, opaque=lambda x: x is not g, merge=False):
            if o.kind != 'return':
                continue
            made_ = [e for e in o.events if e.k == 'call' and last(e.d.get('qn') or '') in ('rb_data_object_wrap', 'rb_class_new_instance')]
            sets = [e for e in o.events if e.k == 'call' and last(e.d.get('qn') or '') == 'rb_iv_set' and len(e.args) == 3 and can(e.args[2]) == reg]
            if made_:
                ctx.check(True if any(has_sub(('x', e.args[1]), lambda y: y == ('str', '@__typelib_registry')) and can(e.args[0]) == can(o.val) for e in sets) else None if sets else False, ctx.where(g), 'a type keeps its registry', 'the registry is not stored in the class')
