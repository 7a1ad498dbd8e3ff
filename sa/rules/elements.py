"""A12: what containers do with their elements: compare, copy, visit, access by position, erase."""
import os
from core import *
from rules.layout import *
from rules import containers as C
from rules.lifetimes import is_vec, opq, elt_index, same, en_unsigned, ESYM, resizers, lower, const, memcpyable

DBG = os.environ.get('DBG')
BYTES = '#count'


def csym(loc):
    return ('sym', '#COUNT:' + show(loc))


def ehook(ctx, rz, skip=()):
    """containers are followed by their number of elements"""
    def count(en, st, loc):
        return st.heap.get(('fld', loc, BYTES), ZERO if root(loc)[0] == 'var' else csym(loc))

    def hook(en, st, c):
        k = c.e.get('fn')
        last = c.name.rsplit('::', 1)[-1]
        if last == 'getElementCount' and c.vals and 'count' not in skip:
            loc = deref(c.vals[0])
            t = count(en, st, loc)
            en_unsigned(t)
            if ('fld', loc, BYTES) not in st.heap:
                st = st.copy()
                st.heap[('fld', loc, BYTES)] = t
            return [(st, t)]
        if last == 'getSize' and not c.vals:
            en_unsigned(ESYM)
            return [(st, ESYM)]
        if k in rz:
            st = st.copy()
            loc = deref(c.vals[0])
            en.ev_(st, 'resized', c.e, vec=loc, new=c.vals[1], cur=count(en, st, loc))
            st.heap[('fld', loc, BYTES)] = c.vals[1]
            return [(st, ZERO)]
        if c.name.startswith('Typelib::') and last in ('init', 'destroy', 'copy', 'zero') and c.name.count('::') == 1:
            st = st.copy()
            en.ev_(st, 'elem', c.e, op=last, args=tuple(c.vals))
            return [(st, ZERO)]
        if c.name == 'Typelib::compare':
            st = st.copy()
            st.n += 1; r = ('res', st.n, 'compare') + tuple(c.vals)
            en.ev_(st, 'cmp', c.e, args=tuple(c.vals), res=r)
            return [(st, r)]
        if last in ('should_delete', 'dispatch', 'call'):
            st = st.copy()
            st.n += 1; r = ('res', st.n, last) + tuple(c.vals)
            en.ev_(st, last, c.e, args=tuple(c.vals), res=r)
            return [(st, r)]
        if last in ('memcpy', 'memmove'):
            st = st.copy()
            en.ev_(st, 'bytes', c.e, op=last, args=tuple(c.vals))
            return [(st, c.vals[0])]
        if c.obj is not None and is_vec(c.e.get('qn', '')):
            ol = c.ol if c.ol is not None else deref(c.obj)
            if last in ('size', 'length'):
                if 'count' in skip:
                    return [(st, ('sym', '#BYTES'))]
                return [(st, mul(count(en, st, ol), ESYM))]
        return None
    return hook


# ------------------------------------------------------------------ reading paths
def data_of(t):
    """the address a Value or a pointer stands for"""
    if t[0] == 'struct':
        for k, v in t[1]:
            if k == 'm_data':
                return v
        return None
    return t


def place(t):
    """element address -> (vector location, byte position)"""
    t = data_of(t)
    if t is None:
        return None, None
    v, i = elt_index(t)
    if v is None:
        for x, k in lin_parts(t)[1]:
            if x[0] == 'rd' and k == 1:      # the characters of a string
                return x[1], sub(t, x)
        for x in subterms(t):
            if x[0] in ('pure', 'res') and any(sq(str(y)).endswith(('::c_str', '::data')) for y in x if isinstance(y, str)):
                o = [y for y in x if isinstance(y, tuple)]
                if o:
                    loc = o[0][1] if o[0][0] in ('ptr', 'addr') else deref(o[0])
                    return loc, sub(t, x)
    return v, i


def steps(L):
    """what each loop variable grows by in a round, also where that is not a number"""
    r = dict(L.step)
    its = [i for i in L.iters if i.kind == 'continue']
    for s in L.init:
        if r.get(s) is None:
            loc = (L.d.get('symloc') or {}).get(s, s[-1])
            ds = [sub(i.st.heap[loc], s) for i in its if loc in i.st.heap]
            if ds and len(ds) == len(its) and all(d == ds[0] for d in ds):
                r[s] = ds[0]
    return r


def true_(facts, t):
    v = facts.get(('eq', t))
    return None if v is None else not v


def moved(evs):
    """[(dst vec, dst pos, src vec, src pos, bytes, how, event)] of the events of one path; None for what is not understood"""
    res = []
    for e in evs:
        if e.k == 'bytes':
            d, di = place(e.args[0]); s, si = place(e.args[1])
            res.append((d, di, s, si, e.args[2], e.op, e))
        elif e.k == 'elem' and e.op == 'copy':
            d, di = place(e.args[0]); s, si = place(e.args[1])
            res.append((d, di, s, si, ESYM, 'copy', e))
        elif e.k == 'loop':
            its = [i for i in e.iters if i.kind == 'continue']
            for i in its:
                ms = [x for x in i.events if x.k in ('elem', 'bytes')]
                if not ms:
                    continue
                if len(ms) != 1 or len(its) != 1 or ms[0].k == 'elem' and ms[0].op != 'copy':
                    res.append(None); continue
                m = ms[0]
                d, di = place(m.args[0]); s, si = place(m.args[1])
                t = e.d.get('trip')
                one = m.args[2] if m.k == 'bytes' else ESYM
                if None in (d, s) or one != ESYM:
                    res.append(None); continue
                syms = [x for x in e.init if has_sub(di, lambda y: y == x) or has_sub(si, lambda y: y == x)]
                step = steps(e)
                ok = all(step.get(x) is not None for x in syms)
                if not ok:
                    res.append(None); continue
                at0 = {x: e.init[x] for x in syms}
                at1 = {x: add(e.init[x], step[x]) for x in syms}
                d0, s0 = subst(di, at0), subst(si, at0)
                dd, ds = sub(subst(di, at1), d0), sub(subst(si, at1), s0)
                if ds == ZERO and dd == ESYM or dd == ZERO:
                    res.append((d, di, s, si, None, 'stuck', m)); continue
                if not any(has_sub(x, lambda y: y[0] in ('unk', 'res', 'hv')) for x in (dd, ds)) and (dd, ds) not in ((ESYM, ESYM), (scale(ESYM, -1), scale(ESYM, -1))):
                    res.append((d, di, s, si, None, 'stuck', m)); continue
                if t is None:
                    res.append(None); continue
                if dd != ESYM or ds != ESYM:
                    back = scale(ESYM, -1)
                    if dd == back and ds == back:
                        k = mul(sub(t, I(1)), ESYM)
                        res.append((d, sub(d0, k), s, sub(s0, k), mul(t, ESYM), 'down', m)); continue
                    res.append(None); continue
                res.append((d, d0, s, s0, mul(t, ESYM), 'up', m))
    return res


def atleast(facts, a, b):
    """a >= b"""
    d = sub(a, b)
    if const(d) is not None:
        return const(d) >= 0
    lo = lower(facts, d)
    return lo is not None and lo >= 0


def erased(ctx, evs, facts, vec, idx, n, at_, what):
    """the events take element idx (a number of elements) out of vec, that has n"""
    rs = [e for e in evs if e.k == 'resized' and e.vec == vec]
    if len(rs) != 1:
        ctx.check(False if not rs or all(same(e.new, sub(n, I(k + 1))) for k, e in enumerate(rs)) else None, at_, what, 'the element is not taken out' if not rs else 'more than one is')
        return
    r = rs[0]
    k = evs.index(r)
    ok = same(r.new, sub(n, I(1)))
    ctx.check(ok, ctx.at(r), what, 'the container ends up with %s elements of %s' % (show(r.new), show(n)))
    ms = moved(evs[:k])
    late = [m for m in moved(evs[k + 1:]) if m is None or m[0] == vec or m[2] == vec]
    if late:
        ctx.check(None if None in late else False, ctx.at(r), what, 'elements are moved after the container has shrunk')
    if None in ms:
        ctx.unk(ctx.at(r), what, 'moves of elements not understood')
        return
    ms = [m for m in ms if m[0] == vec or m[2] == vec or m[0] is None or m[2] is None]
    if not ms:
        ctx.check(True if atleast(facts, add(idx, I(1)), n) else False, ctx.at(r), what, 'the elements behind it are not moved')
        return
    if len(ms) > 1:
        ctx.unk(ctx.at(r), what, 'several moves')
        return
    d, di, s, si, nb, how, e = ms[0]
    if d is None or s is None or nb is None:
        ctx.check(False if how == 'stuck' else None, ctx.at(e), what, 'the elements are not taken one after the other')
        return
    want = (mul(idx, ESYM), mul(add(idx, I(1)), ESYM), mul(sub(sub(n, idx), I(1)), ESYM))
    ctx.check(d == vec and s == vec, ctx.at(e), what, 'elements come from or go to something else')
    for got, w, name in ((di, want[0], 'to'), (si, want[1], 'from'), (nb, want[2], 'bytes')):
        ctx.check(same(got, w), ctx.at(e), what, '%s %s instead of %s' % (name, show(got), show(w)))
    if how == 'memcpy':
        ctx.bad(ctx.at(e), what, 'elements are moved with memcpy between overlapping regions')
    if how == 'down':
        ctx.bad(ctx.at(e), what, 'each element is overwritten before it has been moved')


def covers(ctx, L, vec, idx, n):
    """does the loop reach every element: idx (bytes) starts at 0, goes on by one, n times -> (verdict, text)"""
    syms = [x for x in L.init if has_sub(idx, lambda y: y == x)]
    step = steps(L)
    if not syms or any(step.get(x) is None for x in syms):
        return (False, 'always the same element') if not syms else (None, 'steps not known')
    d0 = subst(idx, {x: L.init[x] for x in syms})
    d1 = subst(idx, {x: add(L.init[x], step[x]) for x in syms})
    t = L.d.get('trip')
    unit = sub(d1, d0)
    for u in (ESYM, I(1)):
        if unit == u:
            a = same(d0, ZERO)
            b = same(t, n) if t is not None else None
            if False in (a, b):
                return False, 'starts at %s, %s times' % (show(d0), show(t) if t else '?')
            if a and b:
                return True, ''
            return None, 'starts at %s, %s times' % (show(d0), show(t) if t else '?')
        if unit == scale(u, -1):
            if t is None:
                return None, 'counts not known'
            a = same(d0, mul(sub(n, I(1)), u)); b = same(t, n)
            return (False if False in (a, b) else True if a and b else None), 'starts at %s, %s times' % (show(d0), show(t))
    return (False if const(sub(unit, ESYM)) is not None or not has_sub(unit, lambda x: x[0] in ('unk', 'res', 'hv')) else None), 'in steps of %s' % show(unit)


def charptr(e):
    """a string is assigned from a C string"""
    x = e.d.get('node')
    if isinstance(x, dict):
        for y in x.get('args') or ():
            t = (y.get('t') or '').replace('const', '').replace(' ', '')
            if t in ('char*',):
                return True
    return False


def vecp(f, k=0):
    return deref(('sym', f['params'][k]['n']))


# ------------------------------------------------------------------ the rules
def run(ctx, r, f, skip=()):
    rz = dict((g['key'], g) for g, v, s, o in resizers(ctx, r))
    return rz, ctx.run(f, hook=ehook(ctx, rz, skip), opaque=lambda g: opq(g) and not sq(g['qn']).endswith(('ValueVisitor::dispatch', 'ValueVisitor::apply')))


def void_ptrs(ctx, f):
    return len(f['params']) and all('vector' not in p['t'] for p in f['params'])


def erases(ctx):
    n = 0
    for r in C.container_classes(ctx):
        for f in C.methods(ctx, r, 'erase', lambda f: len(f['params']) == 2 and void_ptrs(ctx, f)):
            n += 1
            rz, outs = run(ctx, r, f)
            vec = vecp(f); cnt = csym(vec); wh = ctx.where(f)
            what = 'erasing takes out exactly the first element that equals the value'
            any_ = any(e.k == 'resized' for o in outs for e in o.events)
            if not any_:
                if rz:
                    ctx.check(None if any(e.k == 'call' and e.d.get('key') for o in outs for e in o.events) and False else False, wh, what, 'nothing is ever taken out')
                else:
                    ctx.check(all(o.kind != 'return' or o.val == ZERO for o in outs) or None, wh, 'a container that cannot erase says so', '')
                continue
            for o in outs:
                if o.kind != 'return':
                    continue
                if o.val == ZERO:
                    ctx.check(not any(e.k == 'resized' for e in o.events), wh, what, 'reports that nothing was erased after having erased')
                    reached(ctx, o, vec, cnt, wh, 'cmp', 'an element that equals the value is found wherever it is', want=False)
                elif o.val == I(1):
                    hit = [e for e in o.events if e.k == 'cmp' and true_(o.facts, e.res)]
                    if len(hit) != 1:
                        ctx.check(None if hit or any(e.k == 'cmp' for e in o.events) and False else False, wh, what, 'reports an erased element without one having compared equal')
                        continue
                    args = hit[0].args
                    p = [place(a) for a in args[:2]]
                    own = [i for v, i in p if v == vec]
                    if len(own) != 1:
                        ctx.unk(ctx.at(hit[0]), what, 'comparison of %s' % show(args[0])); continue
                    q = bydiv(own[0])
                    if q is None:
                        ctx.unk(ctx.at(hit[0]), what, 'position %s' % show(own[0])); continue
                    erased(ctx, o.events, o.facts, vec, q, cnt, wh, what)
                elif any(e.k == 'resized' for e in o.events) and not has_sub(o.val, lambda x: x[0] in ('res', 'unk', 'hv')):
                    ctx.bad(wh, what, 'returns %s after having erased' % show(o.val))
                else:
                    ctx.unk(wh, what, 'returns %s' % show(o.val))
    ctx.need(n, 'no erase found')


def bydiv(t):
    from rules.lifetimes import div
    return div(t)


def reached(ctx, o, vec, cnt, wh, kind, what, want=None):
    """on this path every element of vec was looked at by an event of the kind (with that outcome)"""
    if any(a == ('eq', cnt) and v for a, v in o.facts.items()):
        return ctx.ok(wh, what)
    loops = [e for e in o.events if e.k == 'loop' and any(x.k == kind for i in e.iters for x in i.events)]
    if not loops:
        if any(e.k == 'loop0' for e in o.events) and atleast(o.facts, ZERO, cnt):
            return ctx.ok(wh, what)
        return ctx.bad(wh, what, 'a path looks at no element')
    L = loops[0]
    for i in L.iters:
        if i.kind != 'continue':
            continue
        xs = [x for x in i.events if x.k == kind]
        if not xs:
            ctx.bad(wh, what, 'a path through the loop leaves an element out'); continue
        for x in xs[:1]:
            ps = [place(a) for a in x.args[:2]]
            own = [q for v, q in ps if v == vec]
            if len(own) != 1:
                ctx.unk(ctx.at(x), what, 'looks at %s' % show(x.args[0])); continue
            v, t = covers(ctx, L, vec, own[0], cnt)
            ctx.check(v, ctx.at(x), what, t)
            if want is not None:
                ctx.check(true_(i.facts, x.res) == want if true_(i.facts, x.res) is not None else False, ctx.at(x), what, 'goes on whatever the outcome')


def compares(ctx):
    n = 0
    for r in C.container_classes(ctx):
        for f in C.methods(ctx, r, 'compare', lambda f: len(f['params']) == 2 and void_ptrs(ctx, f)):
            n += 1
            rz, outs = run(ctx, r, f)
            a, b = vecp(f), vecp(f, 1)
            ca, cb = csym(a), csym(b)
            wh = ctx.where(f)
            what = 'containers are equal exactly when they hold equal elements'
            for o in outs:
                if o.kind != 'return':
                    continue
                v = o.val
                if v[0] == 'cmp' and v[1] == '==' and {x[1] for x in v[2:4] if x[0] == 'rd'} == {a, b}:
                    ctx.ok(wh, what); continue
                cut = [x for x in subterms(v) if x[0] in ('res', 'pure') and any(sq(str(y)).rsplit('::', 1)[-1] in ('strcmp', 'strncmp', 'strcoll', 'strcasecmp') for y in x if isinstance(y, str))]
                if cut:
                    ctx.bad(wh, what, 'compares the text up to the first zero byte only'); continue
                if v[0] == 'cmp' and v[1] == '==' and ZERO in v[2:4] and any(x[0] in ('res', 'pure') and any(sq(str(y)).endswith('::compare') for y in x if isinstance(y, str)) for x in v[2:4]) and has_sub(v, lambda x: x == a or x == ('rd', a)) and has_sub(v, lambda x: x == b or x == ('rd', b)):
                    ctx.ok(wh, what); continue
                if v in (ZERO, I(1)):
                    samecount = None
                    for k, t in o.facts.items():
                        if k[0] == 'eq' and (k[1] == sub(ca, cb) or k[1] == sub(cb, ca)):
                            samecount = t
                        if k[0] == 'lt' and t and (k[1] in (sub(ca, cb), sub(cb, ca))):
                            samecount = False
                    ge1, ge2 = atleast(o.facts, ca, cb), atleast(o.facts, cb, ca)
                    if samecount is None and ge1 and ge2:
                        samecount = True
                    if v == ZERO:
                        diff = [e for e in o.events if e.k == 'cmp' and true_(o.facts, e.res) is False]
                        for e in diff:
                            pairs(ctx, e, a, b, what)
                        ctx.check(True if samecount is False or diff else False, wh, what, 'says they differ without a difference having been found')
                    else:
                        if any(e.k == 'cmp' and true_(o.facts, e.res) is False for e in o.events):
                            ctx.bad(wh, what, 'says they are equal after a difference was found')
                        ctx.check(samecount is True, wh, what, 'says they are equal without having compared the numbers of elements')
                        if samecount is True:
                            reached(ctx, o, a, ca, wh, 'cmp', what, want=True)
                            for L in [e for e in o.events if e.k == 'loop']:
                                for i in L.iters:
                                    for e in i.events:
                                        if e.k == 'cmp':
                                            pairs(ctx, e, a, b, what)
                    continue
                if has_sub(v, lambda x: x[0] in ('res', 'pure', 'L', 'X', 'unk', 'cmp', 'op')):
                    ctx.unk(wh, what, 'returns %s' % show(v))
                else:
                    ctx.bad(wh, what, 'returns %s' % show(v))
    ctx.need(n, 'no comparison of containers found')


def pairs(ctx, e, a, b, what):
    p = [place(x) for x in e.args[:2]]
    if None in (p[0][0], p[1][0]):
        return ctx.unk(ctx.at(e), what, 'compares %s' % show(e.args[0]))
    ctx.check({p[0][0], p[1][0]} == {a, b} and p[0][1] == p[1][1], ctx.at(e), what, 'compares elements at %s and %s' % (show(p[0][1]), show(p[1][1])))


def copies(ctx):
    n = 0
    for r in C.container_classes(ctx):
        for f in C.methods(ctx, r, 'copy', lambda f: len(f['params']) == 2 and void_ptrs(ctx, f)):
            n += 1
            rz, outs = run(ctx, r, f)
            d, s = vecp(f), vecp(f, 1)
            cs = csym(s)
            wh = ctx.where(f)
            what = 'copying makes the target hold exactly the elements of the source'
            for o in outs:
                if o.kind != 'return':
                    continue
                if any(v is True and k[0] == 'eq' and k[1] in (sub(('sym', f['params'][0]['n']), ('sym', f['params'][1]['n'])), sub(('sym', f['params'][1]['n']), ('sym', f['params'][0]['n']))) for k, v in o.facts.items()):
                    continue          # a container copied to itself
                asg = [e for e in o.events if e.k == 'call' and e.qn.rsplit('::', 1)[-1] in ('operator=', 'assign') and e.d.get('obj') is not None]
                st = [e for e in o.events if e.k == 'store' and e.loc == d]
                if st or asg:
                    e = (st or asg)[-1]
                    t = charptr(e)
                    if t:
                        ctx.bad(ctx.at(e), what, 'copies the text up to the first zero byte only'); continue
                    src = e.val if e.k == 'store' else e.args[0] if e.args else ZERO
                    ctx.check(has_sub(src, lambda x: x == s or x == ('rd', s)) or None, ctx.at(e), what, show(src)); continue
                rs = [e for e in o.events if e.k == 'resized']
                if not rs:
                    enough = any(k[0] == 'eq' and v and k[1] in (sub(csym(d), cs), sub(cs, csym(d))) for k, v in o.facts.items())
                    if not enough:
                        ctx.check(False if rz else None, wh, what, 'a path leaves the target at its own size'); continue
                for e in rs:
                    ctx.check(e.vec == d and same(e.new, cs), ctx.at(e), what, 'resizes %s to %s' % (show(e.vec), show(e.new)))
                k = o.events.index(rs[-1]) if rs else 0
                ms = moved(o.events[k:])
                early = [m for m in moved(o.events[:k])]
                if early:
                    ctx.check(None if None in early else False, wh, what, 'elements are copied before the target has its size')
                if None in ms:
                    ctx.unk(wh, what, 'copies of elements not understood'); continue
                if not ms:
                    ctx.check(any(k2 == ('eq', cs) and v for k2, v in o.facts.items()) or atleast(o.facts, ZERO, cs), wh, what, 'no element is copied'); continue
                if len(ms) > 1:
                    ctx.unk(wh, what, 'several copies'); continue
                dv, di, sv, si, nb, how, e = ms[0]
                if dv is None or sv is None or nb is None:
                    ctx.check(False if how == 'stuck' else None, ctx.at(e), what, 'the elements are not taken one after the other'); continue
                ctx.check(dv == d and sv == s, ctx.at(e), what, 'copies from %s to %s' % (show(sv), show(dv)))
                for got, w, nm in ((di, ZERO, 'to'), (si, ZERO, 'from'), (nb, mul(cs, ESYM), 'bytes')):
                    ctx.check(same(got, w), ctx.at(e), what, '%s %s instead of %s' % (nm, show(got), show(w)))
    ctx.need(n, 'no copy of containers found')


def visits(ctx):
    n = 0
    for r in C.container_classes(ctx):
        for f in C.methods(ctx, r, 'visit'):
            n += 1
            rz, outs = run(ctx, r, f)
            vec = vecp(f)
            cnt = csym(vec)
            wh = ctx.where(f)
            what = 'visiting a container reaches every element once'
            for o in outs:
                if o.kind != 'return':
                    continue
                if any(e.k in ('dispatch',) and true_(o.facts, e.res) is False for e in o.events):
                    continue              # the visitor asked to stop
                ds = [e for e in o.events if e.k == 'loop']
                c2 = cnt
                for k in list(o.facts):
                    pass
                units(ctx, o, vec, cnt, wh, what)
    ctx.need(n, 'no visit of containers found')


def units(ctx, o, vec, cnt, wh, what):
    """strings count in bytes: their length is their number of elements"""
    ll = mul(cnt, ESYM)
    if any(a == ('eq', cnt) and v or a == ('eq', ll) and v for a, v in o.facts.items()):
        return ctx.ok(wh, what)
    loops = [e for e in o.events if e.k == 'loop' and any(x.k == 'dispatch' for i in e.iters for x in i.events)]
    if not loops:
        if any(e.k == 'loop0' for e in o.events) and (atleast(o.facts, ZERO, cnt) or atleast(o.facts, ZERO, ll)):
            return ctx.ok(wh, what)
        return ctx.bad(wh, what, 'a path visits no element')
    if len(loops) > 1:
        return ctx.unk(wh, what, 'several loops')
    for i in loops[0].iters:
        if i.kind != 'continue':
            continue
        xs = [x for x in i.events if x.k == 'dispatch']
        if len(xs) != 1:
            ctx.bad(wh, what, 'a path through the loop visits %d elements' % len(xs)); continue
        v, q = place(xs[0].args[0])
        if v != vec:
            ctx.unk(ctx.at(xs[0]), what, 'visits %s' % show(xs[0].args[0])); continue
        a, t = covers(ctx, loops[0], vec, q, cnt)
        if a is not True:
            a2, t2 = covers(ctx, loops[0], vec, q, ll)
            unit1 = has_sub(q, lambda x: x == ESYM)
            if a2 is True and not unit1:
                a = True
        ctx.check(a, ctx.at(xs[0]), what, t)


def positions(ctx):
    n = 0
    for r in C.container_classes(ctx):
        for name in ('getElement', 'setElement'):
            for f in C.methods(ctx, r, name):
                ix = [p for p in f['params'] if strip(ctx, p['t']) in ('int', 'long', 'size', 'unsigned long', 'unsigned int', 'size_t')]
                if len(ix) != 1:
                    ctx.unk(ctx.where(f), 'an element is found at its position', 'no index'); continue
                n += 1
                rz, outs = run(ctx, r, f)
                vec = vecp(f)
                what = 'an element is found at its position'
                want = mul(('sym', ix[0]['n']), ESYM)
                for o in outs:
                    if o.kind != 'return':
                        continue
                    if name == 'getElement':
                        v, q = place(o.val)
                        e = None
                    else:
                        es = [x for x in o.events if x.k == 'elem' and x.op == 'copy']
                        if len(es) != 1:
                            ctx.check(False if not es else None, ctx.where(f), what, 'the element is not written'); continue
                        v, q = place(es[0].args[0])
                        vp = [p for p in f['params'] if 'Value' in p['t']]
                        if vp:
                            ctx.check(has_sub(es[0].args[1], lambda x: x == ('sym', vp[0]['n']) or vp[0]['n'] in str(x[1:2])) or None, ctx.at(es[0]), 'the value given is written', show(es[0].args[1]))
                    if v is None:
                        ctx.unk(ctx.where(f), what, ''); continue
                    q = strip_casts(q)
                    ctx.check(v == vec and same(q, want), ctx.where(f), what, 'at %s' % show(q))
    ctx.need(n, 'no access to elements by position found')


def strip_casts(t):
    m = {x: x[-1] for x in subterms(t) if x[0] in ('sext', 'zext') and isinstance(x[-1], tuple)}
    return subst(t, m) if m else t


def counts(ctx):
    n = 0
    B = ('sym', '#BYTES')
    for r in C.container_classes(ctx):
        for f in C.methods(ctx, r, 'getElementCount'):
            n += 1
            en_unsigned(B)
            rz, outs = run(ctx, r, f, skip=('count',))
            what = 'a container holds its size over the size of an element elements'
            for o in outs:
                if o.kind != 'return':
                    continue
                v = o.val
                if v == ZERO:
                    z = any(a in (('eq', B), ('eq', ESYM)) and t for a, t in o.facts.items())
                    ctx.check(z, ctx.where(f), what, 'no elements whatever its size')
                elif v[0] == 'op' and v[1] == '/' and v[2] == B and v[3] == ESYM:
                    ctx.ok(ctx.where(f), what)
                else:
                    ctx.check(None if has_sub(v, lambda x: x[0] in ('unk', 'res', 'pure')) else False, ctx.where(f), what, 'returns %s' % show(v))
    ctx.need(n, 'no element count found')


def filters(ctx):
    n = 0
    for r in C.container_classes(ctx):
        for f in C.methods(ctx, r, 'delete_if_impl'):
            rz, outs = run(ctx, r, f)
            vec = vecp(f)
            cnt = csym(vec)
            wh = ctx.where(f)
            what = 'elements are tested one by one and exactly those asked for are taken out'
            if not rz:
                continue
            n += 1
            seen = False
            for o in outs:
                if o.kind != 'return':
                    continue
                ls = [e for e in o.events if e.k in ('loop', 'loop0') and any(x.k == 'should_delete' for i in e.iters for x in i.events)]
                if not ls:
                    if any(a == ('eq', cnt) and v for a, v in o.facts.items()):
                        continue
                    ctx.bad(wh, what, 'a path tests no element'); continue
                if len(ls) > 1 or ls[0].k == 'loop0':
                    if ls[0].k == 'loop0':
                        ctx.check(atleast(o.facts, ZERO, cnt) or None, wh, what, 'a path tests no element')
                    continue
                if not seen:
                    seen = True
                    one_filter(ctx, ls[0], vec, cnt, wh, what)
            ctx.check(seen, wh, what, 'no element is ever tested')
    ctx.need(n, 'no conditional removal of elements found')


def one_filter(ctx, L, vec, cnt, wh, what):
    its = [i for i in L.iters if i.kind == 'continue']
    if any(i.kind not in ('continue',) for i in L.iters if i.kind in ('break', 'return')):
        ctx.unk(wh, what, 'leaves early')
        return
    syms = list(L.init)
    locs = {s: (L.d.get('symloc') or {}).get(s, s[-1]) for s in syms}
    delta = {}
    for s in syms:
        d = []
        for i in its:
            v = i.st.heap.get(locs[s])
            d.append(sub(v, s) if v is not None else ZERO)
        delta[s] = d
    size = ('fld', vec, BYTES)
    S = [s for s in syms if locs[s] == size]
    # symbols that move together are one
    eqs = {}
    for s in syms:
        if S and s != S[0]:
            dS = [subst(x, {s: S[0]}) for x in delta[s]]
            if L.init[s] in (cnt, L.init[S[0]]) and dS == delta[S[0]]:
                eqs[s] = S[0]
    N = S[0] if S else None
    if N is None:
        ctx.bad(wh, what, 'no element is ever taken out')
        return
    for k, i in enumerate(its):
        ts = [x for x in i.events if x.k == 'should_delete']
        if len(ts) != 1:
            ctx.bad(wh, what, 'a path through the loop tests %d elements' % len(ts)); continue
        v, q = place(ts[0].args[0])
        if v != vec:
            ctx.unk(ctx.at(ts[0]), what, 'tests %s' % show(ts[0].args[0])); continue
        ix = bydiv(q)
        xs = [s for s in syms if has_sub(q, lambda y: y == s)]
        if ix is None or len(xs) != 1 or ix != xs[0]:
            ctx.unk(ctx.at(ts[0]), what, 'position %s' % show(q)); continue
        x = xs[0]
        if L.init[x] != ZERO:
            ctx.check(False if const(L.init[x]) is not None else None, ctx.at(ts[0]), what, 'starts at element %s' % show(L.init[x]))
            continue
        # the bound: x < N
        facts = {}
        for a, t in i.facts.items():
            facts[(a[0], subst(a[1], eqs)) + tuple(a[2:]) if len(a) > 1 and isinstance(a[1], tuple) else a] = t
        bound = None
        tested = {}
        for a, t in ts[0].facts.items():
            tested[(a[0], subst(a[1], eqs)) + tuple(a[2:]) if len(a) > 1 and isinstance(a[1], tuple) else a] = t
        for a, t in tested.items():
            if len(a) > 1 and isinstance(a[1], tuple) and has_sub(a[1], lambda y: y == x):
                if a[0] == 'lt' and t or a[0] == 'eq' and t is False:
                    c = const(sub(a[1], sub(x, N)))
                    if a[0] == 'eq' and c is None:
                        c = const(sub(a[1], sub(N, x)))
                        c = None if c is None else -c
                    if c is not None:
                        bound = max(bound, c) if bound is not None else c
                elif a[0] == 'lt':
                    c = const(add(a[1], sub(x, N)))          # not N - x + c < 0
                    if c is not None:
                        bound = max(bound, 1 - c) if bound is not None else 1 - c
        if bound is None or bound != 0:
            stale = [a for a in facts if len(a) > 1 and isinstance(a[1], tuple) and has_sub(a[1], lambda y: y == x) and has_sub(a[1], lambda y: y == cnt or y in syms and y not in (x, N))]
            ctx.check(False if bound is not None or stale else None, ctx.at(ts[0]), what, 'the last element is not tested' if bound and bound > 0 else 'tests elements beyond the ones left')
            continue
        rem = true_(i.facts, ts[0].res)
        dx = delta[x][k]
        if rem is None:
            ctx.bad(ctx.at(ts[0]), what, 'the outcome of the test is not used'); continue
        evs = [e for e in i.events]
        if rem:
            for e in evs:
                pass
            class E2: pass
            erased(ctx, evs, facts, vec, x, N, ctx.at(ts[0]), what)
            ctx.check(same(dx, ZERO), ctx.at(ts[0]), what, 'the element that takes the place of the one removed is left out')
        else:
            ctx.check(not any(e.k == 'resized' for e in evs), ctx.at(ts[0]), what, 'takes out an element it was not asked to')
            ctx.check(same(dx, I(1)), ctx.at(ts[0]), what, 'goes on by %s' % show(dx))


def pushes(ctx):
    n = 0
    for r in C.container_classes(ctx):
        for f in C.methods(ctx, r, 'push'):
            rz, outs = run(ctx, r, f)
            vec = vecp(f)
            cnt = csym(vec)
            what = 'an element is added at the end with the value given'
            vp = [p for p in f['params'] if 'Value' in p['t']]
            if not vp:
                continue
            vs = vp[0]['n']
            n += 1
            for o in outs:
                if o.kind != 'return':
                    continue
                wh = ctx.where(f)
                if rz:
                    rs = [e for e in o.events if e.k == 'resized']
                    cp = [e for e in o.events if e.k in ('elem', 'bytes') and (e.k == 'bytes' or e.op == 'copy')]
                    if len(rs) != 1 or len(cp) != 1:
                        ctx.check(False if not rs or not cp else None, wh, what, 'nothing is added' if not rs else 'the value is not written' if not cp else ''); continue
                    ctx.check(same(rs[0].new, add(cnt, I(1))), ctx.at(rs[0]), what, 'the container gets %s elements' % show(rs[0].new))
                    v, q = place(cp[0].args[0])
                    ctx.check(v == vec and same(q, mul(cnt, ESYM)) if v is not None else None, ctx.at(cp[0]), what, 'written at %s' % (show(q) if q else '?'))
                    ctx.check(o.events.index(rs[0]) < o.events.index(cp[0]), ctx.at(cp[0]), what, 'written before there is room')
                    ctx.check(vs in repr(cp[0].args[1]) or None, ctx.at(cp[0]), what, '')
                else:
                    ap = [e for e in o.events if e.k == 'call' and e.qn.rsplit('::', 1)[-1] in ('append', 'push_back', 'operator+=', 'insert')]
                    if len(ap) != 1:
                        ctx.check(False if not ap else None, wh, what, 'nothing is added'); continue
                    a = ap[0].args
                    if ap[0].qn.endswith('append') and len(a) == 1 and charptr(ap[0]):
                        ctx.bad(ctx.at(ap[0]), what, 'adds all bytes up to a zero byte')
                    if ap[0].qn.endswith('append') and len(a) == 2 and const(a[1]) is not None:
                        ctx.check(const(a[1]) == 1 and vs in repr(a[0]), ctx.at(ap[0]), what, 'adds %s' % show(a[1]))
    ctx.need(n, 'no push found')
