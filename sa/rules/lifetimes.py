"""A09, A10: what containers do to their elements."""
from core import *
from rules.layout import *
from rules import containers as C
from rules.streams import lower, const

NSYM, ESYM, CAP = ('sym', '#COUNT'), ('sym', '#ELEMENT'), ('sym', '#CAPACITY')
SIZE_FIELD = '#size'
ELEMOPS = ('Typelib::init', 'Typelib::destroy', 'Typelib::copy', 'Typelib::zero')


def is_vec(name):
    return sq(name).rsplit('::', 1)[0] in ('std::vector', 'std::basic_string', 'std::deque')


def vhook(element_vec=None):
    """models element counts and sizes as symbols and follows the byte size of vectors"""
    def hook(en, st, c):
        last = c.name.rsplit('::', 1)[-1]
        if last == 'getElementCount':
            return [(st, NSYM)]
        if last == 'getSize' and not c.vals:
            en_unsigned(ESYM)
            return [(st, ESYM)]
        if c.name.startswith('Typelib::') and c.name in ELEMOPS:
            st = st.copy()
            en.ev_(st, 'elem', c.e, op=last, args=tuple(c.vals))
            return [(st, ZERO)]
        if c.obj is not None and is_vec(c.e.get('qn', '')):
            ol = c.ol if c.ol is not None else deref(c.obj)
            loc = ('fld', ol, SIZE_FIELD)
            local = root(ol)[0] == 'var'
            cur = st.heap.get(loc, ZERO if local else mul(NSYM, ESYM))
            if last == 'size' or last == 'length':
                return [(st, cur)]
            if last == 'capacity':
                return [(st, CAP)]
            if last == 'max_size':
                return [(st, ('sym', '#MAX'))]
            if last in ('resize', 'reserve', 'clear', 'swap', 'assign', 'insert', 'erase', 'push_back', 'pop_back', 'append'):
                st = st.copy()
                new = c.vals[0] if last == 'resize' and c.vals else ZERO if last == 'clear' else None
                other = None
                if last == 'swap':
                    o2 = c.locs[0] if c.locs and c.locs[0] is not None else deref(c.vals[0])
                    l2 = ('fld', o2, SIZE_FIELD)
                    s2 = st.heap.get(l2, ZERO if root(o2)[0] == 'var' else mul(NSYM, ESYM))
                    st.heap[l2] = cur
                    new = s2; other = o2
                en.ev_(st, 'vec', c.e, op=last, vec=ol, old=cur, new=new, args=tuple(c.vals), other=other)
                if last != 'reserve':
                    st.heap[loc] = new if new is not None else ('unk', 'size')
                return [(st, ZERO)]
        return None
    return hook


def en_unsigned(t):
    import flow
    flow.UNSIGNED.add(t)


def opq(g):
    q = sq(g['qn'])
    return q.endswith(('::layout_of', '::isMemcpy', '::isEmpty', 'Type::operator!=', 'Type::operator==', 'Type::isSame', '::getIndirection', 'ValueVisitor::dispatch', 'ValueVisitor::apply', '::getName'))


def elt_index(a, vec=None):
    """address of an element -> (vector, index)"""
    if a[0] == 'addr' and a[1][0] == 'elt':
        return a[1][1], a[1][2]
    c, parts = lin_parts(a)
    for x, k in parts:
        if k == 1 and x[0] == 'addr' and x[1][0] == 'elt':
            return x[1][1], add(sub(a, x), x[1][2])
    return None, a


def sweep(L):
    """element operations of a loop -> [(op, vec, from, to, [events])] , None in place of unknown values"""
    res = []
    for i in L.iters:
        if i.kind != 'continue':
            continue
        for e in i.events:
            if e.k != 'elem':
                continue
            tgt = e.args[0]
            vec, idx = elt_index(tgt)
            syms = [s for s in L.init if has_sub(idx, lambda x: x == s)]
            if len(syms) != 1 or L.step.get(syms[0]) is None:
                res.append((e.op, vec, None, None, None, e, i)); continue
            s = syms[0]
            start = subst(idx, {s: L.init[s]})
            nxt = subst(idx, {s: add(L.init[s], L.step[s])})
            end = None
            for a, v in i.facts.items():
                if a[0] in ('lt', 'eq') and has_sub(a[1], lambda x: x == s):
                    c, parts = lin_parts(a[1])
                    k = dict(parts).get(s)
                    if a[0] == 'lt' and v and k == 1 or a[0] == 'eq' and not v and k in (1, -1):
                        B = scale(sub(a[1], scale(s, k)), -k)
                        end = subst(idx, {s: B})
                    elif a[0] == 'lt' and not v and k == -1:      # B - s >= 0, inclusive
                        end = add(subst(idx, {s: add(a[1], s)}), sub(nxt, start))
            res.append((e.op, vec, start, end, sub(nxt, start), e, i))
    return res


def ge(facts, a, b):
    """a >= b by the facts, knowing that counts scale with the element size"""
    d = sub(a, b)
    if const(d) is not None:
        return const(d) >= 0
    for x in (d, div(d)):
        if x is not None:
            lo = lower(facts, x)
            if lo is not None and lo >= 0:
                return True
    return False


def gt(facts, a, b):
    d = sub(a, b)
    for x in (d, div(d)):
        if x is not None:
            lo = lower(facts, x)
            if lo is not None and lo >= 1:
                return True
    return False


def div(t):
    """t / ELEMENT if it is a multiple"""
    c, parts = lin_parts(t)
    if c:
        return None
    r = ZERO
    for x, k in parts:
        if x == ESYM:
            r = add(r, I(k)); continue
        if x[0] == 'mul' and ESYM in x[1]:
            rest = list(x[1]); rest.remove(ESYM)
            p = I(1)
            for y in rest:
                p = mul(p, y)
            r = add(r, scale(p, k)); continue
        return None
    return r


def same(a, b):
    """True / False / None"""
    if a is None or b is None:
        return None
    d = sub(a, b)
    if d == ZERO:
        return True
    if has_sub(d, lambda x: x[0] in ('unk', 'X', 'res', 'hv', 'op')):
        return None
    return False


same_ = same


def resizers(ctx, r):
    """functions of a container class that change the byte size of a vector to a number of elements given"""
    res = []
    for m in r['methods']:
        f = ctx.P.functions.get(m['key'])
        if not f or 'body' not in f:
            continue
        ps = [p for p in f['params'] if ptype(ctx, p['t']) == 'size']
        vs = [p for p in f['params'] if 'std::vector<unsigned char' in p['t']]
        if len(ps) == 1 and len(vs) == 1 and len(f['params']) == 2 and any(n.get('n') in ('resize', 'swap', 'assign') and n.get('qn', '').startswith('std::') for n in walk_ast(f['body']) if n['k'] == 'call'):
            outs = ctx.run(f, hook=vhook(), opaque=opq, merge=False)
            if any(e.k == 'vec' and e.vec == deref(('sym', vs[0]['n'])) for o in outs for e in o.events):
                res.append((f, ('sym', vs[0]['n']), ('sym', ps[0]['n']), outs))
    return res


def resize_rule(ctx):
    n = 0
    for r in C.container_classes(ctx):
        for f, vec, new, outs in resizers(ctx, r):
            n += 1
            one_resize(ctx, r, f, deref(vec), new, outs)
    ctx.need(n, 'no resize of a container found')


def memcpyable(o):
    for a, v in o.facts.items():
        if a[0] == 'eq' and has_sub(a, lambda x: x[0] == 'pure' and sq(x[1]).endswith('::isMemcpy')):
            return not v
    return None


def one_resize(ctx, r, f, vec, new, outs):
    newb = mul(new, ESYM)
    oldb = mul(NSYM, ESYM)
    wh = ctx.where(f)
    for o in outs:
        changes = [k for k, e in enumerate(o.events) if e.k == 'vec' and e.vec == vec and e.op in ('resize', 'swap', 'clear', 'assign')]
        if o.kind == 'throw':
            ctx.check(not changes or None, wh, 'a refused resize leaves the container as it was', 'changed before the error')
            continue
        if o.kind != 'return':
            continue
        none = {new: ZERO} if o.facts.get(('eq', new)) is True else {}

        def same(a, b):
            return same_(subst(a, none), subst(b, none)) if a is not None and b is not None else None
        fin = o.st.heap.get(('fld', vec, SIZE_FIELD), oldb)
        if not changes:
            s = same(newb, oldb)
            left = sub(subst(newb, none), oldb)
            eq = ge(o.facts, newb, oldb) and ge(o.facts, oldb, newb) or o.facts.get(('eq', left)) or o.facts.get(('eq', scale(left, -1)))
            ctx.check(True if eq else None if any(e.k == 'call' for e in o.events) and False else False, wh, 'a resize gives the container the size asked for', 'a path changes nothing')
            continue
        ctx.check(same(fin, newb), wh, 'a resize gives the container the size asked for', 'it becomes %s bytes' % show(fin))
        if ge(o.facts, newb, oldb) and gt(o.facts, oldb, newb):
            continue          # infeasible
        if memcpyable(o):
            continue
        shrink = not ge(o.facts, newb, oldb)
        grow = not ge(o.facts, oldb, newb)
        ch = changes[0]
        before, after = [], []
        for k, e in enumerate(o.events):
            if e.k in ('loop', 'loop0'):
                for s in sweep(e):
                    (before if k < ch else after).append(s)
            elif e.k == 'elem':
                (before if k < ch else after).append((e.op, elt_index(e.args[0])[0], None, None, None, e, o))
        tag = '' if memcpyable(o) is False else ''
        swapped = o.events[ch].op == 'swap'
        # 1. elements cut off
        if shrink:
            ds = [s for s in before if s[0] == 'destroy' and s[1] == vec and not (swapped and s[6] is not None and any(e.k == 'elem' and e.op == 'copy' for e in s[6].events))]
            if not ds:
                late = [s for s in after if s[0] == 'destroy']
                ctx.bad(wh, 'elements are destroyed before the container shrinks', 'they are not destroyed' if not late else 'they are destroyed after the size has changed')
            for s in ds:
                a, b, c = same(s[2], newb), same(s[3], oldb), same(s[4], ESYM)
                v = False if False in (a, b, c) else None if None in (a, b, c) else True
                ctx.check(v, ctx.at(s[5]), 'exactly the elements cut off are destroyed', 'from %s to %s in steps of %s' % tuple(show(x) if x else '?' for x in s[2:5]))
        # 2. new elements
        if grow:
            is_ = [s for s in after if s[0] == 'init' and s[1] == vec]
            if not is_:
                ctx.bad(wh, 'new elements are initialised after the container has grown', 'they are not initialised')
            for s in is_:
                a, b, c = same(s[2], oldb), same(s[3], newb), same(s[4], ESYM)
                v = False if False in (a, b, c) else None if None in (a, b, c) else True
                ctx.check(v, ctx.at(s[5]), 'exactly the new elements are initialised', 'from %s to %s in steps of %s' % tuple(show(x) if x else '?' for x in s[2:5]))
        # 3. storage that moves
        if not swapped:
            if grow:
                ctx.check(ge(o.facts, CAP, newb), wh, 'elements that cannot be moved bytewise are not moved by the vector itself', 'the vector grows without its capacity having been checked')
            continue
        moved = [s for s in before if s[0] in ('init', 'copy', 'destroy') and s[6] is not o and any(e.k == 'elem' and e.op == 'copy' for e in s[6].events)]
        if not moved:
            empty = False
            ctx.bad(wh, 'elements move to the new storage', 'they are not copied')
            continue
        byiter = {}
        for s in moved:
            byiter.setdefault(id(s[6]), []).append(s)
        for g in byiter.values():
            opsq = [s[0] for s in g]
            ctx.check(opsq == ['init', 'copy', 'destroy'], ctx.at(g[0][5]), 'an element that moves is initialised in the new storage, copied, and destroyed in the old one', ', '.join(opsq))
            nv = o.events[ch].other
            for s in g:
                want = vec if s[0] == 'destroy' else nv
                ctx.check(s[1] == want if s[1] is not None else None, ctx.at(s[5]), 'the %s of a move is applied to the right storage' % s[0], show(s[1]) if s[1] else '')
                lo, st = same(s[2], ZERO), same(s[4], ESYM)
                ok = s[3] is not None and (same(s[3], oldb) and not gt(o.facts, oldb, newb) or same(s[3], newb) and not gt(o.facts, newb, oldb))
                v = False if lo is False or st is False else None if None in (lo, st) or s[3] is None else bool(ok)
                ctx.check(v, ctx.at(s[5]), 'every element kept is moved', 'from %s to %s in steps of %s' % tuple(show(x) if x else '?' for x in s[2:5]))
            cp = [s for s in g if s[0] == 'copy']
            for s in cp:
                sv, si = elt_index(s[5].args[1])
                dv, di = elt_index(s[5].args[0])
                ctx.check(sv == vec and si == di if sv is not None else None, ctx.at(s[5]), 'an element moves to its own position', show(s[5].args[1]))


# ------------------------------------------------------------------ clear, destroy, push, erase
def emptying(ctx):
    """clear and destroy run the element destruction"""
    for r in C.container_classes(ctx):
        rz = dict((f['key'], f) for f, v, s, o in resizers(ctx, r))
        for name in ('clear', 'destroy'):
            for f in C.methods(ctx, r, name):
                wh = ctx.where(f)
                base = vhook()

                def hook(en, st, c):
                    k = c.e.get('fn')
                    if k in rz:
                        st = st.copy()
                        en.ev_(st, 'resized', c.e, vals=tuple(c.vals))
                        return [(st, ZERO)]
                    return base(en, st, c)
                outs = ctx.run(f, hook=hook, opaque=opq)
                for o in outs:
                    if o.kind != 'return':
                        continue
                    dt = [k for k, e in enumerate(o.events) if e.k == 'dtor' or e.k == 'call' and '::~' in e.qn or e.k == 'call' and e.d.get('dtor')]
                    rs = [k for k, e in enumerate(o.events) if e.k == 'resized']
                    cl = [k for k, e in enumerate(o.events) if e.k == 'vec' and e.op == 'clear']
                    if rz:
                        zero = [k for k in rs if o.events[k].vals[1] == ZERO]
                        if not zero:
                            other = [e for e in o.events if e.k in ('loop', 'loop0') and sweep(e)]
                            ctx.check(None if other else False, wh, '%s destroys every element' % name, 'the elements are not destroyed')
                        else:
                            ctx.ok(wh, '%s destroys every element' % name)
                            if dt:
                                ctx.check(zero[0] < dt[0], wh, 'elements are destroyed before the container itself', 'after it')
                    elif name == 'clear':
                        ctx.check(bool(cl) or (None if any(e.k in ('call', 'vec') for e in o.events) else False), wh, 'clear empties the container', 'nothing is cleared')


def differs(o, ind=True):
    """is it established on the path that the value given has the element type? True/False/None"""
    for a, v in o.facts.items():
        if a[0] == 'eq':
            for x in subterms(a):
                if x[0] in ('pure', 'res'):
                    q = sq(x[1] if x[0] == 'pure' else x[2])
                    neg = q.endswith('Type::operator!=')
                    if neg or q.endswith(('Type::operator==', 'Type::isSame')):
                        t = not v           # the result is true
                        return (not t) if neg else t
            if has_sub(a, lambda x: 'getIndirection' in str(x[1]) if len(x) > 1 else False) and has_sub(a, lambda x: 'getType' in str(x[1]) if len(x) > 1 else False):
                return v
    return None


def type_checked(ctx):
    n = 0
    for r in C.container_classes(ctx):
        rz = dict((f['key'], f) for f, v, s, o in resizers(ctx, r))
        for m in r['methods']:
            f = ctx.P.functions.get(m['key'])
            if not f or 'body' not in f or m['n'] not in ('push', 'erase', 'setElement', 'insert'):
                continue
            vals = [p for p in f['params'] if strip(ctx, p['t']) == 'Typelib::Value']
            if not vals:
                continue
            wh = ctx.where(f)
            base = vhook()

            def hook(en, st, c):
                k = c.e.get('fn')
                g = en.P.functions.get(k) or {}
                if k in rz or g.get('cls') == r['qn'] and g.get('n') in ('erase', 'copy', 'resize') and k != f['key']:
                    st = st.copy()
                    en.ev_(st, 'change', c.e, what=c.name, vals=tuple(c.vals))
                    return [(st, ZERO)]
                return base(en, st, c)
            n += 1
            outs = ctx.run(f, hook=hook, opaque=opq)
            for o in outs:
                seq = [e for e, _, l in eventsof([o]) if e.k in ('change', 'vec', 'elem')]
                d = differs(o)
                if o.kind == 'return' and m['n'] == 'push':
                    ch = [e for e in seq if e.k in ('change', 'vec')]
                    ctx.check(bool(ch) or None, wh, 'push adds an element', '')
                for e in seq:
                    if e.k == 'elem' and e.op == 'copy' and checks_itself(ctx, e):
                        continue
                    if e.k == 'elem' and e.op not in ('copy',):
                        continue
                    dd = differs_at(e)
                    ctx.check(dd if dd is not None else False, ctx.at(e), '%s changes the container only for values of its element type' % f['qn'], 'no comparison of the types on this path' if dd is None else 'done when the types differ')
                    break
        # growing by one and writing the new element
            if m['n'] == 'push' and rz:
                for o in outs:
                    if o.kind != 'return':
                        continue
                    cs = [e for e in o.events if e.k == 'change' and e.key_ in rz] if False else [e for e in o.events if e.k == 'change']
                    cp = [e for e in o.events if e.k == 'elem' and e.op == 'copy']
                    for e in cs[:1]:
                        ctx.check(same(e.vals[1], add(NSYM, I(1))), ctx.at(e), 'push grows the container by one element', 'to %s' % show(e.vals[1]))
                    if cp:
                        t = cp[0].args[0]
                        idx = [x for x in subterms(t) if x[0] == 'elt']
                        if idx:
                            ctx.check(same(idx[0][2], mul(NSYM, ESYM)), ctx.at(cp[0]), 'push writes the new element', 'writes at %s' % show(idx[0][2]))
                    ctx.check(bool(cp) or None, wh, 'push writes the new element', '')
    ctx.need(n, 'no push or erase found')


def differs_at(e):
    class O: pass
    x = O(); x.facts = e.facts
    return differs(x)


def checks_itself(ctx, e):
    """Typelib::copy between values compares the types before it copies"""
    return len(e.args) == 2


def value_copy(ctx):
    """copying between values of different types is refused"""
    for f in ctx.fn('Typelib::copy'):
        if not all(strip(ctx, p['t']) == 'Typelib::Value' for p in f['params']):
            continue
        outs = ctx.run(f, opaque=lambda g: opq(g) or g['qn'].startswith('Typelib::ValueOps') or g['key'] != f['key'] and g['qn'] == 'Typelib::copy')
        for o in outs:
            calls = [e for e in o.events if e.k == 'call' and sq(e.qn) in ('Typelib::copy', 'Typelib::ValueOps::copy')]
            if calls:
                d = differs(o)
                ctx.check(d if d is not None else False, ctx.where(f), 'copying between values of different types is refused', 'copies without having compared the types' if d is None else 'copies when they differ')


# ------------------------------------------------------------------ A10
def loads(ctx):
    n = 0
    for r in C.container_classes(ctx):
        rz = dict((f['key'], f) for f, v, s, o in resizers(ctx, r))
        for f in C.methods(ctx, r, 'load'):
            wh = ctx.where(f)
            cnt = [('sym', p['n']) for p in f['params'] if ptype(ctx, p['t']) == 'size']
            if len(cnt) != 1:
                ctx.unk(wh, 'load of a container', 'no element count')
                continue
            cnt = cnt[0]
            n += 1
            base = vhook()

            def hook(en, st, c):
                k = c.e.get('fn')
                if k in rz:
                    st = st.copy()
                    vec = deref(c.vals[0])
                    st.heap[('fld', vec, SIZE_FIELD)] = mul(c.vals[1], ESYM)
                    en.ev_(st, 'resized', c.e, vals=tuple(c.vals))
                    return [(st, ZERO)]
                return base(en, st, c)
            outs = ctx.run(f, hook=hook, opaque=lambda g: opq(g) or g['qn'].startswith('Typelib::ValueOps::') or sq(g['qn']).endswith('InputStream::read'))
            for o in outs:
                storage = {}
                for e, _, l in eventsof([o]):
                    if e.k == 'resized':
                        storage[deref(e.vals[0])] = mul(e.vals[1], ESYM)
                        ctx.check(same(e.vals[1], cnt), ctx.at(e), 'a container gets storage for the announced number of elements', 'for %s elements' % show(e.vals[1]))
                    elif e.k == 'vec' and e.op in ('resize', 'clear', 'swap'):
                        storage[e.vec] = e.new
                    elif e.k == 'call' and sq(e.qn).endswith('InputStream::read'):
                        v, i = elt_index(e.args[0])
                        if v is None:
                            # through c_str / data
                            ctx.unk(ctx.at(e), 'a container only reads into storage it has reserved', show(e.args[0]))
                            continue
                        have = storage.get(v)
                        if have is None:
                            ctx.bad(ctx.at(e), 'a container only reads into storage it has reserved', 'nothing is reserved')
                            continue
                        need_ = add(i, e.args[1])
                        need_ = subst(need_, {x: mul(cnt, ESYM) for x in ()})
                        # on block transfers the instruction operand equals the element size
                        m = {}
                        for a, vv in e.facts.items():
                            if a[0] == 'eq' and vv:
                                c, parts = lin_parts(a[1])
                                if c == 0 and len(parts) == 2 and parts[0][1] == -parts[1][1] and ESYM in (parts[0][0], parts[1][0]):
                                    other = parts[0][0] if parts[1][0] == ESYM else parts[1][0]
                                    m[other] = ESYM
                        need2 = subst(need_, m)
                        s = same(need2, have)
                        if s is False:
                            d = sub(have, need2)
                            # in bytes of a block of unknown element size
                            s = False if const(d) is not None and const(d) < 0 else True if const(d) is not None else None if has_sub(d, lambda x: x[0] == 'rd') else False
                        ctx.check(s, ctx.at(e), 'a container only reads into storage it has reserved', 'reads %s bytes into %s' % (show(need2), show(have)))
                    elif e.k == 'call' and e.qn.startswith('Typelib::ValueOps::') and l:
                        a0 = e.args[0]
                        v, i = elt_index(a0)
                        have = storage.get(v) if v is not None else None
                        L = l[-1]
                        if v is None:
                            ctx.unk(ctx.at(e), 'a container only reads elements into storage it has reserved', show(a0)); continue
                        if have is None:
                            ctx.bad(ctx.at(e), 'a container only reads elements into storage it has reserved', 'nothing is reserved'); continue
                        t = L.d.get('trip')
                        if t is None and L.k == 'loop0':
                            continue
                        ctx.check(same(mul(t, ESYM), have) if t is not None else None, ctx.at(e), 'a container only reads elements into storage it has reserved', '%s elements into %s bytes' % (show(t) if t else '?', show(have)))
        # the reservation itself
        for f, vec, new, outs in resizers(ctx, r):
            wh = ctx.where(f)
            for o in outs:
                for e in o.events:
                    if e.k == 'vec' and e.op == 'resize' and e.new is not None and has_sub(e.new, lambda x: x[0] == 'mul'):
                        g = False
                        zero = any(a == ('eq', ESYM) and v for a, v in e.facts.items())
                        for a, v in e.facts.items():
                            if len(a) < 2 or not isinstance(a[1], tuple) or not has_sub(a[1], lambda x: x == new):
                                continue
                            # a bound that is divided by the size of an element, or the product divided again
                            per = [x for x in subterms(a[1]) if x[0] == 'op' and x[1] == '/' and has_sub(x[3], lambda y: y == ESYM)]
                            if a[0] == 'lt' and per and any(not has_sub(x[2], lambda y: y == new) for x in per):
                                g = True
                            elif a[0] == 'eq' and v and any(has_sub(x[2], lambda y: y == new) for x in per):
                                g = True
                            elif has_sub(a[1], lambda x: x[0] in ('res', 'hv', 'unk')) and has_sub(a[1], lambda x: x == ESYM):
                                g = g or None
                        ctx.check(True if zero else g, ctx.at(e), 'a number of elements whose size overflows is refused', 'reserved without the number having been bounded')
                        break
    ctx.need(n, 'no container load found')


def exact(ctx):
    pass
