"""C03: which handler sees which part of a type or value."""
from core import *
from rules.layout import *
from rules import words as W

TV, VV = 'Typelib::TypeVisitor', 'Typelib::ValueVisitor'
TD = VV + '::TypeDispatch'
STACK = 'std::list'
OPAQ = ('Typelib::Type::getName', 'Typelib::Type::getSize', 'Typelib::Array::getDimension', 'Typelib::Field::getOffset', 'Typelib::Field::getType', 'Typelib::Field::getName',
        'Typelib::Compound::getFields', 'Typelib::Type::getCategory', 'Typelib::Numeric::getNumericCategory')
CATEGORY = dict(NullType='NullType', Numeric='Numeric', Enum='Enum', Array='Array', Pointer='Pointer', OpaqueType='Opaque', Compound='Compound', Container='Container')


def stack_of(st):
    for h in st.heap:
        if h[0] == 'fld' and h[2] == W.SIZE:
            return h[1]
    return None


def top(st, vec):
    n = W.wsize(st, vec)
    l = ('elt', vec, sub(n, I(1)))
    return st.heap.get(l, ('rd', l, 0)), n


def fam(ctx, cls):
    return {cls} | base_names(ctx.P, cls)


def hook_for(ctx):
    base = W.hook_for(ctx, isw=lambda c: sq(c.e.get('qn', '')).startswith('std::list::') and 'char' in c.e.get('qn', ''))
    visitors = {r for r in ctx.P.records if VV in fam(ctx, r)}

    def hook(en, st, c):
        q = sq(c.name)
        if c.obj is None:
            return base(en, st, c)
        last = q.rsplit('::', 1)[-1]
        if q == TV + '::dispatch' or last == 'visit_' and c.e.get('virt'):
            f = ctx.P.functions.get(c.e.get('fn')) or {}
            if q != TV + '::dispatch' and not f:
                return None
            vec = None
            for h in st.heap:
                if h[0] == 'fld' and h[2] == W.SIZE:
                    vec = h[1]
            st = st.copy()
            st.n += 1
            r = ('sym', '#R%d' % st.n)
            args = []
            for v, l in zip(c.vals, list(c.locs) + [None] * len(c.vals)):
                args.append((v, l))
            en.ev_(st, 'handler', c.e, name=q, hfn=f, cls=(f.get('cls') or TV), obj=c.obj, args=args, res=r, snap=st)
            return [(st, r)]
        return base(en, st, c)
    return hook


def run(ctx, f, **kw):
    return ctx.run(f, hook=hook_for(ctx), opaque=lambda g: sq(g['qn']) in OPAQ, **kw)


def ptr_of(a):
    """pointer to the object an argument refers to"""
    v, l = a
    for x in (v, l):
        if x is None:
            continue
        if x[0] == 'refto':
            return x[1] if x[1][0] == 'sym' else x
        if x[0] == 'refloc':
            return addr(x[1])
        if x[0] == 'rd' and x[1][0] == 'deref':
            x = x[1]
        if x[0] == 'deref':
            return x[1][1] if x[1][0] == 'refto' and x[1][1][0] == 'sym' else x[1]
    return l or v


def mentions(a, pred):
    return any(x is not None and has_sub(x, pred) for x in a)


def self_arg(a, p):
    return ptr_of(a) == p or ptr_of(a) == ('refto', p)


def of_param(x, p):
    return x == p or x[0] in ('ptr', 'refto') and x[1] == p


def part_arg(a, p, field, getter):
    """is the argument the given part (reference member or accessor result) of *p?"""
    return mentions(a, lambda x: x[0] == 'fld' and x[2] == field and x[1] == deref(p) or x[0] == 'pure' and sq(x[1]).rsplit('::', 1)[-1] == getter and of_param(x[2], p))


def ptypes(ctx, f):
    return [strip(ctx, p['t']) for p in f.get('params', [])]


def short(ctx, f):
    return '/'.join(x.rsplit('::', 1)[-1] for x in ptypes(ctx, f))


def one_of(ctx, cls, *types):
    """the overload of visit_ of a class taking those types"""
    r = [f for f in ctx.fn(cls + '::visit_') if ptypes(ctx, f) == ['Typelib::' + t for t in types]]
    return r[0] if len(r) == 1 else None


def handlers(o):
    return [e for e in o.events if e.k == 'handler']


def fact_const(o, getter, p):
    """the constant a fact of the path gives to getter(p): (value, None) or (None, excluded values)"""
    no = set()
    for a, v in o.facts.items():
        if a[0] == 'eq':
            c, parts = lin_parts(a[1])
            if len(parts) == 1 and abs(parts[0][1]) == 1:
                x = parts[0][0]
                while x[0] in ('cast', 'trunc'):
                    x = x[-1]
                if x[0] == 'pure' and sq(x[1]).rsplit('::', 1)[-1] == getter and of_param(x[2], p) or x[0] == 'rd' and x[1][0] == 'fld' and x[1][1] == deref(p) and x[1][2] in MEMBER.get(getter, ()):
                    k = -c * parts[0][1]
                    if v:
                        return k, None
                    no.add(k)
    return None, no


MEMBER = dict(getCategory=('m_category',), getSize=('m_size',), getNumericCategory=('m_category@Numeric', 'm_category'))


def enum_of(ctx, qn):
    d = ctx.P.enums.get(qn)
    return {x['n'].rsplit('::', 1)[-1]: x['v'] for x in d['consts']} if d else {}


# ------------------------------------------------------------------ types
def type_dispatch(ctx):
    """each category goes to its own handler"""
    f = ctx.one(TV + '::dispatch')
    wh = ctx.where(f)
    p = ('sym', f['params'][0]['n'])
    cats = enum_of(ctx, 'Typelib::Type::Category')
    ctx.need(len(cats) >= 8, 'type categories not found')
    seen = {}
    for o in run(ctx, f):
        k, no = fact_const(o, 'getCategory', p)
        hs = handlers(o)
        if k is None:
            ctx.check(o.kind == 'throw' and not hs or (None if not no else False), wh, 'a category without a handler is an error', '%s, %d handlers called' % (o.kind, len(hs)))
            continue
        if o.kind == 'throw':
            failed = [a for a, v in o.facts.items() if v and a[0] == 'eq' and has_sub(a[1], lambda x: x[0] == 'dyn' or x[0] == 'dyncast' or isinstance(x[0], str) and x[0].startswith('dyn'))]
            name = [n for n, v in cats.items() if v == k]
            if not failed and o.val and 'bad_cast' not in show(o.val):
                seen.setdefault(k, []).append(('throw', o))
            continue
        seen.setdefault(k, []).append((o.kind, o))
    for n, v in cats.items():
        cls = [c for c, m in CATEGORY.items() if m == n]
        if not cls:
            for kind, o in seen.get(v, []):
                ctx.check(kind == 'throw', wh, '%s is not a category of types' % n, kind)
            continue
        text = 'a type of category %s goes to the handler for %s' % (n, cls[0])
        ps = seen.get(v, [])
        ctx.check(bool(ps), wh, text, 'no path handles it')
        for kind, o in ps:
            hs = handlers(o)
            good = kind == 'return' and len(hs) == 1 and ptypes(ctx, hs[0].hfn) == ['Typelib::' + cls[0]] and self_arg(hs[0].args[0], p) and o.val == hs[0].res
            ctx.check(good, wh, text, '%s; %s' % (kind, ', '.join(short(ctx, h.hfn) for h in hs)))
    # entry
    for f in ctx.fn(TV + '::apply'):
        for o in run(ctx, f):
            hs = handlers(o)
            ctx.check(len(hs) == 1 and self_arg(hs[0].args[0], ('sym', f['params'][0]['n'])) if o.kind == 'return' else None, ctx.where(f), 'a traversal starts with the type given', '%d dispatches' % len(hs))


def defaults_of(ctx, cls, value):
    """what the handlers of a base class do"""
    pre = ('Value',) if value else ()
    for t in ('Pointer', 'Array', 'Container'):
        if value and t in ('Array', 'Container'):
            continue
        f = one_of(ctx, cls, *(pre + (t,)))
        ctx.need(f is not None, 'no default handler for %s in %s' % (t, cls))
        p = ('sym', f['params'][-1]['n'])
        for o in run(ctx, f):
            if o.kind != 'return':
                ctx.unk(ctx.where(f), 'the target of a %s is visited once' % t, o.kind)
                continue
            hs = handlers(o)
            good = len(hs) == 1 and hs[0].name == TV + '::dispatch' and part_arg(hs[0].args[0], p, 'm_indirection', 'getIndirection') and o.val == hs[0].res
            ctx.check(good, ctx.where(f), 'the target of a %s is visited once, and its result handed on' % t, '%d visits, returns %s' % (len(hs), show(o.val)))
    f = one_of(ctx, cls, *(pre + ('Compound',)))
    ctx.need(f is not None, 'no default handler for compounds in ' + cls)
    each_field(ctx, f, cls)
    f = one_of(ctx, cls, *(pre + ('Compound', 'Field')))
    ctx.need(f is not None, 'no default handler for fields in ' + cls)
    p = ('sym', f['params'][-1]['n'])
    for o in run(ctx, f):
        hs = handlers(o)
        if o.kind != 'return':
            ctx.unk(ctx.where(f), 'the type of a field is visited once', o.kind)
            continue
        good = len(hs) == 1 and hs[0].name == TV + '::dispatch' and part_arg(hs[0].args[0], p, 'm_type', 'getType') and o.val == hs[0].res
        ctx.check(good, ctx.where(f), 'the type of a field is visited once, and the result handed on', '%d visits, returns %s' % (len(hs), show(o.val)))


def each_field(ctx, f, cls):
    wh = ctx.where(f)
    text = 'every field is visited once, in order, until a handler says stop'
    p = ('sym', f['params'][-1]['n'])
    for o in run(ctx, f):
        if o.kind not in ('return',):
            ctx.unk(wh, text, o.kind)
            continue
        Ls = [e for e in o.events if e.k == 'loop' and any(x.k == 'handler' for i in e.iters for x in i.events)]
        zs = [e for e in o.events if e.k == 'loop0']
        if not Ls:
            ctx.check(bool(zs) and o.val != ZERO and not handlers(o) or (False if handlers(o) or not zs else None), wh, text, 'no loop over the fields')
            continue
        L = Ls[0]
        if len(Ls) != 1:
            ctx.bad(wh, text, 'fields are visited %d times' % len(Ls))
            continue
        over = [x for x in (list(L.init.values()) + ([L.trip] if L.trip else []) + [L.d.get('rng')]) if isinstance(x, tuple) and has_sub(x, lambda y: y[0] == 'pure' and 'getFields' in y[1] and of_param(y[2], p) or y[0] == 'fld' and y[2] == 'm_fields' and y[1] == deref(p))]
        begins = [s for s, x in L.init.items() if x[0] in ('pure', 'call', 'res') and sq(x[1] if isinstance(x[1], str) else x[2]).endswith(('::begin', '::cbegin')) and has_sub(x, lambda y: y[0] == 'pure' and 'getFields' in y[1] or y[0] == 'fld' and y[2] == 'm_fields')]
        shifted = [x for x in L.init.values() if x[0] == 'lin' and x[1] and has_sub(x, lambda y: y[0] == 'pure' and sq(y[1]).endswith('::begin'))]
        ctx.check(True if begins or L.d.get('rng') else None if over and not shifted else False, wh, text, 'the loop does not start at the first field')
        if not L.d.get('partial'):
            full = L.d.get('rng') or L.trip is not None and has_sub(L.trip, lambda y: isinstance(y[1] if len(y) > 1 else None, str) and sq(y[1]).endswith(('::end', '::cend')))
            ctx.check(bool(full) or None, wh, text, 'the loop ends at %s' % (show(L.trip) if L.trip else '?'))
        for i in L.iters:
            hs = handlers(i)
            if i.kind in ('throw', 'noreturn'):
                continue
            if len(hs) != 1:
                ctx.bad(wh, text, 'a field is visited %d times' % len(hs))
                continue
            h = hs[0]
            fld = h.args[-1]
            cur = [s for s in L.step if mentions(fld, lambda x: x == s)] or L.d.get('rng')
            ctx.check(ptypes(ctx, h.hfn) == ['Typelib::Compound', 'Typelib::Field'] and self_arg(h.args[0], p) and bool(cur), wh, text, 'calls %s' % short(ctx, h.hfn))
            steps = [L.step.get(s) for s in (cur if isinstance(cur, list) else [])]
            if steps:
                ctx.check(I(1) in steps, wh, text, 'the loop advances by %s' % [show(x) for x in steps if x])
            yes = truth(i, h.res)
            if i.kind == 'continue':
                ctx.check(yes if yes is not None else None if any(has_sub(a, lambda x: x == h.res) for a in i.facts) else False, wh, text, 'the visit goes on although the handler said stop')
            else:
                ctx.check(yes is not True or i.kind == 'return' and i.val == h.res, wh, text, 'the visit stops although the handler said go on')
                if i.kind == 'return':
                    ctx.check(i.val == ZERO or i.val == h.res, wh, text, 'stopping is reported as %s' % show(i.val))
        if not L.d.get('partial') and not L.d.get('nbreaks'):
            ctx.check(o.val != ZERO, wh, text, 'a complete visit is reported as stopped')


def truth(o, r):
    for a, v in o.facts.items():
        if a[0] == 'eq' and lin_parts(a[1]) == (0, lin_parts(r)[1]):
            return not v
        if a == ('bool', r) or a == r:
            return v
    return None


def type_defaults(ctx):
    defaults_of(ctx, TV, False)
    f = one_of(ctx, TV, 'NullType')
    for o in run(ctx, f) if f else []:
        ctx.check(o.kind == 'throw', ctx.where(f), 'a null type is an error', o.kind)
    for t in ('Numeric', 'Enum', 'OpaqueType'):
        f = one_of(ctx, TV, t)
        for o in run(ctx, f) if f else []:
            ctx.check(o.kind == 'return' and o.val == I(1), ctx.where(f), 'a traversal goes on after a %s nobody handles' % t, show(o.val) if o.val else o.kind)


# ------------------------------------------------------------------ values
def stack_loc(ctx, in_dispatcher):
    return ('fld', deref(('sym', 'this')) if in_dispatcher else deref(('rd', ('fld', deref(('sym', 'this')), 'm_dispatcher'), 0)), 'm_stack')


def find_stack(o):
    s = stack_of(o.st)
    if s is None:
        for e in o.events:
            if e.k == 'handler' and stack_of(e.snap) is not None:
                return stack_of(e.snap)
    return s


def noversion(t):
    return t


def same(a, b):
    """equal, whatever the version of the reads in it"""
    return strip_ver(a) == strip_ver(b)


def strip_ver(t):
    if not isinstance(t, tuple):
        return t
    if len(t) == 3 and t[0] == 'rd' and isinstance(t[2], int):
        return ('rd', strip_ver(t[1]), 0)
    return tuple(strip_ver(x) for x in t)


def field_of(v, name):
    """a member of a Value"""
    v0, l = v
    if v0 is not None and v0[0] == 'struct':
        return dict(v0[1]).get(name)
    return None


def value_arg(ctx, e, i):
    a = e.args[i]
    d = field_of(a, 'm_data')
    t = field_of(a, 'm_type')
    if d is None:
        l = a[1]
        if l is None and a[0][0] == 'refto':
            l = deref(a[0])
        if l is None:
            return None, None
        d = e.snap.heap.get(('fld', l, 'm_data'))
        t = e.snap.heap.get(('fld', l, 'm_type'))
    return d, t


def about(ctx, t, p):
    """does the type term t stand for *p?"""
    return t is not None and has_sub(t, lambda x: x == p or x == ('refto', p) or x == deref(p))


def value_dispatch(ctx):
    """each part of a value goes to the handler for its type, with its own address"""
    base = stack_loc(ctx, True)
    n0 = W.base_size(base)
    top0 = ('rd', ('elt', base, sub(n0, I(1))), 0)
    over = {tuple(ptypes(ctx, f)): f for f in ctx.fn(TD + '::visit_')}
    ctx.need(over, 'the dispatcher of value visitors not found')
    # numbers
    f = over.get(('Typelib::Numeric',))
    if f is None:
        ctx.bad(TD, 'numbers go to the handler for their kind and size', 'no handler')
    else:
        numbers(ctx, f, top0, n0, base)
    for t in ('Enum', 'Pointer', 'Array', 'Container', 'Compound', 'OpaqueType', ('Compound', 'Field')):
        t = t if isinstance(t, tuple) else (t,)
        f = over.get(tuple('Typelib::' + x for x in t))
        text = 'a value of type %s goes to its handler, with its address and type' % '/'.join(t)
        if f is None:
            ctx.bad(TD, text, 'the visitor is never told')
            continue
        wh = ctx.where(f)
        p = ('sym', f['params'][-1]['n'])
        for o in run(ctx, f):
            if o.kind == 'throw':
                ctx.bad(wh, text, 'throws')
                continue
            hs = [e for e in handlers(o) if VV in fam(ctx, e.cls)]
            if len(hs) != 1 or len(handlers(o)) != 1:
                ctx.bad(wh, text, '%d handlers called' % len(handlers(o)))
                continue
            h = hs[0]
            have = ptypes(ctx, h.hfn)
            want = ['Typelib::Value'] + ['Typelib::' + x for x in t] if t != ('Enum',) else None
            tp, n = top(h.snap, base)
            d = n if n == ZERO else sub(n, n0)
            at = top0
            if t == ('Enum',):
                ctx.check(have[1:] == ['Typelib::Enum'] and len(have) == 2, wh, text, 'calls %s' % short(ctx, h.hfn))
                ctx.check(same(ptr_of(h.args[0]), top0), wh, text, 'address %s' % show(ptr_of(h.args[0])))
                ctx.check(self_arg(h.args[1], p), wh, text, 'type %s' % show(ptr_of(h.args[1])))
                inside = top0
            else:
                ctx.check(have == want, wh, text, 'calls %s' % short(ctx, h.hfn))
                data, ty = value_arg(ctx, h, 0)
                if t[-1] == 'Field':
                    offs = ('pure', 'Typelib::Field::getOffset', ('ptr', p, 0))
                    rest = sub(data, top0) if data is not None else None
                    c, parts = lin_parts(strip_ver(rest)) if rest is not None else (1, ())
                    ok = c == 0 and len(parts) == 1 and parts[0][1] == 1 and (parts[0][0][0] == 'pure' and sq(parts[0][0][1]).endswith('getOffset') and of_param(parts[0][0][2], p) or parts[0][0][0] == 'rd' and parts[0][0][1] == ('fld', deref(p), 'm_offset'))
                    ctx.check(ok if data is not None else None, wh, text, 'address %s' % (show(data) if data else '?'))
                    ctx.check(mentions((ty, None), lambda x: x[0] == 'pure' and sq(x[1]).endswith('getType') and of_param(x[2], p) or x == ('fld', deref(p), 'm_type')) if ty is not None else None, wh, text, 'type %s' % (show(ty) if ty else '?'))
                    inside = data
                    ctx.check(self_arg(h.args[2], p), wh, text, 'field %s' % show(ptr_of(h.args[2])))
                    ctx.check(self_arg(h.args[1], ('sym', f['params'][0]['n'])), wh, text, 'compound %s' % show(ptr_of(h.args[1])))
                else:
                    ctx.check(same(data, top0) if data is not None else None, wh, text, 'address %s' % (show(data) if data else '?'))
                    ctx.check(about(ctx, ty, p) if ty is not None else None, wh, text, 'type %s' % (show(ty) if ty else '?'))
                    ctx.check(self_arg(h.args[1], p), wh, text, 'type argument %s' % show(ptr_of(h.args[1])))
                    inside = top0 if t != ('Pointer',) else ('rd', deref(top0), 0)
            tp, n = top(h.snap, base)
            ctx.check(same(tp, inside), wh, 'while the handler for %s runs, the current address is that of %s' % ('/'.join(t), 'the target' if t == ('Pointer',) else 'the value'), show(tp))
            balanced(ctx, wh, o, base, n0)
            ctx.check(o.val == h.res, wh, 'the result of the handler for %s is handed on' % '/'.join(t), show(o.val))


def balanced(ctx, wh, o, base, n0):
    n = W.wsize(o.st, base)
    ctx.check(sub(n, n0) == ZERO, wh, 'a handler leaves the current address as it was', 'stack of addresses: %s' % show(n))


def numbers(ctx, f, top0, n0, base):
    wh = ctx.where(f)
    p = ('sym', f['params'][0]['n'])
    kinds = enum_of(ctx, 'Typelib::Numeric::NumericCategory')
    ctx.need({'SInt', 'UInt', 'Float'} <= set(kinds), 'numeric categories not found')
    done = set()
    for o in run(ctx, f):
        hs = handlers(o)
        if o.kind == 'throw':
            ctx.check(not hs, wh, 'a number without a handler is an error', 'after a handler was called')
            continue
        k, _ = fact_const(o, 'getNumericCategory', p)
        s, _ = fact_const(o, 'getSize', p)
        if len(hs) != 1:
            ctx.bad(wh, 'a number goes to one handler', '%d handlers called' % len(hs))
            continue
        h = hs[0]
        ts = ptypes(ctx, h.hfn)
        ti = ctx.P.types.get(ts[0]) or {}
        name = [n for n, v in kinds.items() if v == k]
        if k is None or s is None:
            ctx.check(None, wh, 'the kind and size of a number are known when its handler is called', 'kind %s, size %s, handler for %s' % (k, s, ts))
            continue
        want = dict(SInt=('int', True), UInt=('int', False), Float=('float', None)).get(name[0] if name else '')
        ok = want is not None and ti.get('k') == want[0] and ti.get('size') == s and (want[1] is None or bool(ti.get('signed')) == want[1])
        text = 'a %s of %s bytes goes to the handler of that kind and size' % (name[0] if name else k, s)
        ctx.check(ok, wh, text, 'goes to %s' % ts)
        ctx.check(same(ptr_of(h.args[0]), top0), wh, text, 'address %s' % show(ptr_of(h.args[0])))
        ctx.check(o.val == h.res, wh, 'the result of the handler of a number is handed on', show(o.val))
        balanced(ctx, wh, o, base, n0)
        if name:
            done.add((name[0], s))
    want = {('SInt', n) for n in (1, 2, 4, 8)} | {('UInt', n) for n in (1, 2, 4, 8)} | {('Float', n) for n in (4, 8)}
    ctx.check(want <= done, wh, 'every kind and size of number has a handler', 'missing: %s' % sorted(want - done))


def value_defaults(ctx):
    defaults_of(ctx, VV, True)
    base = stack_loc(ctx, False)
    n0 = W.base_size(base)
    f = one_of(ctx, VV, 'Value', 'Array')
    ctx.need(f is not None, 'no default handler for arrays')
    wh = ctx.where(f)
    text = 'every element of an array is visited once, at its own address'
    v, a = [('sym', x['n']) for x in f['params']]
    for o in run(ctx, f):
        if o.kind != 'return':
            ctx.unk(wh, text, o.kind)
            continue
        balanced(ctx, wh, o, base, n0)
        Ls = [e for e in o.events if e.k == 'loop' and any(x.k == 'handler' for i in e.iters for x in i.events)]
        if not Ls:
            ctx.check(any(e.k == 'loop0' for e in o.events) and not handlers(o), wh, text, 'no loop over the elements')
            continue
        L = Ls[0]
        if not L.d.get('partial'):
            dim = lambda x: x[0] == 'pure' and sq(x[1]).endswith('getDimension') and of_param(x[2], a) or x[0] == 'rd' and x[1] == ('fld', deref(a), 'm_dimension')
            t = L.trip
            while t is not None and t[0] in ('cast', 'trunc'):
                t = t[-1]
            ctx.check(t is not None and dim(t) if t is not None else None, wh, text, 'visits %s elements' % (show(L.trip) if L.trip else '?'))
        for i in L.iters:
            hs = handlers(i)
            if i.kind in ('throw', 'noreturn'):
                continue
            if len(hs) != 1:
                ctx.bad(wh, text, 'an element is visited %d times' % len(hs))
                continue
            h = hs[0]
            ctx.check(h.name == TV + '::dispatch' and part_arg(h.args[0], a, 'm_indirection', 'getIndirection'), wh, text, 'visits as %s' % show(ptr_of(h.args[0])))
            vec = stack_of(h.snap)
            tp, n = top(h.snap, vec) if vec else (None, None)
            if tp is None:
                ctx.unk(wh, text, 'address not known')
                continue
            d = strip_ver(tp)
            datas = [x for x in subterms(d) if x[0] == 'rd' and x[1] == ('fld', deref(v), 'm_data') or x[0] == 'fldv' and x[2] == 'm_data']
            ok = None
            if datas:
                r = sub(d, datas[0])
                ok = False
                for s, stp in L.step.items():
                    s2 = strip_ver(s)
                    if has_sub(r, lambda x: x == s2) and L.init.get(s) == ZERO and stp == I(1):
                        one = subst(r, {s2: I(1)}); zero = subst(r, {s2: ZERO})
                        ok = zero == ZERO and one[0] in ('pure', 'rd') and 'ize' in show(one) and has_sub(one, lambda x: x[0] == 'fld' and x[2] == 'm_indirection' or x[0] == 'pure' and 'getIndirection' in x[1])
                if not ok:
                    # a cursor that advances by the size of an element
                    c, parts = lin_parts(d)
                    ok = ok or None if not any(has_sub(r, lambda x: x == strip_ver(s)) for s in L.step) else ok
            else:
                cur = [s for s in L.step if strip_ver(s) == d]
                if cur:
                    st = L.step[cur[0]]
                    ini = strip_ver(L.init[cur[0]])
                    ok = has_sub(ini, lambda x: x[0] == 'fld' and x[2] == 'm_data') and ini[0] == 'rd' and 'ize' in show(st) and has_sub(st, lambda x: x[0] == 'fld' and x[2] == 'm_indirection' or x[0] == 'pure' and 'getIndirection' in x[1]) and st[0] in ('pure', 'rd')
            ctx.check(ok, wh, text, 'at %s' % show(tp))
            yes = truth(i, h.res)
            if i.kind == 'continue':
                pass
            else:
                ctx.check(yes is False, wh, text, 'the visit stops although the handler said go on')
    # containers visit themselves
    f = one_of(ctx, VV, 'Value', 'Container')
    for o in run(ctx, f) if f else []:
        cs = [e for e in o.events if e.k == 'call' and sq(e.qn) == 'Typelib::Container::visit']
        v, a = [('sym', x['n']) for x in f['params']]
        ok = o.kind == 'return' and len(cs) == 1 and cs[0].obj in (a, ('ptr', a, 0)) and same(cs[0].args[0], ('rd', ('fld', deref(v), 'm_data'), 0)) and o.val == cs[0].res
        ctx.check(ok, ctx.where(f), 'a container visits its own elements', '; '.join(show(x) for c in cs for x in c.args))
    for t in ('OpaqueType',):
        f = one_of(ctx, VV, 'Value', t)
        for o in run(ctx, f) if f else []:
            ctx.check(o.kind == 'return' and o.val == I(1), ctx.where(f), 'a traversal goes on after a value of type %s nobody handles' % t, show(o.val) if o.val else o.kind)
    # entry points
    for q in (VV + '::apply', VV + '::dispatch'):
        for f in ctx.fn(q):
            v = ('sym', f['params'][0]['n'])
            text = 'a visit starts with the address and the type of the value'
            for o in run(ctx, f):
                if o.kind != 'return':
                    continue
                hs = handlers(o)
                ok = len(hs) == 1 and hs[0].name == TV + '::dispatch' and mentions(hs[0].args[0], lambda x: x == ('fldv', v, 'm_type') or x[0] == 'fld' and x[2] == 'm_type')
                if len(hs) != 1:
                    ctx.bad(ctx.where(f), text, '%d visits' % len(hs))
                    continue
                ctx.check(ok or None, ctx.where(f), text, 'type %s' % show(ptr_of(hs[0].args[0])))
                vec = stack_of(hs[0].snap)
                tp, n = top(hs[0].snap, vec) if vec else (None, None)
                ctx.check(tp is not None and (tp == ('fldv', v, 'm_data') or tp[0] == 'rd' and has_sub(tp, lambda x: x[0] == 'fld' and x[2] == 'm_data')), ctx.where(f), text, 'address %s' % (show(tp) if tp else 'not set'))
                if q.endswith('dispatch'):
                    balanced(ctx, ctx.where(f), o, vec, W.base_size(vec)) if vec else None


def container_visits(ctx):
    """each container presents each of its elements once"""
    from rules import lifetimes as LT
    n = 0
    for cls in sorted(ctx.P.records):
        if 'Typelib::Container' not in base_names(ctx.P, cls):
            continue
        for f in ctx.fn(cls + '::visit'):
            n += 1
            wh = ctx.where(f)
            text = 'every element of a container is visited once, at its own address'
            vis = ('sym', f['params'][1]['n'])
            for o in ctx.run(f, hook=LT.vhook(), opaque=lambda g: LT.opq(g)):
                if o.kind != 'return':
                    continue
                is_d = lambda e: e.k == 'call' and sq(e.qn).endswith('ValueVisitor::dispatch')
                Ls = [e for e in o.events if e.k == 'loop' and any(is_d(x) for i in e.iters for x in i.events)]
                if not Ls:
                    ctx.check(any(e.k == 'loop0' for e in o.events) and not any(is_d(x) for x in o.events), wh, text, 'no loop over the elements')
                    continue
                L = Ls[0]
                strg = L.trip is not None and not has_sub(L.trip, lambda x: x == LT.NSYM)
                ok = L.trip in (LT.NSYM, mul(LT.NSYM, LT.ESYM)) if L.trip is not None else None
                if L.trip == mul(LT.NSYM, LT.ESYM):
                    ok = 'string' in str(f.get('body'))
                ctx.check(ok, wh, text, 'visits %s elements' % (show(L.trip) if L.trip else '?'))
                for i in L.iters:
                    if i.kind in ('throw', 'noreturn'):
                        continue
                    ds = [e for e in i.events if is_d(e)]
                    if len(ds) != 1 or i.kind != 'continue':
                        ctx.bad(wh, text, 'an element is visited %d times (%s)' % (len(ds), i.kind))
                        continue
                    a = ds[0].args[0]
                    d = field_of((a, None), 'm_data')
                    t = field_of((a, None), 'm_type')
                    if d is None:
                        ctx.unk(wh, text, show(a))
                        continue
                    ctx.check(has_sub(t, lambda x: x[0] == 'pure' and 'getIndirection' in x[1] or x[0] == 'fld' and x[2] == 'm_indirection'), wh, text, 'as %s' % show(t))
                    ok = False
                    for s, stp in L.step.items():
                        if has_sub(d, lambda x: x == s):
                            rate = mul(sub(subst(d, {s: I(1)}), subst(d, {s: ZERO})), stp)
                            first = subst(d, {s: L.init[s]})
                            elem = I(1) if 'string' in str(f.get('body')) else LT.ESYM
                            ok = rate == elem and not lin_parts(first)[0] and (len(lin_parts(first)[1]) == 1 or False)
                    ctx.check(ok, wh, text, 'at %s' % show(d))
                    ctx.check(ds[0].obj == vis or ds[0].obj == ('refto', vis) or ds[0].obj == ('ptr', vis, 0), wh, text, 'by %s' % show(ds[0].obj))
    ctx.need(n >= 2, 'only %d containers visit their elements' % n)
