"""J03: accesses made on behalf of Ruby stay inside the value they are made in.

Every place of the extension where an address inside a value is computed or a
number of bytes is copied is an obligation, discharged from the comparisons
made on the path that reaches it.
"""
import re
from core import *
from rules.narrow import ruby_methods
from rules.owners import last
from rules.rubyapi import ext, name

KEEP = ('value_wrap', 'typelib_to_ruby', 'typelib_from_ruby', 'value_get_registry', 'type_wrap', 'type_get_registry', 'memory_init', 'memory_wrap', 'memory_allocate')
COUNTS = ('getDimension', 'getSize', 'getElementCount', 'size', 'length', 'strlen', 'RSTRING_LEN', 'rb_str_len')
# copies: destination, source, number of bytes
COPIES = {'memcpy': (0, 1, 2), 'memmove': (0, 1, 2), 'strncpy': (0, None, 2), 'memset': (0, None, 2), 'memcmp': (None, (0, 1), 2), 'strncat': (0, None, None), 'strcpy': (0, None, None), 'strcat': (0, None, None), 'sprintf': (0, None, None), 'bcopy': (1, 0, 2)}


def can(t):
    """the term, whatever the memory version it was read in"""
    if not isinstance(t, tuple) or not t:
        return t
    k = t[0]
    if k in ('ptr', 'refto'):
        return can(t[1])
    if k == 'pure':
        return ('pure', last(t[1])) + tuple(can(x) for x in t[2:])
    if k == 'res':
        return ('res', t[1], last(t[2])) + tuple(can(x) for x in t[3:])
    if k == 'rd':
        if isinstance(t[1], tuple) and t[1][0] == 'deref':
            x = can(t[1][1])
            if isinstance(x, tuple) and x[0] == 'pure' or isinstance(x, tuple) and x[0] == 'res' and x[2] == 'rb_data_object_get':
                return x            # a copy of an object stands for the object
        return ('rd', can(t[1]))
    if k == 'lin':
        return ('lin', t[1], tuple(sorted(((can(x), c) for x, c in t[2]), key=repr)))
    return (k,) + tuple(can(x) for x in t[1:])


def bare(t):
    """without conversions between integer types"""
    if isinstance(t, tuple) and t[:1] == ('op',) and t[1] in ('signed', 'unsigned'):
        return bare(t[2])
    if isinstance(t, tuple) and t[:1] == ('trunc',):
        return bare(t[2])
    if isinstance(t, tuple):
        return tuple(bare(x) for x in t)
    return t


class Sum:
    """c + sum of coefficients * atoms"""
    def __init__(self, c=0, p=None):
        self.c, self.p = c, {k: v for k, v in (p or {}).items() if v}

    def add(self, o, k=1):
        p = dict(self.p)
        for a, v in o.p.items():
            p[a] = p.get(a, 0) + k * v
        return Sum(self.c + k * o.c, p)

    def key(self):
        return self.c, tuple(sorted(self.p.items(), key=repr))


def to_sum(t, f=lambda x: x):
    c, ps = lin_parts(t)
    s = Sum(c)
    for x, k in ps:
        x = f(can(x))
        if isinstance(x, tuple) and x[:1] == ('lin',):
            s = s.add(to_sum(x), k)
        elif isinstance(x, tuple) and x[:1] == ('int',):
            s = s.add(Sum(x[1]), k)
        else:
            s = s.add(Sum(0, {x: 1}), k)
    return s


def nonneg(a, raw):
    if isinstance(a, tuple) and a[:2] == ('op', 'unsigned') or a in raw:
        return True
    return isinstance(a, tuple) and a[0] in ('pure', 'res') and a[1 if a[0] == 'pure' else 2] in COUNTS


class Facts:
    """comparisons known on a path, as sums that are <= 0"""
    def __init__(self, facts, f=lambda x: x, extra=()):
        self.f = f
        self.le = []
        self.raw = set()
        for a, v in facts.items():
            if a[0] not in ('eq', 'lt'):
                continue
            for t, k in lin_parts(a[1])[1]:
                if is_unsigned(t):
                    self.raw.add(f(can(t)))
            s = to_sum(a[1], f)
            if a[0] == 'lt':
                self.le.append(s.add(Sum(1)) if v else Sum().add(s, -1))
            elif v:
                self.le += [s, Sum().add(s, -1)]
            elif s.c == 0 and s.p and (all(k > 0 for k in s.p.values()) or all(k < 0 for k in s.p.values())) and all(nonneg(x, self.raw) for x in s.p):
                m = 1 if all(k > 0 for k in s.p.values()) else -1
                self.le.append(Sum().add(s, -m).add(Sum(1)))
        self.le += list(extra)

    def at_most(self, goal, depth=4):
        """is goal <= 0?"""
        seen = set()

        def go(g, d):
            # atoms that are not negative only lower it when they are taken away
            if g.c <= 0 and all(k < 0 and nonneg(a, self.raw) for a, k in g.p.items()):
                return True
            if d == 0 or g.key() in seen:
                return False
            seen.add(g.key())
            for s in self.le:
                if any(a in s.p and (s.p[a] > 0) == (k > 0) for a, k in g.p.items()):
                    if go(g.add(s, -1), d - 1):
                        return True
            return False
        return go(goal, depth)


def within(idx, cap, e, extra=()):
    """0 <= idx < cap on the path of the event? idx and cap are sums -> True, None (may depend on wrapping), False"""
    F = Facts(e.facts, extra=extra)
    if F.at_most(idx.add(cap, -1).add(Sum(1))) and F.at_most(Sum().add(idx, -1)):
        n = sum(1 for a in idx.p if isinstance(a, tuple) and a[:2] == ('op', 'unsigned'))
        return True if n + sum(1 for a in idx.p if a[:1] == ('L',)) <= 1 else None
    # compared as unsigned and used as signed, or the reverse: the same number once it is known to be small enough
    U = Facts(e.facts, bare, extra=[Sum(s.c, {bare(a): k for a, k in s.p.items()}) for s in extra])
    bi = Sum(idx.c, {})
    for a, k in idx.p.items():
        bi = bi.add(Sum(0, {bare(a): 1}), k)
    bc = Sum(cap.c, {bare(a): k for a, k in cap.p.items()})
    if not U.at_most(bi.add(bc, -1).add(Sum(1))):
        return False
    if U.at_most(Sum().add(bi, -1)):
        return True
    # every term compared as unsigned somewhere: a negative one would have been too large
    uns = {bare(x) for f in e.facts for t, k in lin_parts(f[1])[1] if f[0] in ('eq', 'lt') for x in [can(t)] if isinstance(x, tuple) and x[:2] == ('op', 'unsigned')} if True else set()
    return all(a in uns or nonneg(a, U.raw) for a in bi.p) and bi.c >= 0


def loop_sums(loops):
    """symbol of a loop -> (first value, symbol that counts the rounds or None, step, rounds)"""
    res = {}
    for l in loops:
        step, init = l.d['step'], l.d['init']
        k = None
        for h in step:
            if step[h] in (('int', 1), ('int', -1)) and h in init and can(init[h])[0] != 'uninit':
                k = h
                if step[h] == ('int', 1):
                    break
        for h in init:
            res[can(h)] = (init[h], k, step.get(h), l.d.get('trip'))
    return res


def known(loops):
    """what the loops tell of their symbols: they do not fall below where they start, and end where they are told to"""
    res = []
    for l in loops:
        step, init = l.d['step'], l.d['init']
        for h, d in step.items():
            if not (isinstance(d, tuple) and d[:1] == ('int',) and d[1] > 0 and h in init):
                continue
            t, first = can(h), to_sum(init[h])
            end = ('X',) + t[1:] if t[0] == 'L' else t      # the symbol after the loop
            res += [first.add(Sum(0, {x: 1}), -1) for x in {t, end}]
            if d[1] != 1:
                continue
            common = None
            for i in l.iters:
                if i.kind == 'continue' or i.kind == 'next':
                    fs = {(to_sum(a[1]).key()) for a, v in i.facts.items() if a[0] == 'lt' and v and to_sum(a[1]).p.get(t) == 1}
                    common = fs if common is None else common & fs
            for c, ps in common or ():
                s = Sum(c, dict(ps))                 # t - X < 0 in every round: t <= X after the last one
                if Facts({}).at_most(first.add(s).add(Sum(0, {t: 1}), -1)):
                    res += [s, s.add(Sum(0, {t: -1, end: 1})) if end != t else s]
    return res


def address(ptr, loops):
    """the parts of an address, with pointers that walk replaced by where they started plus what was walked"""
    ls = loop_sums(loops)
    c, ps = lin_parts(ptr)
    s = Sum(c)
    muls = []
    extra = []
    extra += known(loops)
    for t, k in ps:
        t = can(t)
        if t in ls and k == 1:
            init, counter, step, trip = ls[t]
            ic, ips = lin_parts(init)
            if not any(is_data(can(x)) for x, _ in ips):
                s = s.add(Sum(0, {t: 1}))
                continue
            if step is None:
                return None
            s = s.add(to_sum(init))
            if counter is not None:
                n = to_sum(counter).add(to_sum(ls[can(counter)][0]), -1)
                if ls[can(counter)][2] == ('int', -1):
                    n = Sum().add(n, -1)
                    extra.append(Sum().add(n, -1))
            else:
                n = Sum(0, {('round', t): 1})
                if trip is not None:
                    extra.append(n.add(to_sum(trip), -1).add(Sum(1)))
                extra.append(Sum().add(n, -1))
            muls.append((n, to_sum(step)))
        elif isinstance(t, tuple) and t[:1] == ('mul',) and k == 1:
            fs = list(t[1])
            szs = [x for x in fs if isinstance(x, tuple) and x[:2] == ('pure', 'getSize')]
            if len(fs) != 2 or len(szs) != 1:
                return None
            fs.remove(szs[0])
            muls.append((to_sum(fs[0]), Sum(0, {szs[0]: 1})))
        else:
            s = s.add(Sum(0, {t: 1}), k)
    return s, muls, extra


def is_data(t):
    return isinstance(t, tuple) and t[:2] == ('pure', 'getData')


def local_array(ptr):
    """the local variable the address is the start of"""
    t = can(ptr)
    if isinstance(t, tuple) and t[:1] == ('addr',):
        l = t[1]
        while isinstance(l, tuple) and l[0] in ('fld', 'elt'):
            l = l[1]
        if isinstance(l, tuple) and l[0] == 'var':
            return l
    return None


ELEM = {'unsigned long': 8, 'long': 8, 'unsigned long long': 8, 'long long': 8, 'double': 8, 'int': 4, 'unsigned int': 4, 'float': 4, 'short': 2, 'unsigned short': 2, 'char': 1, 'signed char': 1, 'unsigned char': 1}


def array_bytes(fns, var):
    """the least size of the arrays declared so"""
    res = []
    for f in fns:
        for x in walk_ast(f['body']):
            if x['k'] == 'decl':
                for v in x['v']:
                    if v['n'] == var[1] and v.get('d') in var[2:]:
                        m = re.fullmatch(r'(?:const )?(.*?) ?\[(\d+)\]', v['t'].strip())
                        if m and m.group(1) in ELEM:
                            res.append(ELEM[m.group(1)] * int(m.group(2)))
    return min(res) if res else None


def roots(P):
    regs = set(ruby_methods(P))
    fs = ext(P)
    called = set()
    for f in fs:
        for x in walk_ast(f['body']):
            if x['k'] in ('call', 'ctor') and x.get('fn'):
                called.add(x['fn'])
    ids = {k: f for k, f in P.functions.items()}
    return [f for k, f in sorted(ids.items()) if 'body' in f and f['file'].startswith('bindings/ruby/ext') and (k in regs or k not in called) and not f['n'].startswith('Typelib_init') and not f['n'].startswith('Init_')]


def interesting(f):
    for x in walk_ast(f['body']):
        if x['k'] == 'call' and (name(x) in COPIES or name(x) in ('getElement', 'setElement', 'getData', 'memory_allocate', 'rb_str_new', 'getRawData', 'ruby_xmalloc')):
            return True
        if x['k'] in ('ctor', 'new') and last(x.get('cls') or '') == 'Value' and x.get('args'):
            return True
    return False


def accesses(ctx):
    ctx.rule = 'addresses and lengths stay inside the value'
    P = ctx.P
    fs = ext(P)
    hot = {k for k, f in P.functions.items() if 'body' in f and f['file'].startswith('bindings/ruby/ext') and interesting(f)}
    # functions that lead to one
    grow = True
    while grow:
        grow = False
        for k, f in P.functions.items():
            if k in hot or 'body' not in f or not f['file'].startswith('bindings/ruby/ext') or f['n'] in KEEP:
                continue
            if any(x['k'] in ('call', 'ctor') and x.get('fn') in hot and P.functions[x['fn']]['n'] not in KEEP for x in walk_ast(f['body'])):
                hot.add(k); grow = True
    rs = [f for f in roots(P) if any(P.functions.get(k) is f for k in hot)]
    rs += [P.functions[k] for k in hot if P.functions[k]['n'] in KEEP and P.functions[k] not in rs]
    ctx.need(len(rs) >= 8, 'only %d functions of the extension touch values' % len(rs))
    sites = {}

    def put(e, what, v, why=''):
        sites.setdefault((ctx.at(e), what), []).append((v, why))

    for f in rs:
        me = f
        try:
            outs = ctx.run(f, opaque=lambda g: g is not me and (not g['file'].startswith('bindings/ruby/ext') or g['n'] in KEEP), merge=False, events_deref=True, signs=True)
        except Overflow:
            ctx.unk(ctx.where(f), 'its accesses stay inside the value', 'there are too many paths')
            continue
        seen = set()
        for e, o, loops in eventsof(outs, ('ctor', 'call', 'deref')):
            k = (id(e), len(loops))
            if k in seen:
                continue
            seen.add(k)
            # the end of a path that leaves a loop early speaks of the loop's symbols
            loops = loops + tuple(x for x in o.events if x.k in ('loop', 'loop0') and x not in loops)
            if not e.file.startswith('bindings/ruby/ext'):
                continue
            if e.k == 'ctor' and e.cls == 'Typelib::Value' and len(e.args) == 2:
                value_at(P, fs, e, loops, put)
            elif e.k == 'deref':
                element(e, loops, put)
            elif e.k == 'call':
                n = last(e.d.get('qn') or '')
                if n in ('getElement', 'setElement') and len(e.args) >= 2:
                    obj = can(e.obj)
                    cap = Sum(0, {('pure', 'getElementCount', obj, can(e.args[0])): 1})
                    v = within(to_sum(e.args[1]), cap, e)
                    if v is False:
                        v = within_res(e, obj)
                    put(e, 'the element exists', v, 'the index is not compared with the number of elements, or not before the element is accessed')
                elif n in COPIES:
                    copy(P, e, o, n, put, f)
                elif n == 'rb_str_new' and len(e.args) == 2:
                    string(e, o, put)
                elif n == 'ruby_xmalloc' or n == 'malloc':
                    a = e.args[0]
                    if f['n'] == 'memory_allocate':
                        put(e, 'all the bytes asked for are allocated', to_sum(a).c >= 0 and to_sum(a).p == {('sym', f['params'][0]['n']): 1}, 'something else than the size is passed')
        allocations(ctx, outs, put)
    for (wh, what), vs in sorted(sites.items()):
        bad = [w for v, w in vs if v is False]
        if bad:
            ctx.bad(wh, what, bad[0])
        elif any(v is None for v, w in vs):
            ctx.unk(wh, what, next(w for v, w in vs if v is None) or 'the access was not recognised')
        else:
            ctx.ok(wh, what)
    ctx.need(len(sites) >= 12, 'only %d accesses were found' % len(sites))


def within_res(e, obj):
    """the same, when the number of elements was not read by a function known to be free of effects"""
    for a in e.facts:
        for t, k in lin_parts(a[1])[1] if a[0] in ('eq', 'lt') else ():
            t = bare(can(t))
            if isinstance(t, tuple) and t[:1] in (('pure',), ('res',)) and 'getElementCount' in t[1:3] and obj in t:
                return within(to_sum(e.args[1]), Sum(0, {t: 1}), e)
    return False


def value_at(P, fs, e, loops, put):
    ptr, ty = e.args
    what = 'the value lies inside the one it is part of'
    var = local_array(ptr)
    if var is not None:
        n = array_bytes(fs, var)
        if n is None:
            return
        size = Sum(0, {('pure', 'getSize', can(ty)): 1})
        F = Facts(e.facts)
        put(e, 'the value fits in the buffer', F.at_most(size.add(Sum(-n))), 'values of the type may be larger than the %d bytes of the buffer' % n)
        return
    a = address(ptr, loops)
    if a is None:
        return put(e, what, None)
    s, muls, extra = a
    base = [t for t in s.p if is_data(t)]
    if not base:
        return
    if len(base) > 1:
        return put(e, what, None)
    off = s.add(Sum(0, {base[0]: 1}), -1)
    if not muls:
        if not off.p and off.c == 0:
            return put(e, what, True)
        if any(t[:2] == ('pure', 'getOffset') for t in off.p if isinstance(t, tuple)) and len(off.p) == 1 and off.c == 0:
            return put(e, what, True)
        # an index taken as a number of bytes
        return put(e, what, False if off.p else None, 'the address is not the start of an element')
    if len(muls) != 1 or off.p or off.c:
        return put(e, what, None)
    idx, size = muls[0]
    T = ('pure', 'getType', base[0][2])
    if size.key() != Sum(0, {('pure', 'getSize', ('pure', 'getIndirection', T)): 1}).key():
        if size.key() == Sum(0, {('pure', 'getSize', T): 1}).key():
            return put(e, what, False, 'the index is multiplied with the size of the whole value')
        return put(e, what, None)
    cap = Sum(0, {('pure', 'getDimension', T): 1})
    put(e, what, within(idx, cap, e, extra), 'the index is not compared with the number of elements on a path')


def element(e, loops, put):
    """characters of a value reached through a pointer"""
    what = 'the bytes accessed are inside the value'
    a = address(e.ptr, loops)
    if a is None:
        return
    s, muls, extra = a
    base = [t for t in s.p if is_data(t)]
    if len(base) != 1 or muls:
        return
    off = s.add(Sum(0, {base[0]: 1}), -1)
    if not off.p and off.c == 0:
        return
    T = ('pure', 'getType', base[0][2])
    vs = [within(off, Sum(0, {('pure', g, T): 1}), e, extra) for g in ('getDimension', 'getSize')]
    put(e, what, True if True in vs else None if None in vs else False, 'the offset is not compared with the size of the value on a path')


def equal_types(e):
    """pairs of types known to be the same"""
    res = []
    for a, v in e.facts.items():
        if a[0] != 'eq':
            continue
        for t, k in lin_parts(a[1])[1]:
            t = can(t)
            if isinstance(t, tuple) and t[:1] in (('pure',), ('res',)):
                args = [x for x in t[1:] if isinstance(x, tuple)]
                n = t[1] if t[0] == 'pure' else t[2]
                if len(args) == 2 and (n == 'operator!=' and v or n in ('operator==', 'isSame', 'canCastTo') and not v):
                    res.append(tuple(args))
    return res


def capacity(P, e, p, root):
    """sums that bound the bytes behind an address, or None when it is not known what it is"""
    a = address(p, ())
    if a is None:
        return None
    s, muls, extra = a
    base = [t for t in s.p if is_data(t)]
    if len(base) == 1 and not muls:
        off = s.add(Sum(0, {base[0]: 1}), -1)
        V = base[0][2]
        T = ('pure', 'getType', V)
        Ts = [T] + [y if x == T else x for x, y in equal_types(e) if T in (x, y)]
        # a visitor is given the type of the value beside it
        if last(e.fn) == 'visit_' or root['n'] == 'visit_':
            Ts += [('sym', q['n']) for g in (P.by_qn.get(e.fn, ()) if last(e.fn) == 'visit_' else [root]) for q in g['params'] if q['t'].endswith('&') and last(q['t'].rstrip(' &')) in ('Array', 'Compound', 'Container', 'Enum', 'Numeric', 'Pointer', 'OpaqueType', 'Type')]
        return [Sum(0, {('pure', g, X): 1}).add(off, -1) for X in Ts for g in ('getSize', 'getDimension')]
    return None


def bounded(e, n, caps, o=None):
    if n is None:
        return False
    ex = known([x for x in o.events if x.k in ('loop', 'loop0')]) if o is not None else []
    F = Facts(e.facts, extra=ex)
    s = to_sum(n)
    if any(F.at_most(s.add(c, -1)) for c in caps):
        return True
    B = Facts(e.facts, bare, extra=[Sum(x.c, {bare(a): k for a, k in x.p.items()}) for x in ex])
    bs = Sum(s.c, {bare(a): k for a, k in s.p.items()})
    if any(B.at_most(bs.add(Sum(c.c, {bare(a): k for a, k in c.p.items()}), -1)) for c in caps):
        return True
    return False


def cptr_size(o, e, p):
    """the size given to memory_allocate, when the address is that of the zone it returned"""
    t = can(p)
    sizes = []
    zone = None
    for x in subterms(t):
        if isinstance(x, tuple) and x[:1] == ('res',) and x[2] in ('memory_allocate', 'ruby_xmalloc'):
            return x[3]
    return None


def copy(P, e, o, n, put, root):
    d, s, l = COPIES[n]
    if l is not None and len(e.args) <= l:
        return
    length = e.args[l] if l is not None else None
    for side, i in ((True, d),) + tuple((False, x) for x in (s if isinstance(s, tuple) else (s,))):
        if i is None:
            continue
        what = 'no more is %s than there is room for' % ('written' if side else 'read')
        p = e.args[i]
        caps = capacity(P, e, p, root)
        if caps is not None and length is None:
            # up to the end of the source: a length that was compared may be that of the source
            lens = [x for a in e.facts for x in subterms(a) if x[:1] in (('res',), ('pure',)) and can(x)[1 if x[0] == 'pure' else 2] in ('strlen', 'RSTRING_LEN', 'length', 'size')]
            put(e, what, None if any(bounded(e, x, [c.add(Sum(-1)) for c in caps], o) for x in lens) else False, 'nothing bounds the number of bytes')
            continue
        if caps is not None:
            put(e, what, bounded(e, length, caps, o), 'the number of bytes is not compared with the size of the value on a path' if length is not None else 'nothing bounds the number of bytes')
            continue
        c = can(p)
        size = cptr_size(o, e, p)
        if size is not None:
            put(e, what, bounded(e, length, [to_sum(size)]), 'the number of bytes is not the number of bytes allocated')
            continue
        # the bytes of a vector
        vec = vector_of(c)
        if vec is not None:
            size = resized(o, e, vec)
            if size is None:
                put(e, what, None if any('size' in x[1:3] for a in e.facts for x in subterms(a) if x[:1] in (('res',), ('pure',))) else False, 'the vector is not given that size')
            else:
                put(e, what, bounded(e, length, [to_sum(size)]), 'the number of bytes is not the size given to the vector')
            continue
        # strings
        ln = length_of_string(c)
        if ln is not None and length is not None:
            caps = [Sum(1, {x: 1}) for f in e.facts for x in [0]] and []
            s_ = to_sum(length)
            good = [a for a in s_.p if isinstance(a, tuple) and bare(a)[:1] in (('pure',), ('res',)) and any(y in COUNTS for y in bare(a)[1:3]) and (ln in bare(a))]
            put(e, what, True if len(s_.p) == 1 and good and s_.c <= 1 and list(s_.p.values())[0] == 1 else None, '')


def vector_of(c):
    if isinstance(c, tuple) and c[:1] == ('addr',) and isinstance(c[1], tuple) and c[1][0] == 'elt':
        return c[1][1]
    return None


def resized(o, e, vec):
    got = None

    def walk(evs):
        nonlocal got
        for x in evs:
            if x is e:
                return True
            if x.k == 'call' and last(x.d.get('qn') or '') in ('resize', 'assign', 'clear', 'reserve') or x.k in ('vresize',):
                n = last(x.d.get('qn') or '')
                obj = can(x.d.get('obj'))
                if obj == vec or isinstance(vec, tuple) and vec[:1] == ('deref',) and vec[1] == obj or obj == ('addr', vec):
                    if n == 'resize' and x.args:
                        got = x.args[0]
                    elif n == 'clear':
                        got = ('int', 0)
            elif x.k in ('loop', 'loop0'):
                for i in x.iters:
                    if walk(i.events):
                        return True
        return False
    walk(o.events)
    return got


def length_of_string(c):
    if isinstance(c, tuple) and c[:1] in (('res',), ('pure',)) and any(x in ('rb_string_value_ptr', 'rb_string_value_cstr', 'StringValuePtr', 'RSTRING_PTR') for x in c[1:3]):
        return c
    return None


def string(e, o, put):
    """a Ruby string made of bytes of a value"""
    what = 'no more is given to Ruby than the value holds'
    p, n = e.args
    c = can(p)
    if is_data(c):
        T = ('pure', 'getType', c[2])
        caps = [Sum(0, {('pure', g, T): 1}) for g in ('getSize', 'getDimension')]
        put(e, what, bounded(e, n, caps, o), 'the length is not bounded by the size of the value on a path')
        return
    vec = vector_of(c)
    ln = bare(to_sum(n).key())
    ss = to_sum(n)
    if vec is not None:
        good = ss.c <= 0 and len(ss.p) == 1 and all(k == 1 and holds(bare(a), vec) for a, k in ss.p.items())
        put(e, what, True if good else None, '')
        return
    if isinstance(c, tuple) and c[:1] in (('res',), ('pure',)) and any(x in ('c_str', 'data') for x in c[1:3]):
        s = c[-1] if c[0] == 'pure' else (c[3] if len(c) > 3 else None)
        good = ss.c <= 0 and len(ss.p) == 1 and all(k == 1 and holds(bare(a), s) for a, k in ss.p.items())
        put(e, what, True if good else False if ss.c > 0 and len(ss.p) == 1 else None, 'the length is more than that of the string')


def holds(a, s):
    """a is the size of s"""
    if not (isinstance(a, tuple) and a[:1] in (('pure',), ('res',)) and any(x in ('size', 'length') for x in a[1:3])):
        return False
    return any(x == s or x == ('addr', s) for x in a)


def allocations(ctx, outs, put):
    """values are given as many bytes as their type has"""
    for e, o, loops in eventsof(outs, ('call',)):
        if last(e.d.get('qn') or '') != 'memory_init' or len(e.args) != 2 or not e.file.startswith('bindings/ruby/ext'):
            continue
        zone, ty = can(e.args[0]), can(e.args[1])
        if not (isinstance(zone, tuple) and zone[:1] == ('res',) and zone[2] == 'memory_allocate'):
            continue
        T = None
        if isinstance(ty, tuple) and ty[:1] == ('res',) and ty[2] == 'type_wrap':
            T = [ty[3]]
        size = bare(to_sum(e.args[0][3]).key())
        if T is None:
            # the object behind the class
            T = [x for x in subterms(size) if isinstance(x, tuple) and x[:1] == ('res',) and x[2] == 'rb_data_object_get' and ty in list(subterms(x))]
        good = any(size == bare(Sum(0, {('pure', 'getSize', X): 1}).key()) for X in T)
        more = size[0] > 0 and any(bare(Sum(size[0], {('pure', 'getSize', X): 1}).key()) == size for X in T)
        put(e, 'the value is given as many bytes as its type has', good or more, 'something else than the size of the type is allocated')
