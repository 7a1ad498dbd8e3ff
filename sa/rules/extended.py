"""D08: the aliases of a type reach the types built from it."""
from core import *
from rules.owners import last, of
from rules.regs import R, THIS
from rules.singleton import strip_fresh
from rules.depends import entry_of, counted, asks, ADD

I = 'Typelib::Indirect'
EXT = 'modifiedDependencyAliases'
OPQ = ('dependsOn', 'isAlias', 'has', 'getAliasesOf', EXT, 'get', 'get_', 'updateCurrentNameMap', 'getIndirection', 'getName',
       'isPersistent', 'isValidTypename', 'getIndirectTypeName', 'alias')


def opaque(f):
    key = f['key']
    # the function that puts an entry in the table
    return lambda g: g['key'] != key and (g['n'] in OPQ or g['n'] == 'add' and g.get('cls') == R)


def own(o):
    return [e for e in o.events if e.k in ('call', 'loop', 'loop0')]


def inner(evs):
    """the events with those of the loops inside"""
    for e in evs:
        yield e
        if e.k in ('loop', 'loop0'):
            for i in e.iters:
                yield from inner(i.events)


def subject(e):
    return e.obj if e.obj is not None else ('?',)


def zero(facts, names):
    """what a path knows about the result of one of these functions: is it zero"""
    for a, v in facts.items():
        if a[0] == 'eq':
            ps = [x for x, c in lin_parts(a[1])[1]]
            if len(ps) == 1 and of(ps[0], names) and lin_parts(a[1])[0] == 0:
                yield ps[0], v


def trigger(ctx):
    """a new alias is extended to all that is built from the type"""
    P = ctx.P
    fs = [f for f in P.functions.values() if f['qn'] == R + '::alias' and 'body' in f]
    ctx.need(fs, 'Registry::alias')
    T = 'a new alias is extended to every type that refers to the type'
    n = 0
    for f in fs:
        wh = ctx.where(f)
        outs = [o for o in ctx.run(f, opaque=opaque(f), merge=False) if o.kind == 'return']
        for o in outs:
            evs = own(o)
            calls = [e for e in evs if e.k == 'call']
            adds = [e for e in calls if last(e.qn) == 'add' and (e.cls if 'cls' in e.d else R) and R in e.qn]
            if not adds:
                if any(last(e.qn) == 'alias' for e in calls):
                    # hands the work on to the other overload
                    ctx.ok(wh, T)
                else:
                    ctx.bad(wh, 'an alias is entered', 'a path enters nothing')
                continue
            n += 1
            base = [a for a in adds[0].args if of(strip_fresh(('x', a))[1], ('get_', 'get'))]
            start = evs.index(adds[0])
            walk = [e for e in evs if e.k in ('loop', 'loop0') and entry_of(e) is not None and any(x.k == 'call' and last(x.qn) == 'dependsOn' for x in inner([e]))]
            if not walk:
                other = [e for e in calls if last(e.qn) not in OPQ + ('add', 'begin', 'end')]
                ctx.check(None if other or any(x.k == 'call' and last(x.qn) == EXT for x in inner(evs)) else False, wh, T, 'the types that refer to it are not looked for')
                continue
            sets = []
            for e in walk:
                for i in e.iters:
                    if i.kind in ('break', 'return'):
                        ctx.bad(wh, T, 'the search can stop at the first')
                        continue
                    if i.kind != 'continue':
                        continue
                    ms = [m for m in (counted(a, v) for a, v in i.facts.items()) if m and asks(m[0])]
                    alias = any(of(t, ('isAlias',)) and not v for t, v in zero(i.facts, ('isAlias',)))
                    hits = [x for x in inner(i.events) if x.k == 'call' and (last(x.qn) in ADD or last(x.qn) == EXT)]
                    for x in hits:
                        if last(x.qn) in ADD and x.obj is not None:
                            sets.append(x.obj)
                    yes = any(m[2] for m in ms)
                    if hits:
                        ctx.ok(wh, T)
                    elif yes:
                        ctx.bad(wh, T, 'a type that refers to it is passed over')
                    elif alias or any(not m[2] for m in ms):
                        ctx.ok(wh, T)
                    else:
                        at = [k for k, x in enumerate(i.events) if x.k == 'call' and last(x.qn) == 'dependsOn']
                        plain = ('operator++', 'operator!=', 'operator==', 'operator*', 'operator->', 'isAlias', 'begin', 'end', 'getName', 'getCategory', 'isPersistent', 'size', 'empty', 'dependsOn')
                        used = bool(at) and any(x.k in ('loop', 'loop0', 'store') or x.k == 'call' and last(x.qn) not in plain for x in i.events[at[0]:])
                        ctx.check(None if used else False, wh, T, 'a type is passed over without looking at what it refers to')
                    # what is looked for is the type that gets the alias
                    for m in ms:
                        if base:
                            ctx.check(strip_fresh(('x', m[1])) == strip_fresh(('x', base[0])) or None, wh, 'what is searched is the type that gets the alias', show(m[1])[:50])
            if any(x.k == 'call' and last(x.qn) == EXT for e in walk for x in inner([e])):
                ctx.check(evs.index(walk[0]) > start, wh, 'aliases are extended after the alias is entered', 'before')
            later = [e for e in evs if e.k in ('loop', 'loop0') and e not in walk and any(x.k == 'call' and last(x.qn) == EXT for x in inner([e]))]
            for e in later:
                ctx.check(evs.index(e) > start, wh, 'aliases are extended after the alias is entered', 'before')
                ctx.check(evs.index(e) > evs.index(walk[0]) or None, wh, T, 'before the search')
                for i in e.iters:
                    if i.kind in ('break', 'return'):
                        ctx.bad(wh, T, 'only the first that was found is told')
                    elif i.kind == 'continue':
                        ctx.check(any(x.k == 'call' and last(x.qn) == EXT for x in inner(i.events)), wh, T, 'one that was found is passed over')
            direct = any(x.k == 'call' and last(x.qn) == EXT for e in walk for x in inner([e]))
            if not later and not direct:
                out = [e for e in calls if evs.index(e) > evs.index(walk[0]) and last(e.qn) not in OPQ + ('begin', 'end', 'size', 'empty')]
                one = [e for e in calls if last(e.qn) == EXT and has_sub(('x', subject(e)), lambda y: of(y, ('front', 'back', 'begin')))]
                some = any(x.k == 'call' and last(x.qn) == EXT for p in outs for x in inner(own(p)))
                ctx.check(False if one or not some and not out else None, wh, T, 'only one of those that were found is told' if one else 'those that were found are not told')
    ctx.need(n, 'no function that enters an alias')


def fresh(ctx):
    """a new type gets the names that the aliases of what it refers to give it"""
    P = ctx.P
    fs = [f for f in P.functions.values() if f['qn'] == R + '::add' and 'body' in f and f['params'] and 'Type' in f['params'][0]['t']]
    ctx.need(fs, 'Registry::add of a type')
    T = 'a new type gets the names that aliases of what it refers to give it'
    n = 0
    for f in fs:
        wh = ctx.where(f)
        new = ('sym', f['params'][0]['n'])
        for o in ctx.run(f, opaque=opaque(f), merge=False):
            if o.kind != 'return':
                continue
            evs = own(o)
            calls = [e for e in evs if e.k == 'call']
            adds = [e for e in calls if last(e.qn) == 'add' and R in e.qn]
            ctx.check(bool(adds) or None, wh, 'the type is entered', 'a path enters nothing')
            if not adds:
                continue
            deps = any(x.k == 'call' and last(x.qn) == 'dependsOn' for x in inner(evs))
            tells = [e for e in inner(evs) if e.k == 'call' and last(e.qn) == EXT]
            if not deps and not tells and f['params'][1:] and len(f['params']) < 3 and len(adds) == 1 and len(adds[0].args) == 3:
                ctx.ok(wh, T)           # hands the work on
                continue
            n += 1
            for e in tells:
                ctx.check(has_sub(('x', subject(e)), lambda y: y == new) or None, wh, 'the new type is told', show(subject(e))[:40])
            first = [e for e in evs if e is not adds[0] and (e in tells or e.k != 'call' and any(x in tells for x in inner([e])))]
            for e in first:
                ctx.check(evs.index(e) > evs.index(adds[0]), wh, 'names are given after the type is entered', 'before')
            if any(e in tells for e in calls):
                ctx.ok(wh, T)
                continue
            ls = [e for e in evs if e.k in ('loop', 'loop0') and any(has_sub(('x', v), asks) for v in list(e.init.values()) + [e.rng])]
            if not ls:
                none = [e for e in calls if last(e.qn) not in OPQ + ('add', 'begin', 'end', 'empty', 'size')]
                ctx.check(None if none else False, wh, T, 'it is not told')
            for e in ls:
                flags = set()
                for i in e.iters:
                    told = any(x.k == 'call' and last(x.qn) == EXT for x in inner(i.events))
                    em = [(t, v) for t, v in zero(i.facts, ('empty', 'size')) if has_sub(('x', t), lambda y: of(y, ('getAliasesOf',)))]
                    # a container known to have elements, or to have none
                    has = any(v if of(t, ('empty',)) else not v for t, v in em)
                    hasnt = any(not v if of(t, ('empty',)) else v for t, v in em)
                    if told:
                        ctx.ok(wh, T)
                    elif i.kind == 'break' or i.kind == 'return':
                        ctx.check(None if has else False, wh, T, 'the search stops although nothing was found')
                    elif has:
                        sets = [x for x in i.events if x.k == 'store' or x.k == 'call' and last(x.qn) in ADD]
                        ctx.check(None if len(sets) > 1 else False, wh, T, 'it is not told although there is an alias')
                    elif hasnt:
                        ctx.ok(wh, T)
                    else:
                        looked = any(x.k == 'call' and last(x.qn) == 'getAliasesOf' for x in inner(i.events))
                        ctx.check(None if looked else False, wh, T, 'a dependency is passed over')
                    for x in inner(i.events):
                        if x.k == 'call' and last(x.qn) == 'getAliasesOf' and x.args:
                            hit = has_sub(('x', x.args[0]), lambda y: asks(y) or isinstance(y, tuple) and y[:1] == ('L',))
                            ctx.check(hit or (False if has_sub(('x', x.args[0]), lambda y: y == new) else None), wh, 'the aliases looked at are those of what it refers to', show(x.args[0])[:50])
    ctx.need(n, 'no function that enters a new type')


def extend(ctx):
    """each alias of what a type is made of gives the type a name"""
    P = ctx.P
    fs = [f for f in P.functions.values() if f['n'] == EXT and 'body' in f]
    base = [f for f in fs if f['qn'] == I + '::' + EXT]
    ctx.need(base, I + '::' + EXT)
    T = 'each alias of what a type is made of gives it a name, unless the name is in use'
    f = base[0]
    wh = ctx.where(f)
    reg = ('sym', f['params'][0]['n'])
    outs = [o for o in ctx.run(f, opaque=opaque(f), merge=False) if o.kind == 'return']
    ctx.need(outs, 'no path through ' + f['qn'])
    for o in outs:
        evs = own(o)
        ls = [e for e in evs if e.k in ('loop', 'loop0') and any(has_sub(('x', v), lambda y: of(y, ('getAliasesOf',))) for v in list(e.init.values()) + [e.rng])]
        if not ls:
            em = [v for t, v in zero(o.facts if hasattr(o, 'facts') else o.st.facts, ('empty', 'size')) if has_sub(('x', t), lambda y: of(y, ('getAliasesOf',)))]
            looked = any(e.k == 'call' and last(e.qn) == 'getAliasesOf' for e in evs)
            ctx.check(None if looked or em or any(e.k != 'call' for e in evs) else False, wh, T, 'the aliases are not looked at')
        for e in ls:
            src = [y for v in list(e.init.values()) + [e.rng] for y in subterms(v) if of(y, ('getAliasesOf',))]
            hit = any(has_sub(y, lambda z: of(z, ('getIndirection',)) or isinstance(z, tuple) and len(z) > 2 and z[0] in ('fld', 'fldv') and z[2] == 'm_indirection') for y in src)
            ctx.check(hit, wh, 'the aliases are those of what the type is made of', show(src[0])[:60] if src else '')
            for i in e.iters:
                if i.kind in ('break', 'return'):
                    ctx.bad(wh, T, 'the loop can stop early')
                    continue
                if i.kind != 'continue':
                    continue
                cs = [x for x in i.events if x.k == 'call' and last(x.qn) == 'alias']
                hs = list(zero(i.facts, ('has',)))
                used = any(not v for t, v in hs)
                free = any(v for t, v in hs)
                if not cs:
                    ctx.check(True if used else (None if any(x.k == 'call' and last(x.qn) in ADD + ('add',) for x in i.events) else False), wh, T, 'an alias is passed over')
                for x in cs:
                    ctx.check(True if free else False if used or not hs else None, wh, 'a name in use is left alone', 'the name is registered without asking')
                    a = x.args
                    ctx.check(of(strip_fresh(('x', a[0]))[1], ('getName',)) and has_sub(('x', a[0]), lambda y: y == THIS) and not has_sub(('x', a[0]), lambda y: of(y, ('getIndirection',))) or (False if has_sub(('x', a[0]), lambda y: of(y, ('getIndirection',))) else None), wh, 'the name stands for the type itself', show(a[0])[:50])
                    nm = [y for y in subterms(a[1]) if of(y, ('getIndirectTypeName',))]
                    ctx.check(any(has_sub(y, lambda z: isinstance(z, tuple) and z[:1] == ('L',) or isinstance(z, tuple) and z[:1] == ('iter',)) for y in nm) or None, wh, 'the name is made from the alias', show(a[1])[:60])
                    for t, v in hs:
                        same = any(strip_fresh(y) == strip_fresh(z) for y in nm for z in subterms(t))
                        ctx.check(same or None, wh, 'the name asked for is the one registered', show(t)[:60])
                    if len(a) > 2 and not (a[2][0] == 'str'):
                        pers = a[2]
                        if pers[0] == 'int':
                            ctx.check(pers[1] == 0, wh, 'names made this way are not exported', 'they are persistent')
                        else:
                            ctx.check(None if len(a) > 3 else False, wh, 'names made this way are not exported', show(pers)[:40])
                    else:
                        ctx.bad(wh, 'names made this way are not exported', 'whether they are exported is left to the target')
    # a class that makes names must not lose them
    for g in fs:
        if g is f or g['qn'].startswith('Typelib::Type::'):
            continue
        cls = g.get('cls')
        if cls not in P.all_subs(I):
            continue
        wh = ctx.where(g)
        for o in ctx.run(g, opaque=opaque(g), merge=False):
            if o.kind != 'return':
                continue
            calls = [e for e in inner(own(o)) if e.k == 'call']
            if any(last(e.qn) == EXT for e in calls):
                ctx.ok(wh, T)
                continue
            # its name does not say what it is made of
            ns = [h for h in P.functions.values() if h.get('cls') == cls and h['n'] == cls.split('::')[-1] and 'params' in h and h.get('inits') and len(h['params']) == 1]
            fixed = any(not asked(h) for h in ns)
            ctx.check(True if fixed else (None if calls else False), wh, T, 'it gets none')


def asked(h):
    """a constructor makes the name from that of its parameter"""
    for b in h['inits']:
        if 'base' in b and b.get('e'):
            for x in walk_ast(b['e']):
                if x.get('k') == 'call' and x.get('n') == 'getName':
                    return True
    return False


def subterms(t):
    if isinstance(t, tuple):
        yield t
        for x in t:
            yield from subterms(x)


def strip(t, hole, dim):
    """the element's name as HOLE, the dimension as DIM"""
    t = strip_fresh(('x', t))[1]

    def go(x):
        if not isinstance(x, tuple):
            return x
        if of(x, ('getDimension',)) or len(x) > 2 and x[0] in ('fld', 'fldv') and x[2] == 'm_dimension' or dim is not None and x == ('sym', dim):
            return 'DIM'
        if hole(x):
            return 'HOLE'
        y = tuple(go(z) for z in x)
        # reading through a reference
        if y and y[0] in ('rd', 'ptr', 'refto', 'deref', 'lval') and len(y) > 1 and y[1] in ('HOLE', 'DIM'):
            return y[1]
        return y
    return go(t)


def names(ctx):
    """the name given for an alias is the one the type would have if it were made from it"""
    P = ctx.P
    n = 0
    T = 'the name made from an alias is the one the type would get if it were made from it'
    for cls in sorted(P.all_subs(I)):
        g = [x for x in P.functions.values() if x.get('cls') == cls and x['n'] == 'getIndirectTypeName' and 'body' in x]
        cs = [x for x in P.functions.values() if x.get('cls') == cls and x['n'] == cls.split('::')[-1] and x.get('inits') and asked(x)]
        if not g or not cs:
            continue
        g = g[0]
        wh = ctx.where(g)
        prm = ('sym', g['params'][0]['n'])
        stop = lambda h: h['n'] in ('getName', 'getDimension', 'getSize', 'getNaturalSize') or h.get('static') or h['n'].endswith('Name') and h.get('cls') == cls
        makers = set(h['qn'] for h in P.functions.values() if h.get('cls') == cls and (h['n'].endswith('Name') and h['n'] not in ('getName', 'getIndirectTypeName')))
        stop2 = lambda h: stop(h) or h.get('cls') not in (cls,) and h['n'] == h.get('cls', '').split('::')[-1]
        got = []
        for o in ctx.run(g, opaque=stop2, merge=False):
            if o.kind == 'return':
                got.append(strip(o.val, lambda x: x == prm, None))
        want = []
        for c in cs:
            on = [p['n'] for p in c['params'] if 'Type' in p['t']]
            dim = [p['n'] for p in c['params'] if 'Type' not in p['t']]
            ctx.need(len(on) == 1 and len(dim) < 2, 'constructor of ' + cls)
            for o in ctx.run(c, opaque=stop2, merge=False):
                if o.kind != 'return':
                    continue
                hole = lambda x: of(x, ('getName',)) and has_sub(('x', x), lambda y: y == ('sym', on[0]))
                for e in o.events:
                    if e.k in ('call', 'ctor'):
                        for a in e.args:
                            s = strip(a, hole, dim[0] if dim else None)
                            if has_sub(('x', s), lambda y: y == 'HOLE') if isinstance(s, tuple) else s == 'HOLE':
                                want.append((s, e))
                        if e.k == 'call' and e.d.get('res') is not None:
                            want.append((strip(e.res, hole, dim[0] if dim else None), e))
        n += 1
        mk = lambda s: isinstance(s, tuple) and s and s[0] in ('res', 'pure') and next((x for x in s[1:3] if isinstance(x, str)), None)
        for s in got:
            if s != 'HOLE' and any(s == w for w, e in want):
                ctx.ok(wh, T)
                continue
            q = mk(s)
            qs = set(mk(w) for w, e in want if mk(w) in makers)
            same = q in qs
            ctx.check(False if same or q and q in makers and qs or s == 'HOLE' or s[:1] == ('str',) else None, wh, T, show(s)[:60] if isinstance(s, tuple) else str(s))
    ctx.need(n >= 3, 'less than three classes that make names')


def listing(ctx):
    """the aliases of a type are all its names but its own"""
    f = ctx.one(R + '::getAliasesOf')
    wh = ctx.where(f)
    prm = ('sym', f['params'][0]['n'])
    T = 'the aliases of a type are all the names under which it is registered, but its own'
    outs = [o for o in ctx.run(f, opaque=lambda g: g['n'] in ('isAlias', 'getName', 'operator==', 'isSame'), merge=False) if o.kind == 'return']
    ctx.need(outs, 'no path')
    for o in outs:
        ls = [e for e in own(o) if e.k in ('loop', 'loop0') and entry_of(e) is not None]
        if not ls:
            ctx.check(None if any(e.k != 'call' for e in own(o)) else False, wh, T, 'the table is not looked through')
        for e in ls:
            for i in e.iters:
                if i.kind in ('break', 'return'):
                    ctx.bad(wh, T, 'the loop can stop early')
                elif i.kind == 'continue':
                    hit = [x for x in i.events if x.k == 'call' and last(x.qn) in ADD]
                    al = [v for t, v in zero(i.facts, ('isAlias',))]
                    alias, primary = any(not v for v in al), any(al)
                    eqs = []
                    for a, v in i.facts.items():
                        ps = [x for x, c in lin_parts(a[1])[1]] if a[0] == 'eq' else []
                        if has_sub(('x', a), lambda y: y == prm) and not any(of(p, ('isAlias',)) for p in ps):
                            # a result of a comparison is zero if they differ
                            if len(ps) == 1 and of(ps[0], ('operator==', 'isSame')):
                                eqs.append(not v)
                            elif len(ps) == 2 or len(ps) == 1 and of(ps[0], ('operator!=',)):
                                eqs.append(v)
                    eqs = [x for x in eqs]
                    if hit:
                        ctx.check(True if alias and True in eqs else (False if primary or False in eqs or not eqs or not al else None), wh, T, 'a name is listed that is not an alias of the type')
                    else:
                        asked_ = any(has_sub(('x', a), lambda y: y == prm) and a[0] == 'eq' and (len(lin_parts(a[1])[1]) > 1 or has_sub(a, lambda y: isinstance(y, tuple) and y[:1] in (('res',), ('pure',)))) for a in i.facts) or any(x.k != 'call' or has_sub(('x', x.obj, tuple(x.args)), lambda y: y == prm) for x in i.events if x.k in ('call', 'loop', 'loop0'))
                        ctx.check(True if primary or False in eqs else False if alias and (True in eqs or not asked_) else None, wh, T, 'an alias is left out')


def told(ctx):
    """RegistryIterator::isAlias: the name of the entry is not that of its type"""
    P = ctx.P
    f = [x for x in P.functions.values() if x['n'] == 'isAlias' and 'RegistryIterator' in x['qn'] and 'body' in x]
    if not f:
        return
    f = f[0]
    wh = ctx.where(f)
    for o in ctx.run(f, opaque=lambda g: g['n'] == 'getName', merge=False):
        if o.kind != 'return':
            continue
        v = o.val
        T = 'an entry is an alias exactly if its name is not that of its type'
        key = has_sub(('x', v), lambda y: isinstance(y, tuple) and len(y) > 2 and y[0] in ('fld', 'fldv') and y[2] == 'first')
        ty = has_sub(('x', v), lambda y: of(y, ('getName',)))
        v = v[1] if v[0] == 'bool' and isinstance(v[1], tuple) else v
        neg = v[:2] == ('cmp', '!=') or of(v, ('operator!=',)) or v[0] == 'not' and v[1][0] == 'eq'
        pos = v[:2] == ('cmp', '==') or of(v, ('operator==',)) or v[0] == 'eq'
        ctx.check(True if key and ty and neg else False if key and ty and pos else None, wh, T, show(v)[:80])


def merging(ctx):
    """the aliases that a merge brings extend to the types that were there"""
    f = ctx.one(R + '::merge')
    wh = ctx.where(f)
    T = 'aliases that a merge brings extend to the types that were there'
    outs = [o for o in ctx.run(f, opaque=opaque(f), merge=False) if o.kind == 'return']
    ctx.need(outs, 'no path')
    for o in outs:
        ls = [e for e in own(o) if e.k in ('loop', 'loop0') and entry_of(e) is not None and any(x.k == 'call' and last(x.qn) in ('alias', EXT) for x in inner([e]))]
        if not ls:
            enters = any(x.k == 'call' and last(x.qn) == 'add' for x in inner(own(o)))
            other = any(x.k == 'call' and last(x.qn) == EXT for x in inner(own(o)))
            ctx.check(None if other or not enters else False, wh, T, 'aliases are entered, and nothing is made from them')
        for e in ls:
            for i in e.iters:
                if i.kind != 'continue':
                    if i.kind != 'throw':
                        ctx.bad(wh, T, 'the loop can stop early')
                    continue
                if any(x.k == 'call' and last(x.qn) in ('alias', EXT) for x in inner(i.events)):
                    ctx.ok(wh, T)
                    continue
                al = [v for t, v in zero(i.facts, ('isAlias',))]
                # a name that was there already was extended when it came
                there = [v for t, v in zero(i.facts, ('has', 'get', 'get_', 'isSame'))]
                ctx.check(True if True in al else None if False in there or True in there else False if not any(last(x.qn) == 'add' for x in i.events if x.k == 'call') else None, wh, T, 'an alias is passed over')
