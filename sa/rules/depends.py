"""D07: what depends on a type, and leaves the registry with it."""
from core import *
from rules.owners import last, of
from rules.regs import R, THIS
from rules.singleton import strip_fresh

T = 'Typelib::Type'
ADD = ('insert', 'emplace', 'push_back')
PASS = ('dependsOn', 'isAlias', 'reverseDepends', 'updateCurrentNameMap', 'getName', 'resize')


def opaque(g):
    return g['n'] in PASS or g.get('cls') == R and g['n'] in ('get', 'get_', 'has')


def added(i, deep=True):
    """what a path adds to a set: [(set, element, event)]"""
    res = []
    for e, _o, l in (eventsof([i], ('call',)) if deep else [(x, i, ()) for x in i.events if x.k == 'call']):
        if last(e.qn) in ADD and e.obj is not None and e.args and 'map<' not in e.qn.split('::')[1][:5]:
            res.append((e.obj, e.args, e))
    return res


def fields(t, name):
    return has_sub(('x', t), lambda y: isinstance(y, tuple) and len(y) > 2 and y[0] in ('fld', 'fldv') and y[2] == name)


def covers(ctx):
    """each category names all the types its definition refers to"""
    P = ctx.P
    want = {'Typelib::Indirect': 'm_indirection', 'Typelib::Compound': 'm_fields'}
    n = 0
    for base, member in want.items():
        r = P.records.get(base)
        ctx.need(r is not None and any(f['n'] == member for f in r['fields']), '%s::%s' % (base, member))
        subs = [base] + sorted(P.all_subs(base))
        fs = {}
        for cls in subs:
            # the function a value of this class runs
            c = cls
            while c is not None:
                g = [x for x in P.functions.values() if x['qn'] == c + '::dependsOn' and 'body' in x]
                if g:
                    fs[g[0]['key']] = g[0]
                    break
                bs = [b for b in P.records.get(c, {}).get('bases', [])]
                bs = [b if isinstance(b, str) else b.get('n') or b.get('qn') or b.get('t') for b in bs]
                c = next((b for b in bs if b and b.startswith('Typelib::')), None)
        ctx.need(fs, 'dependsOn of %s' % base)
        for f in fs.values():
            n += 1
            wh = ctx.where(f)
            for o in ctx.run(f, opaque=lambda g: g['n'] in ('getIndirection', 'getType') and False, merge=False):
                if o.kind != 'return':
                    continue
                # an overrider that asks the one of its base class
                if any(e.k == 'call' and last(e.qn) == 'dependsOn' and e.obj is not None and has_sub(('x', e.obj), lambda y: y == THIS) for e in o.events):
                    ctx.ok(wh, 'a type depends on everything it refers to')
                    continue
                if member == 'm_indirection':
                    hit = any(fields(a, member) for s, a, e in added(o)) or o.val is not None and fields(o.val, member)
                    ctx.check(hit, wh, 'a type depends on everything it refers to', 'the type it is made of is left out')
                    continue
                loops = [e for e in o.events if e.k in ('loop', 'loop0') and (any(fields(v, member) for v in e.init.values()) or e.rng is not None and fields(e.rng, member))]
                if not loops:
                    ctx.check(None if any(e.k == 'call' and any(fields(a, member) for a in e.args) for e in o.events) else False, wh, 'a type depends on everything it refers to', 'its fields are not looked at')
                for e in loops:
                    for i in e.iters:
                        if i.kind == 'continue':
                            hit = any(fields(a, 'm_type') or has_sub(('x', a), lambda y: of(y, ('getType',))) for s, a, x in added(i))
                            ctx.check(hit, wh, 'a type depends on everything it refers to', 'a field is left out')
                        elif i.kind in ('break', 'return'):
                            ctx.bad(wh, 'a type depends on everything it refers to', 'the loop over the fields can stop early')
    ctx.need(n, 'no dependsOn found')


def entry_of(e):
    """the loop goes over the entries of the registry: its iterator"""
    for loc, v in e.init.items():
        x = strip_fresh(v)
        if has_sub(('x', x), lambda y: of(y, ('begin', 'cbegin')) and fields(y, 'm_global')):
            return loc
    if e.rng is not None and fields(e.rng, 'm_global'):
        return ('rng', e.id)
    return None


def counted(a, v):
    """a fact about membership: (set, element, is member)"""
    if a[0] != 'eq':
        return None
    ps = [x for x, c in lin_parts(a[1])[1]]
    if len(ps) == 1 and of(ps[0], ('count', 'contains')):
        args = ps[0][2:] if ps[0][0] == 'pure' else ps[0][3:]
        return args[0], args[-1], not v
    f = [x for x in ps if of(x, ('find',))]
    if len(f) == 1 and any(of(x, ('end', 'cend')) for x in ps):
        args = f[0][2:] if f[0][0] == 'pure' else f[0][3:]
        return args[0], args[-1], not v
    return None


def asks(t):
    return has_sub(('x', t), lambda y: of(y, ('dependsOn',)))


def walks(outs):
    """the loops over the registry in which dependencies are looked at: (loop event, outer loops)"""
    for e, o, l in eventsof(outs, ('loop', 'loop0')):
        if entry_of(e) is not None and any(x.k == 'call' and last(x.qn) == 'dependsOn' for x, _o, _l in eventsof(e.iters)):
            yield e, o, l


def reverse(ctx):
    fs = [f for f in ctx.fn(R + '::reverseDepends')]
    ctx.need(fs, 'Registry::reverseDepends')
    whole = 0
    for f in fs:
        wh = ctx.where(f)
        prm = ('sym', f['params'][0]['n'])
        outs = [o for o in ctx.run(f, opaque=opaque, merge=False) if o.kind == 'return']
        ctx.need(outs, 'no path through %s' % f['qn'])
        found = list(walks(outs))
        if not found:
            # hands on what another overload found
            for o in outs:
                cs = [e for e in o.events if e.k == 'call' and last(e.qn) == 'reverseDepends']
                if not cs:
                    ctx.bad(wh, 'dependents are searched among all registered types', 'the registry is not looked through')
                    continue
                ctx.check(any(has_sub(('x', a), lambda y: y == prm) for a in cs[0].args), wh, 'the dependents of the type given are asked for', show(cs[0].args)[:60])
                ls = [e for e in o.events if e.k in ('loop', 'loop0')]
                for e in ls:
                    for i in e.iters:
                        if i.kind == 'continue':
                            ctx.check(bool(added(i)), wh, 'every dependent is handed on', 'one is left out')
                        elif i.kind == 'break':
                            ctx.bad(wh, 'every dependent is handed on', 'the loop can stop early')
                if not ls:
                    r = cs[0].res
                    hit = any(has_sub(('x', a), lambda y: y == r) for e in o.events if e.k == 'call' for a in e.args) or has_sub(('x', o.val), lambda y: y == r)
                    ctx.check(hit or None, wh, 'every dependent is handed on', 'what was found is not used')
            continue
        whole += 1
        for o in outs:
            first = [a for s, a, e in added(o, False)]
            start = any(has_sub(('x', a), lambda y: y == prm) for a in first) or any(e.k in ('decl', 'store') and has_sub(('x', e.d.get('val')), lambda y: y == prm) for e in o.events)
            ctx.check(start or None, wh, 'the search starts at the type itself', 'it is not in any set')
        done = set()
        for e, o, l in found:
            if not l and not any(x.k == 'call' and last(x.qn) == 'reverseDepends' for x, _o, _l in eventsof(outs)):
                ctx.bad(wh, 'dependents of dependents are found too', 'the registered types are looked through once')
            elif l and isinstance(l[0], Ev) and l[0].d.get('trip') is not None and l[0].d['trip'][0] == 'int':
                ctx.bad(wh, 'dependents of dependents are found too', 'the registered types are looked through %d times' % l[0].d['trip'][1])
            else:
                ctx.ok(wh, 'dependents of dependents are found too')
            for i in e.iters:
                adds = [a for s, a, x in added(i)]
                members = []
                scan = [(i.facts, 'own')]
                for x, _o, _l in eventsof([i], ('loop', 'loop0')):
                    scan += [(j.facts, 'in') for j in x.iters]
                for facts, w in scan:
                    for a, v in facts.items():
                        m = counted(a, v)
                        if m:
                            members.append((asks(m[0]), m[2], w))
                yes = any(d and m and w == 'own' for d, m, w in members)
                no = any(d and not m for d, m, w in members)
                alias = next((not v for a, v in i.facts.items() if a[0] == 'eq' and len(lin_parts(a[1])[1]) == 1 and of(lin_parts(a[1])[1][0][0], ('isAlias',))), None)
                known = any(not d and m and w == 'own' for d, m, w in members)
                direct = any(s.k == 'call' and last(s.qn) in ADD for s in i.events)
                text = 'a type is found exactly if it depends on one that was found'
                if i.kind in ('break', 'return'):
                    ctx.check(None if i.kind == 'return' else False, wh, 'all registered types are looked at', 'the search can stop at the first')
                    continue
                if i.kind != 'continue':
                    continue
                if direct and not yes and not any(x.k in ('loop', 'loop0') for x in i.events):
                    # added on this path itself, without a dependency
                    plain = ADD + PASS + ('count', 'find', 'contains', 'begin', 'end', 'cbegin', 'cend', 'operator*', 'operator->', 'operator++', 'operator!=', 'operator==', 'size', 'empty')
                    other = [x for x in i.events if x.k == 'call' and last(x.qn) not in plain]
                    ctx.check(None if other or any(asks(a) for a in i.facts) else False, wh, text, 'a type is added without depending on one')
                elif yes and not adds:
                    ctx.bad(wh, text, 'a type that depends on one is not added')
                elif yes or no:
                    ctx.ok(wh, text)
                elif alias or known:
                    ctx.ok(wh, text)
                else:
                    looked = any(asks(a) for a in i.facts) or any(x.k == 'call' and last(x.qn) == 'dependsOn' for x in i.events)
                    ran = any(x.k in ('loop', 'loop0') for x in i.events)
                    ctx.check(None if looked and not ran else looked and ran, wh, text, 'a type is left out without looking at what it depends on')
                # inside the search through what was found
                for x, _o, _l in eventsof([i], ('loop', 'loop0')):
                    for j in x.iters:
                        for a, v in j.facts.items():
                            m = counted(a, v)
                            if m and asks(m[0]) and (_l == () or True):
                                has = bool([1 for s in j.events if s.k == 'call' and last(s.qn) in ADD])
                                if m[2] and not has and j.kind == 'continue':
                                    ctx.bad(wh, text, 'a type that depends on one is not added')
                                elif not m[2] and has:
                                    ctx.bad(wh, text, 'a type that does not depend on one is added')
                                elif not m[2] and j.kind in ('break', 'return'):
                                    ctx.bad(wh, text, 'the search stops at the first that it does not depend on')
            # what a round found is kept
            if l:
                outer = l[0] if isinstance(l, (tuple, list)) else l
                done.add(id(outer))
        for x, o, l in eventsof(outs, ('loop', 'loop0')):
            if l or not any(id(e) in [id(y) for y, _a, _b in eventsof(x.iters, ('loop', 'loop0'))] for e, _o, _l in found):
                continue
            for i in x.iters:
                if i.kind != 'continue':
                    continue
                own = [e for e in i.events if e.k == 'call' and last(e.qn) in ADD + ('swap', 'merge', 'operator=', 'clear')] + [e for e in i.events if e.k == 'store']
                keeps = [e for e in own if e.k == 'call' and last(e.qn) in ADD + ('merge',)]
                ctx.check(True if keeps else (None if any(e.k == 'store' for e in own) else False), wh, 'what a round found is kept', 'it is not added to the result')
    ctx.need(whole, 'no search for dependents')


def removing(ctx):
    f = ctx.one(R + '::remove')
    wh = ctx.where(f)
    prm = ('sym', f['params'][0]['n'])
    for o in ctx.run(f, opaque=opaque, merge=False):
        if o.kind != 'return':
            continue
        cs = [e for e in o.events if e.k == 'call' and last(e.qn) == 'reverseDepends']
        ctx.check(bool(cs), wh, 'what depends on a removed type is removed with it', 'its dependents are not looked up')
        for e in cs:
            ctx.check(any(has_sub(('x', a), lambda y: y == prm) for a in e.args), wh, 'the dependents of the type given are removed', show(e.args)[:60])
            for x in o.events[:o.events.index(e)]:
                if x.k == 'call' and last(x.qn) in ('erase', 'clear'):
                    ctx.bad(wh, 'dependents are searched while all are registered', 'entries are taken out before')
