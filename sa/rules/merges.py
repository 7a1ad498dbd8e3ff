"""D05: what merging and extracting registries keeps of every name."""
from core import *
from rules.owners import last, of
from rules.singleton import strip_fresh
from rules.regs import named, THIS, R

OPS = {R + '::' + n for n in ('alias', 'add', 'get', 'get_', 'has', 'copySourceIDs', 'mergeMetaData', 'find', 'setSourceID', 'isPersistent', 'setPersistent', 'merge', 'minimal')}
T = 'Typelib::Type'
KEEPS = {'first': 'name', 'm_name': 'type', 'persistent': 'persistent', 'source_id': 'source'}


def opaque(g):
    return g['qn'] in OPS or g['n'] in ('merge', 'isSame', 'mergeMetaData', 'getMetaData', 'updateCurrentNameMap') or g['qn'].startswith('Typelib::MetaData') or g.get('ctor') and 'Exception' in g['qn']


def what(t):
    """what a term says about the entry of a loop"""
    t = strip_fresh(t)
    while isinstance(t, tuple) and t and t[0] in ('rd', 'cast'):
        t = t[1]
    if isinstance(t, tuple) and t and t[0] in ('fld', 'fldv'):
        return KEEPS.get(t[2].split('@')[0])
    for n, k in (('getName', None), ('isPersistent', 'persistent'), ('getSource', 'source')):
        if of(t, (n,)):
            if k:
                return k
            return 'type' if has_sub(t, lambda x: of(x, ('operator->', 'operator*', 'aliased', 'get_'))) else 'name'
    return None


def call_in(t, names):
    """the call a fact is about"""
    ps = [x for x, c in lin_parts(t)[1]]
    return ps[0] if len(ps) == 1 and of(ps[0], names) else None


def looked_up(t):
    """the names that a type was looked up with"""
    t = strip_fresh(t)
    if not isinstance(t, tuple):
        return
    if of(t, ('get', 'get_')):
        yield t[-1]
        return
    for x in t:
        yield from looked_up(x)


def mentions_sub(t, s):
    return has_sub(strip_fresh(t), lambda x: x == s)


def at_end(a, v, var):
    """the fact says that the iterator var is at the end"""
    if a[0] != 'eq' or not has_sub(a, lambda y: y == var) or not has_sub(a, lambda y: of(y, ('end', 'cend'))) or has_sub(a, lambda y: of(y, ('find',))):
        return False
    c = [x for x, k in lin_parts(a[1])[1]]
    return v != (len(c) == 1 and of(c[0], ('operator==',)))


class Walk:
    """a loop over the entries of a registry"""

    def __init__(self, e):
        self.src = None
        self.why = ''
        self.var = None
        for loc, init in e.init.items():
            src = []
            if loc[0] == 'L' and loc[2][0] != 'var':
                continue

            def look(x):
                x = strip_fresh(x) if isinstance(x, tuple) else x
                if of(x, ('begin', 'cbegin')):
                    has_sub(x, lambda y: src.append(y[1]) or True if isinstance(y, tuple) and len(y) > 2 and y[0] == 'fld' and y[2] == 'm_global' else False)
                    return bool(src)
                return False
            has_sub(init, look)
            if src:
                self.src = src[0]
                self.var = loc
        if e.rng is not None:
            src = []
            has_sub(('x', e.rng), lambda y: src.append(y[1]) or True if isinstance(y, tuple) and len(y) > 2 and y[0] == 'fld' and y[2] == 'm_global' else False)
            if src:
                self.src = src[0]
        if self.src is None:
            return
        step1 = e.rng is not None or show(e.step.get(self.var, ZERO)) == '1'
        for i in e.iters:
            if i.kind == 'continue':
                var = self.var[2] if self.var and self.var[0] == 'L' else self.var
                n = len([x for x, _o, _l in eventsof([i], ('call',)) if last(x.qn) in ('operator++', 'increment') and has_sub((x.obj,) + tuple(x.args), lambda y: y == var)])
                if n != 1 and not step1:
                    self.why = 'the loop goes %d entries further' % n
                if any(at_end(a, v, self.var) for a, v in i.facts.items()):
                    self.why = 'the loop only runs at the end'
            elif i.kind in ('break', 'return'):
                if not any(at_end(a, v, self.var) for a, v in i.facts.items()):
                    self.why = 'the loop can stop before the last entry'


def source_of(t):
    """the registry a location or reference stands for"""
    t = strip_fresh(t)
    while isinstance(t, tuple) and t and t[0] in ('deref', 'refto', 'refloc', 'addr', 'rd', 'ptr'):
        t = t[1]
    return t


def entries(ctx, f, src, target, whole, wh, flag=None):
    """the names of src that are given to target; whole: the condition under which an entry need not be kept"""
    outs = ctx.run(f, opaque=opaque, merge=False)
    rets = [o for o in outs if o.kind == 'return']
    ctx.need(rets, 'no path through %s' % f['qn'])
    al_text = 'an alias is kept with its target, persistence and origin, or stands for the same type already'
    ty_text = 'every type is merged'
    for o in rets:
        merged = aliased = entered = False
        why = []; tw = []; vague = False; late = []; walked = False
        for e in o.events:
            if e.k == 'call' and last(e.qn) == 'merge':
                merged = True
            if e.k == 'call' and last(e.qn) in ('copySourceIDs', 'mergeMetaData'):
                late.append((last(e.qn), e, aliased))
            if e.k not in ('loop', 'loop0'):
                continue
            w = Walk(e)
            if w.src is None:
                if any(x.k == 'call' and last(x.qn) in ('alias', 'merge', 'add') for x, _o, _l in eventsof(e.iters)):
                    vague = True
                continue
            if source_of(w.src) != src:
                if any(x.k == 'call' and last(x.qn) in ('alias', 'merge') for x, _o, _l in eventsof(e.iters)):
                    why.append('the loop goes through another registry')
                continue
            walked = True
            does_alias = any(x.k == 'call' and last(x.qn) in ('alias', 'add') for x, _o, _l in eventsof(e.iters))
            does_merge = any(x.k == 'call' and last(x.qn) == 'merge' for x, _o, _l in eventsof(e.iters))
            if w.why and (does_alias or does_merge):
                (why if does_alias else tw).append(w.why)
            if does_alias and not merged and not does_merge:
                vague = True
            if does_alias and does_merge:
                why.append('aliases are added before all types have been merged')
            for i in e.iters:
                nm = named(i.facts)
                calls = [x for x, _o, _l in eventsof([i], ('call',))]
                als = [x for x in calls if last(x.qn) in ('alias', 'add')]
                mrg = [x for x in calls if last(x.qn) == 'merge']
                excl = flagged = False; lacks = False; same = None; fnd = None
                for a, v in i.facts.items():
                    if a[0] != 'eq':
                        continue
                    if v and flag and a[1] == flag:
                        flagged = True
                    c = call_in(a[1], ('has', 'get', 'get_', 'isSame', 'find'))
                    if c is None:
                        continue
                    if of(c, ('isSame',)):
                        same = not v
                    elif of(c, ('has',)):
                        ws = [what(x) for x in c[3:]]
                        on_target = target(c)
                        if not on_target and not v:
                            excl = True
                        if on_target and 'type' in ws and v:
                            lacks = True
                        if on_target and 'name' in ws:
                            fnd = not v
                    elif of(c, ('get', 'get_')):
                        ws = [what(x) for x in c[3:]]
                        if 'name' in ws:
                            fnd = not v
                if mrg:
                    merged = True
                if does_merge and i.kind == 'continue' and not mrg and nm is not False and not excl:
                    tw.append('a type is skipped' if nm else 'an entry is skipped')
                if does_merge and mrg and excl:
                    tw.append('a type is merged that was to be left out')
                if not does_alias:
                    continue
                if nm is not False:
                    if als:
                        why.append('a type is added as an alias of itself')
                    continue
                if i.kind == 'throw':
                    if same is not False and not calls[-1:] == als[-1:]:
                        why.append('an alias is refused although it stands for the same type')
                    continue
                if als:
                    for x in als:
                        if last(x.qn) == 'add' and len(x.args) == 4:
                            entered = True
                            ws = [what(y) for y in x.args]
                            by = [what(z) for z in looked_up(x.args[1])]
                            if by:
                                ws[1] = by[0]
                            for n, want in enumerate(('name', 'type', 'persistent', 'source')):
                                if ws[n] != want:
                                    if ws[n] is None and n < 2:
                                        vague = True
                                    else:
                                        why.append('argument %d of add() is %s, not the %s of the entry' % (n + 1, show(x.args[n])[:60], want))
                            continue
                        if last(x.qn) == 'alias' and not entered:
                            why.append('names are made from an alias while others are still to be entered, which may be theirs')
                        if last(x.qn) != 'alias' or len(x.args) < 3:
                            vague = True
                            if last(x.qn) == 'alias':
                                why.append('the persistence of the alias is not passed on')
                            continue
                        ws = [what(y) for y in x.args]
                        for n, (got, want) in enumerate(zip(ws, ('type', 'name', 'persistent', 'source'))):
                            if got != want:
                                why.append('argument %d of alias() is %s, not the %s of the entry' % (n + 1, show(x.args[n])[:60], want))
                        if len(x.args) < 4 and not any(len(y.args) == 4 for y in als):
                            why.append('the origin of the alias is not passed on')
                    if same is False:
                        why.append('an alias is added over a different type')
                elif same is True or lacks or excl and flagged:
                    pass
                elif same is False:
                    why.append('a name that stands for different types is accepted')
                elif fnd is None or fnd is False:
                    why.append('an alias is left out')
                else:
                    why.append('a name is taken to stand for the same type without comparing')
            if does_alias:
                aliased = True
        need_alias = not whole(o)
        if need_alias and not aliased:
            (ctx.unk if vague else ctx.bad)(wh, al_text, 'no loop adds them')
        elif why:
            ctx.bad(wh, al_text, '; '.join(sorted(set(why))))
        elif vague:
            ctx.unk(wh, al_text, 'not understood')
        elif aliased:
            ctx.ok(wh, al_text)
        if tw:
            ctx.bad(wh, ty_text, '; '.join(sorted(set(tw))))
        else:
            ctx.check(merged or None, wh, ty_text, 'no merge found')
        for n in ('copySourceIDs', 'mergeMetaData'):
            got = [(e, after) for m, e, after in late if m == n]
            text = '%s are carried over' % ('origins' if n[0] == 'c' else 'metadata')
            if not got:
                ctx.bad(wh, text, '%s() is not called on every path' % n)
            for e, after in got:
                if need_alias and not after:
                    ctx.bad(wh, text, 'before the aliases are there')
                elif source_of(e.args[0]) != src:
                    ctx.bad(wh, text, 'from %s' % show(e.args[0]))
                else:
                    ctx.ok(wh, text)


def merging(ctx):
    reg = ('sym', 'registry')
    f = ctx.one(R + '::merge')
    prm = ('sym', f['params'][0]['n'])
    entries(ctx, f, prm, lambda c: mentions_sub(c, THIS), lambda o: False, ctx.where(f))
    for f in ctx.fn(R + '::minimal'):
        params = [p['n'] for p in f['params']]
        by_name = 'string' in f['params'][0]['t']
        flag = ('sym', params[1])

        def whole(o):
            return by_name and any(a[0] == 'eq' and v and has_sub(a[1], lambda x: x == flag) for a, v in o.facts.items())

        other = ('sym', params[0])
        entries(ctx, f, THIS, lambda c: not mentions_sub(c, other) or by_name, whole, ctx.where(f), flag)


def attributes(ctx):
    """copySourceIDs and mergeMetaData: every name found in both"""
    for n, setter in (('copySourceIDs', ('setSourceID',)), ('mergeMetaData', ('mergeMetaData',))):
        f = ctx.one(R + '::' + n)
        wh = ctx.where(f)
        prm = ('sym', f['params'][0]['n'])
        text = 'every name the registries share is looked at'
        outs = [o for o in ctx.run(f, opaque=opaque, merge=False) if o.kind == 'return']
        ctx.need(outs, 'no path through %s' % f['qn'])
        for o in outs:
            ws = [(Walk(e), e) for e in o.events if e.k in ('loop', 'loop0')]
            ws = [(w, e) for w, e in ws if w.src is not None]
            if not ws:
                ctx.unk(wh, text, 'no loop over the entries')
            for w, e in ws:
                mine = source_of(w.src) == prm
                why = [w.why] if w.why else []
                if not mine and source_of(w.src) != THIS:
                    why.append('the loop goes through %s' % show(w.src))
                for i in e.iters:
                    if i.kind != 'continue':
                        continue
                    does = [x for x, _o, _l in eventsof([i]) if x.k == 'call' and last(x.qn) in setter or n[0] == 'c' and (x.k == 'store' or x.k == 'call' and last(x.qn) in ('operator=', 'assign')) and what(getattr(x, 'loc', None) or (x.obj[1] if x.obj and x.obj[0] == 'addr' else x.obj)) == 'source']
                    absent = empty = have = blank = False
                    for a, v in i.facts.items():
                        if a[0] != 'eq':
                            continue
                        if has_sub(a[1], lambda y: of(y, ('end', 'cend'))) and has_sub(a[1], lambda y: of(y, ('find',))):
                            c = [x for x, c in lin_parts(a[1])[1]]
                            eq = v if not of(c[0], ('operator==',)) else not v
                            if eq:
                                absent = True
                        elif has_sub(a[1], lambda y: of(y, ('empty', 'size', 'length')) or what(y) == 'source'):
                            ps = [x for x, c in lin_parts(a[1])[1]]
                            e0 = v if not of(ps[0], ('empty',)) else not v
                            on_found = has_sub(strip_fresh(a[1]), lambda y: of(y, ('find',)))
                            if e0 and not on_found:
                                empty = True
                            if not e0 and on_found:
                                have = True
                            if e0 and on_found:
                                blank = True
                    if absent:
                        if does:
                            why.append('a name that is not there is changed')
                        continue
                    if n[0] == 'c' and (empty or have):
                        if does and empty:
                            why.append('an unknown origin replaces a known one')
                        continue
                    if not does:
                        why.append('a name both have is skipped')
                    elif n[0] == 'c' and not blank:
                        why.append('a known origin is replaced')
                    for x in does:
                        if x.k == 'call' and last(x.qn) == 'setSourceID':
                            if what(x.args[1]) != 'source' or has_sub(strip_fresh(x.args[1]), lambda y: of(y, ('find',))):
                                why.append('the origin set is %s' % show(x.args[1])[:80])
                            if not any(named_found(a, v) for a, v in i.facts.items()):
                                why.append('the origin of an alias is given to its type')
                        if x.k == 'call' and last(x.qn) == 'mergeMetaData':
                            fr = has_sub(strip_fresh(x.args[0]), lambda y: of(y, ('find',)))
                            to = has_sub(strip_fresh(x.obj), lambda y: of(y, ('find',)))
                            if mine and (fr or not to):
                                why.append('metadata goes from the target to the source')
                ctx.check(not why, wh, text, '; '.join(sorted(set(why))))


def named_found(a, v):
    """the fact says that the entry found is that of the type itself"""
    return named({a: v}) is True


def run_(ctx):
    merging(ctx)
    attributes(ctx)
