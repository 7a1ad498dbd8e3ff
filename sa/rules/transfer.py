"""C05: merging a type into another registry rebuilds it from the types of that registry."""
from core import *
from rules.owners import last, of
from rules.singleton import strip_fresh
from rules.merges import mentions_sub, source_of, call_in

T = 'Typelib::Type'
THIS = ('sym', 'this')
SRC = ('deref', THIS)
PLUMB = ('merge', 'try_merge', 'do_merge', 'addField', 'getFactory', 'remove', 'getArrayName', 'getPointerName', 'getIndirectTypeName', 'get', 'has', 'add', 'alias', 'isSame', 'updateCurrentNameMap')


def opaque(g):
    return g['n'] in PLUMB or g['n'] == 'do_compare'


def overrides(ctx, name):
    P = ctx.P
    fam = {T} | {k for k in P.records if T in base_names(P, k)}
    return [f for f in P.functions.values() if 'body' in f and f['n'] == name and f.get('cls') in fam], fam


def chain(P, cls):
    res = []
    for c in [cls] + sorted(base_names(P, cls)):
        r = P.records.get(c)
        for f in (r or {}).get('fields', []):
            res.append((c, f))
    return res


def is_typeref(P, t, fam):
    """does a field of this type refer to types?"""
    t = t.replace('const ', '')
    if any(x in t for x in ('(*)', )):
        return False
    return any(t.startswith(c + sep) or ('<' + c + sep) in t or ('<' + c + '>') in t for c in fam for sep in (' &', ' *', '&', '*')) or 'Typelib::Field' in t or t.rstrip(' *&') in fam


def deep(v, o):
    """a value, the end of a loop over it resolved to what was there before when nothing in the loop stores it"""
    n = 0
    while isinstance(v, tuple) and v and v[0] == 'X' and n < 8:
        n += 1
        for e in o.events:
            if e.k == 'loop' and ('L',) + v[1:] in e.init:
                if any(x.k in ('store', 'init') and x.loc == v[2] for x, _o, _l in eventsof(e.iters)):
                    return v
                v = e.init[('L',) + v[1:]]
                break
        else:
            return v
    return v


def plain(v):
    """without versions of what is read"""
    v = strip_fresh(v)
    while isinstance(v, tuple) and v and v[0] in ('cast', 'g', 'ver'):
        v = v[1]
    return v


def reads(v, loc):
    v = plain(v)
    if not (isinstance(v, tuple) and v):
        return False
    return v[0] == 'rd' and v[1] == loc


def from_merge(v, kind='merge'):
    return has_sub(v, lambda y: of(y, (kind,)))


def of_own(v):
    """mentions an element type of the source that has not been through merge"""
    if not isinstance(v, tuple):
        return False
    if of(v, ('merge',)):
        return False
    if v and v[0] in ('fld', 'rd', 'refloc', 'refto') and has_sub(v, lambda y: isinstance(y, tuple) and len(y) > 2 and y[0] == 'fld' and y[2].split('@')[0] in ('m_indirection', 'm_type', 'm_fields')) and not from_merge(v):
        return True
    return any(of_own(x) for x in v if isinstance(x, tuple))


def copies(ctx):
    """what do_merge makes refers to the target registry only, and describes the same type"""
    P = ctx.P
    fs, fam = overrides(ctx, 'do_merge')
    ctx.need(len(fs) >= 5, 'only %d definitions of do_merge' % len(fs))
    for f in fs:
        wh = ctx.where(f)
        cls = f['cls']
        outs = [o for o in ctx.run(f, opaque=opaque) if o.kind == 'return']
        ctx.need(outs, 'no path through %s' % f['qn'])
        refs = [(c, x) for c, x in chain(P, cls) if is_typeref(P, x['t'], fam)]
        for o in outs:
            v = o.val
            calls = [x for x, _o, _l in eventsof([o], ('call',))]
            obj = ('deref', v)
            t_refs = 'the copy refers to types of the target registry only'
            t_data = 'the copy describes the same type'
            facto = of(v, ('indirect',)) or (v and v[0] == 'refto' and of(v[1], ('indirect',)))
            if facto:
                res = v[1] if v[0] == 'refto' else v
                ctx.check(has_sub(res, lambda y: of(y, ('getFactory',), THIS)) or None, wh, 'the copy is made by the factory of this kind of container', show(res)[:100])
                pushed = [a for x in calls if last(x.qn) in ('push_back', 'emplace_back', 'insert', 'push_front') for a in x.args]
                own = [a for a in pushed if of_own(a)]
                if own:
                    ctx.bad(wh, t_refs, 'the factory is given %s' % show(own[0])[:100])
                else:
                    ctx.check(any(from_merge(a) for a in pushed) or any(from_merge(a) for x in calls if x.qn == 'indirect' for a in x.args) or None, wh, t_refs, 'the factory is not seen to get a merged type')
                sized = [x for k, x in o.st.heap.items() if k[0] == 'fld' and k[1] == obj and k[2].split('@')[0] == 'm_size'] + [x.args[0] for x in calls if last(x.qn) == 'setSize' and x.obj == v]
                ctx.check(any(reads(x, ('fld', SRC, 'm_size')) for x in sized), wh, t_data, 'its size is not taken over')
                continue
            if not (isinstance(v, tuple) and v and v[0] == 'new'):
                if v == THIS or v and has_sub(v, lambda y: y == THIS) and not from_merge(v):
                    ctx.bad(wh, t_refs, 'the type itself is returned: it belongs to the source')
                else:
                    ctx.unk(wh, t_refs, 'returns %s' % show(v)[:80])
                continue
            heap = {k: x for k, x in o.st.heap.items() if k == obj or k[0] == 'fld' and k[1] == obj}
            whole = heap.get(obj)
            if whole is not None and reads(whole, SRC) or whole == ('rd', SRC):
                # a copy of the object: fine as long as it refers to no other types
                if refs:
                    ctx.bad(wh, t_refs, 'the copy shares %s with the source' % ', '.join(x['n'] for c, x in refs))
                else:
                    ctx.ok(wh, t_refs)
                    ctx.ok(wh, t_data)
                continue
            vals = {k[2].split('@')[0]: deep(x, o) for k, x in heap.items() if k != obj}
            new_t = [e.ty for e in o.events if e.k == 'new' and e.ptr == v]
            if new_t and new_t[0].replace('const ', '') != cls:
                ctx.bad(wh, t_data, 'a %s is made for a %s' % (new_t[0], cls))
                continue
            why = []; rw = []; vague = []
            for c, x in chain(P, cls):
                n = x['n'].split('@')[0]
                if n == 'm_metadata' or x.get('static'):
                    continue
                val = vals.get(n)
                if (c, x) in refs:
                    if 'Field' in x['t']:
                        continue
                    if val is None:
                        vague.append('%s is not seen to be set' % n)
                    elif of_own(val) or not from_merge(val):
                        rw.append('%s is %s' % (n, show(val)[:80]))
                    continue
                if n == 'm_category':
                    continue
                if val is None:
                    vague.append('%s is not seen to be set' % n)
                elif reads(val, ('fld', SRC, n)) or reads(val, ('fld', SRC, x['n'])):
                    pass
                elif n == 'm_name':
                    # made from the name of the element in the target, or empty before
                    if not from_merge(val) and not has_sub(val, lambda y: y == ('fld', SRC, 'm_name')):
                        why.append('the name is %s' % show(val)[:60])
                elif n == 'm_size' and isinstance(val, tuple) and val[0] == 'int' and val[1] > 0 and 'Pointer' in cls:
                    pass
                else:
                    why.append('%s is %s' % (n, show(val)[:80]))
            # fields of compounds
            if any('Field' in x['t'] for c, x in refs):
                fieldloops(ctx, wh, f, o, v, rw, why, vague)
            if rw:
                ctx.bad(wh, t_refs, '; '.join(sorted(set(rw))))
            else:
                ctx.ok(wh, t_refs)
            if why:
                ctx.bad(wh, t_data, '; '.join(sorted(set(why))))
            elif vague:
                ctx.unk(wh, t_data, '; '.join(sorted(set(vague))))
            else:
                ctx.ok(wh, t_data)


def fieldloops(ctx, wh, f, o, v, rw, why, vague):
    from rules.owners import Sweep
    cont = ('fld', SRC, 'm_fields')
    found = False
    for k, e in enumerate(o.events):
        if e.k not in ('loop', 'loop0'):
            continue
        adds = [[x for x in i.events if x.k == 'call' and last(x.qn) in ('addField', 'push_back', 'emplace_back')] for i in e.iters]
        if not any(adds):
            continue
        s = Sweep(e, cont)
        found = True
        if s.kind is None:
            vague.append('the loop over the fields is not understood')
        if s.why:
            why.append(s.why)
        # the compound must be known before its fields are looked at: they may lead back to it
        known = [x for x in o.events[:k] if x.k == 'call' and last(x.qn) in ('insert', 'emplace', 'operator[]') and has_sub(x.obj, lambda y: y == ('sym', 'stack')) and (has_sub(x.args, lambda y: y == THIS))]
        known = [x for x in known if has_sub(x.args, lambda y: y == v)] or [x for x in o.events[:k] if x.k == 'store' and x.val == v and has_sub(x.loc, lambda y: y == ('sym', 'stack'))]
        ctx.check(bool(known), wh, 'a type that refers to itself finds its copy', 'the copy is not on the stack when the fields are merged')
        for i, a in zip(e.iters, adds):
            if i.kind != 'continue':
                continue
            if len(a) != 1:
                why.append('a field is added %d times' % len(a))
                continue
            x = a[0]
            if x.obj != v:
                why.append('a field is added to another type')
            args = [plain(y) for y in x.args] + [y for y in (x.d.get('locs') or ()) if y is not None]
            flat = tuple(args)
            if of_own(flat) and not from_merge(flat):
                rw.append('a field keeps the type of the source')
            elif not from_merge(flat) and (s.it is not None and any(y == ('rd', ('deref', s.it)) for y in args) or any(plain(y)[:2] == ('rd', ('deref', s.it)) for y in x.args)):
                rw.append('a field of the source, with its type, is added')
            elif not from_merge(flat):
                vague.append('a field is added with %s' % show(x.args[0])[:60])
            if len(x.args) >= 2 and not has_sub(flat, lambda y: isinstance(y, tuple) and len(y) > 2 and y[0] == 'fld' and y[2] == 'm_offset'):
                why.append('the offset of a field is not taken over')
            if len(x.args) == 3 and not has_sub(args[0], lambda y: isinstance(y, tuple) and len(y) > 2 and y[0] == 'fld' and y[2] == 'm_name'):
                why.append('the name of a field is not taken over')
    if not found:
        vague.append('no loop adds the fields')


def walking(ctx):
    """merge and try_merge: what is there is compared and used, what is not is made and registered"""
    P = ctx.P
    reg = 'registry'
    # try_merge
    for f in overrides(ctx, 'try_merge')[0]:
        wh = ctx.where(f)
        for o in ctx.run(f, opaque=opaque, merge=False):
            known = hit = same = None
            eq = None
            for a, v in o.facts.items():
                if a[0] != 'eq':
                    continue
                if has_sub(a[1], lambda y: of(y, ('end', 'cend'))) and has_sub(a[1], lambda y: of(y, ('find',))):
                    known = not v
                c = call_in(a[1], ('get', 'get_', 'do_compare', 'isSame', 'has', 'count'))
                if c is None:
                    continue
                if of(c, ('get', 'get_')):
                    hit = not v
                elif of(c, ('count',)):
                    known = not v
                elif of(c, ('do_compare', 'isSame')):
                    same = not v
                    eq = of(c, ('isSame',)) or any(strip_fresh(x) == ('int', 1) or x == ('true',) for x in c[3:])
            text = 'a type found under the same name is used only when it is the same'
            if o.kind == 'throw':
                ctx.check(same is False or None, wh, 'only a different definition is refused', 'throws on another path')
                continue
            if o.kind != 'return':
                continue
            v = o.val
            null = v == ZERO
            if known:
                ctx.check(has_sub(v, lambda y: of(y, ('find', 'operator[]', 'at'))) and not null, wh, 'a type that is being transferred is its copy', 'returns %s' % show(v)[:60])
            elif null:
                ctx.check(hit is False or None if hit is None else hit is False, wh, text, 'a type of that name is ignored')
            elif has_sub(v, lambda y: of(y, ('get', 'get_'))):
                if same is True:
                    ctx.check(eq, wh, text, 'it is compared for casts only')
                elif same is False:
                    ctx.bad(wh, text, 'it is used although it differs')
                else:
                    ctx.check(False if hit is not False else None, wh, text, 'it is used without comparing')
            else:
                ctx.bad(wh, text, 'returns %s' % show(v)[:80])
    # merge
    n = 0
    for f in overrides(ctx, 'merge')[0]:
        if len(f['params']) != 2:
            continue
        n += 1
        wh = ctx.where(f)
        basecall = f['cls'] != T
        for o in ctx.run(f, opaque=opaque, merge=False):
            if o.kind != 'return':
                continue
            calls = [x for x in o.events if x.k == 'call']
            trys = [x for x in calls if last(x.qn) == 'try_merge']
            mk = [x for x in calls if last(x.qn) == 'do_merge']
            adds = [x for x in calls if last(x.qn) == 'add']
            up = [x for x in calls if last(x.qn) == 'merge' and (x.obj == THIS)]
            found = None
            for a, v in o.facts.items():
                if a[0] == 'eq' and call_in(a[1], ('try_merge',)):
                    found = not v
            val = o.val
            if val is None and o.d.get('loc') if hasattr(o, 'd') else False:
                pass
            text = 'a type is made only when the target does not have it, and is registered there'
            if mk:
                why = []
                if not trys:
                    why.append('it is made without asking whether it is there')
                elif found:
                    why.append('it is made although it is there')
                if len(mk) != 1 or mk[0].obj != THIS:
                    why.append('do_merge is called %d times' % len(mk))
                if not any(has_sub(x.args, lambda y: y == mk[0].res) or mk[0].res in x.args for x in adds):
                    why.append('it is not registered')
                if not has_sub(val, lambda y: strip_fresh(y) == strip_fresh(mk[0].res)):
                    why.append('returns %s' % show(val)[:60])
                ctx.check(not why, wh, text, '; '.join(why))
            elif up:
                pre = [x for x in calls if last(x.qn) == 'merge' and x.obj != THIS and calls.index(x) < calls.index(up[0])]
                ctx.check(bool(pre) and any(has_sub(x.obj, lambda y: isinstance(y, tuple) and len(y) > 2 and y[0] == 'fld' and y[2] == 'm_indirection') for x in pre), wh, 'the element is there before the type itself is made', 'it is merged afterwards: a recursive type is registered twice')
                ctx.check(has_sub(val, lambda y: strip_fresh(y) == strip_fresh(up[0].res)), wh, text, 'returns %s' % show(val)[:60])
            elif found:
                ctx.check(has_sub(val, lambda y: of(y, ('try_merge',))), wh, text, 'returns %s' % show(val)[:60])
            else:
                ctx.bad(wh, text, 'returns %s' % show(val)[:60])
    ctx.need(n >= 2, '%d definitions of merge' % n)


def failures(ctx):
    """a compound that is destroyed because a field could not be merged is not referred to by what has been registered so far"""
    fs, fam = overrides(ctx, 'do_merge')
    n = 0
    for f in fs:
        calls = [x for x in walk_ast(f['body']) if x['k'] == 'call' and x.get('n') == 'merge']
        if not calls:
            continue
        wh = ctx.where(f)
        text = 'nothing that is registered refers to a copy that is destroyed'
        outs = ctx.run(f, opaque=opaque, may_throw=lambda e, q: '?' if last(q) == 'merge' else None)
        for o in outs:
            if o.kind != 'throw':
                continue
            n += 1
            # what has been put on the stack: others may refer to it from then on
            given = set()
            gone = []
            cleaned = set()
            why = []
            for e, _o, l in eventsof([o]):
                if e.k == 'call' and last(e.qn) in ('insert', 'emplace') and has_sub(e.obj, lambda y: y == ('sym', 'stack')):
                    for x in e.args:
                        has_sub(x, lambda y: given.add(y) or False if isinstance(y, tuple) and y and y[0] == 'new' else False)
                elif e.k == 'store' and has_sub(e.loc, lambda y: y == ('sym', 'stack')) and isinstance(e.val, tuple) and e.val[0] == 'new':
                    given.add(e.val)
                elif e.k == 'call' and last(e.qn) == 'remove' and 'Registry' in e.qn:
                    for x in (e.d.get('locs') or ()):
                        if x is not None and x[0] == 'deref':
                            cleaned.add(x[1])
            for e in o.events:
                p = None
                if e.k == 'delete':
                    p = e.ptr
                elif e.k == 'dtor' and 'unique_ptr' in e.ty or e.k == 'dtor' and 'auto_ptr' in e.ty or e.k == 'dtor' and 'shared_ptr' in e.ty:
                    p = e.val
                if p in given:
                    gone.append(p)
                    if p not in cleaned:
                        why.append('it is destroyed while registered types may refer to it')
                if e.k in ('loop', 'loop0'):
                    for i in e.iters:
                        for x in i.events:
                            if x.k == 'delete' and any(of(y, ('remove',)) or True for y in [0]):
                                # one of the dependents; must not be the copy itself when that is destroyed anyway
                                apart = any(a[0] == 'eq' and not v and len(lin_parts(a[1])[1]) == 2 and any(t in given for t, c in lin_parts(a[1])[1]) for a, v in i.facts.items())
                                if not apart and given and any(y.k == 'dtor' and y.val in given for y in o.events):
                                    why.append('the copy is destroyed twice')
            if len(gone) > len(set(gone)):
                why.append('the copy is destroyed twice')
            if given:
                ctx.check(not why, wh, text, '; '.join(sorted(set(why))))
    ctx.need(n, 'no path on which merging a field fails')
