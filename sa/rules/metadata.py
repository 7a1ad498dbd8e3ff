"""C04: metadata belongs to one type or field, and is only added to by merging."""
from core import *
from rules.owners import Sweep, deletes_of, last, of
from rules.singleton import strip_fresh
from rules.transfer import plain

MD = 'Typelib::MetaData'
THIS = ('sym', 'this')
SELF = ('deref', THIS)


def owners_(ctx):
    """classes with a member that is, points to, or manages metadata"""
    res = []
    for cn, r in sorted(ctx.P.records.items()):
        for f in r.get('fields', []):
            t = f['t'].replace('const ', '').strip()
            if t == MD or t == MD + ' *' or ('<' + MD) in t and '_ptr' in t:
                res.append((cn, f['n'], t))
    return res


def same_content(v, other, fld):
    """a value that is the content of the metadata of the other object"""
    v = plain(v)
    return isinstance(v, tuple) and len(v) > 1 and v[0] in ('rd', 'copy') and has_sub(v, lambda y: isinstance(y, tuple) and len(y) > 2 and y[0] == 'fld' and y[1] == other and y[2] == fld)


def ownership(ctx):
    P = ctx.P
    own = owners_(ctx)
    ctx.need(any(c == 'Typelib::Type' for c, f, t in own), 'no metadata in Type')
    ctx.need(any(c == 'Typelib::Field' for c, f, t in own), 'no metadata in Field')
    dtors = set()
    for cn, fld, t in own:
        r = P.records[cn]
        wr = '%s:%s %s' % (r.get('file', '?'), r.get('line', 0), cn)
        raw = t.endswith('*')
        loc = ('fld', SELF, fld)
        ctx.check('shared_ptr' not in t, wr, 'metadata belongs to one object', 'it is shared by copies')
        # constructors
        fs = [f for f in P.functions.values() if 'body' in f and f.get('ctor') and f.get('cls') == cn]
        ctors = [m for m in r['methods'] if m.get('ctor')]
        ctx.need(fs, 'no constructor of %s has a body' % cn)
        for m in ctors:
            if m.get('implicit') and not m.get('deleted') and m.get('copy') and raw:
                ctx.bad(wr, 'a copy has metadata of its own', 'the compiler generated copy constructor shares it')
        if raw and not any(m.get('copy') for m in ctors):
            ctx.bad(wr, 'a copy has metadata of its own', 'the class has no copy constructor: the generated one shares it')
        for f in fs:
            wh = ctx.where(f)
            copy = len(f['params']) == 1 and cn in f['params'][0]['t'].replace('const ', '').split(' &')[0].split(' *') and '&' in f['params'][0]['t']
            for o in ctx.run(f):
                if o.kind != 'return':
                    continue
                if raw:
                    v = o.st.heap.get(loc)
                    text = 'metadata is made for the object'
                    if v is None:
                        # a delegating constructor?
                        ctx.unk(wh, text, 'not seen to be set')
                        continue
                    if not (v[0] == 'new' and sum(1 for e in o.events if e.k == 'new' and e.ptr == v) == 1):
                        ctx.bad(wh, text, 'it is %s' % show(v)[:60])
                        continue
                    ctx.ok(wh, text)
                    obj = ('deref', v)
                else:
                    obj = loc
                if copy:
                    other = ('deref', ('sym', f['params'][0]['n']))
                    whole = o.st.heap.get(obj)
                    sub = [x for k, x in o.st.heap.items() if k[0] == 'fld' and k[1] == obj]
                    cps = [e for e in o.events if e.k in ('call', 'ctor') and has_sub(tuple(x for x in e.args), lambda y: isinstance(y, tuple) and len(y) > 2 and y[0] == 'fld' and y[1] == other and y[2] == fld)]
                    text = 'a copy gets what the metadata of the original says'
                    good = whole is not None and same_content(whole, other, fld) or sub and all(same_content(x, other, fld) for x in sub) or any(last(e.qn) in ('merge', 'operator=', 'MetaData', 'unique_ptr', 'reset', 'make_unique') for e in cps)
                    ctx.check(good, wh, text, 'it starts with %s' % (show(whole)[:60] if whole is not None else show(sub[0])[:60] if sub else 'nothing known'))
        # destructor
        if raw:
            ds = [f for f in P.functions.values() if 'body' in f and f.get('dtor') and f.get('cls') == cn]
            ctx.check(bool(ds), wr, 'metadata is released with the object', 'there is no destructor')
            for f in ds:
                dtors.add(f['key'])
                wh = ctx.where(f)
                for o in ctx.run(f):
                    if o.kind != 'return':
                        continue
                    n = [e for e, _o, l in eventsof([o], ('delete',)) if plain(e.ptr)[:2] == ('rd', loc)]
                    null = any(a[0] == 'eq' and v and plain(a[1])[:2] == ('rd', loc) for a, v in o.facts.items())
                    ctx.check(len(n) == 1 or null and not n, wh, 'metadata is released once with the object', '%d times' % len(n))
        # assignment
        asg = [m for m in r['methods'] if m['n'] == 'operator=' and len(m['params']) == 1 and cn in m['params'][0]]
        refm = any(f['t'].rstrip().endswith('&') for f in r['fields'])
        if raw:
            imp = [m for m in asg if m.get('implicit') and not m.get('deleted')]
            usr = [f for f in P.functions.values() if 'body' in f and f['n'] == 'operator=' and f.get('cls') == cn and len(f['params']) == 1]
            text = 'assignment does not share metadata'
            ctx.check(not imp and (bool(asg) or refm), wr, text, 'the compiler generated assignment does')
            for f in usr:
                other = ('deref', ('sym', f['params'][0]['n']))
                for o in ctx.run(f):
                    if o.kind != 'return':
                        continue
                    v = o.st.heap.get(loc)
                    if v is None or plain(v)[:2] == ('rd', loc):
                        ctx.ok(ctx.where(f), text)
                    elif v[0] == 'new':
                        ctx.check(any(e.k == 'delete' for e in o.events), ctx.where(f), text, 'the old metadata is not released')
                    else:
                        ctx.bad(ctx.where(f), text, 'it is %s' % show(v)[:60])
        if cn == 'Typelib::Type':
            d = [m for m in r['methods'] if m.get('dtor')]
            ctx.check(bool(d) and d[0]['virt'], wr, 'a type destroyed through its base class releases all it owns', 'the destructor is not virtual')
        # nothing else replaces or releases it
        for f in P.functions.values():
            if 'body' not in f or f.get('ctor') or f.get('dtor') or f['n'] == 'operator=':
                continue
            for n in walk_ast(f['body']):
                if n['k'] == 'asg' and isinstance(n.get('a'), dict) and n['a'].get('k') == 'mem' and n['a'].get('n') == fld and n['a'].get('cls') == cn and raw:
                    ctx.bad(ctx.where(f, n.get('l')), 'metadata stays with its object', 'another function replaces it')
    for f, nd, t in deletes_of(ctx, {MD}):
        if f['key'] in dtors or f['n'] == 'operator=':
            continue
        # an object made elsewhere (the Ruby bindings make standalone ones) is
        # not the concern of this rule; the one an owner holds is
        held = {x for c, x, t in own}
        if any(n['k'] == 'mem' and n.get('n') in held or n['k'] == 'call' and n.get('n') == 'getMetaData' for n in walk_ast(nd['a'])):
            ctx.bad(ctx.where(f, nd.get('l')), 'metadata stays with its object', 'another function deletes it')


# ------------------------------------------------------------------ contents
VALUES = ('fld', SELF, 'm_values')


def effects(o, opens=()):
    """what a path does to the table: (op, key, value, loops)"""
    res = []
    for e, path, loops in eventsof([o]):
        if e.k == 'store' and e.loc == VALUES:
            res.append(('assignall', None, e.val, loops))
        if e.k == 'store' and isinstance(e.loc, tuple):
            k = slot(e.loc)
            if k is not None:
                res.append(('assign', k, e.val, loops))
        if e.k != 'call' or e.obj is None:
            continue
        n = last(e.qn)
        if e.obj == ('addr', VALUES):
            if n == 'erase':
                res.append(('erase', strip_fresh(e.args[0]), len(e.args), loops))
            elif n == 'clear':
                res.append(('clear', None, None, loops))
            elif n in ('insert', 'emplace', 'swap', 'operator=', 'insert_or_assign', 'try_emplace'):
                res.append((n + 'map', strip_fresh(e.args[0]) if e.args else None, strip_fresh(e.args), loops))
            continue
        k = slot(e.obj)
        if k is not None and n in ('insert', 'emplace', 'clear', 'operator=', 'erase', 'swap'):
            res.append((n, k, strip_fresh(e.args), loops))
    return res


def slot(x):
    """the key whose values a term stands for"""
    x = strip_fresh(x)
    found = []
    has_sub(x, lambda y: found.append(y) or True if of(y, ('operator[]', 'at')) and has_sub(y[3:] if y[0] == 'res' else y[2:], lambda z: z == ('addr', VALUES)) else False)
    if found:
        return found[0][-1]
    # through an iterator on the table: the values of the key it was found under
    has_sub(x, lambda y: found.append(y) or True if of(y, ('find', 'insert', 'lower_bound')) and has_sub(y, lambda z: z == ('addr', VALUES)) else False)
    if found:
        return found[0][-1]
    return None


def bare(k):
    k = plain(strip_fresh(k))
    if of(k, ('find', 'lower_bound')):
        k = k[-1]
    while isinstance(k, tuple) and k and k[0] in ('rd', 'deref', 'refto'):
        k = plain(k[1])
    return k


def values(ctx):
    P = ctx.P
    keysym = lambda f, i: ('sym', f['params'][i]['n'])
    # adding
    for f in ctx.fn(MD + '::add'):
        wh = ctx.where(f)
        many = 'set<' in f['params'][1]['t']
        for o in ctx.run(f):
            if o.kind != 'return':
                continue
            es = effects(o)
            why = []
            ins = [x for x in es if x[0] in ('insert', 'emplace')]
            if [x for x in es if x not in ins and x[0] != 'operator[]']:
                why.append('%s changes what is there' % [x[0] for x in es if x not in ins][0])
            for op, k, v, loops in ins:
                if bare(k) != keysym(f, 0):
                    why.append('under the key %s' % show(k)[:50])
                if not has_sub(v, lambda y: y == keysym(f, 1)) and not (loops and many):
                    why.append('adds %s' % show(v)[:50])
            src = ('deref', keysym(f, 1))
            if many:
                swept = ranged(ins, src, keysym(f, 1))
                for e in o.events:
                    if e.k in ('loop', 'loop0') and any(effects(i) for i in e.iters):
                        s = Sweep(e, src)
                        if s.kind is None:
                            s = Sweep(e, keysym(f, 1))
                        swept = s.kind == 'all'
                        if s.why:
                            why.append(s.why)
                        if any(i.kind == 'continue' and not [x for x in effects(i) if x[0] in ('insert', 'emplace')] for i in e.iters):
                            why.append('a value is left out')
                if not swept:
                    why.append('not all values are added')
            elif len(ins) != 1:
                why.append('%d values are added' % len(ins))
            ctx.check(not why, wh, 'adding keeps the values a key has and adds the given ones', '; '.join(sorted(set(why))))
    for f in ctx.fn(MD + '::set'):
        wh = ctx.where(f)
        for o in ctx.run(f):
            if o.kind != 'return':
                continue
            es = effects(o)
            blank = False; has = 0; why = []
            for op, k, v, loops in es:
                if op in ('clear', 'assignall') and k is None:
                    why.append('the other keys are lost')
                elif bare(k) != keysym(f, 0):
                    why.append('changes the key %s' % show(k)[:50])
                elif op in ('erase', 'clear'):
                    blank = True; has = 0
                elif op in ('insert', 'emplace'):
                    has += 1
                elif op in ('assign', 'operator='):
                    blank = True; has += 1
                else:
                    why.append(op)
            absent = any(a[0] == 'eq' and v and has_sub(a[1], lambda y: of(y, ('find',)) and has_sub(y, lambda z: z == keysym(f, 0))) and has_sub(a[1], lambda y: of(y, ('end', 'cend'))) for a, v in o.facts.items())
            if not blank and not absent:
                why.append('the old values stay')
            if has != 1:
                why.append('it has %d values afterwards' % has)
            ctx.check(not why, wh, 'setting a key replaces its values and no other', '; '.join(sorted(set(why))))
    for f in ctx.fn(MD + '::clear'):
        wh = ctx.where(f)
        one = bool(f['params'])
        for o in ctx.run(f):
            if o.kind != 'return':
                continue
            es = effects(o)
            absent = any(a[0] == 'eq' and has_sub(a[1], lambda y: of(y, ('find', 'count', 'include'))) for a, v in o.facts.items())
            if one:
                good = len(es) == 1 and es[0][0] == 'erase' and has_sub(es[0][1], lambda y: y == keysym(f, 0)) or not es and absent
            else:
                good = len(es) == 1 and (es[0][0] == 'clear' or es[0][0] in ('assignall', 'operator=map', 'swapmap'))
            ctx.check(good, wh, 'clearing removes %s' % ('the key' if one else 'everything'), 'does %s' % [x[0] for x in es])
    for f in ctx.fn(MD + '::get', lambda f: len(f['params']) == 1):
        wh = ctx.where(f)
        for o in ctx.run(f, merge=False):
            if o.kind != 'return':
                continue
            there = None
            for a, v in o.facts.items():
                if a[0] == 'eq' and has_sub(a[1], lambda y: of(y, ('find',))) and has_sub(a[1], lambda y: of(y, ('end',))):
                    there = not v
                elif a[0] == 'eq' and has_sub(a[1], lambda y: of(y, ('count',))):
                    there = not v
            v = o.val
            fromkey = has_sub(v, lambda y: of(y, ('find', 'at', 'operator[]')) and has_sub(y, lambda z: z == keysym(f, 0)))
            if there is None:
                ctx.check(None if fromkey else False, wh, 'the values of a key are those stored for it', 'returns %s' % show(v)[:60])
            else:
                ctx.check(fromkey == there, wh, 'the values of a key are those stored for it', 'returns %s' % show(v)[:60])
            ctx.check(not effects(o), wh, 'asking for a key changes nothing', 'it does')
    # merging
    f = ctx.one(MD + '::merge')
    wh = ctx.where(f)
    src = ('fld', ('deref', keysym(f, 0)), 'm_values')
    for o in ctx.run(f, opaque=lambda g: g['qn'] == MD + '::add'):
        if o.kind != 'return':
            continue
        why = []; swept = False
        for op, k, v, loops in effects(o):
            if op not in ('insert', 'emplace'):
                why.append('%s changes what is there' % op)
        for e in o.events:
            if e.k not in ('loop', 'loop0'):
                continue
            s = Sweep(e, src)
            if s.kind != 'all':
                continue
            swept = True
            if s.why:
                why.append(s.why)
            for i in e.iters:
                if i.kind != 'continue':
                    continue
                mykey = lambda k: has_sub(k, lambda y: isinstance(y, tuple) and len(y) > 2 and y[0] in ('fld', 'fldv') and y[2] == 'first')
                myval = lambda v: has_sub(v, lambda y: isinstance(y, tuple) and len(y) > 2 and y[0] in ('fld', 'fldv') and y[2] == 'second')
                adds = [x for x in i.events if x.k == 'call' and x.qn == MD + '::add' and x.obj == THIS]
                ins = [x for x in effects(i) if x[0] in ('insert', 'emplace')]
                done = False
                for x in adds:
                    if not mykey(x.args[0]) or not myval(x.args[1]):
                        why.append('values go to another key')
                    else:
                        done = True
                for op, k, v, loops in ins:
                    if not mykey(k):
                        why.append('values go to another key')
                    elif len(v) == 2 and of(v[0], ('begin', 'cbegin')) and of(v[1], ('end', 'cend')) and myval(v[0]) and myval(v[1]):
                        done = True
                for x in i.events:
                    if x.k in ('loop', 'loop0') and any(effects(j) for j in x.iters):
                        # one by one
                        full = [l for l, init in x.init.items() if of(init, ('begin', 'cbegin')) and myval(init) and show(x.step.get(l, ZERO)) == '1']
                        if full and all(effects(j) for j in x.iters if j.kind == 'continue') and all(j.kind == 'continue' for j in x.iters):
                            done = True
                        if x.rng is not None and all(effects(j) or any(y.k == 'call' and y.qn == MD + '::add' for y in j.events) for j in x.iters if j.kind == 'continue'):
                            done = True
                    elif x.k in ('loop', 'loop0') and any(y.k == 'call' and y.qn == MD + '::add' for j in x.iters for y in j.events):
                        done = all(j.kind == 'continue' and any(y.k == 'call' and y.qn == MD + '::add' for y in j.events) for j in x.iters)
                empty = any(a[0] == 'eq' and (has_sub(a[1], lambda y: of(y, ('empty',))) and not v or has_sub(a[1], lambda y: of(y, ('size',))) and v) for a, v in i.facts.items())
                if not done and not empty:
                    why.append('the values of a key are left out')
        ctx.check(False if why else swept or None, wh, 'merging adds all values of all keys, each under its key', '; '.join(sorted(set(why))) or 'no loop over the other metadata')
    # types and fields
    for f in [g for g in P.functions.values() if 'body' in g and g['n'] == 'mergeMetaData' and g.get('cls', '').startswith('Typelib::') and 'Registry' not in g.get('cls')]:
        wh = ctx.where(f)
        text = 'merging the metadata of a type covers the type and its fields'
        base = [r for r in (base_names(P, f['cls'])) if any(m['n'] == 'mergeMetaData' for m in P.records.get(r, {}).get('methods', []))]
        hasfields = any('Typelib::Field' in x['t'] for x in P.records[f['cls']]['fields'])
        prm = ('sym', f['params'][0]['n'])
        for o in ctx.run(f, opaque=lambda g: g['n'] in ('mergeMetaData', 'getField') or g['qn'].startswith(MD)):
            if o.kind != 'return':
                continue
            calls = [x for x in o.events if x.k == 'call']
            own = [x for x in calls if x.qn == MD + '::merge' and has_sub(x.obj, lambda y: y == ('fld', SELF, 'm_metadata')) or last(x.qn) == 'mergeMetaData' and x.obj == THIS and x.qn != f['qn']]
            why = []
            if not own:
                why.append('its own metadata is not merged')
            for x in own:
                if not has_sub(tuple(x.args) + tuple(y for y in x.locs if y is not None), lambda y: y == prm):
                    why.append('merges %s' % show(x.args[0])[:50])
            if hasfields:
                other = None
                for a, v in o.facts.items():
                    if a[0] == 'eq' and has_sub(a[1], lambda y: y == prm) and not has_sub(a[1], lambda y: isinstance(y, tuple) and y and y[0] == 'L'):
                        if isinstance(a[1], tuple) and a[1] != prm and v:
                            other = False
                merging = lambda x: last(x.qn) == 'mergeMetaData' or x.qn == MD + '::merge'
                loops = [e for e in o.events if e.k in ('loop', 'loop0') and any(merging(x) for x, _o, _l in eventsof(e.iters, ('call',)))]
                if not loops and other is not False:
                    why.append('the fields are left out')
                for e in loops:
                    s = Sweep(e, ('fld', SELF, 'm_fields'))
                    s2 = s if s.kind else Sweep(e, ('fld', ('deref', prm), 'm_fields'))
                    if s2.why or s2.kind != 'all':
                        why.append(s2.why or 'not all fields are looked at')
                    for i in e.iters:
                        if i.kind != 'continue':
                            continue
                        got = [x for x in i.events if x.k == 'call' and merging(x)]
                        miss = any(a[0] == 'eq' and v and has_sub(a[1], lambda y: of(y, ('getField',))) for a, v in i.facts.items())
                        if not got and not miss:
                            why.append('a field both have is left out')
                        for x in got:
                            if has_sub(x.obj, lambda y: of(y, ('getField',))) and s.kind and not has_sub(x.args, lambda y: of(y, ('getField',))):
                                why.append('the metadata goes from this type to the other')
            ctx.check(not why, wh, text, '; '.join(sorted(set(why))))


def ranged(ins, src, sym):
    return any(len(v) == 2 and of(v[0], ('begin', 'cbegin')) and of(v[1], ('end', 'cend')) and has_sub(v, lambda y: y == sym) for op, k, v, loops in ins) or any(len(v) == 1 and has_sub(v, lambda y: y == sym) and op == 'operator=' for op, k, v, loops in ins)
