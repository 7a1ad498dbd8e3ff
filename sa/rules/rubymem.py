"""J05: memory made for Ruby values is initialised, destroyed and freed once."""
from core import *
from rules.owners import last
from rules.rubyaccess import can

FILE = 'bindings/ruby/ext/memory.cc'
API = ('memory_unref', 'memory_delete', 'memory_aref', 'memory_aset', 'memory_ref', 'memory_wrap', 'memory_cptr', 'memory_allocate', 'memory_init')


def get(ctx, n):
    fs = [f for f in ctx.P.functions.values() if f['n'] == n and 'body' in f and f['file'] == FILE]
    ctx.need(len(fs) == 1, n)
    return fs[0]


def paths(ctx, f, **kw):
    outs = ctx.run(f, opaque=lambda g: g is not f and (g['file'] != FILE or g['n'] in API), merge=False, events_deref=True, **kw)
    return [o for o in outs if o.kind == 'return']


def calls(o, *names):
    return [e for e in o.events if e.k == 'call' and last(e.d.get('qn') or '') in names]


def field(t, name):
    """the term is a member of that name, read from somewhere"""
    c = can(t)
    while isinstance(c, tuple) and c[:1] == ('rd',):
        c = c[1]
        if isinstance(c, tuple) and c[:1] in (('fld',), ('fldv',)):
            return c[2] == name
    return isinstance(c, tuple) and c[:1] in (('fld',), ('fldv',)) and c[2] == name


def layouts(t):
    return has_sub(('x', can(t)), lambda y: y == ('glob', 'memory_layouts'))


def zero(o, name, pred=lambda t: True):
    """True when the member is known to be zero at the end of the path, False when known not to be"""
    for a, v in o.st.facts.items():
        if a[0] == 'lt':
            c, ps = lin_parts(a[1])
            if len(ps) == 1 and field(ps[0][0], name) and pred(ps[0][0]):
                # c + k * member < 0: the counter was decremented, or was one
                k = ps[0][1]
                if k > 0 and c in (-1, -2) and v or k < 0 and c in (0, 1) and not v:
                    return True
                if k > 0 and c in (-1, -2) and not v or k < 0 and c in (0, 1) and v:
                    return False
        if a[0] == 'eq':
            c, ps = lin_parts(a[1])
            if len(ps) == 1 and field(ps[0][0], name) and pred(ps[0][0]):
                return v
    return None


def stores(o, name, pred=lambda t: True):
    return [e for e in o.events if e.k == 'store' and isinstance(e.d.get('loc'), tuple) and e.d['loc'][:1] == ('fld',) and e.d['loc'][2] == name and pred(e.d['loc'])]


def inrow(o, a, b):
    """event a comes before event b"""
    ks = [id(e) for e in o.events]
    return ks.index(id(a)) < ks.index(id(b))


def found(o, m):
    """whether a lookup in the map is known to have found something"""
    def of(t, names):
        t = can(t)
        return isinstance(t, tuple) and t[:1] == ('res',) and len(t) > 3 and t[2] in names and has_sub(('x', t[3]), lambda y: y == ('glob', m))

    for a, v in o.st.facts.items():
        if a[0] == 'eq':
            s = [t for t, k in lin_parts(a[1])[1]]
            if len(s) == 2 and any(of(t, ('find', 'lower_bound')) for t in s) and any(of(t, ('end', 'cend')) for t in s):
                return not v
            if len(s) == 1 and of(s[0], ('count', 'contains')):
                return not v
    return None


def unref(ctx):
    ctx.rule = 'the last reference releases everything once'
    f = get(ctx, 'memory_unref')
    wh = ctx.where(f)
    n = 0
    for o in paths(ctx, f):
        n += 1
        own = lambda t: not layouts(t)
        z = zero(o, 'refcount', own)
        dec = stores(o, 'refcount', own)
        dels = calls(o, 'memory_delete')
        frees = calls(o, 'ruby_xfree', 'free', 'rb_gc_free')
        roots = calls(o, 'memory_unref')
        drop = [e for e in o.events if e.k == 'delete']
        out = calls(o, 'rb_st_delete', 'st_delete')
        ctx.check(len(dec) == 1 if len(dec) != 1 or z is not None else None, wh, 'a reference is taken off', 'the count is %s' % ('left alone' if not dec else 'changed %d times' % len(dec)))
        if z is False:
            ctx.check(not (dels or frees or roots or drop or out or calls(o, 'erase')), wh, 'nothing is released while there are references', 'it is released with a reference left')
            continue
        if z is None:
            ctx.check(False if (dels or drop) else None, wh, 'nothing is released while there are references', 'it is released whatever the count')
            continue
        owned = zero(o, 'owned')
        k = len(dels) + len(frees)
        if owned is None:
            ctx.check(False if not (dels and frees) else None, wh, 'memory is freed if it is owned', 'it is %s whether or not it is owned' % ('freed' if k else 'not freed'))
        elif owned:
            ctx.check(k == 0, wh, 'memory is freed if it is owned', 'memory that belongs to something else is freed')
        else:
            ctx.check(k == 1, wh, 'memory is freed if it is owned', 'it is %s' % ('never freed' if not k else 'freed twice'))
        rt = zero(o, 'root_ptr')
        if rt is None:
            ctx.check(False if not roots or True else None, wh, 'the object it lies in is released with it', 'the reference to it is %s whether or not there is one' % ('dropped' if roots else 'kept'))
        elif rt:
            ctx.check(not roots, wh, 'the object it lies in is released with it', 'something else is released')
        else:
            ctx.check(len(roots) == 1 and all(field(e.args[0], 'root_ptr') for e in roots) if len(roots) != 1 or field(roots[0].args[0], 'root_ptr') else None, wh, 'the object it lies in is released with it', 'it is %s' % ('never released' if not roots else 'released twice'))
        ctx.check(len(drop) == 1, wh, 'the entry is deleted once', 'it is %s' % ('kept' if not drop else 'deleted twice'))
        ctx.check(len(out) == 1 if len(out) != 1 or len(out[0].args) > 1 else None, wh, 'the entry leaves the table', 'the table keeps an entry for memory that is gone' if not out else 'twice')
        # nothing is read from the entry once it is deleted
        if len(drop) == 1:
            i = [id(e) for e in o.events].index(id(drop[0]))
            p = drop[0].d.get('ptr') or drop[0].d.get('val') or (drop[0].d.get('args') or [None])[0]
            if p is not None:
                late = [e for e in o.events[i + 1:] if e.k == 'deref' and can(e.d.get('ptr') or ()) == can(p)]
                ctx.check(not late, wh, 'a deleted entry is not used', 'it is read after it was deleted')
        # what is known of its type
        t = found(o, 'memory_types')
        er_t = [e for e in calls(o, 'erase') if 'memory_types' in show(e.obj)]
        er_l = [e for e in calls(o, 'erase') if e not in er_t]
        if dels:
            early = [e for e in er_t + er_l if inrow(o, e, dels[0])]
            ctx.check(not early, wh, 'the content is destroyed before its type is forgotten', 'the type is forgotten first')
        if t:
            ctx.check(len(er_t) == 1, wh, 'its type is forgotten with it', 'memory that is allocated there later is taken for that type')
            lz = zero(o, 'refcount', layouts)
            ld = stores(o, 'refcount', layouts)
            ctx.check(len(ld) == 1 if len(ld) != 1 or True else None, wh, 'a layout is kept as long as it is used', 'its uses are not counted')
            if lz is True:
                ctx.check(len(er_l) == 1 or None, wh, 'a layout is kept as long as it is used')
            elif lz is False:
                ctx.check(not er_l, wh, 'a layout is kept as long as it is used', 'it is dropped while it is used')
            elif er_l:
                ctx.bad(wh, 'a layout is kept as long as it is used', 'it is dropped whatever the number of its uses')
        elif t is None and not er_t:
            ctx.check(None if any('memory_types' in show(a) for e in o.events if e.k == 'call' for a in list(e.args or []) + [e.obj] if a is not None) else False, wh, 'its type is forgotten with it', 'memory that is allocated there later is taken for that type')
    ctx.need(n >= 3, 'paths of memory_unref')


def freed(ctx):
    ctx.rule = 'what memory holds is destroyed before it is freed'
    f = get(ctx, 'memory_delete')
    wh = ctx.where(f)
    for o in paths(ctx, f):
        fr = calls(o, 'ruby_xfree', 'free')
        ds = calls(o, 'destroy')
        ctx.check(len(fr) == 1 if len(fr) != 1 or can(fr[0].args[0]) == ('sym', f['params'][0]['n']) else None, wh, 'the memory is freed once', 'it is %s on a path' % ('not freed' if not fr else 'freed twice'))
        a, b = found(o, 'memory_types'), found(o, 'memory_layouts')
        if len(ds) > 1:
            ctx.bad(wh, 'what the memory holds is destroyed', 'it is destroyed twice')
        elif ds:
            ctx.check(True if len(fr) == 1 and inrow(o, ds[0], fr[0]) else False if len(fr) == 1 else None, wh, 'what the memory holds is destroyed', 'it is destroyed after the memory was freed')
            t = can(ds[0].args[-1]) if ds[0].args else ()
            looked = lambda m: has_sub(('x', t), lambda y: isinstance(y, tuple) and y[:1] == ('res',) and len(y) > 3 and y[2] == 'find' and has_sub(('x', y[3]), lambda z: z == ('glob', m)))
            ctx.check(False if b is False or looked('memory_types') and a is not True or looked('memory_layouts') and b is not True else True if looked('memory_layouts') else None, wh, 'what the memory holds is destroyed', 'a layout that was not found is used')
        else:
            ctx.check(True if a is False or b is False else False if a is None and b is None and not calls(o, 'find', 'count', 'at', 'lower_bound') or a and b else None, wh, 'what the memory holds is destroyed', 'it is not destroyed on a path where its layout is known')


def entered(ctx):
    ctx.rule = 'memory is entered in the table with what it needs'
    f = get(ctx, 'memory_aset')
    wh = ctx.where(f)
    ptr, obj, owned, root = [('sym', p['n']) for p in f['params'][:4]]
    new = 0
    for o in paths(ctx, f):
        ins = calls(o, 'rb_st_insert', 'st_insert')
        rf = calls(o, 'memory_ref')
        if not ins:
            # it was known already
            known = any(a[0] == 'eq' and not v and has_sub(('x', can(a[1])), lambda y: isinstance(y, tuple) and y[:1] == ('res',) and len(y) > 2 and y[2] in ('memory_ref', 'rb_st_lookup')) for a, v in o.st.facts.items())
            ctx.check(True if known else False if not any(e.k == 'call' and last(e.d.get('qn') or '') not in ('memory_aref', 'memory_ref', 'RB_NIL_P', 'rb_raise') for e in o.events) else None, wh, 'memory is entered in the table', 'it is not entered on a path')
            continue
        new += 1
        ctx.check(len(ins) == 1, wh, 'memory is entered in the table', 'twice')
        ct = [e for e in o.events if e.k == 'ctor' and e.cls == 'MemoryTableEntry']
        ctx.check(len(ins[0].args) == 3 and can(ins[0].args[1]) == ptr or None, wh, 'memory is entered in the table')
        if len(ct) == 1 and len(ct[0].args) >= 2:
            a = [can(x) for x in ct[0].args]
            ctx.check(True if a[1] == owned else False if a[1][:1] == ('int',) else None, wh, 'the entry says whether the memory is owned', 'it says something else than was asked')
            ctx.check(True if len(a) > 2 and a[2] == root else False if len(a) == 2 or a[2][:1] == ('int',) else None, wh, 'the entry names the object the memory lies in', 'it does not')
        else:
            ctx.unk(wh, 'the entry says whether the memory is owned', 'the entry was not recognised')
        isroot = next((not v for a, v in o.st.facts.items() if a[0] == 'eq' and can(a[1]) == root), None)
        up = stores(o, 'refcount') + [e for e in calls(o, 'memory_ref') if e.args and can(e.args[0]) == root]
        if isroot is True:
            ctx.check(len(up) == 1, wh, 'the object the memory lies in is referred to', 'no reference is taken' if not up else 'more than one')
        elif isroot is None:
            ctx.check(False if not up else None, wh, 'the object the memory lies in is referred to', 'no reference is taken')
    ctx.need(new >= 1, 'paths that enter memory')
    # a new reference counts
    f = get(ctx, 'memory_ref')
    for o in paths(ctx, f):
        v = can(o.val)
        up = stores(o, 'refcount')
        if v == ('int', 0):
            ctx.check(not up, ctx.where(f), 'a reference is counted', 'something is counted that is said to be unknown')
        elif v[:1] == ('int',):
            ctx.check(len(up) == 1, ctx.where(f), 'a reference is counted', 'it is not counted' if not up else 'twice')
    # wrapping
    f = get(ctx, 'memory_wrap')
    wh = ctx.where(f)
    ps = [('sym', p['n']) for p in f['params'][:3]]
    for o in paths(ctx, f):
        ds = calls(o, 'rb_data_object_wrap', 'rb_data_object_make', 'rb_data_typed_object_wrap')
        st = calls(o, 'memory_aset')
        isnew = None
        for a, v in o.st.facts.items():
            if a[0] == 'eq':
                for t, k in lin_parts(a[1])[1]:
                    c = can(t)
                    if isinstance(c, tuple) and c[:1] in (('res',), ('pure',)) and 'RB_NIL_P' in c[1:3]:
                        isnew = not v
                    elif isinstance(c, tuple) and c[:1] == ('res',) and c[2] == 'memory_aref':
                        isnew = v
        if isnew is False:
            ctx.check(not ds and not st, wh, 'memory has one wrapper', 'memory that has a wrapper gets another')
            ctx.check(has_sub(('x', can(o.val)), lambda y: isinstance(y, tuple) and y[:1] == ('res',) and len(y) > 2 and y[2] == 'memory_aref') or None, wh, 'memory has one wrapper')
        elif isnew:
            ctx.check(len(ds) == 1 if len(ds) != 1 or can(ds[0]) is not None else None, wh, 'new memory gets a wrapper', 'it gets %d' % len(ds))
            ctx.check(len(st) == 1, wh, 'new memory is entered in the table', 'it is not' if not st else 'twice')
            for e in ds:
                fn = show(e.args[-1]) if e.args else ''
                ctx.check(True if 'memory_zone_unref' in fn else False if len(e.args) == 4 and can(e.args[3]) in (('int', 0), ('int', -1), ('null',)) else None, wh, 'a wrapper releases its memory when it goes', 'it has no function for that')
            for e in st:
                a = [can(x) for x in e.args]
                for i, (j, what) in enumerate(((0, 'the address'), (2, 'who owns it'), (3, 'the object it lies in'))):
                    if len(a) > j:
                        ctx.check(True if a[j] == ps[i] else False if a[j][:1] == ('int',) else None, wh, 'new memory is entered as asked', '%s is lost' % what)
        else:
            ctx.check(False if ds and not calls(o, 'memory_aref') else None, wh, 'memory has one wrapper', 'memory that has a wrapper gets another')
    f = get(ctx, 'memory_allocate')
    for o in paths(ctx, f):
        ws = calls(o, 'memory_wrap')
        for e in ws:
            a = [can(x) for x in e.args]
            ctx.check(True if len(a) > 1 and a[1][:1] == ('int',) and a[1][1] else False if len(a) > 1 and a[1] == ('int', 0) else None, ctx.where(f), 'memory that is allocated is owned', 'nothing will free it')
        ctx.check(len(ws) == 1 or None, ctx.where(f), 'memory that is allocated is owned')
    # the end of a wrapper
    for n in ('memory_zone_unref', 'memory_zone_invalidate'):
        f = get(ctx, n)
        wh = ctx.where(f)
        for o in paths(ctx, f):
            us = calls(o, 'memory_unref')
            z = zero(o, 'ptr')
            if z is None:
                ctx.check(False, wh, 'a wrapper gives up its reference once', 'that of an invalid wrapper is given up too' if us else 'it is kept')
            else:
                ctx.check(len(us) == (0 if z else 1), wh, 'a wrapper gives up its reference once', 'it is kept' if not us else 'twice')
            if n == 'memory_zone_unref':
                ctx.check(len([e for e in o.events if e.k == 'delete']) == 1, wh, 'a wrapper is deleted once', 'it is not')
            elif us:
                st = [e for e in stores(o, 'ptr') if inrow(o, us[0], e)] + [e for e in stores(o, 'ptr')]
                ctx.check(True if any(can(e.d.get('val')) in (('int', 0), ('null',)) for e in st) else False if not st else None, wh, 'an invalid wrapper does not give up its reference again', 'it still points to the memory')


def initialised(ctx):
    ctx.rule = 'memory of a type is initialised and known as such'
    f = get(ctx, 'memory_init')
    wh = ctx.where(f)
    n = 0
    for o in paths(ctx, f):
        # the path on which an error was raised and passed on is no return
        n += 1
        it = calls(o, 'init')
        it = [e for e in it if (e.d.get('qn') or '').startswith('Typelib::')]
        ctx.check(len(it) == 1, wh, 'new values are initialised', 'they are not' if not it else 'twice')
        ins = calls(o, 'insert', 'emplace', 'operator[]', 'insert_or_assign')
        ty = [e for e in ins if 'memory_types' in show(e.obj)]
        la = [e for e in ins if 'memory_layouts' in show(e.obj)]
        ctx.check(len(ty) == 1 or (None if len(ty) > 1 else False), wh, 'the type of memory is remembered', 'it will not be destroyed')
        up = stores(o, 'refcount')
        ctx.check(len(up) == 1, wh, 'uses of a layout are counted', 'they are not' if not up else 'twice')
        k = found(o, 'memory_types')
        ctx.check(True if k is False else False if k else None, wh, 'memory is initialised once', 'memory that holds a value already is initialised again')
        b = found(o, 'memory_layouts')
        if b is False:
            ctx.check(len(la) >= 1 or None, wh, 'a layout is made when there is none')
            ct = [e for e in o.events if e.k == 'ctor' and e.cls == 'RbMemoryLayout']
            if ct and len(ct) == 1:
                ctx.check(True if len(ct[0].args) == 2 and 'registry' in show(ct[0].args[1]) else None if len(ct[0].args) == 2 and has_sub(('x', ct[0].args[1]), lambda y: isinstance(y, tuple) and y[:1] in (('rd',), ('res',), ('sym',))) else False, wh, 'a layout keeps the registry of its types', 'the registry can go before the values')
            lo = calls(o, 'layout_of')
            for e in lo:
                a = [can(x) for x in e.args]
                ctx.check(True if len(a) > 1 and a[1][:1] == ('int',) and a[1][1] else False if len(a) > 1 and a[1] == ('int', 0) else None, wh, 'values with pointers can be made', 'pointers are refused')
        elif b:
            ctx.check(not la or None, wh, 'a layout is made when there is none')
    ctx.need(n >= 1, 'paths of memory_init')
    # whoever makes memory for a value initialises it
    users = 0
    for g in ctx.P.functions.values():
        if 'body' not in g or not g['file'].startswith('bindings/ruby/ext') or g['file'] == FILE:
            continue
        if not any(x['k'] == 'call' and last(x.get('fn') and x.get('qn') or x.get('qn') or '') == 'memory_allocate' for x in walk_ast(g['body'])):
            continue
        users += 1
        wh = ctx.where(g)
        for o in ctx.run(g, opaque=lambda x: x is not g and (not x['file'].startswith('bindings/ruby/ext') or x['n'] in API or x['n'] in ('value_from_memory_zone', 'type_wrap', 'value_wrap')), merge=False):
            if o.kind != 'return':
                continue
            al = calls(o, 'memory_allocate')
            it = calls(o, 'memory_init')
            if not al:
                continue
            ctx.check(len(it) == len(al), wh, 'memory made for a value is initialised', 'it is not' if len(it) < len(al) else 'twice')
            for e in calls(o, 'memset', 'memcpy', 'bzero'):
                late = [i for i in it if inrow(o, i, e)]
                ctx.check(not late, wh, 'memory is not overwritten once it is initialised', 'what was initialised is overwritten')
    ctx.need(users >= 1, 'callers of memory_allocate')
