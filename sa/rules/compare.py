"""C01, D04: comparison of types and registries."""
from core import *
from rules.owners import of, mentions, Sweep, last, field_loc

T = 'Typelib::Type'
THIS = ('sym', 'this')
# class -> what defines a type of it besides the bases; the getter is an accepted reading of it
DEFINING = {
    'Typelib::Type': [('m_size', 'getSize'), ('m_category', 'getCategory')],
    'Typelib::Numeric': [('m_category@Numeric', 'getNumericCategory')],
    'Typelib::Enum': [('m_values', 'values')],
    'Typelib::Array': [('m_dimension', 'getDimension')],
    'Typelib::OpaqueType': [('m_name', 'getName')],
    'Typelib::NullType': [('m_name', 'getName')],
    'Typelib::Container': [(None, 'getFactory', 'kind', 'm_kind')],
    'Typelib::Indirect': [('m_indirection', 'getIndirection')],
}
# fields that say nothing about what values look like
OTHER = {'Typelib::Type': {'m_name', 'm_metadata'}, 'Typelib::Enum': {'m_last_value'}, 'Typelib::Container': {'m_kind', 's_available_containers'}}


def reads(t, obj, names):
    """t is the field or the getter of obj"""
    if not isinstance(t, tuple) or not t:
        return False
    if t[0] == 'rd' and t[1][0] == 'fld' and t[1][1] == deref(obj) and t[1][2] in names:
        return True
    if t[0] in ('pure', 'res', 'call') and any(isinstance(x, str) and last(x) in names for x in t[1:3]) and has_sub(t, lambda x: x == obj):
        return True
    return False


def pairs_equal(a, v, x, y, names):
    """the fact says that the reading of x and y are equal"""
    if a[0] != 'eq' or not v:
        return False
    c, ps = lin_parts(a[1])
    if c != 0 or len(ps) != 2 or {k for _, k in ps} != {1, -1}:
        return False
    ts = [t for t, k in ps]
    return any(reads(ts[i], x, names) and reads(ts[1 - i], y, names) for i in (0, 1))


def term_equal(t, x, y, names):
    """the term is the equality of the readings of x and y"""
    if isinstance(t, tuple) and t and t[0] == 'cmp' and t[1] == '==':
        if reads(t[2], x, names) and reads(t[3], y, names) or reads(t[2], y, names) and reads(t[3], x, names):
            return True
        d = sub(t[2], t[3])
        return pairs_equal(('eq', d), True, x, y, names)
    return False


def conj(o):
    """terms that are true if the path returns true"""
    res = [('fact', a, v) for a, v in o.facts.items()]
    def go(t):
        if isinstance(t, tuple) and t and t[0] in ('and', '&&'):
            for x in t[1:]:
                go(x)
        else:
            res.append(('term', t, True))
    if o.val is not None:
        go(o.val)
    return res


def says_equal(o, x, y, names):
    for k, a, v in conj(o):
        if k == 'fact' and pairs_equal(a, v, x, y, names):
            return True
        if k == 'fact' and a[0] not in ('eq', 'lt') and v and has_sub(a, lambda z: term_equal(z, x, y, names)):
            return True
        if k == 'term' and term_equal(a, x, y, names):
            return True
    return False


def call_true(o, name):
    """calls of that name whose result is true on the path if it returns true"""
    res = []
    for e in o.events:
        if e.k == 'call' and last(e.qn) == name:
            for k, a, v in conj(o):
                if k == 'fact' and a[0] == 'eq' and not v and a[1] == e.res:
                    res.append(e)
                elif k == 'fact' and a[0] not in ('eq', 'lt') and v and (a == e.res or len(a) > 1 and a[1] == e.res):
                    res.append(e)
                elif k == 'term' and (a == e.res or isinstance(a, tuple) and a[0] in ('bool', 'ne0') and a[-1] == e.res):
                    res.append(e)
    return res


def ref_of(v):
    """object designated by a reference value or location"""
    return v


def refers(loc, obj, names):
    """the location is what the reference field of obj designates, or the result of its getter"""
    if not isinstance(loc, tuple):
        return False
    if loc[0] == 'deref':
        return reads(loc[1], obj, names) or refers(loc[1], obj, names)
    if loc[0] == 'fld' and loc[1] == deref(obj) and loc[2] in names:
        return True
    if loc[0] == 'addr':
        return refers(loc[1], obj, names)
    if loc[0] == 'rd':
        return refers(loc[1], obj, names)
    return reads(loc, obj, names)


def may_be_true(o):
    return o.kind == 'return' and o.val not in (ZERO, ('bool', False))


OPQ = ('rec_compare', 'isSame', 'canCastTo')


def flag(o, p):
    """value of the equality flag on a path: True, False, None"""
    for a, v in o.facts.items():
        if a[0] == 'eq' and a[1] == p:
            return not v
    return None


def defining(ctx, cls):
    """the requirements on a class, checked against its fields"""
    res = []
    for c in [cls] + list(base_names(ctx.P, cls)):
        res += [(c, d) for d in DEFINING.get(c, [])]
    return res


def inventory(ctx):
    """C01: every field of a type class is either compared or known not to matter"""
    n = 0
    for c in [T] + sorted(ctx.P.all_subs(T)):
        r = ctx.P.records.get(c)
        if not r or not c.startswith('Typelib::') or 'Typelib::Container' in base_names(ctx.P, c):
            continue
        known = {x for d in DEFINING.get(c, []) for x in d if x} | OTHER.get(c, set())
        if c == 'Typelib::Compound':
            known = {'m_fields'}
        for f in r['fields']:
            n += 1
            if f['n'] not in known:
                ctx.unk('%s:%s %s' % (r['file'], r['line'], c), 'the comparison knows all that defines a type', 'the field %s is new to the rule' % f['n'])
            else:
                ctx.ok('%s:%s %s' % (r['file'], r['line'], c), 'the comparison knows all that defines a type')
    ctx.need(n >= 8, 'only %d fields of types found' % n)


def overrider(ctx, cls):
    """the do_compare a type of that class uses"""
    todo = [cls]
    while todo:
        c = todo.pop(0)
        fs = ctx.fn(c + '::do_compare')
        if fs:
            return fs[0]
        r = ctx.P.records.get(c)
        todo += [b['n'] for b in (r or {}).get('bases', [])]
    return None


def same_type(ctx):
    """C01: a comparison that may say yes has compared everything that defines the type"""
    n = 0
    for cls in ['Typelib::' + x for x in ('Numeric', 'Enum', 'Array', 'Pointer', 'Container', 'OpaqueType', 'NullType', 'Compound')]:
        ctx.need(cls in ctx.P.records, 'class %s not found' % cls)
        f = overrider(ctx, cls)
        ctx.need(f is not None, 'no comparison for %s' % cls)
        wh = ctx.where(f)
        other = ('sym', f['params'][0]['n'] or 'other')
        eq = ('sym', f['params'][1]['n']) if f['params'][1]['n'] else None
        # unnamed parameters cannot be used, named ones of other names are found by position
        outs = ctx.run(f, opaque=lambda g: g['n'] in OPQ, merge=False)
        yes = [o for o in outs if may_be_true(o)]
        ctx.need(yes, '%s is never true' % f['qn'])
        for o in yes:
            strict = flag(o, eq) if eq else None
            for c, d in defining(ctx, cls):
                names = {x for x in d if x}
                text = '%s that compare as the same have the same %s' % (cls.rsplit('::', 1)[-1] + 's', '/'.join(x for x in d if x).replace('m_', '').replace('@Numeric', ''))
                n += 1
                if 'm_indirection' in names:
                    cs = call_true(o, 'rec_compare') + call_true(o, 'isSame') + call_true(o, 'canCastTo')
                    good = [e for e in cs if any(refers(l, THIS, names) for l in list(e.locs) + list(e.args) + [e.obj]) and any(refers(l, other, names) for l in list(e.locs) + list(e.args))]
                    # the same object designated by both
                    same = any(a[0] == 'eq' and v and len(lin_parts(a[1])[1]) == 2 and all(refers(t, THIS, names) or refers(t, other, names) for t, k in lin_parts(a[1])[1]) for a, v in o.facts.items())
                    ctx.check(bool(good or same), wh, text, 'it is not compared on the path %s' % path(o))
                    for e in good:
                        if last(e.qn) == 'rec_compare' and eq is not None and strict is not False:
                            fl = e.args[2] if len(e.args) > 2 else None
                            ctx.check(fl in (eq, I(1), ('bool', True)) or None if fl not in (ZERO, ('bool', False)) else False, wh, 'what is compared strictly is compared strictly all the way down', show(fl))
                        if cls.endswith(('::Array', '::Container')) and strict is not True:
                            # the elements lie side by side: one of another size or with other values is another layout
                            fl = e.args[2] if last(e.qn) == 'rec_compare' and len(e.args) > 2 else ZERO if last(e.qn) == 'canCastTo' else I(1)
                            ctx.check(True if fl in (I(1), ('bool', True)) else False if fl in (ZERO, ('bool', False), eq) else None, wh, 'elements of arrays and containers have to be the same even for a cast', 'they are compared as %s' % show(fl))
                    continue
                if cls == 'Typelib::Compound' and 'm_size' in names and strict is False:
                    continue           # the padding may differ
                if cls == 'Typelib::Enum' and 'm_values' in names and strict is False:
                    enum_subset(ctx, wh, o, other)
                    continue
                if 'm_category' in names and says_const(o, THIS, names, other):
                    ctx.ok(wh, text)
                    continue
                ctx.check(says_equal(o, THIS, other, names), wh, text, 'it is not compared on the path %s' % path(o))
            if cls == 'Typelib::Compound':
                fields(ctx, wh, o, other, eq, strict)
    ctx.need(n >= 20, 'only %d comparisons found' % n)


def says_const(o, obj, names, other):
    """the category of the other type is compared with the one of the class"""
    for a, v in o.facts.items():
        if a[0] == 'eq' and v and len(lin_parts(a[1])[1]) == 1 and reads(lin_parts(a[1])[1][0][0], other, names):
            return True
    return False


def path(o):
    return '; '.join(('' if v else 'not ') + show(a[1])[:60] for a, v in list(o.facts.items())[3:8] if len(a) > 1 and isinstance(a[1], tuple)) or '(always)'


def enum_subset(ctx, wh, o, other):
    """every symbol of this is looked up in the other and has the same value"""
    cont = ('fld', ('deref', THIS), 'm_values')
    text = 'an enumeration can be used as one that has all of its symbols, with the same values'
    ls = [e for e in o.events if e.k in ('loop', 'loop0') and Sweep(e, cont).kind == 'all']
    eqv = says_equal(o, THIS, other, {'m_values'})
    if not ls:
        inc = [e for e in o.events if e.k == 'call' and last(e.qn) == 'includes']
        ctx.check(True if eqv else None if inc else False, wh, text, 'the symbols are not compared')
        return
    for e in ls:
        for i in e.iters:
            if i.kind != 'continue':
                continue
            found = any(a[0] == 'eq' and not v and has_sub(a[1], lambda x: of(x, ('find',))) and has_sub(a[1], lambda x: of(x, ('end',))) for a, v in i.facts.items())
            val = any(a[0] == 'eq' and v and sum(1 for t, k in lin_parts(a[1])[1] if 'second' in show(t)) == 2 for a, v in i.facts.items())
            ctx.check(found and val, wh, text, 'a symbol is accepted %s' % ('whatever its value' if found else 'without a lookup'))


def fields(ctx, wh, o, other, eq, strict):
    """both field lists are walked in step, comparing name, offset and type"""
    mine = ('fld', ('deref', THIS), 'm_fields')
    theirs = ('fld', ('deref', other), 'm_fields')
    text = 'compounds that compare as the same have the same fields'
    if says_equal(o, THIS, other, {'m_fields', 'getFields'}):
        ctx.unk(wh, text, 'the lists are compared as a whole')
        return
    szs = any(pairs_size(a, v, mine, theirs) for a, v in o.facts.items())
    ls = [e for e in o.events if e.k in ('loop', 'loop0')]
    good = [e for e in ls if walks_both(e, mine, theirs)]
    alg = [e for e in o.events if e.k == 'call' and e.obj is None and any(mentions(a, mine) for a in e.args)]
    if not good:
        ctx.check(None if alg else False, wh, text, 'no loop goes through both lists of fields')
        return
    ends = any(a[0] == 'eq' and v and has_sub(a[1], lambda x: of(x, ('end',), theirs)) for a, v in o.facts.items())
    ctx.check(szs or ends, wh, 'compounds that compare as the same have the same number of fields', 'the numbers are not compared')
    for e in good:
        trip = e.d.get('trip')
        if trip is not None:
            s = Sweep(e, mine); s2 = Sweep(e, theirs)
            ctx.check(s.kind == 'all' or s2.kind == 'all', wh, 'every field is compared', 'the loop does %s rounds' % show(trip))
        its = {('L' + str(0)): 0}
        for i in e.iters:
            if i.kind == 'break':
                ctx.bad(wh, 'every field is compared', 'the loop stops early')
            if i.kind == 'return' and may_be_true(i):
                ctx.bad(wh, 'every field is compared', 'it returns %s from inside the loop' % show(i.val))
            if i.kind != 'continue':
                continue
            li = [k for k, v in e.init.items() if of(v, ('begin',), mine)]
            ri = [k for k, v in e.init.items() if of(v, ('begin',), theirs)]
            x, y = li[0], ri[0]
            for names, what in (({'m_name', 'getName'}, 'name'), ({'m_offset', 'getOffset'}, 'offset')):
                g = any(a[0] == 'eq' and v and fieldpair(a[1], x, y, names) for a, v in i.facts.items())
                ctx.check(g, wh, 'fields that compare as the same have the same %s' % what, 'it is not compared')
            names = {'m_type', 'getType'}
            cs = [c for nm in OPQ for c in call_true(i, nm)]
            g = [c for c in cs if any(hangs(l, x, names) for l in list(c.locs) + list(c.args) + [c.obj]) and any(hangs(l, y, names) for l in list(c.locs) + list(c.args))]
            ptr = any(a[0] == 'eq' and v and fieldpair(a[1], x, y, names) for a, v in i.facts.items())
            ctx.check(bool(g) or ptr, wh, 'fields that compare as the same have the same type', 'it is not compared')
            for c in g:
                if last(c.qn) == 'rec_compare' and strict is not False:
                    fl = c.args[2] if len(c.args) > 2 else None
                    ctx.check(fl in (eq, I(1)) or None if fl not in (ZERO, ('bool', False)) else False, wh, 'what is compared strictly is compared strictly all the way down', show(fl))


def pairs_size(a, v, x, y):
    if a[0] != 'eq' or not v:
        return False
    ts = [t for t, k in lin_parts(a[1])[1]]
    return len(ts) == 2 and any(of(t, ('size',), x) for t in ts) and any(of(t, ('size',), y) for t in ts)


def walks_both(e, mine, theirs):
    li = [k for k, v in e.init.items() if of(v, ('begin', 'cbegin'), mine) and show(e.step.get(k, ZERO)) == '1']
    ri = [k for k, v in e.init.items() if of(v, ('begin', 'cbegin'), theirs) and show(e.step.get(k, ZERO)) == '1']
    return bool(li and ri)


def hangs(t, it, names):
    return isinstance(t, tuple) and has_sub(t, lambda x: x == it) and (has_sub(t, lambda x: x[0] == 'fld' and x[2] in names) or has_sub(t, lambda x: of(x, tuple(names))))


LOSSY = ('length', 'size', 'empty', 'getSize', 'getCategory', 'getBasename', 'getNamespace', 'substr', 'front', 'back', 'at', 'operator[]', 'find', 'count', 'hash', 'toupper', 'tolower', 'compare', 'kind', 'isNull')


def lossy(t, names=()):
    """only a part of what the term is taken from decides its value"""
    return isinstance(t, tuple) and t and t[0] in ('pure', 'res', 'call', 'op') and (t[0] == 'op' or any(isinstance(x, str) and last(x) in LOSSY and last(x) not in names for x in t[1:3])) \
        or isinstance(t, tuple) and t and t[0] == 'rd' and t[1][0] == 'fld' and t[1][2] not in names and t[1][2].startswith('m_') \
        or isinstance(t, tuple) and t and t[0] == 'rd' and t[1][0] == 'idx'


def fieldpair(d, x, y, names):
    c, ps = lin_parts(d)
    if any(lossy(t, names) for t, k in ps):
        return False
    return c == 0 and len(ps) == 2 and any(hangs(ps[i][0], x, names) and hangs(ps[1 - i][0], y, names) for i in (0, 1))


def recursion(ctx):
    """C01: the entry points and the recursive step"""
    for name, val in (('isSame', True), ('canCastTo', False)):
        f = ctx.one(T + '::' + name)
        wh = ctx.where(f)
        p = ('sym', f['params'][0]['n'])
        for o in ctx.run(f, opaque=lambda g: g['n'] in ('do_compare', 'rec_compare'), merge=False):
            if not may_be_true(o):
                continue
            if o.val in (I(1), ('bool', True)):
                same = any(a[0] == 'eq' and v and {t for t, k in lin_parts(a[1])[1]} == {THIS, p} for a, v in o.facts.items())
                cs = [e for nm in ('do_compare', 'rec_compare') for e in call_true(o, nm)]
                ctx.check(same or bool(cs), wh, 'only a type itself is the same without a comparison', 'returns true on the path %s' % path(o))
                continue
            cs = [e for e in o.events if e.k == 'call' and e.qn.rsplit('::', 1)[-1] in ('do_compare', 'rec_compare')]
            ctx.check(len(cs) == 1 and o.val == cs[0].res or None, wh, 'the result is the one of the comparison', show(o.val)[:80])
            for e in cs:
                fl = e.args[-2]
                ctx.check(fl in ((I(1), ('bool', True)) if val else (ZERO, ('bool', False))), wh, '%s asks for %s comparison' % (name, 'a strict' if val else 'an assignment'), show(fl))
                ctx.check(e.obj == THIS and has_sub(('x',) + tuple(e.locs), lambda x: x == deref(p)), wh, 'the two types given are compared', show(e.obj))
                # the pair under comparison is known to the recursion
    f = ctx.one(T + '::rec_compare')
    wh = ctx.where(f)
    l, r, q, st = [('sym', x['n']) for x in f['params'][:4]]
    n = 0
    for o in ctx.run(f, opaque=lambda g: g['n'] == 'do_compare', merge=False):
        if not may_be_true(o):
            continue
        n += 1
        same = any(a[0] == 'eq' and v and {t for t, k in lin_parts(a[1])[1]} == {l, r} for a, v in o.facts.items())
        cs = [e for e in o.events if e.k == 'call' and last(e.qn) == 'do_compare']
        entry = lambda t: isinstance(t, tuple) and t[0] in ('rd', 'fldv') and 'second' in t[1][2:] + t[2:3] and has_sub(t, lambda y: of(y, ('find',)))
        ispair = lambda t, u: t == r and entry(u) or u == r and entry(t)
        inprog = any(a[0] == 'eq' and v and len(lin_parts(a[1])[1]) == 2 and ispair(*[t for t, k in lin_parts(a[1])[1]]) for a, v in o.facts.items()) \
            or has_sub(('x', o.val) + tuple(a for a, v in o.facts.items() if v), lambda x: x[0] == 'cmp' and x[1] == '==' and ispair(x[2], x[3]))
        if same:
            ctx.ok(wh, 'a type is the same as itself')
            continue
        if cs:
            e = cs[0]
            ctx.check(len(cs) == 1 and (o.val == e.res or e in call_true(o, 'do_compare')), wh, 'the result is the one of the comparison', show(o.val)[:80])
            ctx.check(e.obj == l and any(x == deref(r) for x in e.locs), wh, 'the two types given are compared', '%s with %s' % (show(e.obj), show(e.args[0])))
            ctx.check(e.args[1] == q, wh, 'the comparison asked for is made', show(e.args[1]))
            continue
        found = any(a[0] == 'eq' and not v and has_sub(a[1], lambda y: of(y, ('find',))) and has_sub(a[1], lambda y: of(y, ('end', 'cend'))) for a, v in o.facts.items()) \
            or any(has_sub(a, lambda y: of(y, ('count', 'contains'))) for a in o.facts)
        ctx.check(inprog and found, wh, 'two types under comparison are taken as the same only with each other', 'returns %s on the path %s' % (show(o.val)[:60], path(o)))
    ctx.need(n, 'rec_compare is never true')
    # fields
    f = ctx.one('Typelib::Field::operator==')
    wh = ctx.where(f)
    p = ('sym', f['params'][0]['n'])
    for o in ctx.run(f, opaque=lambda g: g['n'] in OPQ, merge=False):
        if not may_be_true(o):
            continue
        for names in ({'m_name', 'getName'}, {'m_offset', 'getOffset'}):
            ctx.check(says_equal(o, THIS, p, names), wh, 'fields that are equal have the same %s' % sorted(names)[1][2:], 'it is not compared')
        cs = call_true(o, 'isSame')
        ctx.check(any(refers(e.obj, THIS, {'m_type'}) and any(refers(x, p, {'m_type'}) for x in e.locs) or refers(e.obj, p, {'m_type'}) and any(refers(x, THIS, {'m_type'}) for x in e.locs) for e in cs), wh, 'fields that are equal have the same type', 'it is not compared')


# ------------------------------------------------------------------ D04
def registries(ctx):
    """D04: every type of one registry is compared with the one of the same name in the other"""
    f = ctx.one('Typelib::Registry::isSame')
    wh = ctx.where(f)
    other = ('sym', f['params'][0]['n'])
    r = ctx.P.records['Typelib::Registry']
    mine = ('fld', ('deref', THIS), 'm_global')
    theirs = ('fld', ('deref', other), 'm_global')
    n = 0
    for o in ctx.run(f, opaque=lambda g: g['n'] in OPQ, merge=False):
        if not may_be_true(o):
            continue
        n += 1
        same = any(a[0] == 'eq' and v and {t for t, k in lin_parts(a[1])[1]} == {THIS, other} for a, v in o.facts.items())
        if same:
            continue
        szs = any(pairs_size(a, v, mine, theirs) for a, v in o.facts.items())
        ends = any(a[0] == 'eq' and v and has_sub(a[1], lambda x: of(x, ('end',), theirs)) for a, v in o.facts.items())
        ls = [e for e in o.events if e.k in ('loop', 'loop0') and (Sweep(e, mine).kind == 'all' or Sweep(e, theirs).kind == 'all')]
        every = [e for e in o.events if e.k in ('loop', 'loop0')]
        if not ls:
            ctx.bad(wh, 'every type of the registry is compared', 'no loop goes through all of them')
            continue
        ctx.check(szs or ends or len(ls) > 1, wh, 'registries that are the same have the same number of names', 'the numbers are not compared')
        for e in ls:
            a, b = (mine, theirs) if Sweep(e, mine).kind == 'all' else (theirs, mine)
            early = [i for i in e.iters if i.kind == 'break']
            ctx.check(not early, wh, 'every type of the registry is compared', 'the loop can stop early')
            x = [k for k, v in e.init.items() if of(v, ('begin', 'cbegin'), a)][0]
            ys = [k for k, v in e.init.items() if of(v, ('begin', 'cbegin'), b)]
            for i in e.iters:
                if i.kind == 'return' and may_be_true(i):
                    ctx.bad(wh, 'every type of the registry is compared', 'it returns %s from inside the loop' % show(i.val))
                if i.kind != 'continue':
                    continue
                cs = call_true(i, 'isSame')
                byname = lambda t: has_sub(t, lambda z: of(z, ('find', 'get', 'get_', 'at')) and has_sub(z, lambda w: w == x) and has_sub(z, lambda w: w == other or w == THIS)) 
                if ys and show(e.step.get(ys[0], ZERO)) == '1':
                    y = ys[0]
                    ctx.check(any(a_[0] == 'eq' and v and fieldpair(a_[1], x, y, {'first'}) for a_, v in i.facts.items()), wh, 'types are compared under the same name', 'the names are not compared')
                    g = [c for c in cs if any(hangs(l, x, {'type'}) for l in list(c.locs) + list(c.args) + [c.obj]) and any(hangs(l, y, {'type'}) for l in list(c.locs) + list(c.args) + [c.obj])]
                    ctx.check(bool(g), wh, 'each type is compared with its counterpart', 'it is not')
                elif ys:
                    ctx.bad(wh, 'each type is compared with its counterpart', 'the position in the other registry moves by %s' % show(e.step.get(ys[0], ZERO)))
                else:
                    g = [c for c in cs if any(byname(l) for l in list(c.locs) + list(c.args) + [c.obj] if isinstance(l, tuple))]
                    stuck = any(has_sub(l, lambda z: of(z, ('begin', 'cbegin'), b)) for c in cs for l in list(c.locs) + list(c.args) + [c.obj] if isinstance(l, tuple))
                    ctx.check(bool(g) or (None if cs and not stuck else False), wh, 'each type is compared with its counterpart', 'it is not looked up under its name')
    ctx.need(n, 'isSame is never true')
