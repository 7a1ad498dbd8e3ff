"""F03: the header and the lines of CSV output have the same columns.

Both sides are visitors. For each category of types, the number of columns that
the handler of the header and the handler of the lines add is worked out from
their paths: columns added directly, and visits of the parts of the type, once
or once per element. Both sides have to agree.
"""
from core import *
from rules.owners import last, Sweep
from rules.singleton import strip_fresh
from rules.recursion import ROOTS, root_var, strip

CATS = {'Numeric': 'numbers', 'Enum': 'enumerations', 'OpaqueType': 'opaques', 'Pointer': 'pointers', 'Array': 'arrays', 'Compound': 'compounds', 'Field': 'fields'}
# what the default handlers do (C03 decides that they do)
TYPE_DEF = {'Numeric': '0', 'Enum': '0', 'OpaqueType': '0', 'Pointer': 'target', 'Array': 'target', 'Compound': 'fields', 'Field': 'field'}
VALUE_DEF = dict(TYPE_DEF, Array='each target')
ADD = {'push_back': 'back', 'emplace_back': 'back', 'push_front': 'front', 'emplace_front': 'front'}
GROW = {'insert', 'emplace', 'splice', 'merge', 'resize', 'assign', 'append'}
LOSE = {'pop_back', 'pop_front', 'clear', 'erase', 'remove', 'unique', 'swap', 'sort', 'reverse'}


def cat_of(ts):
    for t in ts:
        n = t.replace('const ', '').rstrip('& *').strip()
        if n.startswith('Typelib::') and n[9:] in CATS and n != 'Typelib::Compound':
            return n[9:]
    if any('Typelib::Compound' in t for t in ts):
        return 'Compound'
    return None


def visitors(ctx, qn, root):
    """visitor classes made by a function, or by what it calls"""
    P = ctx.P
    res = set(); seen = set()
    todo = [f['key'] for f in ctx.fn(qn)]
    while todo:
        k = todo.pop()
        f = P.functions.get(k)
        if k in seen or not f or 'body' not in f:
            continue
        seen.add(k)
        for n in walk_ast([f['body'], f.get('inits')]):
            for v in n.get('v', []) if n['k'] == 'decl' else []:
                t = (v.get('t') or '').replace('const ', '').strip()
                if root in P.all_bases(t):
                    res.add(t)
            if n['k'] == 'ctor':
                t = (n.get('ty') or '').replace('const ', '').strip()
                if root in P.all_bases(t):
                    res.add(t)
            if n['k'] in ('call', 'ctor') and n.get('fn') and not n.get('virt'):
                f2 = P.functions.get(n['fn'])
                if f2 and not any(r in P.all_bases(f2.get('cls') or '') or f2.get('cls') == r for r in ROOTS):
                    todo.append(n['fn'])
    return sorted(res)


def handlers_of(ctx, cls, root):
    """category -> [functions that handle it]; None stands for the default of the base class"""
    P = ctx.P
    keys = {}
    for m in P.records[root]['methods']:
        if m['n'] == 'visit_' and m.get('virt'):
            keys[m['key']] = m
    from rules.recursion import Graph
    g = Graph.__new__(Graph)
    g.P = P; g.bases = {}
    res = {}
    for k, m in sorted(keys.items()):
        k2 = g.lookup(cls, k)
        f = P.functions.get(k2)
        base = P.functions.get(k)
        ts = [x['t'] for x in (f or base or {'params': []})['params']]
        if not ts:
            continue
        c = cat_of(ts) or ('Numeric' if root == ROOTS[1] and len(ts) == 1 else None)
        if c is None:
            continue
        rec = P.method[k2][0]['qn'] if k2 in P.method else None
        res.setdefault(c, []).append((f, rec == root, ts))
    return res


def columns(ctx, f, lists):
    """columns that a handler adds on each of its paths -> [(text, path)]; text None if not known"""
    P = ctx.P
    res = []
    opq = lambda g: any(g.get('cls') == r or r in P.all_bases(g.get('cls') or '') for r in ROOTS) and (g['n'] in ('visit_', 'dispatch', 'apply'))
    outs = ctx.run(f, opaque=lambda g: opq(g) or g.get('cls') in ('Typelib::Registry', 'Typelib::Enum'), merge=False, may_throw=lambda e, qn: '?' if sq(qn).startswith('Typelib::Enum::') else None)
    for o in outs:
        if o.kind in ('throw', 'noreturn'):
            continue
        n = count(ctx, f, o, lists)
        if n == '0' and (no_elements(o) or any(e.k == 'loop0' and any(count(ctx, f, i, lists) not in ('0', None) for i in e.iters if i.kind == 'continue') for e in o.events)):
            continue
        res.append((n, o))
    return res


def no_elements(o):
    for a, v in o.facts.items():
        ts = lin_parts(a[1])[1] if a[0] in ('eq', 'lt') else []
        if len(ts) == 1 and (ts[0][0][0] == 'pure' and ts[0][0][1].endswith('getDimension') or ts[0][0][0] == 'rd' and ts[0][0][1][0] == 'fld' and ts[0][0][1][2] == 'm_dimension'):
            if a[0] == 'eq' and v and lin_parts(a[1])[0] == 0 or a[0] == 'lt' and not v and ts[0][1] < 0 and lin_parts(a[1])[0] == 0:
                return True
    return False


def visit(ctx, f, e):
    """what a visit made by a handler stands for"""
    n = last(e.qn)
    if n not in ('visit_', 'dispatch'):
        return None
    callee = ctx.P.functions.get(e.key)
    ts = [p['t'] for p in callee['params']] if callee else []
    root = next((r for r in ROOTS if e.qn.startswith(r + '::')), None)
    if root is None:
        return 'one field' if n == 'visit_' and cat_of(ts) == 'Field' else '?'
    if n == 'dispatch':
        return 'target' if has_sub(e.args, lambda y: isinstance(y, tuple) and (y[:1] == ('fld',) and y[-1] == 'm_indirection' or y[0] == 'pure' and y[1].endswith('getIndirection'))) else \
               'field' if has_sub(e.args, lambda y: isinstance(y, tuple) and (y[:1] == ('fld',) and y[-1] == 'm_type' or y[0] == 'pure' and y[1].endswith('getType'))) else '?'
    c = cat_of(ts)
    return (TYPE_DEF if root == ROOTS[0] else VALUE_DEF).get(c, '?')


def count(ctx, f, o, lists):
    parts = []
    unknown = False
    for e in o.events:
        if e.k == 'call':
            ob = strip(e.obj) if e.obj is not None else None
            if isinstance(ob, tuple) and ob and ob[0] == 'fld' and ob[2] in lists:
                n = last(e.qn)
                if n in ADD:
                    parts.append('1')
                elif n in LOSE:
                    parts.append('lost')
                elif n in GROW:
                    unknown = True
                continue
            v = visit(ctx, f, e)
            if v == '?':
                unknown = True
            elif v is not None and v != '0':
                parts.append(v)
        elif e.k in ('loop', 'loop0'):
            its = []
            for i in e.iters:
                if i.kind in ('throw', 'noreturn'):
                    continue
                its.append((count(ctx, f, i, lists), i.kind))
            got = {c for c, k in its}
            if got <= {'0'}:
                continue
            if len(got) != 1 or None in got:
                unknown = True
                continue
            if e.k == 'loop0':
                continue
            c = got.pop()
            t = e.d.get('trip')
            while t is not None and t[0] in ('cast', 'trunc'):
                t = t[-1]
            if any(k in ('break', 'return') and not stopped(i) for (c2, k), i in zip(its, [x for x in e.iters if x.kind not in ('throw', 'noreturn')])):
                parts.append('some ' + c)
            elif t is not None and (t[0] == 'pure' and t[1].endswith('getDimension') or t[0] == 'rd' and t[1][0] == 'fld' and t[1][2] == 'm_dimension'):
                parts.append('each ' + c)
            elif c == 'one field' and whole(e):
                parts.append('fields')
            elif t is None and capped(e) is not None:
                parts.append('at most %d %s' % (capped(e), c))
            elif t is not None and lin_parts(t)[1] and any(x[0] == 'rd' and x[1][0] == 'fld' and x[1][2] == 'm_dimension' for x, k in lin_parts(t)[1]):
                parts.append('%s times %s' % (show(t), c))
            else:
                unknown = True
    if unknown:
        return None
    return ' + '.join(parts) or '0'


def capped(e):
    """the loop only goes on while a counter is below a constant"""
    for i in e.iters:
        for a, v in i.facts.items():
            if a[0] == 'lt' and v:
                n, ts = lin_parts(a[1])
                if n < 0 and len(ts) == 1 and ts[0][1] == 1 and any(strip_fresh(s) == strip_fresh(ts[0][0]) for s in e.step):
                    return -n
    return None


def whole(e):
    conts = {x for v in list(e.init.values()) + [e.d.get('trip') or ZERO] for x in subterms(v) if isinstance(x, tuple) and x[:1] == ('fld',) and x[-1] == 'm_fields'}
    if e.rng is not None:
        conts |= {x for x in subterms(e.rng) if isinstance(x, tuple) and x[:1] == ('fld',) and x[-1] == 'm_fields'}
    return any(Sweep(e, x).kind == 'all' and not Sweep(e, x).why.startswith('the loop stops at') for x in conts)


def stopped(i):
    """left because a visit said so"""
    return any(has_sub(a, lambda y: isinstance(y, tuple) and y and y[0] == 'res' and last(y[2] if isinstance(y[2], str) else y[1]) in ('visit_', 'dispatch')) for a in i.facts)


def goes_on(o):
    """does the handler let the visit go on"""
    v = strip_fresh(o.val)
    if v == I(1):
        return True
    if v == ZERO:
        return False
    if isinstance(v, tuple) and v and v[0] == 'res':
        return True
    for a, t in o.facts.items():
        if a[0] == 'eq' and strip_fresh(a[1]) == v:
            return True
    return None


def columns_list(ctx, hs, what):
    """the list of columns is what the handlers of numbers add to"""
    lists = set()
    opq = lambda g: any(g.get('cls') == r for r in ROOTS)
    for f, default, ts in hs['Numeric']:
        if f is None or default:
            continue
        for e, o, l in eventsof(ctx.run(f, opaque=opq), ('call',)):
            ob = strip(e.obj) if e.obj is not None else None
            if isinstance(ob, tuple) and ob and ob[0] == 'fld' and root_var(ob) == ('sym', 'this') and last(e.qn) in ADD:
                lists.add(ob[2])
    ctx.need(len(lists) == 1, 'the columns of the %s are not kept in one list' % what)
    return lists


def side(ctx, qn, root, what):
    vs = visitors(ctx, qn, root)
    ctx.need(len(vs) == 1, 'the visitor of the %s was not found' % what)
    cls = vs[0]
    hs = handlers_of(ctx, cls, root)
    ctx.need('Numeric' in hs, 'no handler for numbers in %s' % cls)
    lists = columns_list(ctx, hs, what)
    ends = set()
    opq = lambda g: any(g.get('cls') == r for r in ROOTS)
    res = {}
    defs = TYPE_DEF if root == ROOTS[0] else VALUE_DEF
    for c in CATS:
        for f, default, ts in hs.get(c, []):
            if default:
                res.setdefault(c, []).append((defs[c], None, cls))
                continue
            ctx.need(f is not None and 'body' in f, 'a handler of the %s has no body' % what)
            for n, o in columns(ctx, f, lists):
                res.setdefault(c, []).append((n, f, cls))
                g = goes_on(o)
                text = 'output goes on after %s' % CATS[c]
                ctx.check(g, ctx.where(f), text, 'returns %s' % show(o.val) if o.val else 'nothing returned')
            for e, o, l in eventsof(ctx.run(f, opaque=opq), ('call',)):
                ob = strip(e.obj) if e.obj is not None else None
                if isinstance(ob, tuple) and ob and ob[0] == 'fld' and ob[2] in lists and last(e.qn) in ADD:
                    ends.add(ADD[last(e.qn)])
    return cls, res, ends, lists


def same_columns(ctx):
    hc, hr, he, hl = side(ctx, 'Typelib::CSVOutput::header', ROOTS[0], 'header')
    lc, lr, le, ll = side(ctx, 'Typelib::CSVOutput::display', ROOTS[1], 'lines')
    for c, name in sorted(CATS.items()):
        text = 'header and lines have the same columns for %s' % name
        h = hr.get(c, []); l = lr.get(c, [])
        fs = [f for n, f, k in l + h if f]
        wh = ctx.where(fs[0]) if fs else c
        hn = {n for n, f, k in h}; ln = {n for n, f, k in l}
        if not h or not l or None in hn | ln:
            known = (hn | ln) - {None}
            if len(known) < 2:
                ctx.unk(wh, text, 'columns not known')
                continue
        hn.discard(None); ln.discard(None)
        ctx.check(len(hn | ln) == 1, wh, text, 'header: %s, lines: %s' % (' or '.join(sorted(hn)), ' or '.join(sorted(ln))))
        if c in ('Numeric', 'Enum', 'OpaqueType'):
            ctx.check(hn | ln == {'1'}, wh, 'there is one column for %s' % name, 'header: %s, lines: %s' % (' or '.join(sorted(hn)), ' or '.join(sorted(ln))))
    ctx.check(he == le and len(he) == 1, 'CSVOutput', 'columns are added at the same end on both sides', '%s / %s' % (sorted(he), sorted(le)))


def whole_output(ctx):
    """the columns of the type, and nothing else, are put out with the same separator"""
    seps = []
    for qn, root, what in (('Typelib::CSVOutput::header', ROOTS[0], 'header'), ('Typelib::CSVOutput::display', ROOTS[1], 'lines')):
        vs = visitors(ctx, qn, root)
        ctx.need(len(vs) == 1, 'no visitor')
        f = ctx.one(qn)
        wh = ctx.where(f)
        for o in ctx.run(f, opaque=lambda g: g['n'] == 'apply' or root in ctx.P.all_bases(g.get('cls') or '') and g['n'] != 'apply' and not g.get('ctor')):
            if o.kind != 'return':
                continue
            ap = [e for e, _o, l in eventsof([o], ('call',)) if last(e.qn) == 'apply' and not l]
            text = 'the %s shows the type asked for, once' % what
            good = len(ap) == 1 and has_sub(ap[0].args, lambda y: isinstance(y, tuple) and y[:1] == ('fld',) and y[2] == 'm_type' and root_var(y) == ('sym', 'this'))
            if len(ap) == 1 and not good:
                good = None
            ctx.check(good, wh, text, '%d visits' % len(ap))
            jn = [e for e, _o, l in eventsof([o], ('call',)) if last(e.qn) == 'join']
            if len(jn) == 1:
                seps.append(tuple(x for x in subterms(jn[0].args[1]) if x[0] == 'fld')[:1] or (jn[0].args[1],))
        # apply starts with no columns and hands out all of them
        for g in ctx.P.functions.values():
            if g.get('cls') != vs[0] or g['n'] != 'apply' or 'body' not in g:
                continue
            w2 = ctx.where(g)
            lists = columns_list(ctx, handlers_of(ctx, vs[0], root), what)
            for o in ctx.run(g, opaque=lambda x: any(x.get('cls') == r for r in ROOTS)):
                if o.kind != 'return':
                    continue
                vis = [i for i, e in enumerate(o.events) if e.k == 'call' and any(e.qn.startswith(r + '::') for r in ROOTS) and last(e.qn) in ('apply', 'dispatch', 'visit_')]
                text = 'the columns of one visit are handed out'
                ctx.check(len(vis) == 1, w2, text, '%d visits' % len(vis))
                touched = [e for i, e in enumerate(o.events) if e.k == 'call' and e.obj is not None and isinstance(strip(e.obj), tuple) and strip(e.obj)[:1] == ('fld',) and strip(e.obj)[2] in lists and vis and i > vis[0] and last(e.qn) in set(ADD) | GROW | LOSE]
                before = [e for i, e in enumerate(o.events) if e.k == 'call' and e.obj is not None and isinstance(strip(e.obj), tuple) and strip(e.obj)[:1] == ('fld',) and strip(e.obj)[2] in lists and vis and i < vis[0] and last(e.qn) in set(ADD) | GROW]
                ctx.check(not touched and not before, w2, text, 'the list of columns is changed at line %s' % (touched + before)[0].line if touched or before else '')
                ctx.check(has_sub(o.val, lambda y: isinstance(y, tuple) and y[:1] in (('fld',), ('fldv',)) and y[2] in lists) or None, w2, text, show(o.val) if o.val else '')
    if len(seps) >= 2:
        ctx.check(len(set(seps)) == 1, 'CSVOutput', 'header and lines use the same separator', str(len(set(seps))))
    else:
        ctx.unk('CSVOutput', 'header and lines use the same separator', 'no join')
