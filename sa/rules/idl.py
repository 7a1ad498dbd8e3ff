"""F02: what IDL export refuses, and the balance of its namespace blocks.

The handlers of the visitors of the IDL exporter are followed path by path: a
path that ends normally for a kind of type without an IDL equivalent is a
violation, and so is one on which the type of a field, element or alias does not
reach a visitor. For namespaces, each level opened or closed is a brace written
in a loop; the loops are matched with the list of names they run over.
"""
import re
from core import *
from rules.owners import last, mentions
from rules.recursion import ROOTS, subs_of, strip
from rules.csv import handlers_of

NAMES = r'normalizeIDL|stripLeadingUnderscore|nameSplit|amespace$|asename$|RegistryIterator|Registry::|::getTypename|::getName$|Exporter::|getMinimalPathTo'


def opq(more=''):
    rx = re.compile('^Typelib::TypeVisitor::|' + NAMES + ('|' + more if more else ''))
    return lambda g: bool(rx.search(g['qn'])) or (g.get('cls') == 'Typelib::Type' and g['n'] not in ('getCategory', 'getSize'))


def fields_in(t):
    return {x[2] for x in subs_of(t) if x[:1] == ('fld',)}


def is_any(t):
    return 'm_opaque_as_any' in fields_in(t) or has_sub(t, lambda x: x[0] in ('res', 'pure') and any(isinstance(y, str) and y.endswith('marshalOpaquesAsAny') for y in x[1:3]))


def any_on(facts):
    return any(a[0] == 'eq' and is_any(a[1]) and v is False for a, v in facts.items())


def categories(ctx):
    for qn in ('Typelib::Type::Category',):
        e = ctx.P.enums.get(qn)
        if e:
            return {(c['n'] if isinstance(c, dict) else c[0]): (c['v'] if isinstance(c, dict) else c[1]) for c in e['consts']}
    raise AnalysisBroken('the categories of types are not declared as expected')


def depth_of(t):
    """0 for the category of the type, 1 for that of its element; None if t is not a category"""
    for x in subs_of(t):
        if x[:1] == ('fld',) and x[2] == 'm_category':
            return 1 if 'm_indirection' in fields_in(x[1]) else 0
        if x[0] in ('res', 'pure') and any(isinstance(y, str) and y.endswith('::getCategory') for y in x[1:3]):
            return 1 if 'm_indirection' in fields_in(x) or has_sub(x, lambda y: any(isinstance(z, str) and z.endswith('getIndirection') for z in y[1:3])) else 0
    return None


def category(facts, depth, consts):
    """(category if known, categories excluded)"""
    known = None; out = set()
    inv = {v: k for k, v in consts.items()}
    for a, v in facts.items():
        if a[0] != 'eq' or depth_of(a[1]) != depth:
            continue
        c, ts = lin_parts(a[1])
        if len(ts) != 1 or abs(ts[0][1]) != 1:
            continue
        n = inv.get(-c * ts[0][1])
        if n is None:
            continue
        if v:
            known = n
        else:
            out.add(n)
    if known:
        out |= set(consts) - {known}
    return known, out


def visits(o, pred):
    return [e for e, _o, _l in eventsof([o], ('call',)) if e.qn.startswith('Typelib::TypeVisitor::') and last(e.qn) in ('apply', 'dispatch', 'visit_') and any(pred(a) for a in e.args)]


def element(t):
    return 'm_indirection' in fields_in(t) or has_sub(t, lambda y: any(isinstance(z, str) and z.endswith('getIndirection') for z in y[1:3]))


def field_type(t):
    return 'm_type' in fields_in(t) or has_sub(t, lambda y: any(isinstance(z, str) and z.endswith('Field::getType') for z in y[1:3]))


def idl_visitors(ctx):
    P = ctx.P
    res = [qn for qn, r in sorted(P.records.items()) if ROOTS[0] in P.all_bases(qn) and (r.get('file') or '').startswith('lang/idl/')]
    ctx.need(res, 'no visitor of the IDL exporter found')
    return res


def refusals(ctx):
    ctx.rule = 'kinds of types without an IDL equivalent are refused'
    consts = categories(ctx)
    P = ctx.P
    for cls in idl_visitors(ctx):
        hs = handlers_of(ctx, cls, ROOTS[0])
        null = [m for m in P.records[ROOTS[0]]['methods'] if m['n'] == 'visit_' and m.get('virt') and 'NullType' in str(P.functions.get(m['key'], {}).get('params'))]
        ctx.need(null, 'no handler for null types')
        for m in null:
            from rules.recursion import Graph
            g = Graph.__new__(Graph); g.P = P; g.bases = {}
            hs['NullType'] = [(P.functions.get(g.lookup(cls, m['key'])), False, ['NullType'])]
        for cat in ('NullType', 'Pointer', 'OpaqueType', 'Array'):
            for f, default, _ts in hs.get(cat, []):
                if f is None or 'body' not in f:
                    ctx.unk(cls, 'handler for %s' % cat, 'no definition found')
                    continue
                wh = ctx.where(f)
                short = cls.split('::')[-1]
                for o in ctx.run(f, opaque=lambda g, f=f: opq()(g) and g['key'] != f['key'], merge=False):
                    if o.kind in ('throw', 'noreturn'):
                        continue
                    if cat == 'OpaqueType':
                        ctx.check(any_on(o.facts), wh, '%s passes an opaque type only when opaques are to be mapped to any' % short, 'a path ends normally without opaque_as_any being set')
                    elif cat == 'Array':
                        k, out = category(o.facts, 1, consts)
                        ctx.check('Array' in out, wh, '%s refuses arrays of arrays' % short, 'a path for an array ends normally although its element may be an array')
                        ctx.check(bool(visits(o, element)), wh, '%s looks at the elements of an array' % short, 'a path for an array ends normally without its element being visited')
                    else:
                        ctx.bad(wh, '%s refuses %s' % (short, 'pointers' if cat == 'Pointer' else 'null types'), 'a path ends normally')
                ctx.ok(wh, '%s: every path for %s considered' % (short, cat))


def names(ctx):
    ctx.rule = 'the types of what is written are visited'
    P = ctx.P
    for cls in idl_visitors(ctx):
        short = cls.split('::')[-1]
        hs = handlers_of(ctx, cls, ROOTS[0])
        for f, default, ts in hs.get('Container', []) + containers(ctx, cls):
            if f is None or 'body' not in f:
                continue
            for o in ctx.run(f, opaque=opq(), merge=False):
                if o.kind in ('throw', 'noreturn'):
                    continue
                if any(a[0] == 'eq' and v and ('str', '/std/string') in list(subs_of(a[1])) for a, v in o.facts.items()):
                    continue
                ctx.check(bool(visits(o, element)), ctx.where(f), '%s looks at the elements of a container' % short, 'a path for a container that is not a string ends normally without its element being visited')
        writes = [m for m in hs.get('Field', []) if not m[1]]
        for f, default, ts in writes:
            for o in ctx.run(f, opaque=opq(), merge=False):
                if o.kind in ('throw', 'noreturn'):
                    continue
                ctx.check(bool(visits(o, field_type)), ctx.where(f), '%s looks at the type of a field' % short, 'a field is written on a path that does not visit its type')
        for f, default, ts in hs.get('Compound', []):
            if not f or 'body' not in f or default or not writes:
                continue
            for o in ctx.run(f, opaque=opq(), merge=False):
                if o.kind in ('throw', 'noreturn'):
                    continue
                evs = [e for e, _o, l in eventsof([o], ('call',)) if last(e.qn) == 'visit_']
                alls = [e for e in evs if e.qn.startswith('Typelib::TypeVisitor::')]
                ctx.check(True if alls else None if evs else False, ctx.where(f), '%s writes every field of a compound' % short, 'a path for a compound ends normally without its fields being visited')


def containers(ctx, cls):
    P = ctx.P
    from rules.recursion import Graph
    g = Graph.__new__(Graph); g.P = P; g.bases = {}
    res = []
    for m in P.records[ROOTS[0]]['methods']:
        if m['n'] == 'visit_' and m.get('virt') and 'Typelib::Container' in str(P.functions.get(m['key'], {}).get('params')):
            f = P.functions.get(g.lookup(cls, m['key']))
            if f and f.get('cls') != ROOTS[0]:
                res.append((f, False, []))
    return res


def aliases(ctx):
    ctx.rule = 'aliases of types without an IDL equivalent are refused'
    consts = categories(ctx)
    f = ctx.one('IDLExport::save', lambda g: len(g['params']) == 2)
    wh = ctx.where(f)
    n = 0
    for o in ctx.run(f, opaque=opq('adaptNamespace'), merge=False):
        if o.kind in ('throw', 'noreturn'):
            continue
        calls = [e for e in o.events if e.k == 'call']
        typedefs = [e for e in calls if last(e.qn) in ('push_back', 'emplace_back', 'push_front', 'insert') and e.obj is not None and mentions_field(e.obj, 'm_typedefs')]
        if typedefs:
            n += 1
            k, out = category(o.facts, 0, consts)
            k1, out1 = category(o.facts, 1, consts)
            ctx.check('Pointer' in out, wh, 'no typedef is made for a pointer', 'a path records a typedef although the type may be a pointer')
            if 'Array' not in out:
                ctx.check({'Array', 'Pointer'} <= out1, wh, 'no typedef is made for an array of arrays or pointers', 'a path records a typedef for an array whose element may be %s' % ' or '.join(sorted({'Array', 'Pointer'} - out1)))
            if k == 'Opaque':
                ctx.check(any_on(o.facts) or no_text(o), wh, 'a typedef of an opaque is made only when opaques are to be mapped to any', 'a path records a typedef for an opaque without opaque_as_any being set')
                continue
            vs = [e for e in calls if e.qn.startswith('Typelib::TypeVisitor::') and last(e.qn) in ('apply', 'dispatch')]
            ctx.check(bool(vs) or no_text(o), wh, 'the type of a typedef is visited', 'a path records a typedef without the type being visited')
        elif any(last(e.qn) == 'adaptNamespace' for e in calls):
            n += 1
            vs = [e for e in calls if e.qn.startswith('Typelib::TypeVisitor::') and last(e.qn) in ('apply', 'dispatch')]
            blob = any(a[0] in ('eq', 'lt') and 'm_blob_threshold' in fields_in(a[1]) and v is (a[0] == 'lt') for a, v in o.facts.items())
            ctx.check(bool(vs) or blob, wh, 'the type of a definition is visited', 'a path writes a definition without the type being visited, and not because of its size')
    ctx.need(n, 'no path of IDLExport::save writes a definition')


def mentions_field(t, n):
    return n in fields_in(t)


def no_text(o):
    """nothing is written into the text of the typedef on this path"""
    return not any(e.k == 'call' and last(e.qn) == 'operator<<' for e in o.events)


# namespaces -----------------------------------------------------------------

def braces(evs):
    """(number of '{' written, number of '}' written) by calls, not in nested loops"""
    a = b = 0
    for e in evs:
        if e.k == 'call' and last(e.qn) in ('operator<<', 'write', 'append', 'put', 'operator+=', 'push_back'):
            for x in e.args[-1:]:
                if isinstance(x, tuple) and x[:1] == ('str',) and isinstance(x[1], str):
                    a += x[1].count('{'); b += x[1].count('}')
                elif isinstance(x, tuple) and x[:1] == ('int',) and last(e.qn) in ('operator<<', 'put', 'push_back'):
                    a += x[1] == ord('{'); b += x[1] == ord('}')
                elif isinstance(x, tuple) and x[:1] in (('res',), ('pure',)) and any(isinstance(z, str) and z.endswith('operator+') for z in x[1:3]):
                    for y in subs_of(x):
                        if y[:1] == ('str',) and isinstance(y[1], str):
                            a += y[1].count('{'); b += y[1].count('}')
    return a, b


class Lists:
    """the lists of names that a function works with: 'old' from the current namespace, 'new' from the one wanted"""

    def __init__(self, o, ns):
        self.ns = ns
        self.vars = {}
        for e, _o, _l in eventsof([o], ('loop', 'loop0')):
            for l, init in e.init.items():
                r = self.origin(init)
                if r and isinstance(l, tuple) and len(l) > 2:
                    self.vars.setdefault(l[2], r)
        for e in o.events:
            if e.k == 'store' and e.d.get('loc') is not None and e.d.get('val') is not None:
                r = self.origin(e.d['val'])
                if r and isinstance(e.loc, tuple) and e.loc[:1] == ('var',):
                    self.vars.setdefault(e.loc, r)

    def origin(self, t):
        """a list of the names of a namespace, made from the whole namespace"""
        if isinstance(t, tuple) and t and t[0] in ('res', 'pure'):
            args = t[3:] if t[0] == 'res' else t[2:]
            if any('m_namespace' in fields_in(a) for a in args):
                return 'old'
            if self.ns is not None and any(has_sub(a, lambda x: x == ('sym', self.ns)) for a in args) and not any(isinstance(z, str) and last(z) in ('size', 'front', 'back', 'begin') for z in t[1:3]):
                return 'new'
        return None

    def role(self, t):
        rs = set()
        for x in subs_of(t):
            if x in self.vars:
                rs.add(self.vars[x])
            else:
                r = self.origin(x)
                if r:
                    rs.add(r)
        return rs.pop() if len(rs) == 1 else None


def takes_one(i, ls):
    """{role: number of names an iteration takes from the front}; None if it does something else with a list"""
    res = {'old': 0, 'new': 0}
    for e in i.events:
        if e.k in ('loop', 'loop0'):
            return None
        if e.k != 'call' or e.obj is None:
            continue
        r = ls.role(e.obj)
        if r is None or not isinstance(strip(e.obj), tuple) or strip(e.obj)[:1] != ('var',):
            continue
        n = last(e.qn)
        if n in ('pop_front', 'erase'):
            res[r] += 1
        elif n not in ('front', 'size', 'empty', 'begin', 'end', 'cbegin', 'cend', 'back'):
            return None
    return res


def runs_over(e, ls, taken):
    """the list whose names a loop runs over, once each -> (role or None, reason)"""
    early = None
    for i in e.iters:
        if i.kind not in ('continue', 'throw', 'noreturn') and not any(a[0] == 'eq' and v and ls.role(a[1]) and sized(a[1]) for a, v in i.facts.items()):
            early = 'the loop can end early'
    r, why = runs_over_all(e, ls, taken)
    return r, why or early


def sized(t):
    return has_sub(t, lambda x: x[0] in ('pure', 'res') and any(isinstance(z, str) and last(z) in ('size', 'empty') for z in x[1:3]))


def runs_over_all(e, ls, taken):
    trip = e.d.get('trip')
    if trip is not None:
        c, ts = lin_parts(trip)
        if len(ts) == 1:
            t, k = ts[0]
            while isinstance(t, tuple) and t[:1] == ('trunc',):
                t = t[2]
            c2, ts2 = lin_parts(t)
            r = ls.role(t)
            if r and len(ts2) == 1 and has_sub(t, lambda x: x[0] in ('pure', 'res') and any(isinstance(z, str) and last(z) == 'size' for z in x[1:3])):
                if c or c2 or k != 1 or ts2[0][1] != 1:
                    return r, 'it runs %s times' % show(trip)
                if any(taken[r] for _ in [0]):
                    return None, 'the list changes while it runs'
                return r, None
        rs = {ls.role(t) for t, k in ts}
        if len(rs) == 1 and has_sub(trip, lambda x: x[0] in ('pure', 'res') and any(isinstance(z, str) and last(z) in ('end', 'cend') for z in x[1:3])) and not c:
            return rs.pop(), None
        return None, 'it runs %s times' % show(trip)
    for r in ('old', 'new'):
        if taken[r] == 1 and not taken['new' if r == 'old' else 'old']:
            conds = {a: v for i in e.iters if i.kind in ('continue', 'break') for a, v in i.facts.items() if a[0] == 'eq' and ls.role(a[1]) == r and has_sub(a[1], lambda x: x[0] in ('pure', 'res') and any(isinstance(z, str) and last(z) in ('size', 'empty') for z in x[1:3]))}
            if conds:
                return r, None
    for l, init in e.init.items():
        r = ls.role(init)
        if r and has_sub(init, lambda x: x[0] in ('pure', 'res') and any(isinstance(z, str) and last(z) in ('begin', 'cbegin') for z in x[1:3])) and show(e.step.get(l, ZERO)) == '1':
            return r, None
    return None, 'what it runs over is not known'


def brace_loops(o, ls):
    """[(event, 'open'|'close', role, reason)] and the loop that drops the common names"""
    res = []; common = None; other = None
    for e in o.events:
        if e.k not in ('loop', 'loop0'):
            continue
        its = [i for i in e.iters if i.kind == 'continue']
        ks = {braces(i.events) for i in its}
        tk = [takes_one(i, ls) for i in its]
        if not its:
            continue
        if any(a or b for a, b in ks):
            if len(ks) != 1 or None in tk or len({tuple(sorted(t.items())) for t in tk}) != 1:
                what = 'open' if any(a for a, b in ks) else 'close'
                res.append((e, what, None, 'not every iteration writes the same number of braces' if len(ks) != 1 else 'what the iterations do with the lists differs'))
                if len(ks) != 1:
                    other = (e, 'not every iteration of the loop writes a brace')
                continue
            a, b = list(ks)[0]
            r, why = runs_over(e, ls, tk[0])
            if (a, b) not in ((1, 0), (0, 1)):
                other = (e, 'an iteration writes %d opening and %d closing braces' % (a, b))
            res.append((e, 'open' if a else 'close', r, why))
        elif any(t and (t['old'] or t['new']) for t in tk):
            common = (e, tk)
    return res, common, other


def namespaces(ctx):
    ctx.rule = 'namespace blocks are opened and closed in pairs'
    f = ctx.one('IDLExport::adaptNamespace')
    wh = ctx.where(f)
    text = 'the levels left are closed, then the levels entered are opened'
    outs = [o for o in ctx.run(f, opaque=opq(), merge=False) if o.kind not in ('throw', 'noreturn')]
    ctx.need(outs, 'no path of adaptNamespace ends normally')
    ns = f['params'][1]['n']
    for o in outs:
        ls = Lists(o, ns)
        same = any(a[0] == 'eq' and v and 'm_namespace' in fields_in(a[1]) and ('sym', ns) in list(subs_of(a[1])) and len(lin_parts(a[1])[1]) == 2 for a, v in o.facts.items())
        bl, common, other = brace_loops(o, ls)
        straight = braces(o.events)
        stored = [e for e in o.events if e.k in ('store', 'call') and (e.d.get('loc') is not None and e.d['loc'][:1] == ('fld',) and e.d['loc'][2] == 'm_namespace' or e.k == 'call' and e.obj is not None and last(e.qn) in ('operator=', 'assign', 'swap') and mentions_field(e.obj, 'm_namespace'))]
        if same and not bl:
            ctx.check(straight == (0, 0), wh, 'nothing is opened or closed when the namespace stays', 'braces are written on the path for an unchanged namespace')
            continue
        if straight != (0, 0):
            ctx.unk(wh, text, 'braces are written outside of loops')
            continue
        if other:
            ctx.bad(ctx.at(other[0]), text, other[1])
            continue
        cl = [x for x in bl if x[1] == 'close']; op = [x for x in bl if x[1] == 'open']
        if not bl and not any(e.k in ('loop', 'loop0') for e in o.events):
            ctx.bad(wh, text, 'a path for another namespace neither closes nor opens any level')
            continue
        dead = [e for e in o.events if e.k == 'loop0' and not [i for i in e.iters if i.kind == 'continue']]
        if len(cl) <= 1 and len(op) <= 1 and len(cl) + len(op) + len(dead) >= 2 and dead:
            ctx.ok(wh, text + ' (one of the lists is empty on the path)')
            continue
        for what, xs in (('close', cl), ('open', op)):
            r = 'old' if what == 'close' else 'new'
            if not xs and len(cl) + len(op) + len(dead) == 1 and not any(a[0] == 'eq' and v and ls.role(a[1]) == r and sized(a[1]) for a, v in o.facts.items()):
                ctx.bad(wh, text, 'no level is %s on a path on which there may be some to %s' % (what + ('d' if what == 'close' else 'ed'), what))
        if len(cl) != 1 or len(op) != 1:
            ctx.unk(wh, text, '%d closing and %d opening loops on a path' % (len(cl), len(op)))
            continue
        for e, what, r, why in cl + op:
            want = 'old' if what == 'close' else 'new'
            lab = 'one level is %s for each name left' % ('closed' if what == 'close' else 'opened')
            if r == want and not why:
                ctx.ok(ctx.at(e), lab)
                t = e.d.get('trip')
                if common and common[0].k == 'loop' and t is not None and sized(t) and not any(i.kind == 'break' for i in common[0].iters):
                    cid = common[0].d['id']
                    ctx.check(has_sub(t, lambda x: x[:2] in (('after', cid), ('X', cid))), ctx.at(e), 'names in common are not counted', 'the levels are counted with the names in common')
            elif e.k == 'loop0' and r is None:
                ctx.ok(ctx.at(e), lab + ' (none)')
            elif r is not None:
                ctx.bad(ctx.at(e), lab, why or 'the loop runs over the names of the %s namespace' % ('current' if r == 'old' else 'new'))
            else:
                ctx.unk(ctx.at(e), lab, why)
        ctx.check(o.events.index(cl[0][0]) < o.events.index(op[0][0]), ctx.at(cl[0][0]), 'levels are closed before others are opened', 'levels are opened before those left are closed')
        if common:
            e, tk = common
            for i, t in zip([i for i in e.iters if i.kind == 'continue'], tk):
                ctx.check(None if t is None else t == {'old': 1, 'new': 1}, ctx.at(e), 'names in common are dropped from both lists', 'an iteration drops %s from the current and %s from the new namespace' % (t and t['old'], t and t['new']))
                eq = any(a[0] == 'eq' and v and not sized(a[1]) and {ls.role(x) for x, c in lin_parts(a[1])[1]} == {'old', 'new'} for a, v in i.facts.items())
                ctx.check(eq, ctx.at(e), 'names are dropped only if they are the same', 'an iteration drops names that are not known to be the same')
            first = o.events.index(e)
            ctx.check(first < min(o.events.index(cl[0][0]), o.events.index(op[0][0])), ctx.at(e), 'names in common are dropped first', 'levels are closed or opened before the names in common are known')
        good = [e for e in stored if (e.d.get('val') is not None and has_sub(e.val, lambda x: x == ('sym', ns))) or e.k == 'call' and any(has_sub(a, lambda x: x == ('sym', ns)) for a in e.args)]
        ctx.check(bool(good) and stored[-1] is good[-1], wh, 'the namespace entered is remembered', 'a path that changes the namespace does not remember which one was entered')

    g = ctx.one('IDLExport::end')
    wh = ctx.where(g)
    outs = [o for o in ctx.run(g, opaque=opq('adaptNamespace|generateTypedefs'), merge=False) if o.kind not in ('throw', 'noreturn')]
    ctx.need(outs, 'no path of IDLExport::end ends normally')
    text = 'every level that is still open is closed at the end'
    for o in outs:
        ls = Lists(o, None)
        bl, common, other = brace_loops(o, ls)
        tds = [k for k, e in enumerate(o.events) if e.k == 'call' and last(e.qn) in ('generateTypedefs', 'adaptNamespace')]
        back = [e for e in o.events if e.k == 'call' and last(e.qn) == 'adaptNamespace' and ('str', '/') in e.args]
        if not bl and back:
            ctx.ok(wh, text)
            continue
        if not bl:
            ctx.bad(wh, text, 'a path closes nothing')
            continue
        e, what, r, why = bl[-1]
        k = o.events.index(e)
        if other:
            ctx.bad(ctx.at(e), text, other[1])
        elif what == 'close' and r == 'old' and not why and len(bl) == 1:
            ctx.check(not tds or max(tds) < k, ctx.at(e), text, 'typedefs are written after the levels have been closed')
        elif r is not None and (why or what != 'close'):
            ctx.bad(ctx.at(e), text, why or 'levels are opened')
        elif e.k != 'loop0' or what != 'close':
            ctx.unk(ctx.at(e), text, why)
        # the number of levels is that of the namespace after the typedefs
        if tds:
            after = [x for x in o.events[:k] if x.k == 'call' and any('m_namespace' in fields_in(a) for a in x.args)]
            ctx.check(bool(after) and o.events.index(after[-1]) > max(tds) if after else None, ctx.at(e), 'the levels are counted after the typedefs have been written', 'the levels are counted before the typedefs, which can change the namespace, are written')


def writers(ctx):
    ctx.rule = 'the current namespace changes only with the blocks'
    P = ctx.P
    allowed = {'IDLExport::adaptNamespace', 'IDLExport::IDLExport'}
    n = 0
    for f in [x for fs in P.by_qn.values() for x in fs]:
        if f.get('cls') != 'IDLExport' or 'body' not in f:
            continue
        own = set()
        for x in walk_ast([f['body'], f.get('inits')]):
            t = None
            if x['k'] == 'asg':
                t = x['a']
            elif x['k'] == 'call' and (x.get('qn') or '').split('::')[-1] in ('operator=', 'assign', 'clear', 'swap', 'append', 'operator+=', 'push_back', 'erase'):
                t = x.get('obj') or (x.get('args') or [None])[0]
            if isinstance(t, dict) and t.get('k') == 'mem' and t.get('n') == 'm_namespace':
                own.add(x.get('line') or f['line'])
        if own:
            n += 1
            if f['qn'] in allowed:
                ctx.ok(ctx.where(f), 'm_namespace is assigned by %s' % f['n'])
            else:
                start = f['n'] == 'save' and len(f['params']) == 3
                ctx.check(True if start else None, ctx.where(f), 'm_namespace is assigned by %s, which starts an export' % f['n'], 'assigned in a function that is not known to start an export')
    ctx.need(n, 'no assignment to m_namespace found')
    s = ctx.one('IDLExport::save', lambda g: len(g['params']) == 3)
    wh = ctx.where(s)
    for o in ctx.run(s, opaque=lambda g: g['qn'].startswith('Typelib::Exporter') or 'config_set' in (g.get('cls') or ''), merge=False):
        evs = o.events
        base = [k for k, e in enumerate(evs) if e.k == 'call' and last(e.qn) == 'save']
        if not base:
            if o.kind not in ('throw', 'noreturn'):
                ctx.bad(wh, 'an export starts afresh', 'a path ends normally without exporting')
            continue
        for fld in ('m_namespace', 'm_indent', 'm_typedefs', 'm_exported_typedefs'):
            hit = any((e.k == 'store' and e.d.get('loc') is not None and e.loc[:1] == ('fld',) and e.loc[2] == fld) or (e.k == 'call' and e.obj is not None and last(e.qn) in ('clear', 'operator=', 'assign', 'swap') and mentions_field(e.obj, fld)) for e in evs[:base[0]])
            ctx.check(hit, wh, '%s is reset when an export starts' % fld, 'a path starts an export with %s as a previous export left it' % fld)
        ns = [e.val for e in evs[:base[0]] if e.k == 'store' and e.d.get('loc') is not None and e.loc[:1] == ('fld',) and e.loc[2] == 'm_namespace']
        if ns:
            ctx.check(True if ns[-1] in (('str', '/'), ('str', '')) else None, wh, 'an export starts in the root namespace', 'm_namespace is set to %s' % show(ns[-1]))
    # generateTypedefs writes each typedef in its own namespace
    t = ctx.one('IDLExport::generateTypedefs')
    for o in ctx.run(t, opaque=opq('adaptNamespace'), merge=False):
        for e in o.events:
            if e.k != 'loop' or not any(x.k == 'call' and last(x.qn) == 'adaptNamespace' for i in e.iters for x, _o, _l in eventsof([i], ('call',))):
                if e.k == 'loop' and any(last(x.qn) == 'operator<<' for i in e.iters for x, _o, _l in eventsof([i], ('call',))):
                    ctx.bad(ctx.at(e), 'typedefs are written in their namespace', 'typedefs are written in a loop that never changes to their namespace')
                continue
            for i in e.iters:
                if i.kind != 'continue':
                    ctx.check(i.kind in ('throw', 'noreturn'), ctx.at(e), 'the typedefs of every namespace are written', 'the loop over the namespaces can end early')
                    continue
                ad = [k for k, x in enumerate(i.events) if x.k == 'call' and last(x.qn) == 'adaptNamespace']
                wr = [k for k, x in enumerate(i.events) if x.k == 'call' and last(x.qn) == 'operator<<' or x.k in ('loop', 'loop0') and any(last(y.qn) == 'operator<<' for y, _o, _l in eventsof(x.iters, ('call',)))]
                if wr:
                    ctx.check(bool(ad) and min(ad) < min(wr), ctx.at(e), 'the namespace is entered before its typedefs are written', 'an iteration writes typedefs without having entered their namespace')
