"""E02/E03: the type library reader, against what the writer emits and against
malformed documents.

Both sides are followed on every path. The writer gives, for each element, the
attributes written on each path and what each stands for (see xmlout); the
reader gives, for each element it knows, the attributes it asks for, whether it
can do without them (an exceptional edge that is caught), what they end up in,
and the child elements it takes.
"""
import re
from core import *
from rules.owners import last
from rules.xmlout import document, unwrap, CDATA, cdata_fact, STR

GETTERS = ('getStringAttribute', 'getAttribute')
MISSING = 'Parsing::MissingAttribute'

# attributes without which an element means nothing
REQUIRED = {
    'alias': {'name', 'source'}, 'numeric': {'name', 'category', 'size'}, 'opaque': {'name', 'size'}, 'null': {'name'},
    'enum': {'name'}, 'compound': {'name', 'size'}, 'container': {'name', 'of', 'kind'},
    'compound/field': {'name', 'type', 'offset'}, 'enum/value': {'symbol', 'value'}, '*/metadata': {'key'},
}


def inlang(f):
    return (f.get('file') or '').startswith('lang/tlb/')


def lits(n):
    """string literals and function references of one entry of a table"""
    s = [x['v'] for x in walk_ast(n) if x['k'] == 'str']
    f = [x['d'] for x in walk_ast(n) if x['k'] == 'ref' and x.get('dk') == 'func']
    c = [x['v'] for x in walk_ast(n) if x['k'] == 'int' and 'v' in x]
    return s, f, c


def tables(P, kind):
    """{global: {name: entry}} in the order of lookup, up to the first entry without a name"""
    res = {}
    for qn, g in P.globals.items():
        if not inlang(g) or not g.get('init') or g['init'].get('k') != 'initlist':
            continue
        t = {}
        for e in g['init']['a']:
            s, f, c = lits(e)
            if not s:
                break
            v = f[0] if kind == 'func' and f else int(c[0]) if kind == 'const' and c and not f else None
            if v is not None and s[0] not in t:
                t[s[0]] = v
        if t:
            res[qn] = t
    return res


def att(t):
    """(attribute, node) if the term is what was asked for with a getter"""
    if isinstance(t, tuple) and t[0] == 'res' and last(t[2]).split('<')[0] in GETTERS and len(t) >= 5 and t[4][:1] == ('str',):
        return t[4][1], t[3]
    return None


def atts(t):
    r = []

    def go(x):
        if isinstance(x, tuple):
            a = att(x)
            if a:
                r.append(a[0])
                return
            for y in x:
                go(y)
    go(t)
    return r


def names_table(a, t):
    """the argument is the table itself (or where it starts), not a value that was found with it"""
    while isinstance(a, tuple) and a:
        if a[:1] == ('glob',):
            return a[1] == t
        if a[0] == 'fld' and a[2] != '[]' or a[0] not in ('fld', 'addr', 'refto', 'ptr', 'rd', 'deref', 'refloc', 'elem') or len(a) < 2:
            return False
        a = a[1]
    return False


def pairs(e, P):
    """members set by an event"""
    loc, v = e.d.get('loc'), e.d.get('val')
    if isinstance(loc, tuple) and loc and loc[0] == 'fld':
        yield loc[2], v
    for x in (v,) + tuple(e.d.get('args') or ()):
        if isinstance(x, tuple) and x[:1] == ('struct',) and isinstance(x[1], tuple):
            for fl in x[1]:
                if isinstance(fl, tuple) and len(fl) == 2 and isinstance(fl[0], str):
                    yield fl
    for g in P.by_qn.get(e.qn, ()) if e.k == 'ctor' else ():
        if len(g['params']) != len(e.d.get('args') or ()):
            continue
        for i in g.get('inits') or ():
            refs = {x.get('d') for x in walk_ast(i['e']) if x['k'] == 'ref'} if isinstance(i.get('e'), dict) else set()
            for p, v in zip(g['params'], e.d.get('args') or ()):
                if refs == {p['d']} and i.get('f'):
                    yield i['f'], v


class Reader:
    def __init__(self, ctx):
        self.ctx, self.P = ctx, ctx.P
        self.memo = {}
        self.fields = {}
        self.tables = tables(self.P, 'func')
        ctx.need(self.tables, 'the table of element names was not found')
        ctx.need(len(self.tables) == 1, 'more than one table of element names')
        self.table = list(self.tables.items())[0]
        self.vocab = tables(self.P, 'const')
        # the function that looks at the element itself
        self.top = [f for f in self.P.functions.values() if inlang(f) and 'body' in f and any(x['k'] == 'ref' and x.get('qn') == self.table[0] for x in walk_ast(f['body']))]
        ctx.need(self.top, 'nothing uses the table of element names')
        # a part of it that was written as a function of its own is judged with the rest
        self.parts = set()
        work, self.top = self.top, []
        while work:
            f = work.pop()
            cs = [g for k, g in self.P.functions.items() if 'body' in g and any(x['k'] == 'call' and x.get('fn') == f['key'] for x in walk_ast(g['body']))]
            looped = any(x['k'] == 'call' and x.get('fn') == f['key'] for g in cs for l in walk_ast(g['body']) if l['k'] in ('for', 'while', 'do', 'rfor') for x in walk_ast(l))
            if cs and not looped and f['key'] not in self.parts and part_of_callers(self.P, f):
                self.parts.add(f['key'])
                work += cs
            elif f not in self.top:
                self.top.append(f)
        # attributes that are read before the loaders are called, by the member they are kept in
        self.held = {}
        for f in self.top:
            outs = ctx.run(f, opaque=lambda g: g['key'] != f['key'] and self.opaque(g), merge=False)
            for e, o, ls in eventsof(outs, ('init', 'store', 'ctor')):
                for m, v in pairs(e, self.P):
                    a = att(v)
                    if a and self.held.setdefault(m, a[0]) != a[0]:
                        self.held[m] = None
        self.topinfo = [self.info(f) for f in self.top]

    def opaque(self, g):
        return g['key'] not in self.parts and self.opaque_(g)

    def opaque_(self, g):
        return g['n'] in GETTERS or 'getCategory' in g['n'] or 'MetaData' in g['qn'] or g.get('cls') in ('Typelib::Registry', 'Typelib::Container', 'Typelib::RegistryIterator') or inlang(g) and self.takes_node(g) and g['n'] != 'insert' or g['n'] in ('build', 'alias')

    def takes_node(self, g):
        return any('_xmlNode' in p['t'] or 'TypeNode' in p['t'] for p in g['params'])

    def node_of(self, t, f):
        """'' for the element the function was given, ('child', name) or None"""
        u = unwrap(t)
        while isinstance(u, tuple) and u and u[0] in ('fld', 'rd', 'deref', 'addr', 'refto'):
            if u[0] == 'fld' and u[2] == 'name':
                return None
            u = u[1]
        if isinstance(u, tuple) and u and u[0] == 'sym' and any(p['n'] == u[1] for p in f['params']):
            return ''
        return None

    def node_arg(self, t, f):
        while isinstance(t, tuple) and t and t[0] in ('fld', 'rd', 'deref', 'addr', 'refto'):
            t = t[1]
        return isinstance(t, tuple) and t[:1] == ('sym',) and any(p['n'] == t[1] and 'TypeNode' in p['t'] for p in f['params'])

    def child(self, t, facts):
        """the name of the child element the facts give for this node"""
        u = unwrap(t)
        for a, v in facts.items():
            if a[0] != 'eq' or v is not True:
                continue
            for x, k in lin_parts(a[1])[1]:
                if isinstance(x, tuple) and x[0] in ('res', 'pure') and any(isinstance(y, str) and last(y) in ('xmlStrcmp', 'xmlStrEqual', 'strcmp') for y in x[1:3]) and has_sub(x, lambda y: y == u or y == t):
                    s = [y for y in x if isinstance(y, tuple) and y[:1] == ('str',)]
                    if s:
                        return s[0][1]
        return None

    def info(self, f):
        """{'' or child path: {attribute: {'need': bool, 'fields': set, ...}}}, plus flags"""
        if f['key'] in self.memo:
            return self.memo[f['key']]
        res = {'atts': {}, 'returns': False, 'children': set(), 'vocab': {}, 'new': set(), 'each': {}, 'always': None, 'alias': []}
        self.memo[f['key']] = res
        P = self.P
        self.ctx.functions.add(f['qn'])
        reads = {g['qn'] for g in P.functions.values() if inlang(g) and 'body' in g and g['key'] != f['key'] and self.takes_node(g) and self.opaque(g)}
        may = lambda e, qn: MISSING if last(qn or '').split('<')[0] in GETTERS or qn in reads else None
        outs = self.ctx.run(f, opaque=lambda g: g['key'] != f['key'] and self.opaque(g), merge=False, may_throw=may)
        caught = {e.d.get('key') for e, o, ls in eventsof(outs, ('callthrow',)) if o.kind != 'throw'}

        def context(t, e):
            n = self.node_of(t, f)
            if n == '':
                return ''
            c = self.child(t, e.facts)
            return c if c else '?'
        for e, o, ls in eventsof(outs, ('call', 'callthrow', 'init', 'store')):
            if e.k in ('call', 'callthrow'):
                n = last(e.qn).split('<')[0]
                if n in GETTERS and len(e.args) > 1 and e.args[1][:1] == ('str',):
                    c = context(e.args[0], e)
                    a = res['atts'].setdefault(c, {}).setdefault(e.args[1][1], {'need': False, 'optional': False, 'fields': set(), 'line': e.line})
                    if c not in ('', '?'):
                        res['children'].add(c)
                    if e.k == 'callthrow':
                        if o.kind == 'throw':
                            a['need'] = True
                        else:
                            a['optional'] = True
                elif e.k == 'call':
                    g = P.functions.get(e.d.get('key'))
                    if g is not None and inlang(g) and 'body' in g and g['key'] != f['key'] and self.takes_node(g) and self.opaque(g):
                        i = [i for i, p in enumerate(g['params']) if '_xmlNode' in p['t'] or 'TypeNode' in p['t']][0]
                        c = context(e.args[i], e)
                        sub = self.info(g)
                        if c not in ('', '?'):
                            res['children'].add(c)
                        for k, v in sub['atts'].items():
                            key = '/'.join(x for x in (c, k) if x)
                            for an, av in v.items():
                                b = res['atts'].setdefault(key, {}).setdefault(an, {'need': False, 'optional': False, 'fields': set(), 'line': av['line']})
                                b['need'] |= av['need']; b['optional'] |= av['optional'] or g['key'] in caught; b['fields'] |= av['fields']
                        for k in sub['children']:
                            res['children'].add('/'.join(x for x in (c, k) if x))
                    if e.qn == 'Typelib::Registry::alias' or n == 'alias':
                        res['alias'].append((e, o))
                    tb = [t for a in e.args for t in self.vocab if names_table(a, t)]
                    if tb:
                        for a in e.args:
                            for x in atts(a):
                                res['vocab'].setdefault(x, (tb[0], []))[1].append(e.d.get('res'))
        for e, o, ls in eventsof(outs, ('loop', 'loop0')):
            asked = []
            for i in e.iters:
                got = set()
                names = {s[1] for t, v, ex in equalities(i.facts) if v and ex for s in t if isinstance(s, tuple) and s[:1] == ('str',)}
                for x in i.events:
                    if x.k == 'call' and last(x.qn).split('<')[0] in GETTERS and len(x.args) > 1 and x.args[1][:1] == ('str',):
                        got.add((context(x.args[0], x), x.args[1][1]))
                    g = P.functions.get(x.d.get('key')) if x.k == 'call' else None
                    if g is not None and g['key'] in self.memo and g['key'] != f['key'] and self.memo[g['key']]['always']:
                        j = [j for j, p in enumerate(g['params']) if '_xmlNode' in p['t'] or 'TypeNode' in p['t']][0]
                        got |= {(context(x.args[j], x), a) for a in self.memo[g['key']]['always']}
                asked.append((i, names, got))
            for c, a in {y for i, names, got in asked for y in got}:
                if c not in ('', '?'):
                    ok = all((c, a) in got for i, names, got in asked if i.kind == 'continue' and c in names)
                    res['each'][c, a] = res['each'].get((c, a), True) and ok
        for o in outs:
            if o.kind != 'return':
                continue
            res['returns'] = True
            got = set()
            for e in o.events:
                if e.k == 'call' and last(e.qn).split('<')[0] in GETTERS and len(e.args) > 1 and e.args[1][:1] == ('str',) and context(e.args[0], e) == '':
                    got.add(e.args[1][1])
                g = P.functions.get(e.d.get('key')) if e.k == 'call' else None
                if g is not None and g['key'] != f['key'] and self.memo.get(g['key'], {}).get('always'):
                    j = [j for j, p in enumerate(g['params']) if '_xmlNode' in p['t'] or 'TypeNode' in p['t']]
                    if j and context(e.args[j[0]], e) == '':
                        got |= self.memo[g['key']]['always']
            res['always'] = got if res['always'] is None else res['always'] & got
        res['new'] = {e.d.get('ty') for e, o, ls in eventsof(outs, ('new',)) if e.d.get('ty') in P.all_subs('Typelib::Type')}
        # what the values end up in
        for e, o, ls in eventsof(outs, ('init', 'store')):
            loc, v = e.d['loc'], e.d.get('val')
            if not (isinstance(loc, tuple) and loc and loc[0] == 'fld') or v is None:
                continue
            x = v
            voc = None
            if x[:1] == ('fldv',) and isinstance(x[1], tuple) and x[1][:1] == ('res',):
                voc = [a for a, (t, r) in res['vocab'].items() if x[1] in r]
            a = att(x)
            names = [(a[0], context(a[1], e))] if a else [(n, '') for n in voc or []]
            held = chain(x)[-1:]
            if not names and held and isinstance(x, tuple) and self.node_arg(x, f) and held[0] in self.held:
                res['atts'].setdefault('', {}).setdefault(self.held[held[0]], {'need': False, 'optional': False, 'fields': set(), 'line': e.line})['fields'].add(loc[2])
            for n, c in names:
                if n in res['atts'].get(c, {}):
                    res['atts'][c][n]['fields'].add(loc[2])
                elif n in res['atts'].get('?', {}):
                    res['atts']['?'][n]['fields'].add(loc[2])
        for e, o, ls in eventsof(outs, ('call',)):
            # fields and symbols
            for a in e.args:
                if isinstance(a, tuple) and a[:1] == ('struct',) and isinstance(a[1], tuple):
                    for fl in a[1]:
                        if isinstance(fl, tuple) and len(fl) == 2 and isinstance(fl[0], str):
                            x = att(fl[1])
                            for n, c in ([(x[0], context(x[1], e))] if x else []):
                                if n in res['atts'].get(c, {}):
                                    res['atts'][c][n]['fields'].add(fl[0])
                            if not x and has_sub(fl[1], lambda y: y[:1] == ('res',) and last(y[2]) == 'build'):
                                for n in atts(fl[1]):
                                    for c in res['atts']:
                                        if n in res['atts'][c]:
                                            res['atts'][c][n]['fields'].add(fl[0] + '.m_name')
        return res


def source(v):
    """fields a written attribute value comes from"""
    r = set()
    for k, t in v:
        if k == 'lit':
            continue
        args = t[3:] if t[0] == 'res' else t[2:] if t[0] == 'pure' else (t,)
        if t[0] not in ('res', 'pure'):
            args = (t,)
        for a in args:
            names = chain(a)
            if names:
                r.add('.'.join(names[-2:]) if names[-1] == 'm_name' and len(names) > 1 and names[-2] in ('m_type', 'm_indirection') else names[-1])
    return r


def chain(t):
    """the members on the way to a value, outermost object first"""
    r = []
    while isinstance(t, tuple) and t:
        if t[0] == 'fld':
            r.append(t[2]); t = t[1]
        elif t[0] in ('rd', 'deref', 'refto', 'addr', 'ptr', 'fldv'):
            if t[0] == 'fldv':
                r.append(t[2])
            t = t[1]
        elif t[0] in ('refloc',):
            t = t[1]
        else:
            break
    return r[::-1]


def reader(ctx):
    if getattr(ctx.P, '_tlbreader', None) and ctx.P._tlbreader[0] is ctx:
        return ctx.P._tlbreader[1]
    r = Reader(ctx)
    ctx.P._tlbreader = (ctx, r)
    return r


def infos(ctx):
    """(element -> info of its reader merged with what is read of every element, writer document)"""
    R = reader(ctx)
    doc = document(ctx)
    res = {}
    P = ctx.P
    generic = {'atts': {}, 'children': set()}
    for i in R.topinfo:
        for c, v in i['atts'].items():
            generic['atts'].setdefault(c, {}).update(v)
        generic['children'] |= i['children']
    # what is read by the function that calls the loaders, for elements without one of their own
    shared = {'atts': {}, 'children': set()}
    for f in P.functions.values():
        if inlang(f) and 'body' in f and any(x['k'] == 'call' and not x.get('qn') and 'loader' in str(x)[:600] for x in walk_ast(f['body'])):
            i = R.info(f)
            for c, v in i['atts'].items():
                for an, av in v.items():
                    shared['atts'].setdefault(c, {})[an] = av
            shared['children'] |= {c.split('/')[-1] for c in i['children']}
    for name, key in R.table[1].items():
        f = P.functions.get(key)
        if f is None or 'body' not in f:
            continue
        i = R.info(f)
        m = {'f': f, 'info': i, 'atts': {c: dict(v) for c, v in i['atts'].items()}, 'children': set(i['children']), 'returns': i['returns']}
        for c, v in generic['atts'].items():
            for k, x in v.items():
                own = m['atts'].setdefault(c, {}).get(k)
                m['atts'][c][k] = dict(x, fields=x['fields'] | (own['fields'] if own else set()), need=x['need'] or bool(own and own['need']))
        if not i['returns']:
            m['children'] |= shared['children']
        res[name] = m
    return R, doc, res


def own_words(ctx):
    ctx.rule = 'what is written can be read'
    R, doc, res = infos(ctx)
    P = ctx.P
    n = 0
    for stack, name, attrs, f, line, facts in doc.elements:
        if not stack:
            continue
        n += 1
        wh = ctx.where(f, line)
        path = stack[1:] + (name,)
        el = '/'.join(path)
        written = {a for a, _v in attrs}
        m = res.get(path[0])
        if m is None:
            ctx.bad(wh, 'the element %s has a reader' % path[0], 'it is not in %s' % R.table[0])
            continue
        ctx.ok(wh, 'the element %s has a reader' % path[0])
        if len(path) > 1:
            c = '/'.join(path[1:])
            if not ctx.check(c in m['children'], wh, 'the reader of %s reads %s' % (path[0], c), 'it never looks for such a child'):
                continue
        if len(path) == 1 and m['info']['new'] and f['params'] and f.get('n') == 'visit_':
            t = re.sub(r'\bconst\b|[&*]', '', f['params'][0]['t']).strip()
            t = next((x for x in P.records if x == t or x.endswith('::' + t)), None)
            if t:
                ctx.check(t in m['info']['new'], wh, 'the reader of %s makes the type it stands for' % el, 'it is written for %s and read as %s' % (t, '/'.join(sorted(m['info']['new']))))
        c = '/'.join(path[1:])
        want = m['atts'].get(c, {})
        for a, i in sorted(want.items()):
            if i['need'] and not i['optional']:
                ctx.check(a in written, wh, 'the attribute %s the reader of %s requires is written' % (a, el), 'a path writes the element without it')
        if m['returns']:
            for a in sorted(written):
                ctx.check(a in want, wh, 'the attribute %s of %s is read' % (a, el), 'the reader never asks for it')
        # what the attributes stand for
        for a, v in attrs:
            i = want.get(a)
            if not i or not i['fields'] or not m['returns']:
                continue
            s = source(v)
            if s and not (len(v) == 1 and v[0][0] == 'lit'):
                if not s & i['fields'] and all(x.startswith('m_') for x in s | i['fields']):
                    ctx.bad(wh, 'the attribute %s of %s is read into what it was written from' % (a, el), 'it is written from %s and read into %s' % ('/'.join(sorted(s)), '/'.join(sorted(i['fields']))))
                else:
                    ctx.ok(wh, 'the attribute %s of %s is read into what it was written from' % (a, el))
    ctx.need(n, 'no element is written')


def closed_words(ctx):
    ctx.rule = 'closed vocabularies are the same on both sides'
    R, doc, res = infos(ctx)
    n = 0
    for stack, name, attrs, f, line, facts in doc.elements:
        if len(stack) != 1 or name not in res:
            continue
        voc = res[name]['info']['vocab']
        for a, v in attrs:
            if a not in voc:
                continue
            n += 1
            t = R.vocab[voc[a][0]]
            wh = ctx.where(f, line)
            what = 'the value of %s of %s is one the reader knows' % (a, name)
            if len(v) != 1 or v[0][0] != 'lit':
                ctx.unk(wh, what, 'the value is not a literal')
                continue
            if not ctx.check(v[0][1] in t, wh, what, '%r is not in %s' % (v[0][1], voc[a][0])):
                continue
            const = t[v[0][1]]
            flds = res[name]['atts'].get('', {}).get(a, {}).get('fields') or {'m_category'}
            names = {x.split('@')[0] for x in flds}
            known, out = None, set()
            for fa, val in facts.items():
                if fa[0] != 'eq':
                    continue
                c, ts = lin_parts(fa[1])
                if len(ts) == 1 and abs(ts[0][1]) == 1 and any(x.split('@')[0] in names for x in chain(ts[0][0])) and (-c * ts[0][1]) in t.values():
                    if val:
                        known = -c * ts[0][1]
                    else:
                        out.add(-c * ts[0][1])
            if known is None and len(set(t.values()) - out) == 1:
                known = (set(t.values()) - out).pop()
            if known is None:
                ctx.unk(wh, 'the value of %s means the same to the reader' % a, 'the path does not say for which value it is written')
            else:
                ctx.check(known == const, wh, 'the value %r of %s means the same to the reader' % (v[0][1], a), 'it is written for %s and read as %s' % (known, const))
    ctx.need(n, 'no attribute with a closed vocabulary is written')


def aliases(ctx):
    ctx.rule = 'an alias is read as it is written'
    R, doc, res = infos(ctx)
    P = ctx.P
    n = 0
    for stack, name, attrs, f, line, facts in doc.elements:
        m = res.get(name) if len(stack) == 1 else None
        if not m or not any(v is False and a[0] == 'eq' and has_sub(a, lambda x: x[0] in ('res', 'pure') and any(isinstance(y, str) and y.endswith('RegistryIterator::isAlias') for y in x[1:3])) for a, v in facts.items()):
            continue
        f2 = m['f']
        outs = ctx.run(f2, opaque=lambda g: g['key'] != f2['key'] and (g['n'] in GETTERS or g['n'] == 'build' or g.get('cls') == 'Typelib::Registry'), merge=False)
        for o in outs:
            if o.kind != 'return':
                continue
            calls = [e for e, _o, _l in eventsof([o], ('call',)) if e.qn == 'Typelib::Registry::alias']
            for e in calls:
                base = atts(e.args[0]) or ['name' if chain(e.args[0])[-1:] == ['name'] else '?']
                new = atts(e.args[1]) or ['name' if chain(e.args[1])[-1:] == ['name'] else '?']
                d = dict(attrs)
                if base[0] not in d or new[0] not in d:
                    continue
                n += 1
                wh = ctx.where(f, line)
                it = lambda v: any(has_sub(t, lambda x: x[0] in ('res', 'pure') and any(isinstance(y, str) and y.endswith('RegistryIterator::getName') for y in x[1:3])) for k, t in v if k != 'lit')
                ty = lambda v: any(has_sub(t, lambda x: x[:1] == ('fld',) and x[2] == 'm_name') for k, t in v if k != 'lit') and not it(v)
                ctx.check(ty(d[base[0]]), wh, 'the attribute %s, which is read as the type of an alias, is written from it' % base[0], 'it is written from something else')
                ctx.check(it(d[new[0]]), wh, 'the attribute %s, which is read as the name of an alias, is written from it' % new[0], 'it is written from something else')
            ctx.check(bool(calls), ctx.where(f2), 'reading an alias enters it', 'a path ends normally without doing so')
    if not n:
        ctx.unk('lang/tlb', 'aliases', 'how they are read was not recognised')


def values_read(ctx):
    ctx.rule = 'values are read from where they are written'
    R, doc, res = infos(ctx)
    P = ctx.P
    only = [f for f in P.functions.values() if inlang(f) and 'body' in f and any(x['k'] == 'call' and x.get('qn') == 'Typelib::MetaData::add' for x in walk_ast(f['body']))]
    sections = any(any(x['k'] == 'ref' and 'CDATA' in (x.get('n') or '') or x['k'] == 'int' and 'CDATA' in (x.get('n') or '') for x in walk_ast(f['body'])) for f in only)
    for stack, mode, f, line in doc.texts:
        wh = ctx.where(f, line)
        if stack and stack[-1] != 'metadata':
            continue
        elif sections:
            ctx.check(mode == 'cdata', wh, 'text is written where the reader looks for it', 'the reader only looks at CDATA sections')
    ctx.need(doc.texts, 'no text is written')



# ---------------------------------------------------------------- E03

def importer(ctx):
    """functions of the reader: what is reachable from the importer's load functions, within lang/tlb"""
    P = ctx.P
    todo = [f for f in P.functions.values() if inlang(f) and 'body' in f and f['n'] == 'load' and f.get('cls') and 'Typelib::Importer' in base_names(P, f['cls'])]
    ctx.need(todo, 'the importer was not found')
    tops, seen = list(todo), {f['key'] for f in todo}
    while todo:
        f = todo.pop()
        roots = [f['body']] + [i['e'] for i in f.get('inits') or () if isinstance(i.get('e'), dict)]
        for r in roots:
            for x in walk_ast(r):
                ks = [x.get('fn')] if x['k'] in ('call', 'ctor') else [x.get('d')] if x['k'] == 'ref' and x.get('dk') == 'func' else []
                if x['k'] == 'ref' and x.get('dk') != 'func' and x.get('qn') in P.globals and P.globals[x['qn']].get('init'):
                    ks += [y['d'] for y in walk_ast(P.globals[x['qn']]['init']) if y['k'] == 'ref' and y.get('dk') == 'func']
                for k in ks:
                    g = P.functions.get(k)
                    if g and inlang(g) and 'body' in g and g['key'] not in seen:
                        seen.add(g['key']); todo.append(g)
    return tops, [P.functions[k] for k in seen]


def can_throw(P, key, memo):
    """may a call of the function raise something other than for lack of memory?"""
    if key in memo:
        return memo[key]
    f = P.functions.get(key)
    if f is None or 'body' not in f and not f.get('inits'):
        return not (f and (f.get('noexcept') or f.get('implicit')))
    if f.get('noexcept') is True or f.get('dtor'):
        return False
    memo[key] = False
    res = False
    for r in [f['body']] * ('body' in f) + [i['e'] for i in f.get('inits') or () if isinstance(i.get('e'), dict)]:
        for x in walk_ast(r):
            if x['k'] in ('throw', 'new', 'dyncast'):
                res = True
            elif x['k'] in ('call', 'ctor'):
                if not x.get('fn') or not x.get('qn'):
                    res = True
                elif x.get('repo'):
                    res |= can_throw(P, x['fn'], memo)
                elif '::' in x['qn']:
                    res = True
    memo[key] = res
    return res


def thrower(P):
    memo = {}

    def may(e, qn):
        if e['k'] == 'call' and not e.get('fn'):
            names = {x.get('qn') or x.get('n') for x in walk_ast(e)}
            return None if 'xmlFree' in names else '?'
        if not e.get('repo'):
            return None
        return '?' if can_throw(P, e.get('fn'), memo) else None
    return may


def track(o, p, state, out, line):
    """the states a type object goes through on one path: (held by a smart pointer?, in the registry?)"""
    for e in o.events:
        if e.k == 'own' and e.ptr == p:
            state['held'] = True
        elif e.k == 'release' and e.ptr == p:
            state['held'] = False
        elif e.k == 'delete' and e.ptr == p:
            if state['freed']:
                out.append((e, 'it is destroyed twice'))
            state['freed'] = True; state['held'] = False
        elif e.k == 'call' and last(e.qn) == 'add' and e.d.get('cls') != '' and e.qn == 'Typelib::Registry::add' and p in e.args:
            state['reg'] = True
        elif e.k == 'store' and e.d.get('val') == p and isinstance(e.d.get('loc'), tuple) and e.d['loc'][:1] != ('var',):
            state['kept'] = True
        elif e.k in ('loop', 'loop0') and any(x.k in ('own', 'release', 'delete') and x.ptr == p or x.k == 'call' and x.qn == 'Typelib::Registry::add' and p in x.args for x, _o, _l in eventsof(e.iters)):
            state['loop'] = True
    return state


def ownership(ctx):
    ctx.rule = 'types under construction are released'
    P = ctx.P
    R = reader(ctx)
    tops, fs = importer(ctx)
    types = P.all_subs('Typelib::Type')
    called = {x.get('fn') for f in fs for x in walk_ast(f['body']) if x['k'] in ('call', 'ctor')}

    def stop(g):
        return g['n'] in GETTERS or 'getCategory' in g['n'] or g.get('cls') in ('Typelib::Registry', 'Typelib::Container', 'Typelib::MetaData') or g['n'] in ('build', 'loadMetaData') \
            or 'Typelib::Type' in base_names(P, g.get('cls') or '') and not g.get('ctor') and g['n'] != last(g.get('cls') or '')
    n = 0
    for f in sorted(fs, key=lambda f: f['key']):
        if f['key'] in called:
            continue
        outs = ctx.run(f, opaque=lambda g: g['key'] != f['key'] and stop(g), merge=False, may_throw=thrower(P))
        ptrs = {}
        for e, o, ls in eventsof(outs, ('new',)):
            if e.d.get('ty') in types:
                ptrs.setdefault((e.ptr, ls[-1].d['id'] if ls else None), (e, ls))
        for (p, lid), (e0, ls) in sorted(ptrs.items(), key=lambda x: str(x[0])):
            n += 1
            wh = ctx.where(f, e0.line)
            what = 'the %s being read is in the registry or destroyed in the end, and not both' % last(e0.d['ty'])
            if lid is None:
                paths = [o for o in outs if any(x.k == 'new' and x.ptr == p for x in o.events)]
            else:
                paths = [i for i in ls[-1].iters if any(x.k == 'new' and x.ptr == p for x in i.events)]
            bad, unk = [], []
            for o in paths:
                err = []
                s = track(o, p, {'held': False, 'reg': False, 'freed': False, 'kept': False, 'loop': False}, err, 0)
                how = 'ends with an exception' if o.kind == 'throw' else 'ends normally'
                at = [x.line for x in o.events if x.k == 'callthrow' or x.k == 'throw'][-1:]
                how += ' (line %d)' % at[0] if o.kind == 'throw' and at else ''
                if s['loop'] or s['kept'] and not s['reg'] and not s['held'] and not s['freed'] or o.kind == 'return' and not s['held'] and not s['reg'] and not s['freed'] and o.val == p and not f['ret'].startswith('Typelib::Type const') and f['key'] not in R.table[1].values():
                    unk.append('who owns it was not recognised')
                elif err:
                    bad.append(err[0][1])
                elif s['reg'] and (s['held'] or s['freed']):
                    bad.append('a path that %s destroys it although the registry holds it' % how)
                elif not s['reg'] and not s['held'] and not s['freed']:
                    bad.append('a path that %s leaves it behind' % how)
            if bad:
                ctx.bad(wh, what, bad[0])
            elif unk:
                ctx.unk(wh, what, unk[0])
            else:
                ctx.ok(wh, what)
    ctx.need(n, 'no type is made by the reader')


PARSERS = {'xmlParseMemory', 'xmlParseDoc', 'xmlParseFile', 'xmlReadMemory', 'xmlReadDoc', 'xmlReadFile', 'xmlReadIO', 'xmlReadFd', 'xmlCtxtReadMemory', 'xmlCtxtReadDoc'}


def frees(e, name):
    """what a call of a release function gets"""
    if e.k != 'call':
        return None
    if last(e.qn or '') == name:
        return e.args[0] if e.args else None
    if name == 'xmlFree' and isinstance(e.d.get('obj'), tuple) and has_sub(e.d['obj'], lambda x: x[:1] == ('glob',) and x[1] == 'xmlFree'):
        return e.args[0] if e.args else None
    return None


def cleans(P, free):
    """classes whose destructor releases what they hold"""
    c = P.__dict__.setdefault('_cleans', {})
    if free not in c:
        c[free] = {f['cls'] for f in P.functions.values() if f.get('dtor') and 'body' in f and any(x['k'] == 'call' and (last(x.get('qn') or '') == free or free == 'xmlFree' and not x.get('qn') and any(y.get('n') == free for y in walk_ast(x))) for x in walk_ast(f['body']))}
    return c[free]


def released(ctx, f, outs, is_src, free, what, nullbad):
    """every non-null result of a source is freed once on every path, and not used afterwards"""
    n = 0
    for o in outs:
        for e, oo, ls in eventsof([o], ('call',)):
            if not is_src(e) or e.d.get('res') is None:
                continue
            n += 1
            r = e.res
            same = lambda t: t == r or isinstance(t, tuple) and t and (unwrap(t) == r)
            paths = [o] if not ls else [i for i in ls[-1].iters if any(x is e for x in i.events)]
            for q in paths:
                facts = q.facts if q.facts is not None else {}
                null = any(a[0] == 'eq' and lin_parts(a[1]) == (0, ((r, 1),)) and v is True or a[0] == 'eq' and list(lin_parts(a[1])[1])[:1] == [(r, 1)] and lin_parts(a[1])[0] == 0 and v is True for a, v in facts.items())
                wh = ctx.where(f, e.line)
                guarded = [x for x in q.events if x.k == 'decl' and same(x.d.get('val')) and '_ptr<' in (x.d.get('ty') or '')]
                after, freed, bad = False, 0, None
                for x in q.events:
                    if x is e:
                        after = True
                        continue
                    if not after:
                        continue
                    t = frees(x, free)
                    if x.k == 'dtor' and x.d.get('ty') in cleans(ctx.P, free) and isinstance(x.d.get('val'), tuple) and has_sub(x.d['val'], same):
                        t = r
                    if t is not None and same(t):
                        freed += 1
                        continue
                    if freed and bad is None and x.k == 'decl' and same(x.d.get('val')) and 'basic_string' in (x.d.get('ty') or ''):
                        bad = 'it is used after it was released (line %d)' % x.line
                    if freed and bad is None and x.k in ('call', 'ctor', 'callthrow') and any(isinstance(a, tuple) and has_sub(a, same) for a in x.d.get('args') or ()):
                        bad = 'it is used after it was released (line %d)' % x.line
                hid = [x for x in q.events if x.k in ('loop', 'loop0') and any(frees(y, free) is not None for y, _o, _l in eventsof(x.iters))]
                d = [x for x in q.events if x.k in ('dtor', 'decl', 'ctor') and x.k != 'decl' and any(isinstance(a, tuple) and has_sub(a, same) for a in (x.d.get('val'),) + tuple(x.d.get('args') or ()))]
                how = 'an exception' if q.kind == 'throw' else 'a normal return'
                if null:
                    if freed and free != 'xmlFreeDoc':
                        bad = bad or None
                    if nullbad and q.kind not in ('throw',):
                        ctx.bad(wh, what, 'a path goes on although there was none')
                    continue
                if bad:
                    ctx.bad(wh, what, bad)
                elif freed == 1:
                    ctx.ok(wh, what)
                elif freed > 1:
                    ctx.bad(wh, what, 'a path to %s releases it twice' % how)
                elif guarded or hid or [x for x in d if x.k == 'ctor' and not sq(x.qn).startswith('std::basic_string')]:
                    ctx.unk(wh, what, 'something else may release it')
                else:
                    ctx.bad(wh, what, 'a path to %s does not release it' % how)
    return n


def buffers(ctx):
    ctx.rule = 'what libxml2 returns is released'
    P = ctx.P
    tops, fs = importer(ctx)
    n = m = 0
    for f in sorted(fs, key=lambda f: f['key']):
        names = {last(x['qn']) for x in walk_ast(f['body']) if x['k'] == 'call' and x.get('qn')}
        if names & {'xmlGetProp', 'xmlNodeGetContent', 'xmlNodeListGetString', 'xmlGetNsProp', 'xmlGetNoNsProp'}:
            outs = ctx.run(f, opaque=lambda g: g['key'] != f['key'], merge=False, may_throw=thrower(P))
            n += released(ctx, f, outs, lambda e: last(e.qn or '') in ('xmlGetProp', 'xmlNodeGetContent', 'xmlNodeListGetString', 'xmlGetNsProp', 'xmlGetNoNsProp'), 'xmlFree', 'the copy of an attribute is released', last(f['n']) in GETTERS)
        docs = [x for x in walk_ast(f['body']) if x['k'] == 'call' and '_xmlDoc *' in (x.get('t') or '') and x.get('qn') and not P.functions.get(x.get('fn'), {}).get('body')]
        if docs:
            outs = ctx.run(f, opaque=lambda g: g['key'] != f['key'], merge=False, may_throw=thrower(P))
            src = {x['qn'] for x in docs}
            m += released(ctx, f, outs, lambda e: e.qn in src, 'xmlFreeDoc', 'the document is released', False)
            for e, o, ls in eventsof(outs, ('call',)):
                if e.qn in src:
                    wh = ctx.where(f, e.line)
                    if 'Recover' in last(e.qn) or 'html' in last(e.qn):
                        ctx.bad(wh, 'only well formed documents are read', '%s accepts others' % last(e.qn))
                    elif last(e.qn).startswith(('xmlRead', 'xmlCtxtRead')):
                        c = e.args[-1]
                        if c[:1] == ('int',):
                            ctx.check(not c[1] & 1, wh, 'only well formed documents are read', 'the parser is told to recover from errors')
                        else:
                            ctx.unk(wh, 'only well formed documents are read', 'the options are not constant')
                    elif last(e.qn) in PARSERS:
                        ctx.ok(wh, 'only well formed documents are read')
                    else:
                        ctx.unk(wh, 'only well formed documents are read', 'what %s accepts is not known' % last(e.qn))
    ctx.need(n, 'no attribute is read')
    ctx.need(m, 'no document is parsed')


def nodoc(ctx):
    ctx.rule = 'a document that cannot be parsed is an error'
    tops, fs = importer(ctx)
    P = ctx.P
    n = 0
    for f in sorted(fs, key=lambda f: f['key']):
        docs = {x['qn'] for x in walk_ast(f['body']) if x['k'] == 'call' and '_xmlDoc *' in (x.get('t') or '') and x.get('qn') and not P.functions.get(x.get('fn'), {}).get('body')}
        if not docs:
            continue
        outs = ctx.run(f, opaque=lambda g: g['key'] != f['key'] and g['n'] in ('build', 'load') , merge=False)
        for o in outs:
            if o.kind != 'return':
                continue
            for e in [e for e in o.events if e.k == 'call' and e.qn in docs]:
                n += 1
                v = [v for a, v in o.facts.items() if a[0] == 'eq' and lin_parts(a[1])[0] == 0 and [t for t, k in lin_parts(a[1])[1]] == [e.res]]
                returned = isinstance(o.val, tuple) and has_sub(o.val, lambda x: x == e.res)
                if returned and not v:
                    ctx.unk(ctx.where(f, e.line), 'reading ends normally only if the document was parsed', 'the result is returned')
                else:
                    ctx.check(v == [False], ctx.where(f, e.line), 'reading ends normally only if the document was parsed', 'a path does so without a document' if v else 'a path does not look')
    ctx.need(n, 'no document is parsed')


EXACT = {'xmlStrcmp': 0, 'strcmp': 0, 'xmlStrEqual': 1, 'compare': 0}
INEXACT = {'strncmp', 'xmlStrncmp', 'strcasecmp', 'xmlStrcasecmp', 'xmlStrncasecmp', 'strncasecmp', 'strstr', 'xmlStrstr', 'xmlStrcasestr'}


def equalities(facts):
    """[(comparison, equal?)] of texts the facts tell about"""
    res = []
    for a, v in facts.items():
        if a[0] != 'eq':
            continue
        c, ts = lin_parts(a[1])
        if len(ts) != 1 or c != 0:
            continue
        t = ts[0][0]
        if isinstance(t, tuple) and t[0] in ('res', 'pure'):
            q = [last(x) for x in t[1:3] if isinstance(x, str)]
            if q and q[0] in EXACT:
                res.append((t, v is (EXACT[q[0]] == 0), True))
            elif q and q[0] in INEXACT:
                res.append((t, v, False))
    return res


def vocabulary(ctx):
    ctx.rule = 'unknown words are refused'
    P = ctx.P
    R = reader(ctx)
    tabs = set(R.tables) | set(R.vocab)
    users = {}
    for f in P.functions.values():
        if inlang(f) and 'body' in f:
            for x in walk_ast(f['body']):
                if x['k'] in ('call',) and x.get('fn') in P.functions and inlang(P.functions[x['fn']]) and any(y['k'] == 'ref' and y.get('qn') in tabs for a in x['args'] for y in walk_ast(a)):
                    users[x['fn']] = (f, x)
    ctx.need(users, 'no function looks words up in a table')
    for k, (f, x) in sorted(users.items()):
        g = P.functions[k]
        if 'body' not in g:
            continue
        outs = ctx.run(g, merge=False)
        wh = ctx.where(g)
        strs = [p['n'] for p in g['params'] if 'char' in p['t'] and 'Categor' not in p['t']]
        cmps = [e for e, o, ls in eventsof(outs, ('call',)) if last(e.qn or '') in set(EXACT) | INEXACT or 'operator==' in (e.qn or '')]
        if not cmps or not strs:
            ctx.unk(wh, 'only words of the table are accepted', 'how they are compared was not recognised')
            continue
        for o in outs:
            if o.kind != 'return':
                continue
            # the facts of the iteration that returned
            eqs = [(t, exact) for t, v, exact in equalities(o.facts) if v and any(has_sub(t, lambda y, s=s: y == ('sym', s)) for s in strs)]
            if not eqs:
                ctx.bad(wh, 'only words of the table are accepted', 'a path returns an entry without having found the word to be equal to its name')
            elif not any(ex for t, ex in eqs):
                ctx.bad(wh, 'only words of the table are accepted', 'the comparison accepts words that differ')
            else:
                ctx.ok(wh, 'only words of the table are accepted')
        ctx.check(any(o.kind == 'throw' for o in outs), wh, 'an unknown word is an error', 'no path raises one')


def nodes(ctx):
    ctx.rule = 'no type definition is skipped'
    P = ctx.P
    R = reader(ctx)
    keys = {f['key'] for f in R.top}
    callers = [f for f in importer(ctx)[1] if f['key'] not in keys and any(x['k'] == 'call' and x.get('fn') in keys for x in walk_ast(f['body']))]
    ctx.need(callers, 'nothing calls the function that looks at the elements')
    work, seen = [(f, False) for f in callers], set()
    while work:
        f, above = work.pop()
        if f['key'] in seen:
            continue
        seen.add(f['key'])
        outs = ctx.run(f, opaque=lambda g: g['key'] in keys or g['n'] == 'build', merge=False)
        tqn = {g['qn'] for g in R.top}
        n = 0
        for L in {e.d['id']: e for e, o, ls in eventsof(outs, ('loop', 'loop0'))}.values():
            if not any(e.k == 'call' and e.d.get('key') in keys for i in L.iters for e in i.events):
                continue
            n += 1
            for i in L.iters:
                if i.kind == 'throw':
                    continue
                wh = ctx.where(f, L.line)
                if any(e.k == 'call' and e.d.get('key') in keys for e in i.events):
                    ctx.check(i.kind == 'continue', wh, 'every element of the document is looked at', 'the loop ends after one')
                    continue
                eq = [[y[1] for y in t if isinstance(y, tuple) and y[:1] == ('str',)] for t, v, ex in equalities(i.facts) if v and ex]
                typed = any(has_sub(a[1], lambda y: y[:1] == ('fld',) and y[2] == 'type') for a in i.facts if a[0] == 'eq')
                if i.kind != 'continue':
                    ctx.bad(wh, 'every element of the document is looked at', 'the loop may end before the last element')
                elif any(x and x[0] in ('comment', 'text') for x in eq):
                    ctx.ok(wh, 'every element of the document is looked at')
                elif typed:
                    ctx.unk(wh, 'every element of the document is looked at', 'the kind of the node decides')
                else:
                    ctx.bad(wh, 'every element of the document is looked at', 'an iteration skips one that is neither a comment nor text' + (': %s' % eq[0][0] if eq and eq[0] else ''))
        if not n:
            ctx.unk(ctx.where(f), 'every element of the document is looked at', 'the loop was not recognised')
        # the name of the root
        n = 0
        for o in outs:
            if o.kind != 'return':
                continue
            ls = [e for e in o.events if e.k in ('loop', 'loop0') and any(x.k == 'call' and x.d.get('key') in keys for i in e.iters for x in i.events)]
            if not ls:
                continue
            n += 1
            eqs = [t for t, v, ex in equalities(ls[0].facts) if v and ex and any(y == ('str', 'typelib') for y in t)]
            if not eqs and part_of_callers(P, f) and not any(f is g for g, a in work):
                # what is known where it is called
                work += [(g, True) for k, g in P.functions.items() if 'body' in g and any(x['k'] == 'call' and x.get('fn') == f['key'] for x in walk_ast(g['body']))]
                break
            ctx.check(eqs, ctx.where(f, ls[0].line), 'only documents whose root is a type library are read', 'a path reads others')
    return


def required(ctx):
    ctx.rule = 'what an element cannot do without is required'
    R, doc, res = infos(ctx)
    P = ctx.P
    for name, m in sorted(res.items()):
        if not m['returns'] and name not in REQUIRED:
            continue
        for el, want in sorted(REQUIRED.items()):
            head, _, c = el.partition('/')
            if head not in (name, '*'):
                continue
            got = m['atts'].get(c, {})
            for a in sorted(want):
                wh = ctx.where(m['f'])
                what = 'reading %s without %s is an error' % ('/'.join(x for x in (name, c) if x), a)
                if c and not got:
                    if c in m['children']:
                        ctx.bad(wh, what, 'the reader does not ask for it')
                    elif head != '*':
                        ctx.unk(wh, what, 'the reader of such elements was not found')
                    continue
                i = got.get(a)
                if i is None:
                    ctx.bad(wh, what, 'the reader does not ask for it')
                elif i['optional'] or not i['need']:
                    ctx.bad(wh, what, 'the reader goes on without it')
                elif (name, c, a) in m['skips'] if 'skips' in m else False:
                    ctx.bad(wh, what, 'a path does not ask for it')
                else:
                    ctx.ok(wh, what)


def always(ctx):
    ctx.rule = 'required attributes are asked for on every path'
    R, doc, res = infos(ctx)
    P = ctx.P
    infs = {}
    for name, m in res.items():
        if m['returns']:
            infs[m['f']['key']] = (name, m)
    for k, (name, m) in sorted(infs.items()):
        f = m['f']
        want = REQUIRED.get(name, set())
        top = set()
        for i in R.topinfo:
            top |= i['always'] or set()
        got = (m['info']['always'] or set()) | top
        for a in sorted(want):
            ctx.check(a in got, ctx.where(f), 'the reader of %s asks for %s on every path' % (name, a), 'a path ends normally without having done so')
        for (c, a), ok in sorted(m['info']['each'].items()):
            if a in REQUIRED.get('%s/%s' % (name, c), ()) or a in REQUIRED.get('*/' + c, ()):
                ctx.check(ok, ctx.where(f), 'the reader of %s asks for %s on every path' % (name + '/' + c, a), 'a path takes such an element without having done so')


def swallowed(ctx):
    ctx.rule = 'errors are passed on'
    P = ctx.P
    tops, fs = importer(ctx)
    n = 0
    for f in sorted(fs, key=lambda f: f['key']):
        if not any(x['k'] == 'try' for x in walk_ast(f['body'])):
            ctx.ok(ctx.where(f), 'no error is swallowed', )
            n += 1
            continue
        outs = ctx.run(f, opaque=lambda g: g['key'] != f['key'], merge=False, may_throw=thrower(P))
        for e, o, ls in eventsof(outs, ('callthrow',)):
            if o.kind == 'throw' or ls and o.kind == 'throw':
                continue
            n += 1
            wh = ctx.where(f, e.line)
            if last(e.qn).split('<')[0] in GETTERS:
                ctx.ok(wh, 'no error is swallowed')
            else:
                ctx.bad(wh, 'no error is swallowed', 'an error of %s is' % last(e.qn))
    ctx.need(n, 'no function was analysed')
