"""H02: walks over type definitions end, also when the definitions are recursive.

The call graph of the repository is built with, for visitors, the class of the
visitor as context, and its cycles (strongly connected components) are looked
at. Every cycle in a type graph goes through a compound and through a pointer or
a container, so that a walk ends when no cycle of calls handles both, after the
functions have been taken out that test and remember what is being walked.
"""
from core import *
from rules.owners import last, of
from rules.singleton import strip_fresh

ROOTS = ('Typelib::TypeVisitor', 'Typelib::ValueVisitor')
COMPOUND = {'Typelib::Compound', 'Typelib::Field'}
LINK = {'Typelib::Pointer', 'Typelib::Container', 'Typelib::Indirect'}


TEMP = 'temporary'


def temporary(P, a):
    """the argument is a type made for the call, and not one of the types walked"""
    while isinstance(a, dict) and a.get('k') in ('cast', 'paren', 'icast', 'bind', 'tmp') and isinstance(a.get('a'), dict):
        a = a['a']
    if not isinstance(a, dict) or a.get('k') != 'ctor':
        return False
    t = (a.get('ty') or a.get('t') or '').replace('const ', '').strip()
    return 'Typelib::Type' in base_names(P, t)


class Graph:
    def __init__(self, P):
        self.P = P
        self.nodes = {}
        self.bases = {}
        todo = []
        made = self.made = self.instantiated()
        for k, f in P.functions.items():
            if 'body' in f and not self.root_of(f.get('cls')) and not (f.get('cls') or '').startswith('lambda@'):
                todo.append((k, ()))
        called = {n.get('fn') for f in P.functions.values() for n in walk_ast([f.get('body'), f.get('inits')]) if n['k'] == 'call'}
        for c in sorted(made):
            r = self.root_of(c)
            for m in P.records[c]['methods'] if r and c in P.records else []:
                f = P.functions.get(m['key'])
                if f and 'body' in f and not f.get('ctor') and not f.get('dtor') and not m.get('acc') and m['key'] not in called:
                    todo.append((m['key'], ((r, c),)))
        while todo:
            n = todo.pop()
            if n in self.nodes:
                continue
            self.nodes[n] = self.callees(*n)
            todo += self.nodes[n]

    def instantiated(self):
        """classes of which objects are made, other than as a base"""
        res = set()
        for f in self.P.functions.values():
            inits = [i.get('e') for i in f.get('inits') or [] if not i.get('base')]
            for n in walk_ast([f.get('body'), inits]):
                if n['k'] in ('ctor', 'new') and n.get('cls'):
                    res.add(n['cls'])
                for v in n.get('v', []) if n['k'] == 'decl' else []:
                    t = (v.get('t') or '').replace('const ', '').strip()
                    res.add(t)
                if n['k'] in ('ctor',) and n.get('fn') in self.P.method:
                    res.add(self.P.method[n['fn']][0]['qn'])
                if n['k'] == 'new' and isinstance(n.get('init'), dict) and n['init'].get('fn') in self.P.method:
                    res.add(self.P.method[n['init']['fn']][0]['qn'])
        return res

    def root_of(self, cls):
        if cls not in self.bases:
            self.bases[cls] = next((r for r in ROOTS if cls and (cls == r or r in self.P.all_bases(cls))), None)
        return self.bases[cls]

    def lookup(self, cls, key):
        ok = {key} | self.P.all_overriders(key)
        todo, seen = [cls], set()
        while todo:
            c = todo.pop(0)
            if c in seen:
                continue
            seen.add(c)
            r = self.P.records.get(c)
            if not r:
                continue
            for m in r['methods']:
                if m['key'] in ok:
                    return m['key']
            todo += [b['n'] for b in r['bases']]
        return key

    def callees(self, key, ctx):
        P = self.P
        f = P.functions.get(key)
        res = []
        if not f or 'body' not in f:
            return res
        if f.get('cls') and self.root_of(f['cls']) and not ctx:
            ctx = ()
        local = {v['d']: (v.get('t') or '').replace('const ', '').strip() for n in walk_ast(f['body']) if n['k'] == 'decl' for v in n['v'] if 'd' in v}
        for n in walk_ast([f['body'], f.get('inits')]):
            if n['k'] not in ('call', 'ctor') or not n.get('fn'):
                continue
            k = n['fn']
            if (P.functions.get(k, {}).get('cls') or '').startswith('lambda@'):
                continue         # its body is seen with the function it is written in
            c2 = dict(ctx)
            c2.pop(TEMP, None)
            if any(temporary(P, a) for a in n.get('args') or []):
                c2[TEMP] = TEMP
            m = P.method.get(k)
            R = self.root_of(m[0]['qn']) if m else None
            if R and n['k'] == 'call':
                x = n.get('obj')
                while isinstance(x, dict) and x.get('k') in ('cast', 'paren', 'icast', 'un') and isinstance(x.get('a'), dict):
                    x = x['a']
                if isinstance(x, dict) and x.get('k') in ('ref', 'mem'):
                    # the visitor is a variable or a member of a class that nothing derives from
                    t = x.get('t') or ''
                    if x['k'] == 'ref' and t in P.records and local.get(x.get('d')) == t:
                        c2[R] = t
                    t = t.replace('const ', '').rstrip('&* ').strip()
                    if t in self.made and self.root_of(t) == R and not set(P.all_subs(t)) & self.made - {t}:
                        c2[R] = t
            ct = tuple(sorted(c2.items()))
            if n['k'] == 'call' and n.get('virt') and m:
                if R and R in c2:
                    res.append((self.lookup(c2[R], k), ct))
                elif R:
                    for s in sorted(P.all_subs(R)):
                        if s in self.made:
                            c3 = dict(c2); c3[R] = s
                            res.append((self.lookup(s, k), tuple(sorted(c3.items()))))
                else:
                    for kk in sorted({k} | P.all_overriders(k)):
                        res.append((kk, ct))
            else:
                res.append((k, ct))
        return res


def sccs(g, keep=None):
    """strongly connected components with a cycle, of the part of g in keep"""
    idx, low, st, on, res = {}, {}, [], set(), []
    keep = g if keep is None else keep
    n = 0
    for r in sorted(keep):
        if r in idx:
            continue
        w = [(r, iter(g[r]))]
        idx[r] = low[r] = n; n += 1
        st.append(r); on.add(r)
        while w:
            v, it = w[-1]
            for x in it:
                if x not in keep or x not in g:
                    continue
                if x not in idx:
                    idx[x] = low[x] = n; n += 1
                    st.append(x); on.add(x)
                    w.append((x, iter(g[x])))
                    break
                elif x in on:
                    low[v] = min(low[v], idx[x])
            else:
                w.pop()
                if w:
                    low[w[-1][0]] = min(low[w[-1][0]], low[v])
                if low[v] == idx[v]:
                    s = set()
                    while True:
                        x = st.pop(); on.discard(x); s.add(x)
                        if x == v:
                            break
                    if len(s) > 1 or v in g[v]:
                        res.append(s)
    return res


def handles(P, f, values):
    """what kinds of types a function that walks handles: subset of {'C', 'L'}"""
    res = set()
    names = [(f.get('cls') or '')] + [p['t'].replace('const ', '').rstrip('&* ').strip() for p in f['params']]
    for t in names:
        if t in COMPOUND or 'Typelib::Compound' in base_names(P, t):
            res.add('C')
        if link(P, t, values):
            res.add('L')
    for n in walk_ast(f['body']):
        if n['k'] == 'call' and n.get('n') == 'getIndirection' and n.get('obj') is not None:
            c = static_class(P, n['obj'])
            if c is None or link(P, c, values):
                res.add('L')
        if n['k'] == 'call' and n.get('n') == 'getType' and (n.get('qn') or '').startswith('Typelib::Field'):
            res.add('C')
    return res


def link(P, c, values):
    # there are only so many elements in the containers of a value
    names = {c} | set(base_names(P, c))
    return bool(({c} | names - {'Typelib::Indirect'}) & LINK) and not (values and 'Typelib::Container' in names)


def static_class(P, o):
    """class through which a member is called"""
    x = o
    while isinstance(x, dict) and x.get('k') in ('cast', 'paren', 'icast') and 'DerivedToBase' in (x.get('kind') or '') and isinstance(x.get('a'), dict):
        x = x['a']
    while isinstance(x, dict):
        t = (x.get('t') or '').replace('const ', '').rstrip('&* ').strip()
        if t == 'Typelib::Indirect' or t != 'Typelib::Type' and 'Typelib::Type' in base_names(P, t):
            return t
        if x.get('k') == 'this':
            return x.get('cls')
        x = x.get('a') if isinstance(x.get('a'), dict) else None
    return None


MEMBER = ('find', 'count', 'insert', 'emplace', 'contains')


def own(k, f):
    """the key stands for the type at hand"""
    syms = {('sym', 'this')} | {('sym', p['n']) for p in f['params']}
    return has_sub(k, lambda y: y in syms)


def table_of(t):
    """location of the container a lookup was made in"""
    if not isinstance(t, tuple):
        return None
    if t[0] in ('res', 'pure'):
        o = t[3] if t[0] == 'res' else t[2]
        while isinstance(o, tuple) and o and o[0] in ('ptr', 'addr'):
            o = o[1]
        return o
    return None


def kind_of(qn):
    return qn.rsplit('::', 1)[0]


def tests(facts, f):
    """tables that are known not to contain the type at hand -> {kind: (table, by insertion)}"""
    res = {}
    for a, v in facts.items():
        if a[0] != 'eq':
            continue
        t = strip_fresh(a[1])
        if isinstance(t, tuple) and t and t[0] in ('fldv', 'fld') and t[2] == 'second' and of(t[1], ('insert', 'emplace')) and not v and own(t[1], f):
            q = [x for x in t[1][1:3] if isinstance(x, str)][0]
            res[kind_of(q)] = (table_of(t[1]), True)
        elif of(t, ('count', 'contains')) and v and own(t[3:] if t[0] == 'pure' else t[4:], f):
            q = [x for x in t[1:3] if isinstance(x, str)][0]
            res.setdefault(kind_of(q), (table_of(t), False))
        elif v and lin_parts(t)[0] == 0 and len(lin_parts(t)[1]) == 2:
            ts = [x for x, k in lin_parts(t)[1]]
            fi = [x for x in ts if of(x, ('find',)) and own(x, f)]
            en = [x for x in ts if of(x, ('end', 'cend'))]
            if fi and en:
                q = [x for x in fi[0][1:3] if isinstance(x, str)][0]
                res.setdefault(kind_of(q), (table_of(fi[0]), False))
    return res


def nothing_found(facts, f):
    """the table has an entry for the type at hand that leads nowhere: entries are made with something"""
    for a, v in facts.items():
        t = strip_fresh(a[1]) if a[0] == 'eq' and v else None
        if isinstance(t, tuple) and t and t[0] in ('rd', 'fldv', 'fld'):
            t = t[1] if t[0] == 'rd' else t
            if isinstance(t, tuple) and len(t) > 2 and t[0] in ('fld', 'fldv') and t[2] == 'second' and not of(t[1], ('insert', 'emplace')) and has_sub(t[1], lambda y: of(y, ('find',)) and own(y, f)):
                return True
    return False


def prefix_calls(o, inside=()):
    """every call of a path with the events that come before it"""
    before = list(inside)
    for e in o.events:
        if e.k in ('loop', 'loop0'):
            for i in e.iters:
                for x in prefix_calls(i, tuple(before)):
                    yield x
            # what a loop may have done is not known to have happened, except removals
            for x, _o, _l in eventsof(e.iters, ('call',)):
                if last(x.qn) in ('erase', 'clear'):
                    before.append(x)
            continue
        if e.k == 'call':
            yield e, before
        before.append(e)


def root_var(t):
    while isinstance(t, tuple) and t and t[0] in ('fld', 'deref', 'addr', 'rd', 'ptr', 'fldv', 'refto'):
        t = t[1]
    return t


class Walk:
    """one function of a cycle: what it does before it goes on walking"""

    def __init__(self, ctx, f, edge):
        self.f = f
        self.tested = None
        self.kept = None
        self.fresh = []       # calls made on visitors of their own -> (event, tables carried over)
        self.edges = 0
        self.calls = []
        outs = ctx.run(f, opaque=lambda g: g['key'] in edge or g.get('cls') == 'Typelib::Registry', merge=False)
        for o in outs:
            for e, before in prefix_calls(o):
                if not hits(ctx.P, e, edge) or nothing_found(e.facts, f):
                    continue
                self.edges += 1
                self.calls.append(e)
                t = tests(e.facts, f)
                k = {}
                for b in before:
                    if b.k == 'store' and isinstance(b.loc, tuple):
                        s = strip_fresh(b.loc)
                        if has_sub(s, lambda y: of(y, ('operator[]',)) and own(y, f)):
                            y = [y for y in subs_of(s) if of(y, ('operator[]',))][0]
                            k[kind_of([x for x in y[1:3] if isinstance(x, str)][0])] = table_of(y)
                    if b.k != 'call' or b.obj is None:
                        continue
                    n = last(b.qn)
                    if n in ('insert', 'emplace', 'push_back', 'push') and own(b.args, f):
                        k[kind_of(b.qn)] = strip(b.obj)
                    elif n in ('erase', 'clear', 'pop_back', 'pop') and kind_of(b.qn) in k:
                        k.pop(kind_of(b.qn))
                # an insertion that was undone does not count as a test either
                t = {q: x for q, x in t.items() if not x[1] or q in k}
                self.tested = t if self.tested is None else {q: x for q, x in self.tested.items() if q in t}
                self.kept = k if self.kept is None else {q: x for q, x in self.kept.items() if q in k}
                ob = strip(e.obj) if e.obj is not None else None
                if isinstance(ob, tuple) and ob and ob[0] == 'var':
                    carried = {}
                    for b in before:
                        if b.k in ('store', 'init') and isinstance(b.loc, tuple) and b.loc[:2] == ('fld', ob):
                            carried[b.loc[2]] = b.val
                        if b.k == 'call' and b.obj is not None and last(b.qn) in ('operator=', 'insert') and isinstance(strip(b.obj), tuple) and strip(b.obj)[:2] == ('fld', ob):
                            carried.setdefault(strip(b.obj)[2], b.args)
                    self.fresh.append((e, ob, carried))
        self.tested = self.tested or {}
        self.kept = self.kept or {}


def subs_of(t):
    if isinstance(t, tuple):
        yield t
        for x in t:
            for y in subs_of(x):
                yield y


def strip(o):
    o = strip_fresh(o)
    while isinstance(o, tuple) and o and o[0] in ('ptr', 'addr'):
        o = o[1]
    return o


def hits(P, e, edge):
    if e.k != 'call' or not e.key:
        return False
    if e.key in edge:
        return True
    return bool(e.d.get('virt')) and bool(P.all_overriders(e.key) & edge)


def ends(ctx):
    P = ctx.P
    g = Graph(P)
    ctx.need(len(g.nodes) > 500, 'no call graph')
    comps = sccs(g.nodes)
    done = {}
    n = 0
    for s in comps:
        keys = {k for k, c in s}
        fs = {k: P.functions[k] for k in keys if k in P.functions and 'body' in P.functions[k]}
        values = any(g.root_of(f.get('cls')) == ROOTS[1] for f in fs.values())
        what = {k: handles(P, f, values) for k, f in fs.items()}
        if not any('C' in w for w in what.values()) and not any('L' in w for w in what.values()):
            continue
        used = {r for r in ROOTS if any(g.root_of(f.get('cls')) == r for f in fs.values())}
        names = sorted({c for _k, cx in s for r, c in cx if r in used and c in g.made and 'TypeDispatch' not in c})
        label = ' '.join(x.rsplit('::', 1)[-1] for x in names) or 'walk of ' + sorted({f['qn'] for f in fs.values()})[0]
        sig = (label, tuple(sorted(keys)))
        if sig in done:
            continue
        done[sig] = True
        n += 1
        wh = ctx.where(sorted(fs.values(), key=lambda f: (f['file'], f['line']))[0]) + ' (' + label + ')'
        text = 'walking a recursive type ends'
        if not bad(g, s, what):
            ctx.ok(wh, text)
            continue
        walks = {}
        for k, f in sorted(fs.items()):
            try:
                walks[k] = Walk(ctx, f, keys)
            except Exception as e:
                if type(e).__name__ in ('Overflow', 'AnalysisBroken', 'Unsupported'):
                    continue
                raise
        kinds = set()
        for w in walks.values():
            kinds |= set(w.tested) | set(w.kept)
        good = False; why = 'compounds and what refers to them are walked again and again'
        for q in sorted(kinds):
            T = {k for k, w in walks.items() if q in w.tested}
            I = {k for k, w in walks.items() if q in w.kept}
            if bad(g, {x for x in s if x[0] not in T}, what) or bad(g, {x for x in s if x[0] not in I}, what):
                continue
            # a table that belongs to the visitor has to be known to every visitor made on the way
            lost = None
            for k in sorted(T | I):
                w = walks[k]
                tab = w.tested[q][0] if q in w.tested else w.kept.get(q)
                par = [x for x in P.functions[k]['params'] if root_var(tab) == ('sym', x['n'])]
                if par:
                    # a table that is handed on has to be handed on by everyone
                    for k2, w2 in sorted(walks.items()):
                        for e in w2.calls:
                            if not handed_on(P, w2.f, e, par[0]['t']):
                                lost = (k2, 'what is being walked is not handed on at line %s' % e.line)
                    continue
                if not (isinstance(tab, tuple) and tab and tab[0] == 'fld'):
                    if isinstance(tab, tuple) and tab and tab[0] == 'var':
                        lost = (k, 'the table is a variable of the function')
                    continue
                for k2, w2 in sorted(walks.items()):
                    for e, ob, carried in w2.fresh:
                        v = carried.get(tab[2])
                        if v is None or not has_sub(v, lambda y: isinstance(y, tuple) and len(y) > 2 and y[0] in ('fld', 'fldv') and y[2] == tab[2] and root_var(y[1]) == ('sym', 'this')):
                            lost = (k2, 'the visitor made there does not know what is being walked')
            if lost:
                why = 'at %s %s' % (ctx.where(P.functions[lost[0]]), lost[1])
                continue
            good = True
        ctx.check(good, wh, text, why)
    ctx.need(n >= 8, 'only %d walks over types found' % n)


def handed_on(P, f, e, t):
    own = {('sym', p['n']) for p in f['params'] if p['t'] == t}
    callee = P.functions.get(e.key) or next((P.functions[k] for k in sorted(P.all_overriders(e.key)) if k in P.functions), None)
    ts = [p['t'] for p in callee['params']] if callee else []
    if t not in ts:
        return not own
    return any(root_var(strip(a)) in own for a in e.args)


def bad(g, s, what):
    """a cycle that handles compounds and what refers to types"""
    for c in sccs(g.nodes, s):
        w = set()
        for k, cx in c:
            w |= what.get(k, set()) - ({'L'} if (TEMP, TEMP) in cx else set())
        if {'C', 'L'} <= w:
            return True
    return False
