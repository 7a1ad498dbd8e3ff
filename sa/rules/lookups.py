"""D06: the result of a lookup that can fail is not used before it is known to have succeeded."""
from core import *
from rules.owners import last, of

USES = ('operator*', 'operator->', 'getName', 'getSource', 'isAlias', 'get_', 'isPersistent')
THIS = ('sym', 'this')
MAPS = ('map<', 'set<', '_Rb_tree', 'registry')

# tables that are not looked up under a name given by a caller of the library, with the reason
INTERNAL = (
    ('singleton', 'keyed by the name a handle attached before (property G02)'),
    ('std::pair<unsigned long, unsigned long>', 'Type::resize records a type in the table of new sizes before it reports that its size changed'),
)
# (file, lookup): the standard types are registered together; the base type of the name has been found or loaded just before, under that name
CERTAIN = {('lang/csupport/standard_types.cc', 'Typelib::Registry::get'), ('lang/tlb/import.cc', 'Typelib::Registry::build')}


def strip(e):
    while e and e['k'] == 'cast':
        e = e.get('a') or e.get('e')
    return e


def own_functions(P):
    return [f for f in P.functions.values() if 'body' in f and not f['file'].startswith('/usr')]


def nullable(P):
    """functions of the repository that return a pointer and may return null: a null constant, or the result of another such function"""
    fs = [f for f in own_functions(P) if f.get('ret', '').rstrip().endswith('*')]
    rets = {}
    for f in fs:
        rets[f['key']] = [strip(n.get('a')) for n in walk_ast(f['body']) if n['k'] == 'return' and n.get('a')]
        for b in walk_ast(f['body']):
            # auto x = lookup(); return x;
            for d, r in zip(b['b'], b['b'][1:]) if b['k'] == 'block' else ():
                x = strip(r.get('a')) if r['k'] == 'return' and r.get('a') else None
                if d['k'] == 'decl' and x and x['k'] == 'ref':
                    rets[f['key']] += [strip(v['init']) for v in d['v'] if v['d'] == x.get('d') and isinstance(v.get('init'), dict)]
    res = set()
    while True:
        n = len(res)
        for f in fs:
            for r in rets[f['key']]:
                alts = [r]
                while alts:
                    x = strip(alts.pop())
                    if not x:
                        continue
                    if x['k'] == 'cond':
                        alts += [x.get('a'), x.get('b'), x.get('t'), x.get('f')]
                        alts = [y for y in alts if isinstance(y, dict)]
                    elif x['k'] == 'null' or x['k'] == 'int' and x['v'] == 0:
                        res.add(f['qn'])
                    elif x['k'] == 'call' and x.get('qn') in res:
                        res.add(f['qn'])
        if len(res) == n:
            return res


def is_map_find(n):
    return n['k'] == 'call' and n.get('n') in ('find',) and any(m in n.get('cls', '') and 'basic_string' in n['cls'].split(m, 1)[1].split(',')[0] for m in MAPS) or n['k'] == 'call' and n.get('qn') == 'Typelib::Registry::find'


def of_qn(t, names):
    if not isinstance(t, tuple) or len(t) < 3 or t[0] not in ('res', 'pure', 'call'):
        return None
    for x in t[1:3]:
        if isinstance(x, str):
            return x if sq(x) in names or x in names else None
    return None


def lookup_terms(t, names):
    """the results of lookups a term is made of, the outermost first"""
    res = []

    def walk(x):
        if not isinstance(x, tuple):
            return
        if of_qn(x, names):
            res.append(x)
            return
        for y in x:
            walk(y)
    walk(t)
    return res


def hangs_on(t, p):
    """the pointer that is dereferenced is the result itself, or an offset from it"""
    if t == p:
        return True
    return any(x == p for x, c in lin_parts(t)[1])


def found(facts, p):
    """the facts say that the lookup succeeded: not null, not the end, or the same as something that exists"""
    for a, v in facts.items():
        if a[0] == 'eq':
            parts = lin_parts(a[1])[1]
            if any(x == p for x, c in parts):
                rest = [x for x, c in parts if x != p]
                ends = any(of(x, ('end', 'cend')) for x in rest)
                if not v and (not rest or ends) or v and rest and not ends:
                    return True
            for x, c in parts:
                # comparison of objects that hold the iterator
                for n, want in (('operator!=', False), ('operator==', True)):
                    if of(x, (n,)) and len(parts) == 1 and v == want and has_sub(x, lambda y: y == p) and has_sub(x, lambda y: of(y, ('end', 'cend'))):
                        return True
    return False


def plain(t):
    """a name that cannot be the name of a pointer or an array: it ends with a known character"""
    while isinstance(t, tuple) and t and of(t, ('operator+',)):
        t = t[-1]
    return isinstance(t, tuple) and len(t) > 1 and t[0] in ('str', 'strlit') and isinstance(t[1], str) and t[1] and t[1][-1] not in '*] '


def presence(facts, p):
    """facts that say that the name is there: True, or None when they may"""
    res = False
    args = [x for x in p[3:] if isinstance(x, tuple)]
    for a, v in facts.items():
        if a[0] != 'eq':
            continue
        for x, c in lin_parts(a[1])[1]:
            if of(x, ('count', 'has', 'contains', 'insert', 'isIncluded')) and any(y in args and y not in (THIS, ZERO) for y in x[3:]):
                if of(x, ('has',)) and not v and any(y in args and plain(y) for y in x[3:]) or of(x, ('has',)) and not v and x[-1] in (ZERO, ('bool', False)):
                    return True
                res = None
    return res


def direct(t, p):
    """a structure that has p itself as a member"""
    if not isinstance(t, tuple) or not t:
        return False
    if t[0] == 'struct':
        return any(x[1] == p or direct(x[1], p) for x in t[1] if isinstance(x, tuple) and len(x) == 2)
    return False


def lookups(ctx):
    P = ctx.P
    srcs = nullable(P)
    ctx.need(len(srcs) >= 3, 'the lookup functions that return null were not recognised: %s' % sorted(srcs))
    finds = {n['qn'] for f in own_functions(P) for n in walk_ast(f['body']) if is_map_find(n)}
    finds |= {sq(q) for q in finds}
    names = finds | srcs | {sq(q) for q in srcs}
    todo = []
    for f in own_functions(P):
        if any(n['k'] == 'call' and (n.get('qn') in srcs or is_map_find(n)) for n in walk_ast(f['body'])):
            todo.append(f)
    def inline(g):
        """only what can hold a check or a forwarding: short and without loops"""
        if 'RegistryIterator' in g['qn']:
            return True
        ns = [n['k'] for n in walk_ast(g.get('body'))]
        return len(ns) <= 60 and not any(k in ('for', 'while', 'do', 'rfor', 'loop') for k in ns)
    ctx.need(len(todo) >= 20, 'only %d functions that look something up' % len(todo))
    parts = {f['key'] for f in todo if inline(f) and part_of_callers(P, f)}
    keys = {f['key'] for f in todo}
    more = list(parts)
    while more:
        k = more.pop()
        for c in callers_of(P)[0][k]:
            g = P.functions.get(c)
            if g and 'body' in g and c not in keys and not g['file'].startswith('/usr'):
                keys.add(c)
                todo.append(g)
                if inline(g) and part_of_callers(P, g):
                    parts.add(c)
                    more.append(c)
    for f in todo:
        wh = ctx.where(f)
        try:
            outs = ctx.run(f, opaque=lambda g: g['qn'] in srcs or g['qn'] in ('Typelib::Registry::has', 'Typelib::Registry::add') or not inline(g), events_deref=True)
        except Exception as x:
            ctx.unk(wh, 'lookups are checked before use', type(x).__name__ + str(x)[:80])
            continue
        cls = {}
        evs = list(eventsof(outs))
        for e, o, l in evs:
            if e.k == 'call' and e.d.get('node'):
                cls.setdefault(e.res, e.node.get('cls', '') or '')
        seen = {}

        def use(e, p):
            qn = sq(of_qn(p, names))
            if any(m in cls.get(p, '') for m, why in INTERNAL) or (f['file'], qn) in CERTAIN:
                return
            if last(qn) == 'find' and 'basic_string' not in cls.get(p, 'basic_string').split(',')[0]:
                return
            seen.setdefault((ctx.at(e), last(qn), show(p)[:60]), []).append(found(e.facts, p) or presence(e.facts, p))
        for e, o, l in evs:
            if e.k == 'deref':
                for p in lookup_terms(e.ptr, names):
                    if hangs_on(e.ptr, p):
                        use(e, p)
            elif e.k == 'call' and e.obj is not None and of(e.res, USES):
                for p in lookup_terms(e.res, finds):
                    if has_sub(e.res, lambda y: isinstance(y, tuple) and len(y) > 1 and y[0] == 'struct'):
                        use(e, p)
        # handed on without having been checked: kept in an object, returned in one, registered
        for o in outs:
            if o.kind != 'return' or f['key'] in parts:
                continue

            def kept(at, p, how):
                if of_qn(p, names) in srcs and (f['file'], sq(of_qn(p, names))) not in CERTAIN:
                    ctx.check(found(o.facts, p) or presence(o.facts, p), at, 'the result of %s is %s only when it was found' % (last(of_qn(p, names)), how), '%s may have failed' % show(p)[:60])
            for e in o.events:
                if e.k == 'store' and e.loc[0] == 'fld' and has_sub(e.loc, lambda x: isinstance(x, tuple) and x and x[0] == 'deref') and of_qn(e.val, srcs):
                    kept(ctx.at(e), e.val, 'kept in an object')
                if e.k in ('call', 'enter') and sq(e.qn) == 'Typelib::Registry::add':
                    for x in e.args:
                        if of_qn(x, srcs):
                            kept(ctx.at(e), x, 'registered')
            if isinstance(o.val, tuple) and o.val[0] in ('struct', 'new', 'var') and not f.get('ret', '').rstrip().endswith('*'):
                for p in lookup_terms(o.val, srcs):
                    if direct(o.val, p):
                        kept(wh, p, 'returned in an object')
        done = {}
        for (at, n, p), vs in sorted(seen.items()):
            done.setdefault((at, n), []).append((False if False in vs else None if None in vs else True, p))
        for (at, n), vs in sorted(done.items()):
            v = min(vs, key=lambda x: (x[0] is not False, x[0] is not None))
            ctx.check(v[0], at, 'the result of %s is used only when it was found' % n, '%s may have failed' % v[1])
