"""D01-D03: the registry's tables of types."""
from core import *
from rules.owners import Sweep, deletes_of, field_loc, last, mentions, of, reach
from rules.singleton import strip_fresh

R = 'Typelib::Registry'
THIS = ('sym', 'this')
CHANGES = ('insert', 'emplace', 'emplace_hint', 'try_emplace', 'insert_or_assign', 'operator[]', 'erase', 'clear', 'swap', 'merge', 'extract')
REBUILD = 'updateCurrentNameMap'


def tables(ctx):
    r = ctx.P.records.get(R)
    ctx.need(r is not None, 'class Registry not found')
    names = [f['n'] for f in r['fields']]
    ctx.need('m_global' in names and 'm_current' in names, 'tables of the registry: %s' % names)
    return field_loc('m_global'), field_loc('m_current')


def changes(o, cont, deep=False):
    """calls and stores of a path that change a table"""
    res = []
    for e, _o, l in (eventsof([o]) if deep else ((x, o, ()) for x in o.events)):
        if e.k == 'call' and e.obj is not None and last(e.qn) in CHANGES and e.obj == ('addr', cont):
            res.append(e)
        elif e.k == 'store' and e.loc == cont:
            res.append(e)
    return res


def named(facts):
    """is the entry under its own name: True, False (an alias), None; from comparisons of the key with the name of the type"""
    for a, v in facts.items():
        if a[0] == 'eq':
            ps = [x for x, c in lin_parts(a[1])[1]]
            if len(ps) == 2 and any(has_sub(x, lambda y: isinstance(y, tuple) and y and y[0] in ('fld', 'fldv') and y[-1] == 'm_name') or of(x, ('getName',)) for x in ps) \
                    and any(x[0] in ('rd', 'fldv') and has_sub(x, lambda y: isinstance(y, tuple) and y and y[0] in ('fld', 'fldv') and y[-1] == 'first') or x == ('rd', ('deref', ('sym', 'name'))) or has_sub(x, lambda y: y == ('sym', 'name')) for x in ps):
                return v
    return None


def reads_type(t):
    """the term goes through the type an entry points to"""
    return has_sub(t, lambda x: isinstance(x, tuple) and len(x) > 2 and x[0] in ('fld', 'fldv') and x[2] in ('m_name',) and has_sub(x[1], lambda y: isinstance(y, tuple) and len(y) > 2 and y[0] in ('fld', 'fldv') and y[2] == 'type'))


def run(ctx, f, extra=(), **kw):
    ops = {REBUILD, 'importNamespace', 'modifiedDependencyAliases', 'reverseDepends'} | set(extra)
    return ctx.run(f, opaque=lambda g: g['n'] in ops, **kw)


# ------------------------------------------------------------------ D01
def clearing(ctx):
    G, C = tables(ctx)
    d = ctx.one(R + '::~Registry')
    c = ctx.one(R + '::clear')
    for f in (c, d):
        wh = ctx.where(f)
        text = 'every type is destroyed once, however many aliases it has'
        outs = [o for o in run(ctx, f) if o.kind == 'return']
        ctx.need(outs, 'no path through %s' % f['qn'])
        for o in outs:
            aliases_off = False
            n = 0; why = []; vague = False
            for e in o.events:
                if e.k == 'call' and last(e.qn) in ('clearAliases',):
                    aliases_off = True
                if e.k == 'delete':
                    why.append('a type is deleted outside of a loop over all entries')
                if e.k not in ('loop', 'loop0'):
                    continue
                its = [i for i in e.iters if i.kind == 'continue']
                dels = [[x for x in i.events if x.k == 'delete'] for i in its]
                s = Sweep(e, G)
                if not any(dels):
                    # does it take the aliases out?
                    offs = []
                    for i in its:
                        off = any(x.k == 'store' and x.val == ZERO and x.loc[0] == 'fld' and x.loc[2] == 'type' for x in i.events) or any(last(x.qn) == 'erase' for x in changes(i, G))
                        nm = named(i.facts)
                        offs.append((off, nm))
                    if s.kind and any(x[0] for x in offs):
                        for off, nm in offs:
                            if nm is None:
                                vague = True
                            elif off and nm:
                                why.append('the entry of the type itself is taken out, not that of an alias')
                            elif not off and not nm:
                                why.append('an alias keeps its pointer to the type')
                        if s.why:
                            why.append(s.why)
                        aliases_off = True
                    continue
                n += 1
                if s.kind is None:
                    if Sweep(e, C).kind:
                        why.append('the loop goes through the visible names, where a type has several')
                    else:
                        vague = True
                if s.why:
                    why.append(s.why)
                for i, dl in zip(its, dels):
                    nm = named(i.facts)
                    if any(reads_type(a) for a in i.facts):
                        why.append('the name of a type is read through an alias, after the type may have been destroyed')
                    if len(dl) > 1:
                        why.append('an entry is destroyed twice')
                    if not dl and not (aliases_off and any(a[0] == 'eq' and v and has_sub(a[1], lambda y: isinstance(y, tuple) and len(y) > 2 and y[0] in ('fld', 'fldv') and y[2] == 'type') for a, v in i.facts.items())):
                        why.append('an entry is skipped')
                    for x in dl:
                        if s.kind and not has_sub(strip_fresh(x.ptr), lambda y: isinstance(y, tuple) and len(y) > 2 and y[0] in ('fld', 'fldv') and y[2] == 'type'):
                            vague = True
                if not aliases_off:
                    why.append('aliases have not been taken out before')
            if n > 1:
                why.append('the types are destroyed %d times' % n)
            if n == 0 and not vague:
                why.append('nothing destroys them')
            (ctx.unk if vague else ctx.bad if why else ctx.ok)(wh, text, *(['; '.join(sorted(set(why))) or 'not understood'] if vague or why else []))
            if f is c:
                # and nothing refers to them any more
                for t, nm in ((G, 'registered'), (C, 'visible')):
                    after = False
                    for e in o.events:
                        if e.k in ('loop', 'loop0') and any(x.k == 'delete' for i in e.iters for x in i.events):
                            after = True
                        if after and (e.k == 'call' and last(e.qn) in ('clear', 'swap') and e.obj == ('addr', t) or e.k == 'call' and last(e.qn) == REBUILD and t == C):
                            break
                    else:
                        ctx.bad(wh, 'the %s names are cleared with the types' % nm, 'they still refer to destroyed types')
                        continue
                    ctx.ok(wh, 'the %s names are cleared with the types' % nm)


def copies(ctx):
    r = ctx.P.records[R]
    wh = '%s:%s %s' % (r['file'], r['line'], R)
    nc = {b for b in base_names(ctx.P, R) if 'noncopyable' in b}
    ctors = [m for m in r['methods'] if m.get('copy')]
    open_ = [m for m in ctors if not m.get('deleted') and m['acc'] != 2 and not m.get('implicit')]
    imp = [m for m in ctors if m.get('implicit') and not m.get('deleted')]
    smart = any('unique_ptr' in f['t'] for f in r['fields'])
    ctx.check(bool(nc) or smart or bool(ctors) and not open_ and not imp, wh, 'a registry can not be copied: both copies would destroy the types', 'it can')


def destroyers(ctx):
    P = ctx.P
    T = {k for k in P.records if k == 'Typelib::Type' or 'Typelib::Type' in base_names(P, k)}
    roots = [f['key'] for q in (R + '::clear', R + '::~Registry') for f in P.by_qn.get(q, []) if 'body' in f]
    ok = reach(ctx, roots)
    n = 0
    for f, nd, t in deletes_of(ctx, T):
        n += 1
        wh = ctx.where(f, nd.get('l'))
        text = 'registered types are destroyed by the registry only, when it is cleared'
        if f['key'] in ok:
            outside = [g['qn'] for g in P.functions.values() if 'body' in g and g['key'] not in ok and any(x.get('fn') == f['key'] for x in walk_ast(g['body']))]
            if f['key'] in roots or not outside:
                ctx.ok(wh, text)
            else:
                ctx.unk(wh, text, 'also called from %s' % outside[0])
        elif f['qn'].startswith(R + '::'):
            ctx.bad(wh, text, 'deletes a %s' % t)
        else:
            # a local pointer: where does it come from
            src = origin(f, nd['a'])
            ctx.check(src, wh, text, 'deletes a type it got from a registry' if src is False else 'deletes a %s' % t)
    ctx.need(n, 'no deletion of a type found')


def origin(f, a):
    """True: made in this function, or handed back by Registry::remove; False: taken from a registry; None: not known"""
    todo = [n.get('d') for n in walk_ast(a) if n['k'] == 'ref' and n.get('dk') == 'local']
    seen = set()
    res = None
    while todo:
        d = todo.pop()
        if d in seen:
            continue
        seen.add(d)
        for n in walk_ast(f['body']):
            src = None
            if n['k'] == 'decl':
                for v in n['v']:
                    if v.get('d') == d and v.get('init'):
                        src = v['init']
            elif n['k'] == 'asg' and isinstance(n.get('a'), dict) and n['a'].get('d') == d and n['a'].get('k') == 'ref':
                src = n.get('b')
            if src is None:
                continue
            for x in walk_ast(src):
                if x['k'] == 'new':
                    res = True if res is None else res
                if x['k'] == 'call' and x.get('cls', '').startswith(R):
                    if x.get('n') == 'remove':
                        res = True if res is None else res
                    else:
                        return False
                if x['k'] == 'ref' and x.get('dk') == 'local':
                    todo.append(x.get('d'))
    return res


def entered(o, e):
    """the key given to operator[] is that of an entry found in the table: no new name"""
    if last(e.qn) != 'operator[]' or not e.args:
        return False
    k = strip_fresh(e.args[0])
    while isinstance(k, tuple) and k and k[0] in ('rd', 'cast'):
        k = k[1]
    return isinstance(k, tuple) and k and k[0] in ('fld', 'fldv') and k[2] == 'first' and has_sub(k, lambda y: of(y, ('find', 'begin'), THIS))


def removal(ctx):
    G, C = tables(ctx)
    f = [g for g in ctx.fn(R + '::remove')]
    ctx.need(len(f) == 1, 'Registry::remove')
    f = f[0]
    wh = ctx.where(f)
    outs = [o for o in run(ctx, f) if o.kind == 'return']
    ctx.need(outs, 'no path through remove')
    for o in outs:
        ctx.check(not any(e.k == 'delete' for e, _o, l in eventsof([o])), wh, 'removed types are handed back, not destroyed', 'something is deleted')
        rd = [e for e in o.events if e.k == 'call' and last(e.qn) == 'reverseDepends']
        ctx.check(bool(rd) or None, wh, 'what depends on a removed type is removed with it', 'its dependents are not looked up')
        ret = o.val is not None and rd and has_sub(o.val, lambda x: x == rd[0].res)
        ctx.check(True if ret else None, wh, 'the removed types are returned', show(o.val)[:80] if o.val else 'nothing')
        good = None; why = ''
        for e in o.events:
            if e.k not in ('loop', 'loop0'):
                continue
            its = [i for i in e.iters if i.kind in ('continue', 'break', 'return')]
            er = [[x for x in changes(i, G) if last(x.qn) == 'erase'] if True else None for i in its]
            if not any(er):
                continue
            s = Sweep(e, G)
            if s.kind is None:
                continue
            good = True
            if s.why:
                good = False; why = s.why
            for i, x in zip(its, er):
                mine = {rd[0].res} | {('addr', d.loc) for d in o.events if d.k == 'decl' and d.val == rd[0].res} if rd else set()
                inset = [v for a, v in i.facts.items() if a[0] == 'eq' and has_sub(a[1], lambda y: of(y, ('count',)) or of(y, ('find',))) and has_sub(a[1], lambda y: y in mine)]
                if not inset:
                    if x and not any(has_sub(a, lambda y: y in mine or of(y, ('count', 'find', 'lower_bound', 'contains'))) for a in i.facts):
                        good = False; why = 'what is taken out does not depend on the set of removed types'
                    elif good:
                        good = None
                    continue
                # count(...) == 0 or find(...) == end
                if (not inset[0]) != bool(x):
                    good = False; why = 'an entry of a removed type stays' if not x else 'an entry of another type is taken out'
        ctx.check(good, wh, 'exactly the entries of removed types are taken out, under whatever name', why or 'no loop over all entries takes them out')
    for q in ('removeAlias', 'clearAliases'):
        f = ctx.one(R + '::' + q)
        wh = ctx.where(f)
        for o in run(ctx, f):
            if o.kind == 'throw':
                ctx.check(not changes(o, G, True), wh, 'a refused removal changes nothing', 'the table was changed before')
                continue
            for e, oo, l in eventsof([o]):
                if e in changes(oo, G):
                    nm = named(e.facts)
                    ctx.check(last(e.qn) == 'erase' and (nm is False or (None if nm is None and any(has_sub(a, lambda y: y == 'm_name' or of(y, ('getName',))) for a in e.facts) else False)), wh, 'only aliases are taken out', 'the entry of a type itself can be taken out, nothing would own it' if last(e.qn) == 'erase' else last(e.qn))
                if e.k == 'delete':
                    ctx.bad(wh, 'removing an alias destroys nothing', 'something is deleted')
            if q == 'removeAlias':
                ctx.check(len(changes(o, G)) == 1, wh, 'the alias is taken out', 'it stays')
            else:
                for e in o.events:
                    if e.k in ('loop', 'loop0') and any(changes(i, G) for i in e.iters):
                        s = Sweep(e, G)
                        ctx.check(False if s.why else True if s.kind else None, wh, 'all aliases are taken out', s.why)
                        for i in e.iters:
                            if i.kind == 'continue' and not changes(i, G):
                                nm = named(i.facts)
                                ctx.check(nm, wh, 'all aliases are taken out', 'one stays')
                        break
                else:
                    ctx.bad(wh, 'all aliases are taken out', 'there is no loop that does')


# ------------------------------------------------------------------ D02
def relative(e, i):
    return e.args and (e.args[0] if last(e.qn) in ('erase', 'operator[]', 'try_emplace', 'insert_or_assign', 'emplace') else e.args[0][1] if e.args[0][0] == 'pair' else e.args[0])


def visible(ctx):
    """every change of the registered names is followed by the matching change of the visible ones"""
    G, C = tables(ctx)
    cls = [f for f in ctx.P.functions.values() if 'body' in f and f.get('cls') == R or 'body' in f and f['qn'].startswith(R + '::')]
    n = 0
    for f in sorted(cls, key=lambda x: x['line']):
        if f['n'] in (REBUILD, '~Registry'):
            continue
        touch = any(x['k'] == 'mem' and x['n'] in ('m_global', 'm_namespace') for x in walk_ast(f['body']))
        if not touch:
            continue
        try:
            outs = run(ctx, f, ('getRelativeName', 'isValidTypename', 'isValidNamespace', 'getNormalizedNamespace', 'isInNamespace'))
        except Exception as x:
            ctx.unk(ctx.where(f), 'visible names follow the registered names', type(x).__name__)
            continue
        wh = ctx.where(f)
        for o in outs:
            if o.kind != 'return':
                continue
            idx = None
            what = None
            for k, e in enumerate(o.events):
                ch = [x for x, oo, l in eventsof([_one(e, o)]) if x.k == 'call' and x.obj == ('addr', G) and last(x.qn) in CHANGES and not entered(oo, x) or x.k == 'store' and x.loc in (G, field_loc('m_namespace'))]
                if e.k == 'loop0':
                    ch = []
                if ch:
                    idx = k; what = ch[-1]
            if idx is None:
                continue
            n += 1
            text = 'the visible names are brought up to date after every change of the registered names'
            rest = o.events[idx + 1:]
            if any(x.k == 'call' and last(x.qn) == REBUILD for x in rest):
                ctx.ok(wh, text)
                continue
            if what.k == 'call' and last(what.qn) == 'clear':
                ctx.check(any(x.k == 'call' and last(x.qn) == 'clear' and x.obj == ('addr', C) for x in o.events), wh, text, 'names of a cleared registry stay visible')
                continue
            if what.k == 'call' and last(what.qn) in ('insert', 'emplace', 'operator[]', 'try_emplace'):
                incremental(ctx, wh, o, idx, what, G, C)
                continue
            ctx.bad(wh, text, '%s on the path %s' % (last(what.qn) if what.k == 'call' else 'changed', [last(x.qn) for x in rest if x.k == 'call'][:6]))
    ctx.need(n >= 4, 'only %d paths change the registered names' % n)


class _one:
    """one event as a path"""
    def __init__(self, e, o):
        self.events = [e]; self.facts = o.facts; self.kind = o.kind


def incremental(ctx, wh, o, idx, ins, G, C):
    """a new name is made visible, absolute and relative to each enclosing namespace that is in use"""
    name = ins.args[0][1] if ins.args and ins.args[0][0] == 'pair' else ins.args[0]
    abs_ = [e for e in o.events if e.k == 'call' and e.obj == ('addr', C) and last(e.qn) in CHANGES and e.args and strip_fresh(e.args[0][1] if e.args[0][0] == 'pair' else e.args[0]) == strip_fresh(name)]
    ctx.check(bool(abs_), wh, 'a new name can be found', 'it is not entered in the visible names')
    loops = [e for e in o.events[idx + 1:] if e.k in ('loop', 'loop0') and any(changes(i, C) or any(last(x.qn) == REBUILD for x in i.events if x.k == 'call') for i in e.iters)]
    if not loops:
        # a helper that is not known, or nothing at all
        any_c = any(e.k == 'call' and e.obj == THIS and last(e.qn) not in (REBUILD, 'get') for e in o.events[idx + 1:])
        ctx.check(None if any_c else False, wh, 'a new name can be found relative to the current namespace', 'relative names are not entered')
        return
    e = loops[0]
    looks = [i for i in e.iters if i.kind != 'throw' and any(x.k == 'call' and x.obj == ('addr', G) and last(x.qn) in ('find', 'count') for x, oo, l in eventsof([i]))]
    if looks and all(changes(i, C) for i in looks):
        ctx.bad(wh, 'a new name does not take over a name of a deeper namespace', 'it is entered whatever the lookup finds')
    for i in e.iters:
        if i.kind == 'throw':
            continue
        ch = changes(i, C)
        hidden = [x for x, oo, l in eventsof([i]) if x.k == 'call' and x.obj in (('addr', G),) and last(x.qn) in ('find', 'count')]
        ins_ = [x for x in ch if last(x.qn) != 'erase']
        ers = [x for x in ch if last(x.qn) == 'erase']
        text = 'a new name is made visible relative to each enclosing namespace, unless a deeper one hides it'
        if ins_:
            replaced = any(last(x.qn) in ('operator[]', 'insert_or_assign') for x in ins_) or any(strip_fresh(x.args[0]) == strip_fresh(relative(ins_[0], i)) for x in ers) or \
                any(a[0] == 'eq' and v and has_sub(a[1], lambda y: of(y, ('find',), C)) and has_sub(a[1], lambda y: of(y, ('end',), C)) for a, v in i.facts.items())
            ctx.check(replaced, wh, text, 'an entry from an outer namespace stays')
            ctx.check(True if hidden else False, wh, text, 'entries of deeper namespaces are overwritten')
            cur = [l for l, v in e.init.items() if has_sub(v, lambda y: y == ('glob', 'Typelib::NamespaceMarkString'))]
            rel = relative(ins_[0], i)
            ctx.check(True if any(has_sub(rel, lambda y: y == ('sym', 'name') or y == name) for _ in (1,)) else None, wh, 'the name entered is the new name without its namespace', show(rel)[:100])
            if i.kind == 'break':
                # the last namespace
                last_ns = any(a[0] == 'eq' and v and any(x in e.init for x, c in lin_parts(a[1])[1]) and has_sub(a[1], lambda y: of(y, ('end',))) for a, v in i.facts.items())
                ctx.check(last_ns, wh, 'all enclosing namespaces are gone through', 'the loop stops after %s' % [show(a[1])[:60] for a, v in i.facts.items() if len(a) > 1][-2:])
        elif ers:
            ctx.bad(wh, text, 'a visible name is taken out and nothing put in its place')
        elif i.kind == 'break' or i.kind == 'return':
            notin = any(has_sub(a[1], lambda y: y == ('sym', 'name')) for a, v in i.facts.items() if len(a) > 1 and a not in o_before(e, i))
            ctx.check(True if notin else None, wh, 'all enclosing namespaces are gone through', 'the loop stops early')
        else:
            just = bool(hidden)
            ctx.check(just, wh, text, 'an iteration leaves it out')


def o_before(e, i):
    return ()


def rebuild(ctx):
    """the visible names are recomputed from the registered ones"""
    G, C = tables(ctx)
    f = ctx.one(R + '::' + REBUILD)
    wh = ctx.where(f)
    for o in ctx.run(f, opaque=lambda g: g['n'] in ('importNamespace',)):
        if o.kind != 'return':
            continue
        ch = [e for e in o.events if e.k == 'call' and e.obj == ('addr', C) and last(e.qn) in CHANGES]
        first = next((e for e in o.events if e.k in ('loop', 'loop0') and any(changes(i, C) for i in e.iters) or e in ch or e.k == 'call' and last(e.qn) == 'importNamespace'), None)
        assign = any(e.k == 'store' and e.loc == C for e in o.events) or any(last(e.qn) in ('insert',) and len(e.args) == 2 and mentions(e.args[0], G) for e in ch)
        ctx.check(first is not None and first.k == 'call' and last(first.qn) in ('clear', 'swap') or (True if assign and ch and last(ch[0].qn) == 'clear' else False), wh, 'visible names that are not registered any more disappear', 'the visible names are not cleared first')
        good = assign
        for e in o.events:
            if e.k not in ('loop', 'loop0') or not any(changes(i, C) for i in e.iters):
                continue
            s = Sweep(e, G)
            if s.kind is None:
                continue
            good = not s.why
            for i in e.iters:
                if i.kind == 'continue' and not any(last(x.qn) != 'erase' for x in changes(i, C)):
                    good = False
        ctx.check(good, wh, 'every registered name is visible', 'not all registered names are entered')
        imps = [e for e in o.events if e.k == 'call' and last(e.qn) == 'importNamespace']
        root = [e for e in imps if has_sub(e.args[0], lambda y: y == ('glob', 'Typelib::NamespaceMarkString')) or e.args[0] in (('str', '/'), ('strlit', '/')) or has_sub(e.args[0], lambda y: y == '/')]
        nsl = [e for e in o.events if e.k in ('loop', 'loop0') and any(x.k == 'call' and last(x.qn) == 'importNamespace' for i in e.iters for x in i.events)]
        early = any(y.k == 'call' and last(y.qn) == 'importNamespace' for e in nsl for i in e.iters for y in i.events[:next((k for k, z in enumerate(i.events) if z.k == 'call' and last(z.qn) in ('operator+=', 'append')), 10 ** 6)])
        ctx.check(bool(root) or (None if early else False), wh, 'the names of the root namespace are visible', 'they are not imported')
        ctx.check(bool(nsl), wh, 'the names of the default namespace and of those around it are visible', 'they are not imported')
        for e in nsl:
            if root:
                ctx.check(o.events.index(root[0]) < o.events.index(e), wh, 'deeper namespaces are imported later', 'the root namespace is imported last')
            for i in e.iters:
                if i.kind != 'continue':
                    if i.kind != 'throw':
                        ctx.bad(wh, 'the names of the default namespace and of those around it are visible', 'the loop can stop early')
                    continue
                x = [y for y in i.events if y.k == 'call' and last(y.qn) == 'importNamespace']
                if not x:
                    ctx.bad(wh, 'the names of the default namespace and of those around it are visible', 'one is left out')
                    continue
                ctx.check(x[0].args[1] in (I(1), ('bool', True)) or (None if x[0].args[1] not in (ZERO, ('bool', False)) else False), wh, 'names of deeper namespaces have priority', 'existing names are kept')
                grown = [y for y in i.events if y.k == 'call' and last(y.qn) in ('operator+=', 'append')]
                ctx.check(True if grown and i.events.index(grown[0]) < i.events.index(x[0]) else None, wh, 'each namespace is a part of the next', 'not understood')
    f = ctx.one(R + '::importNamespace')
    wh = ctx.where(f)
    er = ('sym', f['params'][1]['n'])
    nl = 0
    for o in run(ctx, f, ('isInNamespace', 'getNormalizedNamespace', 'getRelativeName')):
        if o.kind != 'return':
            continue
        for e in o.events:
            if e.k not in ('loop', 'loop0') or not any(changes(i, C) for i in e.iters):
                continue
            nl += 1
            ok = any(of(v, ('lower_bound',), G) for v in e.init.values())
            ctx.check(True if ok else None, wh, 'the names of a namespace are gone through', 'does not start at its first name')
            for i in e.iters:
                if i.kind != 'continue':
                    if i.kind in ('break', 'return'):
                        ins_ns = [v for a, v in i.facts.items() if has_sub(a, lambda y: of(y, ('isInNamespace',)))]
                        ctx.check(True if ins_ns and ins_ns[-1] else None, wh, 'all names of the namespace are imported', 'the loop stops early')
                    continue
                ch = changes(i, C)
                put = [x for x in ch if last(x.qn) != 'erase']
                gone = [x for x in ch if last(x.qn) == 'erase']
                ctx.check(bool(put), wh, 'every name of the namespace is imported', 'one is left out')
                fl = [v for a, v in i.facts.items() if a == ('eq', er)]
                # erase_existing true -> the fact (erase_existing == 0) is False
                if not fl and put:
                    ctx.bad(wh, 'names that exist are replaced when asked for, and only then', 'the same is done whatever was asked for')
                if fl and put:
                    over = any(last(x.qn) in ('operator[]', 'insert_or_assign') for x in put) or bool(gone) and i.events.index(gone[0]) < i.events.index(put[0])
                    ctx.check(over == (not fl[0]), wh, 'names that exist are replaced when asked for, and only then', 'replaced' if over else 'kept')
                inc = any(show(e.step.get(l, ZERO)) == '1' for l in e.init)
                ctx.check(inc or None, wh, 'the names of a namespace are gone through', 'not one by one')
    ctx.need(nl, 'no loop in importNamespace')


# ------------------------------------------------------------------ D03
def registering(ctx):
    G, C = tables(ctx)
    n = 0
    for f in ctx.fn(R + '::add'):
        ps = [p['t'] for p in f['params']]
        wh = ctx.where(f)
        byname = 'basic_string' in ps[0]
        tp = [p for p in f['params'] if p['t'].rstrip().endswith('*')]
        ctx.need(len(tp) == 1, 'parameters of add: %s' % ps)
        new = ('sym', tp[0]['n'])
        if not byname:
            if not any(x['k'] == 'call' and x.get('qn') == R + '::add' for x in walk_ast(f['body'])):
                ctx.unk(wh, 'a type is registered under its own name', 'not understood')
                continue
            for o in ctx.run(f, opaque=lambda g: g['qn'] == R + '::add' or g['n'] in ('getAliasesOf', 'modifiedDependencyAliases', 'isPersistent', 'dependsOn')):
                if o.kind != 'return':
                    continue
                cs = [e for e in o.events if e.k == 'call' and sq(e.qn) == R + '::add']
                ctx.check(len(cs) == 1, wh, 'a type is registered once', '%d times' % len(cs))
                for e in cs:
                    ctx.check(new in e.args, wh, 'the type given is registered', show(e.args)[:80])
                    if len(e.args) == 4:
                        nm = e.args[0]
                        ctx.check(True if has_sub(nm, lambda y: y == new) else None, wh, 'a type is registered under its own name', show(nm)[:80])
            continue
        name = ('sym', f['params'][0]['n'])
        for o in run(ctx, f, ('isValidTypename', 'getRelativeName')):
            n += 1
            ch = changes(o, G) + changes(o, C) + [x for e in o.events if e.k == 'loop' for i in e.iters for x in changes(i, C)]
            valid = None; same = None; known = None
            for a, v in o.facts.items():
                if a[0] == 'eq' and has_sub(a[1], lambda y: of(y, ('isValidTypename',))):
                    valid = not v
                    for y in subterms(a[1]):
                        if of(y, ('isValidTypename',)) and len(y) >= 4:
                            # the name given, and as an absolute one
                            if y[-1] in (ZERO, ('bool', False)) or not has_sub(y[-2], lambda z: z == name):
                                valid = False
                if a[0] == 'eq':
                    ps_ = [x for x, c in lin_parts(a[1])[1]]
                    if new in ps_ and (len(ps_) == 2 or len(ps_) == 1 and v):
                        same = v
                    # found: the entry of this name
                    if any(of(x, ('find', 'get', 'get_')) for x in ps_) and any(has_sub(x, lambda y: y == name) for x in ps_):
                        if any(of(x, ('end',)) for x in ps_):
                            known = not v
                    if len(ps_) == 1 and (ps_[0][0] in ('rd', 'fldv') and has_sub(ps_[0], lambda y: of(y, ('find',)) ) or of(ps_[0], ('get', 'get_'))):
                        if v:
                            known = False
            if o.kind == 'throw':
                ctx.check(not ch, wh, 'a refused registration changes nothing', 'the registry is changed before the error')
                t = [e.ty for e in o.events if e.k == 'throw']
                ctx.check(bool(t) or None, wh, 'refused with an error', '')
                continue
            if not ch:
                ctx.check(same if same is not None else False, wh, 'registering has no effect only if the name stands for this type already', 'nothing is registered')
                continue
            ctx.check(valid if valid is not None else False, wh, 'only valid names are registered', 'the name is not checked')
            # find and end denote the same table: not found; or the entry found is null
            ctx.check(True if known is False else (None if known is None and any(has_sub(a, lambda y: of(y, ('count', 'has'))) for a in o.facts) else False), wh, 'a name in use by another type is refused', 'the name may be in use')
            for e in changes(o, G):
                if last(e.qn) in ('insert', 'emplace'):
                    a0 = e.args[0]
                    key = a0[1] if a0[0] == 'pair' else a0
                    ctx.check(has_sub(key, lambda y: y == name), wh, 'the name given is registered', show(key)[:80])
                    ctx.check(has_sub(('x',) + tuple(e.args), lambda y: y == new), wh, 'the type given is registered', show(e.args)[:80])
            ctx.check(len([e for e in changes(o, G) if last(e.qn) in ('insert', 'emplace', 'operator[]', 'try_emplace')]) == 1, wh, 'the name is registered once', '')
    ctx.need(n, 'no registration by name found')
    na = 0
    for f in ctx.fn(R + '::alias'):
        wh = ctx.where(f)
        base = ('sym', f['params'][0]['n'])
        for o in ctx.run(f, opaque=lambda g: g['qn'] == R + '::add' or g['qn'] == R + '::alias' and g['key'] != f['key'] or g['n'] in ('isValidTypename', 'get_', 'modifiedDependencyAliases', 'isPersistent', 'dependsOn')):
            cs = [e for e in o.events if e.k == 'call' and sq(e.qn) in (R + '::add', R + '::alias')]
            gs = [e for e in o.events if e.k == 'call' and last(e.qn) in ('get_', 'get')]
            if o.kind == 'throw':
                ctx.check(not cs and not changes(o, G), wh, 'a refused alias changes nothing', 'the registry is changed before the error')
                continue
            na += 1
            ctx.check(len(cs) == 1, wh, 'the alias is registered once', '%d registrations' % len(cs))
            for e in cs:
                if sq(e.qn) == R + '::alias':
                    ctx.check(base in e.args or has_sub(e.args, lambda y: y == base) or None, wh, 'the alias stands for the type asked for', show(e.args)[:80])
                    continue
                mine = [g for g in gs if g.res in e.args]
                ctx.check(True if mine else None, wh, 'the alias stands for the type asked for', show(e.args)[:80])
                for g in mine:
                    nz = any(a == ('eq', g.res) and not v for a, v in e.facts.items())
                    ctx.check(nz, wh, 'an alias to an unknown type is refused', 'it is registered')
                    ctx.check(has_sub(g.args, lambda y: y == base), wh, 'the alias stands for the type asked for', show(g.args)[:60])
                nm = ('sym', f['params'][1]['n'])
                ctx.check(has_sub(e.args[0], lambda y: y == nm), wh, 'the alias is registered under the new name', show(e.args[0])[:60])
    ctx.need(na, 'no alias registration found')


def names_in(t, table, name):
    """the lookups of the name in the table inside a term"""
    res = []
    has_sub(('x', t), lambda y: res.append(y) or False if of(y, ('find', 'count', 'contains', 'at', 'equal_range')) and has_sub(y, lambda z: isinstance(z, tuple) and len(z) > 2 and z[0] in ('fld', 'fldv') and z[2] == table)
            and has_sub(y, lambda z: z == name) else False)
    return res


def asking(ctx):
    """what the lookup functions answer is what the visible names say"""
    todo = []

    def answers(t, name):
        return has_sub(('x', t), lambda y: of(y, ('get', 'get_')) and y[1 if y[0] == 'pure' else 2].startswith(R + '::') and has_sub(y, lambda z: z == name) and has_sub(y, lambda z: z == THIS))

    for n in ('get', 'get_', 'has'):
        fs = [f for f in ctx.fn(R + '::' + n) if f['params'] and 'basic_string' in f['params'][0]['t']]
        ctx.need(fs, 'Registry::%s by name not found' % n)
        todo += [(n, f) for f in fs]
    for n, f in todo:
        wh = ctx.where(f)
        name = ('sym', f['params'][0]['n'])
        flags = [('sym', q['n']) for q in f['params'][1:]]
        text = 'a name that is visible is found, another is not'
        # facts of helper functions may be joined
        helped = [c for c in walk_ast(f['body']) if c['k'] == 'call' and (c.get('qn') or '').startswith('Typelib::') and c.get('n') not in ('getBaseType', 'getFullName', 'build', 'get', 'get_')]
        for o in ctx.run(f, opaque=lambda g: g['n'] in ('getBaseType', 'getFullName', 'build') or g['n'] in ('get', 'get_') and g.get('cls') == R):
            if o.kind != 'return' or o.val is None:
                continue
            found = None
            looked = bool(names_in(o.val, 'm_current', name))
            for a, v in o.facts.items():
                if a[0] == 'eq' and answers(a, name) and len(lin_parts(a[1])[1]) == 1:
                    looked = True
                    found = not v
                if not names_in(a, 'm_current', name):
                    continue
                looked = True
                if a[0] != 'eq':
                    continue
                ps = [x for x, c in lin_parts(a[1])[1]]
                if any(of(x, ('end', 'cend')) for x in ps):
                    found = not v
                elif len(ps) == 1 and of(ps[0], ('count', 'contains')):
                    found = not v
                elif len(ps) == 1 and v and ps[0][0] in ('rd', 'fldv') and has_sub(('x', ps[0]), lambda y: isinstance(y, tuple) and len(y) > 2 and y[0] in ('fld', 'fldv') and y[2] == 'type'):
                    # the entry of a type that is not there
                    found = False
            asks = any(a[0] == 'eq' and not v and any(x in flags for x, c in lin_parts(a[1])[1]) for a, v in o.facts.items()) or any(has_sub(o.val, lambda y: y == s) for s in flags)
            entry = has_sub(('x', o.val), lambda y: isinstance(y, tuple) and len(y) > 2 and y[0] in ('fld', 'fldv') and y[2] == 'type' and bool(names_in(y[1], 'm_current', name)))
            val = o.val
            while val[0] in ('bool', 'cast'):
                val = val[-1]
            if val[0] == 'cmp' and n == 'has' and (names_in(val, 'm_current', name) and has_sub(val, lambda y: of(y, ('end', 'cend'))) or answers(val, name) and ZERO in val):
                ctx.check(val[1] == '!=' or (False if val[1] == '==' else None), wh, text, 'the answer is the opposite')
            elif n != 'has' and answers(val, name):
                ctx.ok(wh, text)
            elif found is None:
                if not looked:
                    ctx.check(None if helped else False, wh, text, 'the visible names are not asked')
                else:
                    ctx.unk(wh, text, show(o.val)[:80])
            elif found:
                if n == 'has':
                    ctx.check(o.val not in (ZERO, ('bool', False)) and (o.val[0] in ('int', 'bool') or isinstance(o.val, tuple) and o.val == I(1) or None), wh, text, 'a visible name is reported as unknown')
                else:
                    ctx.check(True if entry else False if o.val == ZERO else None, wh, text, 'a visible name gives %s' % show(o.val)[:60])
            else:
                if o.val in (ZERO, ('bool', False)):
                    ctx.ok(wh, text)
                elif n == 'has' and has_sub(('x', o.val), lambda y: of(y, ('getBaseType',))):
                    ctx.check(asks or False, wh, text, 'another type is looked for without being asked')
                else:
                    ctx.check(None if n == 'has' and asks else False, wh, text, 'a name that is not visible gives %s' % show(o.val)[:60])
