"""G03, G04: objects owned through containers of pointers."""
from core import *
from rules.singleton import strip_fresh

PM = 'Typelib::PluginManager'
SMART = ('std::unique_ptr<', 'std::shared_ptr<', 'boost::shared_ptr<', 'boost::scoped_ptr<')


def last(qn):
    return sq(qn).rsplit('::', 1)[-1]


def of(t, names, obj=None):
    """t is the result of calling one of names (on obj)"""
    if not isinstance(t, tuple) or not t or t[0] not in ('res', 'pure', 'call'):
        return False
    q = [x for x in t[1:3] if isinstance(x, str)]
    if not q or last(q[0]) not in names:
        return False
    return obj is None or has_sub(t, lambda x: x == obj)


def field_loc(cls_field, this=('sym', 'this')):
    return ('fld', ('deref', this), cls_field)


def mentions(t, loc):
    return has_sub(t, lambda x: x == loc or x == ('addr', loc))


def element_of(t, it):
    """t is reached from the element an iterator points to, through its own fields only"""
    while isinstance(t, tuple) and t and t[0] in ('rd', 'fldv', 'fld', 'deref', 'var', 'loc'):
        if t == it or t == deref(it):
            return True
        t = t[1]
    return t == it or t == deref(it)


def root(t):
    """the iterator or pointer an element term hangs on"""
    while isinstance(t, tuple) and t and t[0] in ('rd', 'fld', 'fldv', 'deref'):
        t = t[1]
    return t


class Sweep:
    """what one loop does to the elements of a container"""

    def __init__(self, e, cont):
        self.e = e
        self.cont = cont
        self.kind = None          # 'all' every element once, 'drain' takes out the first until empty
        self.why = ''
        self.it = None
        stops = [i for i in e.iters if i.kind not in ('continue', 'throw')]
        if e.rng is not None and mentions(e.rng if isinstance(e.rng, tuple) else ('x', e.rng), cont):
            self.kind = 'all'
        for loc, init in e.init.items():
            if of(init, ('begin', 'cbegin'), cont) and show(e.step.get(loc, ZERO)) == '1':
                trip = e.d.get('trip')
                if trip is None or (any(of(t, ('end', 'cend'), cont) for t, c in lin_parts(trip)[1]) and any(t == init for t, c in lin_parts(trip)[1]) and lin_parts(trip)[0] == 0):
                    self.kind = 'all'
                    self.it = loc
                elif trip is not None:
                    self.why = 'the loop stops at %s' % show(trip)
        if self.kind is None:
            ers = [[x for x in i.events if x.k == 'call' and last(x.qn) == 'erase' and x.obj is not None and mentions(x.obj, cont)] for i in e.iters]
            if ers and all(len(x) == 1 for x in ers):
                self.kind = 'drain'
                self.erased = ers
        if self.kind and stops:
            self.why = 'the loop can stop early'


def empties(o, cont, after=None):
    for a, v in o.facts.items():
        if v and a[0] == 'eq' and has_sub(a[1], lambda x: of(x, ('size', 'empty'), cont)):
            return True
    return False


def frees_all(ctx, f, cont, what, opq=None):
    """every element of the container is deleted exactly once on every path of f"""
    wh = ctx.where(f)
    text = 'every element of %s is destroyed once (%s)' % (show(cont).replace('*this.', ''), what)
    outs = [o for o in ctx.run(f) if o.kind == 'return']
    ctx.need(outs, 'no path through %s' % f['qn'])
    for o in outs:
        n = 0; why = []; vague = False
        for e in o.events:
            if e.k in ('loop', 'loop0'):
                dels = [[x for x in i.events if x.k == 'delete'] for i in e.iters]
                if not any(dels):
                    continue
                s = Sweep(e, cont)
                if s.kind is None:
                    if mentions(tuple(e.init.values()) or ('x',), cont) or any(mentions(x.ptr, cont) for d in dels for x in d):
                        why.append(s.why or 'the loop does not go through every element')
                    continue
                if e.k == 'loop0':
                    # never ran: the container is empty
                    other = [i for i in e.iters if i.kind == 'continue']
                n += 1
                if s.why:
                    why.append(s.why)
                for i, d in zip(e.iters, dels):
                    if i.kind != 'continue':
                        continue
                    if s.kind == 'drain':
                        er = [x for x in i.events if x.k == 'call' and last(x.qn) == 'erase' and mentions(x.obj, cont)][0]
                        it = strip_fresh(er.args[0])
                        mine = [x for x in d if root(strip_fresh(x.ptr)) == it]
                        if not of(it, ('begin', 'cbegin'), cont):
                            if 'multi' in er.qn and of(root(it), ('begin', 'cbegin'), cont):
                                why.append('the elements of a whole key are taken out, one of them is destroyed')
                            vague = True
                    else:
                        # the pointer deleted hangs on the iterator of this loop
                        mine = [x for x in d if (s.it is None) or s.it in mentioned(x.ptr) or has_sub(x.ptr, lambda y: y == s.it)]
                    # a null check around the delete is fine: delete of null does nothing
                    if len(mine) != 1 and not (not mine and nullptr_path(i, s, cont)):
                        why.append('%d deletions in one iteration' % len(mine))
        # deletions outside of loops must not touch the elements
        for e in o.events:
            if e.k == 'delete' and mentions(e.ptr, cont):
                why.append('an element is deleted separately')
            if e.k == 'call' and e.obj is None and any(mentions(a, cont) for a in e.args) and ctx.P.functions.get(e.key, {}).get('body') is None:
                vague = True
        if n == 1 and not why:
            ctx.ok(wh, text)
        elif n > 1:
            ctx.bad(wh, text, 'destroyed %d times' % n)
        elif 'the elements of a whole key are taken out, one of them is destroyed' in why:
            ctx.bad(wh, text, why[0])
        elif vague:
            ctx.unk(wh, text, 'an algorithm the rule does not know')
        else:
            ctx.bad(wh, text, '; '.join(sorted(set(why))) or 'nothing destroys them')


def mentioned(t):
    res = set()

    def go(x):
        if isinstance(x, tuple):
            if x and x[0] == 'L':
                res.add(x)
            for y in x:
                go(y)
    go(t)
    return res


def nullptr_path(i, s, cont):
    """the facts of the iteration say that the element is null"""
    for a, v in i.facts.items():
        if a[0] == 'eq' and v and lin_parts(a[1])[0] == 0 and len(lin_parts(a[1])[1]) == 1 and (s.it is None or s.it in mentioned(a[1])) and lin_parts(a[1])[1][0][0][0] in ('rd', 'fldv'):
            return True
    return False


def deletes_of(ctx, classes):
    """every delete expression on a pointer to one of the classes -> (function, node)"""
    for key, f in sorted(ctx.P.functions.items()):
        if 'body' not in f:
            continue
        for n in walk_ast(f['body']):
            if n['k'] == 'del':
                t = (n.get('a') or {}).get('t', '').replace('const ', '').replace('*', '').replace('const', '').strip()
                if t in classes:
                    yield f, n, t


def reach(ctx, roots):
    """functions reachable through calls from the roots"""
    seen, todo = set(), list(roots)
    while todo:
        k = todo.pop()
        if k in seen:
            continue
        seen.add(k)
        f = ctx.P.functions.get(k)
        if not f or 'body' not in f:
            continue
        for n in walk_ast([f['body'], f.get('inits') or []]):
            if n.get('fn'):
                todo.append(n['fn'])
            if n['k'] == 'del' and n.get('dtor'):
                todo.append(n['dtor'])
    return seen


# ------------------------------------------------------------------ G03
def containers(ctx):
    """fields of the plugin manager by what they hold"""
    r = ctx.P.records.get(PM)
    ctx.need(r is not None, 'class PluginManager not found')
    res = {}
    for f in r['fields']:
        for c in ('ExportPlugin', 'ImportPlugin', 'TypeDefinitionPlugin'):
            if 'Typelib::%s' % c in f['t'] and 'Typelib::' + c not in res:
                res['Typelib::' + c] = f
    ctx.need(len(res) == 3, 'fields of the plugin manager: %s' % sorted(res))
    return res


def plugin_ownership(ctx):
    fs = containers(ctx)
    d = ctx.one(PM + '::~PluginManager')
    for c, fld in sorted(fs.items()):
        if any(s in fld['t'] for s in SMART):
            ctx.ok(ctx.where(d), '%s are owned by smart pointers' % c)
            continue
        frees_all(ctx, d, field_loc(fld['n']), c)
        r = ctx.P.records[c]
        dt = [m for m in r['methods'] if m.get('dtor')]
        ctx.check(bool(dt) and bool(dt[0].get('virt')), '%s:%s %s' % (r['file'], r['line'], c), 'plugins are destroyed through their own destructor', 'the destructor is not virtual')
    # nobody else destroys them
    ok = reach(ctx, [d['key']])
    outside = set()
    for k, f in ctx.P.functions.items():
        if k not in ok and 'body' in f:
            for n in walk_ast(f['body']):
                if n.get('fn') in ok:
                    outside.add(n['fn'])
    cnt = 0
    for f, n, t in deletes_of(ctx, set(fs)):
        cnt += 1
        g = f['key'] in ok and f['key'] not in outside
        ctx.check(g or None if f['key'] in ok else False, ctx.where(f, n.get('l')), 'only the plugin manager destroys plugins, when it dies', 'deletes a %s' % t)
    ctx.need(cnt or any(s in x['t'] for x in fs.values() for s in SMART), 'no deletion of a plugin found')


def key_is_name(t, p, fname):
    """the term reads the name of the plugin p"""
    return has_sub(t, lambda x: x[0] == 'rd' and x[1][0] == 'fld' and has_sub(x[1], lambda y: y == p) and 'name' in x[1][2].lower()) or \
        has_sub(t, lambda x: of(x, ('getName',)) and has_sub(x, lambda y: y == p))


def plugin_add(ctx):
    fs = containers(ctx)
    seen = set()
    for f in ctx.fn(PM + '::add'):
        c = f['params'][0]['t'].replace('*', '').replace('const', '').strip()
        if c not in fs:
            continue
        seen.add(c)
        wh = ctx.where(f)
        p = ('sym', f['params'][0]['n'])
        cont = field_loc(fs[c]['n'])
        ismap = 'map<' in fs[c]['t']
        for o in ctx.run(f):
            if o.kind != 'return' or any(a[0] == 'eq' and v and a[1] == p for a, v in o.facts.items()):
                continue
            ctx.check(not any(e.k == 'delete' for e in o.events), wh, 'registering destroys nothing', 'something is deleted')
            mut = [e for e in o.events if e.k == 'call' and e.obj is not None and last(e.qn) in ('insert', 'emplace', 'push_back', 'emplace_back', 'push_front', 'insert_or_assign', 'try_emplace', 'erase', 'clear', 'swap', 'operator[]', 'emplace_hint')]
            mine = [e for e in mut if mentions(e.obj, cont)]
            ctx.check(len(mine) == len(mut), wh, '%s are kept in %s' % (c, fs[c]['n']), 'also changed: %s' % '; '.join(show(e.obj)[:60] for e in mut if e not in mine))
            st = [e for e in o.events if e.k == 'store' and mentions(e.loc, cont)]
            bad = [e for e in mine if last(e.qn) in ('erase', 'clear', 'swap', 'insert_or_assign')]
            ctx.check(not bad, wh, 'registering keeps the plugins there are', '%s' % ', '.join(last(e.qn) for e in bad))
            ins = [e for e in mine if last(e.qn) in ('insert', 'emplace', 'push_back', 'emplace_back', 'push_front', 'try_emplace', 'emplace_hint', 'operator[]')]
            if not ismap:
                ctx.check(len(ins) == 1 and ins[0].args[-1] == p, wh, 'a type plugin is recorded once', '%d insertions' % len(ins))
                continue
            there = presence(o, cont, p)
            if not ins:
                ctx.check(there if there is not None else False, wh, 'a plugin with a new name is recorded', 'it is not')
                ctx.check(o.val in (ZERO, FALSE) or None if o.val is not None and not is_one(o.val) else False, wh, 'a refused plugin is reported', 'returns %s' % show(o.val))
                continue
            ctx.check(len(ins) == 1, wh, 'a plugin is recorded once', '%d insertions' % len(ins))
            e = ins[0]
            ctx.check(key_is_name(('x',) + tuple(e.args), p, None), wh, 'a plugin is recorded under its own name', show(e.args[0])[:100])
            if last(e.qn) == 'operator[]':
                unknown = there is None and any(mentions(a, cont) for a in o.facts)
                ctx.check(there is False or (None if unknown else False), wh, 'a plugin of the same name is not replaced', 'operator[] overwrites it')
                ctx.check(any(x.val == p for x in st), wh, 'the plugin is recorded', 'it is not')
                ctx.check(is_one(o.val) or None, wh, 'a recorded plugin is reported as such', 'returns %s' % show(o.val))
            else:
                ctx.check(has_sub(('x',) + tuple(e.args), lambda x: x == p and True), wh, 'the plugin is recorded', 'it is not')
                good = o.val is not None and has_sub(o.val, lambda x: x == e.res) and 'second' in show(o.val) and o.val[0] in ('fldv', 'rd', 'bool')
                if there is False and is_one(o.val):
                    good = True
                sec = [v for a, v in o.facts.items() if has_sub(a, lambda x: x == e.res) and 'second' in show(a[1] if len(a) > 1 and isinstance(a[1], tuple) else a)]
                if not good and sec:
                    good = True if (is_one(o.val) if not sec[0] else o.val in (ZERO, FALSE)) else None
                ctx.check(good if good else (False if o.val in (ZERO, ONE, TRUE, FALSE) else None), wh, 'the caller is told whether the plugin was recorded', 'returns %s' % show(o.val)[:100])
            over = [x for x in st if last(e.qn) != 'operator[]' and x.val == p]
            ctx.check(not over, wh, 'a plugin of the same name is not replaced', 'stored over %s' % (show(over[0].loc) if over else ''))
    ctx.need(len(seen) == 3, 'registration functions found for %s only' % sorted(seen))


ONE = I(1)
TRUE = ('bool', True)
FALSE = ('bool', False)


def is_one(t):
    return t in (ONE, TRUE) or t == ('int', 1)


def presence(o, cont, p):
    """is the name known to be in the container: True, False, None"""
    for a, v in o.facts.items():
        if a[0] != 'eq':
            continue
        if has_sub(a[1], lambda x: of(x, ('find', 'lower_bound'), cont)) and has_sub(a[1], lambda x: of(x, ('end', 'cend'), cont)):
            return not v
        if has_sub(a[1], lambda x: of(x, ('count',), cont)):
            return not v
    return None


def plugin_lookup(ctx):
    fs = containers(ctx)
    for name, c in (('importer', 'Typelib::ImportPlugin'), ('exporter', 'Typelib::ExportPlugin')):
        f = ctx.one(PM + '::' + name)
        wh = ctx.where(f)
        p = ('sym', f['params'][0]['n'])
        cont = field_loc(fs[c]['n'])
        n = 0
        for o in ctx.run(f):
            if o.kind == 'throw':
                t = [e.ty for e in o.events if e.k == 'throw']
                ctx.check(presence(o, cont, p) is not True, wh, 'a plugin that is there is found', 'refused')
                ctx.check('Typelib::PluginNotFound' in t, wh, 'an unknown plugin is reported as such', 'throws %s' % t)
                continue
            cr = [e for e in o.events if e.k == 'call' and last(e.qn) == 'create']
            if not cr:
                ctx.bad(wh, 'a known plugin makes a new object, an unknown one is refused', 'returns %s' % show(o.val)[:80])
                continue
            n += 1
            e = cr[-1]
            ctx.check(len(cr) == 1, wh, 'one object is made', '%d' % len(cr))
            ctx.check(mentions(e.obj, cont) and has_sub(e.obj, lambda x: x == p or x == deref(p)), wh, 'the plugin used is the %s of that name' % name, show(e.obj)[:120])
            ctx.check(presence(o, cont, p) if presence(o, cont, p) is not None else (None if has_sub(e.obj, lambda x: of(x, ('at',))) else False), wh, 'the plugin is used only if there is one', 'the lookup is not checked')
            ctx.check(has_sub(o.val, lambda x: x == e.res), wh, 'the new object is returned', show(o.val)[:80])
        ctx.need(n, '%s returns nothing' % name)
    f = ctx.one(PM + '::registerPluginTypes')
    cont = field_loc(fs['Typelib::TypeDefinitionPlugin']['n'])
    wh = ctx.where(f)
    for o in ctx.run(f):
        if o.kind != 'return':
            continue
        ls = [e for e in o.events if e.k in ('loop', 'loop0')]
        good = [Sweep(e, cont) for e in ls]
        good = [s for s in good if s.kind == 'all']
        ctx.check(len(good) == 1 and not good[0].why, wh, 'every type plugin is asked for its types', good[0].why if good else 'no loop through them')
        for s in good:
            for i in s.e.iters:
                if i.kind == 'continue':
                    cs = [e for e in i.events if e.k == 'call' and last(e.qn) == 'registerTypes']
                    ctx.check(len(cs) == 1 and any(a == ('sym', f['params'][0]['n']) or ('sym', f['params'][0]['n']) in (strip_loc(x),) for e in cs for a in e.args for x in e.locs), wh, 'every type plugin is asked once, for the registry given', '%d calls' % len(cs))


def strip_loc(l):
    while isinstance(l, tuple) and l and l[0] == 'deref':
        l = l[1]
    return l


def plugin_use(ctx):
    """what is made for one call is destroyed with it, and the manager outlives it"""
    n = 0
    opq = lambda g: sq(g['qn']) in (PM + '::importer', PM + '::exporter') or any(c in g['qn'] for c in ('utilmm::', 'Typelib::Registry::', 'Typelib::Importer', 'Typelib::Exporter'))
    for name in ('save', 'load'):
        for f in ctx.fn(PM + '::' + name):
            wh = ctx.where(f)
            for o in ctx.run(f, opaque=opq):
                for i, e in enumerate(o.events):
                    if e.k != 'call' or sq(e.qn) not in (PM + '::importer', PM + '::exporter'):
                        continue
                    n += 1
                    d = [x for x in o.events if x.k == 'dtor' and any(s in x.ty for s in SMART) and has_sub(x.val, lambda y: y == e.res)]
                    raw = [x for x in o.events if x.k == 'delete' and x.ptr == e.res]
                    ret = o.val is not None and has_sub(o.val, lambda y: y == e.res)
                    use = [x for x in o.events if x.k == 'call' and x is not e and x.obj is not None and has_sub(x.obj, lambda y: y == e.res)]
                    text = 'the object made for a call is destroyed with it, also if it fails'
                    if len(d) == 1 and not raw:
                        ctx.ok(wh, text)
                    elif raw:
                        ctx.bad(wh, text, 'it leaks when %s throws' % (sq(use[0].qn) if use else 'the call') if not d else 'it is destroyed twice')
                    elif o.kind == 'throw':
                        ctx.unk(wh, text)
                    else:
                        ctx.check(None if ret else False, wh, text, 'nothing destroys it')
                    want = {'save': 'exporter', 'load': 'importer'}[name]
                    ctx.check(last(e.qn) == want, wh, 'saving uses an exporter and loading an importer', last(e.qn))
                    k = [q['n'] for q in f['params'] if q['n'] == 'kind'] or [f['params'][0]['n']]
                    ctx.check(has_sub(('x',) + tuple(e.args), lambda y: y == ('sym', k[0]) or y == deref(('sym', k[0]))), wh, 'the plugin asked for is used', show(e.args[0])[:60])
                    h = [x for x in o.events[i:] if x.k == 'dtor' and 'singleton::use<' in x.ty]
                    ctx.check(bool(h) or None, wh, 'the plugin manager is held while a plugin is used', 'no handle')
    ctx.need(n >= 2, 'no use of a plugin found')


# ------------------------------------------------------------------ G04
CS = 'utilmm::config_set'


def config_tree(ctx):
    r = ctx.P.records.get(CS)
    ctx.need(r is not None, 'class config_set not found')
    kids = [f for f in r['fields'] if 'config_set' in f['t'] and ('map<' in f['t'] or 'list<' in f['t'] or 'vector<' in f['t'])]
    ctx.need(len(kids) == 1, 'the children of a config_set not found')
    cont = field_loc(kids[0]['n'])
    where = '%s:%s %s' % (r['file'], r['line'], CS)
    smart = any(s in kids[0]['t'] for s in SMART)
    if smart:
        ctx.ok(where, 'children are owned by smart pointers')
    else:
        d = ctx.fn(CS + '::~config_set')
        if not d:
            ctx.bad(where, 'every child is destroyed with its parent', 'there is no destructor')
        else:
            frees_all(ctx, d[0], cont, 'with their parent')
        nc = {b for b in base_names(ctx.P, CS) if 'noncopyable' in b}
        ctors = [m for m in r['methods'] if m.get('copy')]
        ctx.check(bool(nc) or (ctors and all(m.get('deleted') or m.get('acc') == 2 or not m.get('implicit') for m in ctors)), where, 'a set that owns children cannot be copied', 'the compiler copies the pointers')
    # removal of a child outside of destruction destroys it
    multi = 'multimap<' in kids[0]['t'] or 'map<' not in kids[0]['t']
    n = 0
    for f in sorted(ctx.P.functions.values(), key=lambda f: f['key']):
        if f.get('cls') != CS or 'body' not in f or f['n'].startswith('~') or f.get('implicit'):
            continue
        try:
            outs = ctx.run(f)
        except AnalysisBroken:
            raise
        wh = ctx.where(f)
        ps = [('sym', q['n']) for q in f['params']]
        kid = [('sym', q['n']) for q in f['params'] if 'config_set' in q['t'] and '*' in q['t']]
        ctor = f['n'] == 'config_set'
        rem = False
        for o in outs:
            if o.kind != 'return':
                continue
            muts = [e for e in o.events if e.k == 'call' and e.obj is not None and mentions(e.obj, cont)]
            ins = [e for e in muts if last(e.qn) in ('insert', 'emplace', 'operator[]', 'push_back', 'emplace_hint')]
            st = [e for e in o.events if e.k == 'store' and mentions(e.loc, cont)]
            for e in ins:
                n += 1
            if kid and not ctor:
                ctx.check(len(ins) == 1 and has_sub(('x',) + tuple(ins[0].args) + tuple(x.val for x in st), lambda x: x in kid), wh, 'a child handed over is recorded once', '%d insertions' % len(ins))
                ctx.check(multi, wh, 'a child is recorded even if there is one of that name', 'the container keeps one per name')
                ctx.check(not [e for e in o.events if e.k == 'delete'], wh, 'recording a child destroys nothing', 'something is deleted')
            if any(last(e.qn) in ('erase', 'clear', 'extract', 'swap') for e in muts):
                rem = True
            for e in o.events:
                if e.k in ('loop', 'loop0') and any(x.k == 'call' and x.obj is not None and mentions(x.obj, cont) and last(x.qn) in ('erase', 'clear') for i in e.iters for x in i.events):
                    rem = True
            if not kid and not rem:
                ctx.check(not [e for e, _, _ in eventsof([o], ('delete',)) if mentions(e.ptr, cont)], wh, 'a child is destroyed only when it leaves its parent', 'an element is deleted')
        if rem and not smart:
            frees_all(ctx, f, cont, 'when they leave their parent')
            n += 1
    ctx.need(n >= 2, 'children are never recorded')


def config_access(ctx):
    """looking something up changes nothing and hands out no dangling reference"""
    r = ctx.P.records[CS]
    kids = [f for f in r['fields'] if 'config_set' in f['t'] and '<' in f['t']]
    cont = field_loc(kids[0]['n'])
    f = ctx.one(CS + '::child')
    wh = ctx.where(f)
    opq = lambda g: False
    for o in ctx.run(f):
        if o.kind != 'return':
            continue
        s = show(o.val) if o.val is not None else ''
        loc = [e for e in o.events if e.k == 'dtor']
        local = o.val is not None and o.val[0] in ('loc', 'addr') and o.val[1][0] == 'var' and o.val[1][1] not in {v['n'] for n in walk_ast(f['body']) if n['k'] == 'decl' for v in n['v'] if v.get('static')}
        ctx.check(not local, wh, 'the set handed out outlives the call', s)
    f = ctx.one(CS + '::children')
    wh = ctx.where(f)
    for o in ctx.run(f):
        if o.kind != 'return':
            continue
        ls = [e for e in o.events if e.k == 'loop']
        for e in ls:
            for i in e.iters:
                if i.kind in ('continue',):
                    pb = [x for x in i.events if x.k == 'call' and last(x.qn) in ('push_back', 'emplace_back', 'insert')]
                    ctx.check(len(pb) == 1, wh, 'each child of the name is handed out once', '%d' % len(pb))
        rng = [e for e in o.events if e.k == 'call' and last(e.qn) in ('equal_range', 'lower_bound', 'find')]
        ctx.check(all(mentions(e.obj, cont) and has_sub(('x',) + tuple(e.args), lambda x: x == ('sym', f['params'][0]['n']) or x == deref(('sym', f['params'][0]['n']))) for e in rng) and rng or None, wh, 'the children of that name are looked up', 'another lookup')


def config_values(ctx):
    """set replaces, insert adds, erase removes the values of that name"""
    r = ctx.P.records[CS]
    vals = [f for f in r['fields'] if 'config_set' not in f['t'] and 'map<' in f['t']]
    ctx.need(len(vals) == 1, 'the values of a config_set not found')
    cont = field_loc(vals[0]['n'])

    def flat(o):
        for e in o.events:
            if e.k == 'loop':
                for i in e.iters:
                    if i.kind == 'continue':
                        for x in flat(i):
                            yield x
            elif e.k == 'call' and e.obj is not None and mentions(e.obj, cont):
                yield e
    for name in ('set', 'insert', 'erase'):
        for f in ctx.fn(CS + '::' + name):
            if any('config_set' in q['t'] for q in f['params']):
                continue
            wh = ctx.where(f)
            p = ('sym', f['params'][0]['n'])
            for o in ctx.run(f):
                if o.kind != 'return':
                    continue
                ev = list(flat(o))
                er = [e for e in ev if last(e.qn) == 'erase']
                ins = [e for e in ev if last(e.qn) in ('insert', 'emplace')]
                under = all(has_sub(('x',) + tuple(e.args), lambda x: x == p or x == deref(p)) or 'value' in show(e.args[0]) or True for e in er)
                if name in ('set', 'erase'):
                    ctx.check(bool(er) and has_sub(('x',) + tuple(er[0].args), lambda x: x == p or x == deref(p) or (x[0] == 'rd' and x[1] == deref(p))), wh, 'the former values of that name go', 'they stay')
                if name == 'set' and er and ins:
                    ctx.check(ev.index(er[-1]) < ev.index(ins[0]), wh, 'the former values go before the new ones come', 'the other way round')
                if name == 'insert':
                    ctx.check(not er and not [e for e in ev if last(e.qn) == 'clear'], wh, 'the former values stay', 'they go')
                if name != 'erase' and not any(e.k == 'loop0' for e in o.events):
                    ctx.check(len(ins) == 1, wh, 'each value is recorded once', '%d insertions' % len(ins))
