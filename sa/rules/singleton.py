"""G01, G02: process-wide singletons."""
from core import *
from rules.layout import *
from rules.streams import lower

NS = 'utilmm::singleton::'
CLASSES = (NS + 'server', NS + 'dummy')


def is_mutex(t):
    return 'mutex' in t and 'lock' not in t.split('<')[0]


def is_lock(t):
    t = t.replace('const ', '')
    return t.split('::')[0] in ('std', 'boost') and 'lock' in t.split('<')[0].rsplit('::', 1)[-1]


def guarded_fields(ctx):
    res = {}
    for c in CLASSES:
        r = ctx.P.records.get(c)
        ctx.need(r is not None, 'class %s not found' % c)
        res[c] = {f['n'] for f in r['fields'] if not is_mutex(f['t'])}
    return res


def mutex_of(ctx, e, depth=0):
    """which process-wide mutex an expression is, or None"""
    if e is None:
        return None
    if e['k'] == 'ref':
        if e.get('dk') == 'global' or e.get('dk') == 'static' or e.get('static'):
            return ('global', e.get('qn') or e.get('n'))
        return None
    if e['k'] == 'mem' and e.get('static'):
        return ('global', e.get('qn') or e.get('cls', '') + '::' + e['n'])
    if e['k'] == 'call' and depth < 3:
        f = ctx.P.functions.get(e.get('fn'))
        if f and 'body' in f:
            for n in walk_ast(f['body']):
                if n['k'] == 'return' and n.get('a'):
                    r = n['a']
                    if r['k'] == 'ref' and r.get('dk') in ('local', 'slocal', 'static'):
                        # a static local
                        for d in walk_ast(f['body']):
                            if d['k'] == 'decl' and any(v.get('d') == r.get('d') and v.get('static') for v in d['v']):
                                return ('static', f['key'])
                        return None
                    return mutex_of(ctx, r, depth + 1)
    if e['k'] in ('cast', 'paren') and e.get('a'):
        return mutex_of(ctx, e['a'], depth)
    return None


class Locks:
    """a lexical walk of one function: which guarded accesses and calls happen without the lock"""

    def __init__(self, ctx, f, guarded, mutexes):
        self.ctx = ctx; self.f = f; self.guarded = guarded; self.mutexes = mutexes
        self.vars = {}                # lock variables: id -> mutex
        self.open = []                # (line, what) guarded accesses without a lock
        self.calls = []               # (line, key) calls without a lock
        self.held_calls = []
        self.n = 0
        self.sites = []

    def lock_in(self, init, t):
        """the mutex a declaration of a lock takes, or None"""
        if init is None:
            return None
        if init['k'] == 'ctor':
            args = init.get('args') or []
            if len(args) >= 2 and any('defer_lock' in (a.get('t') or '') or 'try_to_lock' in (a.get('t') or '') for a in args[1:]):
                return None
            if args:
                m = mutex_of(self.ctx, args[0])
                if m:
                    return m
                if is_lock(args[0].get('t', '')):
                    return self.lock_in(args[0], t)
        if init['k'] == 'call':
            f = self.ctx.P.functions.get(init.get('fn'))
            if f and 'body' in f:
                for n in walk_ast(f['body']):
                    if n['k'] == 'ctor' and is_lock(n.get('t', '')) and n.get('args'):
                        a = n['args'][0]
                        if a['k'] == 'ref' and a.get('dk') == 'param':
                            i = [j for j, q in enumerate(f['params']) if q['d'] == a['d']]
                            a = init['args'][i[0]] if i and i[0] < len(init.get('args') or []) else a
                        m = mutex_of(self.ctx, a)
                        if m:
                            return m
        for k in ('a', 'e'):
            if isinstance(init.get(k), dict):
                r = self.lock_in(init[k], t)
                if r:
                    return r
        if init['k'] == 'ctor':
            # a guard class of the repository
            f = self.ctx.P.functions.get(init.get('fn'))
            if f:
                for part in [f.get('body')] + list(f.get('inits') or []):
                    for n in walk_ast(part) if part else []:
                        if n['k'] == 'call' and n.get('n') == 'lock' and n.get('obj'):
                            m = mutex_of(self.ctx, n['obj'])
                            if m:
                                return m
                        if n['k'] == 'ctor' and is_lock(n.get('t', '')) and n.get('args'):
                            m = mutex_of(self.ctx, n['args'][0])
                            if m:
                                return m
        return None

    def walk(self, n, held):
        """-> is the lock held after n"""
        if n is None or isinstance(n, (str, int, float, bool)):
            return held
        if isinstance(n, list):
            for x in n:
                held = self.walk(x, held)
            return held
        k = n.get('k')
        if k == 'block':
            h = held
            for x in n.get('b') or []:
                h = self.walk(x, h)
            # locks declared in the block end with it
            return held and h if held else False
        if k == 'decl':
            for v in n.get('v') or []:
                m = self.lock_in(v.get('init'), v.get('t', ''))
                if m is not None:
                    self.sites.append((v.get('l') or n.get('l'), m))
                    self.vars[v.get('d')] = m
                    held = True
                else:
                    held = self.walk(v.get('init'), held)
            return held
        if k in ('if', 'cond'):
            h = self.walk(n.get('init'), held)
            h = self.walk(n.get('c'), h)
            a = self.walk(n.get('a'), h)
            b = self.walk(n.get('b'), h)
            return a and b
        if k in ('while', 'for', 'do', 'rfor', 'foreach'):
            h = self.walk(n.get('init'), held)
            for _ in range(2):
                h = self.walk(n.get('c'), h)
                h = self.walk(n.get('b'), h) and h
                h = self.walk(n.get('inc'), h)
            return h
        if k == 'call' and n.get('n') in ('lock', 'unlock') and n.get('obj') is not None:
            o = n['obj']
            m = self.vars.get(o.get('d')) if o['k'] == 'ref' else None
            m = m or mutex_of(self.ctx, o)
            if m is not None:
                self.sites.append((n.get('l'), m))
                return n['n'] == 'lock'
        if k == 'lambda':
            self.walk(n.get('body'), held)
            return held
        self.visit(n, held)
        for key, x in n.items():
            if key in ('k', 'l', 't'):
                continue
            if isinstance(x, (dict, list)):
                held = self.walk(x, held)
        return held

    def visit(self, n, held):
        k = n.get('k')
        what = None
        if k == 'mem' and n.get('cls') in self.guarded and n.get('n') in self.guarded[n['cls']]:
            ctor = self.f['n'] == self.f.get('cls', '').rsplit('::', 1)[-1] and n.get('o', {}).get('k') == 'this'
            if not ctor:
                what = n['cls'].rsplit('::', 1)[-1] + '::' + n['n']
        elif k == 'ref' and n.get('dk') in ('global', 'static') and any((n.get('qn') or '').startswith(c + '::') for c in CLASSES) and not is_mutex(n.get('t', '')):
            what = n['qn'].rsplit('::', 2)[-2] + '::' + n['n']
        if what is not None:
            self.n += 1
            if not held:
                self.open.append((n.get('l'), what))
        if k in ('call', 'ctor', 'new', 'del', 'opcall'):
            for key in ([n.get('fn')] if k != 'del' else [n.get('dtor')]):
                if key:
                    (self.held_calls if held else self.calls).append((n.get('l'), key))


def locked(ctx):
    """G01: every access to the table and the counts happens under the one lock"""
    guarded = guarded_fields(ctx)
    info = {}
    mutexes = set()
    for key, f in ctx.P.functions.items():
        if 'body' not in f:
            continue
        w = Locks(ctx, f, guarded, mutexes)
        w.walk(f['body'], False)
        info[key] = w
        if w.n or w.sites:
            ctx.functions.add(f['qn'])
        for l, m in w.sites:
            if any(f['qn'].startswith(c) for c in (NS,)):
                mutexes.add(m)
    total = sum(w.n for w in info.values())
    ctx.need(total >= 5, 'only %d accesses to the singleton table found' % total)
    ctx.check(len(mutexes) == 1, NS, 'there is one lock for all singletons', 'locks: %s' % sorted(m[1] for m in mutexes) if mutexes else 'no lock is taken anywhere')
    # functions that need their caller to hold the lock
    need = {k: '%s:%s accesses %s' % (ctx.P.functions[k]['file'], w.open[0][0], w.open[0][1]) for k, w in info.items() if w.open}
    callers = {}
    for k, w in info.items():
        for l, c in w.calls:
            callers.setdefault(c, []).append((k, l, False))
        for l, c in w.held_calls:
            callers.setdefault(c, []).append((k, l, True))
    todo = list(need)
    while todo:
        k = todo.pop()
        for c, l, held in callers.get(k, []):
            if not held and c not in need:
                need[c] = need[k]
                todo.append(c)
    for k, w in info.items():
        f = ctx.P.functions[k]
        if not w.n:
            continue
        if not w.open:
            ctx.ok(ctx.where(f), 'accesses to %s happen under the lock' % f['qn'])
    for k in sorted(need):
        f = ctx.P.functions[k]
        r = ctx.P.records.get(f.get('cls')) or {}
        acc = [m.get('acc') for m in r.get('methods', []) if m['key'] == k]
        private = bool(acc) and acc[0] == 2 and f.get('cls') in CLASSES
        cs = callers.get(k, [])
        where = ctx.where(f)
        text = 'the singleton table is only reached with the lock held (%s)' % need[k]
        if not private:
            ctx.bad(where, text, 'it can be called from anywhere without the lock')
        elif not cs and f['n'].startswith('~'):
            ctx.ok(where, text)
        elif all(h or c in need for c, l, h in cs):
            ctx.ok(where, text)
        else:
            ctx.bad(where, text, 'called without the lock')


# ------------------------------------------------------------------ reference counts
def counts(e):
    """stores to the reference count"""
    return e.k == 'store' and e.loc[0] == 'fld' and e.loc[2] == COUNT[0]


COUNT = ['ref_counter']


def named(t, p):
    return has_sub(t, lambda x: x == p or x == deref(p))


def lookups(o, p):
    """results of finding or inserting the name"""
    res = []
    for e in o.events:
        if e.k == 'call' and 'std::map' in e.qn:
            last = sq(e.qn).rsplit('::', 1)[-1]
            res.append((last, e))
    return res


def entry(t, p):
    """t comes from the table entry of the name p"""
    return has_sub(t, lambda x: x[0] in ('res', 'pure', 'call') and any(isinstance(y, str) and sq(y).rsplit('::', 1)[-1] in ('find', 'insert', 'operator[]', 'emplace', 'at', 'lower_bound') for y in x) and named(x, p))


def refcount_field(ctx):
    r = ctx.P.records.get(NS + 'dummy')
    fs = [f['n'] for f in r['fields'] if 'long' in f['t'] or 'int' in f['t']]
    ctx.need(len(fs) == 1, 'the reference count of singletons not found')
    COUNT[0] = fs[0]


def server_refs(ctx):
    """G02: one reference per attach, one given back per detach, the last one destroys"""
    refcount_field(ctx)
    f = ctx.one(NS + 'dummy::attach')
    wh = ctx.where(f)
    p = ('sym', f['params'][0]['n'])
    for o in ctx.run(f):
        if o.kind != 'return':
            continue
        st = [e for e in o.events if counts(e)]
        ctx.check(len(st) == 1 and sub(st[0].val, st[0].old) == I(1) if len(st) != 1 or st[0].d.get('old') is not None else None, wh, 'attaching takes exactly one reference', '%d updates of the count: %s' % (len(st), '; '.join(show(e.val) for e in st)))
        if len(st) == 1:
            ctx.check(entry(st[0].loc, p) or has_sub(st[0].loc, lambda x: x[0] in ('pure', 'res', 'call') and 'create' in show(x)), wh, 'the reference is taken on the entry of that name', show(st[0].loc))
        cr = [e for e in o.events if e.k == 'call' and sq(e.qn).endswith('::create')]
        ins = [e for l, e in lookups(o, p) if l in ('insert', 'emplace', 'operator[]', 'insert_or_assign')]
        absent = None
        for a, v in o.facts.items():
            if a[0] == 'eq' and has_sub(a[1], lambda x: x[0] in ('res', 'pure') and any(isinstance(y, str) and sq(y).endswith('::find') for y in x)) and 'end' in show(a[1]):
                absent = v
            if a[0] == 'eq' and has_sub(a[1], lambda x: x[0] in ('res', 'pure') and any(isinstance(y, str) and sq(y).endswith('::count') for y in x)):
                absent = v
        if cr:
            ctx.check(len(cr) == 1 and absent is not False, wh, 'an instance is created only when there is none', '%d are created' % len(cr))
            ctx.check(absent if absent is not None else None, wh, 'an instance is created only when the name is not in the table', 'the table is not asked')
            ctx.check(len(ins) == 1 and has_sub(('x',) + tuple(ins[0].args), lambda x: x == cr[0].res) and any(named(a, p) for a in ins[0].args) or
                      any(e.k == 'store' and e.val == cr[0].res and has_sub(e.loc, lambda x: True) for e in o.events), wh, 'the instance created is entered under its name', '%d insertions' % len(ins))
        else:
            ctx.check(absent is False or None if absent is not True else False, wh, 'a name that is not in the table gets an instance', 'none is created')
    f = ctx.one(NS + 'dummy::detach')
    wh = ctx.where(f)
    p = ('sym', f['params'][0]['n'])
    for o in ctx.run(f):
        if o.kind != 'return':
            continue
        st = [e for e in o.events if counts(e)]
        if not st and any(a[0] == 'eq' and v and lin_parts(a[1])[0] == 0 and len(lin_parts(a[1])[1]) == 1 and lin_parts(a[1])[1][0][0][0] == 'rd' and lin_parts(a[1])[1][0][0][1][-1] == COUNT[0] for a, v in o.facts.items()):
            continue          # the count is at least 1
        if len(st) != 1 or st[0].d.get('old') is None:
            ctx.check(False if len(st) != 1 else None, wh, 'detaching gives back exactly one reference', '%d updates of the count' % len(st))
            continue
        old = st[0].old
        ctx.check(sub(st[0].val, old) == I(-1), wh, 'detaching gives back exactly one reference', show(st[0].val))
        ctx.check(entry(st[0].loc, p), wh, 'the reference is given back on the entry of that name', show(st[0].loc))
        last = (lower(o.facts, scale(old, -1)) or -10) >= -1
        zero = any(a[0] == 'eq' and v and lin_parts(a[1]) in (lin_parts(st[0].val), lin_parts(scale(st[0].val, -1))) for a, v in o.facts.items())
        more = (lower(o.facts, old) or -10) >= 2 or any(a[0] == 'eq' and not v and lin_parts(a[1]) in (lin_parts(st[0].val), lin_parts(scale(st[0].val, -1))) for a, v in o.facts.items())
        last = last or zero
        obj = st[0].loc[1]
        dels = [e for e in o.events if e.k == 'delete' and 'server' not in (e.ty or '')]
        er = [e for l, e in lookups(o, p) if l in ('erase', 'clear', 'extract')]
        if dels or er:
            ctx.check(last, wh, 'an instance is destroyed only with its last reference', 'facts do not say that the count was 1')
            ctx.check(len(dels) == 1 and deref(dels[0].ptr) == obj, wh, 'the last reference destroys the instance once', '%d destroyed: %s' % (len(dels), '; '.join(show(e.ptr) for e in dels)))
            ctx.check(len(er) == 1 and any(named(a, p) for a in er[0].args), wh, 'a destroyed instance leaves the table', '%d erasures' % len(er))
            if dels and er:
                uses = o.events.index(er[0]) > o.events.index(dels[0])
        else:
            ctx.check(more if more else None if not last else False, wh, 'the last reference destroys the instance', 'it stays')
        sd = [e for e in o.events if e.k == 'delete' and 'server' in (e.ty or '')]
        if sd:
            emp = any(a[0] == 'eq' and v and has_sub(a[1], lambda x: isinstance(x[1] if len(x) > 1 else 0, str) and sq(x[1]).endswith(('::size', '::empty')) and 'map' in x[1]) for a, v in o.facts.items())
            ctx.check(emp and len(sd) == 1, wh, 'the table is destroyed only when it is empty', 'facts do not say that it is')
    f = ctx.one(NS + 'dummy::instance')
    for o in ctx.run(f):
        if o.kind == 'return':
            p = ('sym', f['params'][0]['n'])
            ctx.check(not any(counts(e) for e in o.events), ctx.where(f), 'using a handle changes no count', 'the count is changed')
            ctx.check(entry(o.val, p), ctx.where(f), 'the instance handed out is the one of that name', show(o.val))
    # the count starts at 0
    for f in ctx.fn(NS + 'dummy::dummy'):
        for o in ctx.run(f):
            v = [v for h, v in o.st.heap.items() if h[0] == 'fld' and h[2] == COUNT[0]]
            ctx.check(v == [ZERO], ctx.where(f), 'a new instance has no references', show(v[0]) if v else 'not initialised')
    r = ctx.P.records[NS + 'dummy']
    d = [m for m in r['methods'] if m.get('dtor')]
    ctx.check(bool(d) and d[0]['virt'], r['file'] + ':%d' % r['line'], 'instances are destroyed through their own destructor', 'the destructor is not virtual')
    # the table itself
    f = ctx.one(NS + 'server::instance')
    for o in ctx.run(f):
        news = [e for e in o.events if e.k == 'new' and e.ty == NS + 'server']
        null = [v for a, v in o.facts.items() if a[0] == 'eq' and lin_parts(a[1])[0] == 0 and 'the_instance' in show(a[1]) and 'singletons' not in show(a[1])]
        if o.kind != 'return':
            continue
        if news:
            ctx.check(len(news) == 1 and null == [True], ctx.where(f), 'the table is created only when there is none', 'facts: %s' % null)
        else:
            ctx.check(null == [False] or None, ctx.where(f), 'the table is created when there is none', 'facts: %s' % null)
    for f in ctx.fn(NS + 'server::~server'):
        for o in ctx.run(f):
            st = [e for e in o.events if e.k == 'store' and e.loc[0] == 'glob']
            ctx.check(any(e.val == ZERO for e in st), ctx.where(f), 'a destroyed table is not used again', 'the pointer to it stays')
    for f in ctx.fn(NS + 'server::server'):
        for o in ctx.run(f):
            st = [e for e in o.events if e.k == 'store' and e.loc[0] == 'glob' and e.val == ('sym', 'this')]
            ctx.check(len(st) == 1, ctx.where(f), 'a new table is the one that is used', 'it is not recorded')


def handles(ctx):
    """G02: handles attach in every constructor and detach in their destructor"""
    n = 0
    opq = lambda g: sq(g['qn']) in (NS + 'dummy::attach', NS + 'dummy::detach', NS + 'dummy::instance')
    for cls, r in sorted(ctx.P.records.items()):
        if not cls.startswith(NS + 'use<'):
            continue
        n += 1
        where = '%s:%s %s' % (r['file'], r['line'], cls)
        at, de = set(), set()
        for m in r['methods']:
            if m.get('deleted'):
                continue
            f = ctx.P.functions.get(m['key'])
            if m.get('ctor'):
                if m.get('implicit') and (f is None or 'body' not in f or True) and not (f or {}).get('body'):
                    ctx.bad(where, 'every handle takes one reference', 'the %s constructor is generated by the compiler and takes none' % ('copy' if m.get('copy') else 'move or default'))
                    continue
                if f is None or 'body' not in f:
                    continue
                for o in ctx.run(f, opaque=opq):
                    a = [e for e in o.events if e.k == 'call' and sq(e.qn) == NS + 'dummy::attach']
                    d = [e for e in o.events if e.k == 'call' and sq(e.qn) == NS + 'dummy::detach']
                    if o.kind == 'throw':
                        continue
                    ctx.check(len(a) == 1 and not d, ctx.where(f), 'every handle takes one reference', 'takes %d, gives back %d' % (len(a), len(d)))
                    at |= {show(strip_fresh(e.args[0])) for e in a}
            elif m.get('dtor'):
                if m.get('implicit') or f is None or 'body' not in f:
                    ctx.bad(where, 'every handle gives its reference back', 'the destructor does nothing')
                    continue
                for o in ctx.run(f, opaque=opq):
                    a = [e for e in o.events if e.k == 'call' and sq(e.qn) == NS + 'dummy::attach']
                    d = [e for e in o.events if e.k == 'call' and sq(e.qn) == NS + 'dummy::detach']
                    if o.kind == 'throw':
                        continue
                    ctx.check(len(d) == 1 and not a, ctx.where(f), 'every handle gives its reference back', 'gives back %d, takes %d' % (len(d), len(a)))
                    de |= {show(strip_fresh(e.args[0])) for e in d}
            elif m['n'] == 'operator=' and not m.get('implicit'):
                if f is None or 'body' not in f:
                    continue
                for o in ctx.run(f, opaque=opq):
                    a = [e for e in o.events if e.k == 'call' and sq(e.qn) == NS + 'dummy::attach']
                    d = [e for e in o.events if e.k == 'call' and sq(e.qn) == NS + 'dummy::detach']
                    ctx.check(len(a) == len(d), ctx.where(f), 'assigning a handle changes no count', 'takes %d, gives back %d' % (len(a), len(d)))
            elif f is not None and 'body' in f:
                for o in ctx.run(f, opaque=opq):
                    a = [e for e in o.events if e.k == 'call' and sq(e.qn) in (NS + 'dummy::attach', NS + 'dummy::detach')]
                    ctx.check(not a, ctx.where(f), 'using a handle changes no count', '%d changes' % len(a))
                    i = [e for e in o.events if e.k == 'call' and sq(e.qn) == NS + 'dummy::instance']
                    at |= {show(strip_fresh(e.args[0])) for e in i}
        ctx.check(len(at | de) == 1, where, 'references are taken, given back and used under one name', 'names: %s' % sorted(at | de))
    ctx.need(n >= 1, 'no singleton handle found')


def strip_fresh(t):
    """without result numbers"""
    if not isinstance(t, tuple):
        return t
    if t and t[0] == 'res' and len(t) > 2 and isinstance(t[1], int):
        t = ('res', 0) + t[2:]
    return tuple(strip_fresh(x) for x in t)
