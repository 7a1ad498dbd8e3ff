"""C02: a Type is only used as a particular category where it is known to be one.

Every cast from a type class to one below it is an obligation. What was cast
may only be used as the narrower class (a member of that class, or handing it
on) where the facts of the path say so: its category was compared with a
constant of the class or with the category of an object of the class, its
dynamic type was tested, or it was made here. Where the value comes from a
parameter, the same is asked of every caller. Methods called by Ruby get it
from the class they are registered on, which is chosen by category.
"""
import re
from core import *
from rules.owners import last

TYPE = 'Typelib::Type'
CATEGORIES = {'Typelib::NullType': {'NullType'}, 'Typelib::Array': {'Array'}, 'Typelib::Pointer': {'Pointer'}, 'Typelib::Numeric': {'Numeric'},
              'Typelib::Enum': {'Enum'}, 'Typelib::Compound': {'Compound'}, 'Typelib::OpaqueType': {'Opaque'}, 'Typelib::Container': {'Container'}}


def bare(P, t):
    t = re.sub(r'\bconst\b|[&*]', '', t or '').strip()
    if t in P.records:
        return t
    c = [x for x in P.records if x.endswith('::' + t)]
    return c[0] if len(c) == 1 else t


def norm(t):
    """the object a pointer term stands for, without versions"""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] in ('rd', 'ptr', 'refto', 'refloc', 'addr', 'deref') and len(t) >= 2:
        return norm(t[1])
    if t[0] == 'pure' and len(t) > 2 and last(t[1]) in ('operator*', 'operator->', 'get_') and 'Iterator' in t[1]:
        return ('it', norm(t[2]))
    if t[0] == 'g':
        return ()
    return tuple(norm(x) for x in t)


class Narrow:
    def __init__(self, ctx):
        self.ctx, self.P = ctx, ctx.P
        P = ctx.P
        self.types = set(P.all_subs(TYPE)) | {TYPE}
        e = next((v for k, v in P.enums.items() if k == 'Typelib::Type::Category'), None)
        ctx.need(e, 'the categories were not found')
        self.val = {c['n']: int(c['v']) for c in e['consts']}
        self.all = {v for k, v in self.val.items() if k in {x for s in CATEGORIES.values() for x in s}}
        self.memo = {}
        self.stack = []
        self.callers = {}
        self.taken = set()
        for f in P.functions.values():
            if 'body' in f:
                for x in walk_ast(f['body']):
                    if x['k'] == 'call' and x.get('fn'):
                        self.callers.setdefault(x['fn'], []).append(f)
                    elif x['k'] == 'ref' and x.get('dk') == 'func':
                        self.taken.add(x.get('d'))
        self.ruby = None

    def below(self, a, b):
        return a != b and b in base_names(self.P, a)

    def cats(self, T):
        """category constants of the objects of a class"""
        if T == TYPE:
            return set(self.all)
        if T in self.memo:
            return self.memo[T]
        r = set()
        known = CATEGORIES.get(T)
        if known is None:
            for k in CATEGORIES:
                if self.below(k, T):
                    r |= {self.val[x] for x in CATEGORIES[k]}
            if not r:
                for k in CATEGORIES:
                    if self.below(T, k):
                        r = {self.val[x] for x in CATEGORIES[k]}
        else:
            r = {self.val[x] for x in known}
        self.memo[T] = r
        return r

    def category_of(self, t):
        """the object whose category a term is"""
        if not isinstance(t, tuple):
            return None
        if t[0] == 'rd' and isinstance(t[1], tuple) and t[1][0] == 'fld' and t[1][2].split('@')[0] == 'm_category' and '@' not in t[1][2]:
            return norm(t[1][1])
        if t[0] in ('pure', 'res'):
            q = [x for x in t[1:3] if isinstance(x, str)]
            if q and q[0] == 'Typelib::Type::getCategory':
                return norm(t[-1])
        return None

    def classof(self, o, f):
        """the class an object is known to have from its declaration"""
        if o == ('sym', 'this'):
            return f.get('cls')
        if isinstance(o, tuple) and o[:1] == ('sym',):
            for p in f['params']:
                if p['n'] == o[1]:
                    return bare(self.P, p['t'])
        if isinstance(o, tuple) and o[:1] == ('new',):
            return o[2]
        return None

    def established(self, val, T, facts, f):
        n = norm(val)
        want = self.cats(T)
        c = self.classof(n, f)
        if c and (c == T or self.below(c, T)):
            return True
        possible = set(self.all)
        eqs = []
        for a, v in facts.items():
            if a[0] != 'eq':
                continue
            k, ts = lin_parts(a[1])
            if len(ts) == 1:
                t, m = ts[0]
                if isinstance(t, tuple) and t[0] == 'pure' and isinstance(t[1], str) and t[1].startswith('isa:') and norm(t[2]) == n:
                    if v is False:
                        s = bare(self.P, t[1][4:])
                        if s == T or self.below(s, T):
                            return True
                o = self.category_of(t)
                if o is not None and o == n and abs(m) == 1:
                    x = -k * m
                    if v:
                        possible &= {x}
                    else:
                        possible -= {x}
            elif len(ts) == 2 and k == 0 and v is True and ts[0][1] == -ts[1][1]:
                os = [self.category_of(t) for t, m in ts]
                if None not in os and n in os:
                    eqs.append(os[1 - os.index(n)])
        if possible <= want:
            return True         # nothing possible: no such path, the category of an object does not change
        for o in eqs:
            c = self.classof(o, f)
            if c and c in self.types and self.cats(c) & possible <= want:
                return True
            # the same, through what is known of the other object
            other = set(self.all)
            for a, v in facts.items():
                if a[0] == 'eq':
                    k, ts = lin_parts(a[1])
                    if len(ts) == 1 and self.category_of(ts[0][0]) == o and abs(ts[0][1]) == 1:
                        other = other & {-k * ts[0][1]} if v else other - {-k * ts[0][1]}
            if other & possible <= want:
                return True
        return False

    def inline(self, g):
        """calls that are followed: what a check may be hidden in"""
        if g.get('cls') == TYPE or g.get('cls') in self.types and g['n'].startswith(('is', 'has', 'get')):
            return True
        body = g.get('body')
        if unwraps(self.P, g):
            return False
        return body is not None and len(list(walk_ast(body))) <= 60 and not any(x['k'] in ('for', 'while', 'do', 'rfor', 'loop') for x in walk_ast(body)) \
            and any('Typelib::Type' in p['t'] or 'Typelib::Value' in p['t'] or p['t'] in ('VALUE', 'unsigned long') and g['file'].startswith('bindings') for p in g['params'])

    def paths(self, f):
        k = ('run', f['key'])
        if k not in self.memo:
            self.memo[k] = self.ctx.run(f, opaque=lambda g: g['key'] != f['key'] and not self.inline(g), merge=False, events_member=True)
        return self.memo[k]

    # ---- Ruby
    def registrations(self):
        """{function: [(class variable, 'type' or 'value', number of arguments)]}, categories of each class variable"""
        if self.ruby is None:
            self.ruby = ruby_methods(self.P), self.ruby_classes()
        return self.ruby

    def ruby_classes(self):
        P = self.P
        parent, modules = {}, set()
        for f in P.functions.values():
            if 'body' not in f or not f['file'].startswith('bindings'):
                continue
            for x in walk_ast(f['body']):
                tgt = None
                if x['k'] == 'asg':
                    tgt, v = x['a'], x['b']
                elif x['k'] == 'decl':
                    for d in x['v']:
                        if isinstance(d.get('init'), dict):
                            c = definition(d['init'])
                            if c:
                                parent[d['n']] = c[0]
                                if c[1]:
                                    modules.add(d['n'])
                    continue
                if tgt is not None:
                    c = definition(v)
                    if c:
                        n = last(tgt.get('qn') or tgt.get('n') or '?')
                        parent[n] = c[0]
                        if c[1]:
                            modules.add(n)
        by = {}
        # the function that chooses the class of the wrapper of a type
        for f in P.functions.values():
            if 'body' not in f or not f['file'].startswith('bindings') or f['ret'] not in ('VALUE', 'unsigned long') or [bare(P, p['t']) for p in f['params']] != [TYPE]:
                continue
            refs = {last(x['qn']) for x in walk_ast(f['body']) if x['k'] == 'ref' and x.get('dk') == 'global' and x.get('qn')}
            if len(refs & set(parent)) < 2:
                continue
            for o in self.ctx.run(f, merge=False):
                if o.kind != 'return':
                    continue
                g = {last(x[1]) for x in subterms(o.val) if isinstance(x, tuple) and x[:1] == ('glob',)} & set(parent)
                poss = set(self.all)
                for a, v in o.facts.items():
                    if a[0] == 'eq':
                        k, ts = lin_parts(a[1])
                        if len(ts) == 1 and self.category_of(ts[0][0]) is not None:
                            poss = poss & {-k * ts[0][1]} if v else poss - {-k * ts[0][1]}
                for c in g if len(g) == 1 else parent:
                    by.setdefault(c, set()).update(poss)
        res = {}
        for c, k in by.items():
            x, seen = c, set()
            while x and x not in seen:
                seen.add(x)
                res.setdefault(x, set()).update(k)
                x = parent.get(x)
        for c in parent:
            if c not in res:
                # a class no type is wrapped in; a module is mixed into the class it is under
                res[c] = set(res.get(parent[c], ())) if c in modules else set()
        return res

    def from_ruby(self, val, T, f):
        """the object comes from the receiver of a method -> True, False or None if it does not"""
        regs, cls = self.registrations()
        n = norm(val)
        kind = 'type'
        if isinstance(n, tuple) and n[:1] == ('pure',) and n[1] == 'Typelib::Value::getType':
            kind = 'value'; n = n[2]
            if isinstance(n, tuple) and n[:1] == ('it',):
                n = n[1]
        if not (isinstance(n, tuple) and n[:1] in (('res',), ('pure',)) and any(unwraps(self.P, g) for x in n[1:3] if isinstance(x, str) for g in self.P.by_qn.get(x, ()))):
            return None
        a = n[-1]
        if not (isinstance(a, tuple) and a[:1] == ('sym',)):
            return None
        i = [i for i, p in enumerate(f['params']) if p['n'] == a[1]]
        if not i:
            return None
        return self.receiver(f, i[0], kind, T, 0)

    def receiver(self, f, i, kind, T, depth):
        regs, cls = self.registrations()
        ok = None
        for c, k, n in regs.get(f['key'], ()):
            at = 0 if n >= 0 else 2
            if i != at:
                return None
            if k == 'alloc' or k != kind or c not in cls:
                ok = False
                continue
            good = cls[c] <= self.cats(T)
            ok = good if ok is None else ok and good
        if ok is not None:
            return ok
        # a helper: what its callers pass on
        if depth > 2:
            return None
        for g in {x['key']: x for x in self.callers.get(f['key'], ())}.values():
            for x in walk_ast(g['body']):
                if x['k'] == 'call' and x.get('fn') == f['key'] and len(x['args']) > i:
                    r = [j for j, p in enumerate(g['params']) if any(y['k'] == 'ref' and y.get('d') == p['d'] for y in walk_ast(x['args'][i]))]
                    s = self.receiver(g, r[0], kind, T, depth + 1) if r else None
                    if s is None:
                        return None
                    ok = s if ok is None else ok and s
        return ok

    # ---- callers
    def by_callers(self, f, val, T, depth):
        """is a parameter known to be T at every call? -> (answer, reason)"""
        n = norm(val)
        if not (isinstance(n, tuple) and n[:1] == ('sym',)) or depth > 3:
            return False, ''
        i = [i for i, p in enumerate(f['params']) if p['n'] == n[1]]
        if not i:
            return False, ''
        cs = {g['key']: g for g in self.callers.get(f['key'], ())}
        if not cs or f.get('virt') or f['key'] in self.taken:
            return False, ''
        for g in cs.values():
            seen = False
            outs = self.ctx.run(g, opaque=lambda h: h['key'] != g['key'] and (h['key'] == f['key'] or not self.inline(h)), merge=False)
            for e, o, ls in eventsof(outs, ('call',)):
                if e.d.get('key') != f['key']:
                    continue
                seen = True
                v = e.args[i[0]]
                if not self.established(v, T, e.facts, g):
                    ok, why = self.by_callers(g, v, T, depth + 1)
                    if not ok:
                        return False, 'called from %s, line %d, without' % (last(g['qn']), e.line)
            if not seen:
                return False, 'a call in %s was not followed' % last(g['qn'])
        return True, ''


def unwraps(P, g):
    """a function of the bindings that gives the library's object for a Ruby object"""
    return g['file'].startswith('bindings') and len(g['params']) >= 1 and g['params'][0]['t'] in ('VALUE', 'unsigned long') \
        and g['ret'].rstrip().endswith(('&', '*')) and bare(P, g['ret']) in P.records


def subterms(t):
    if isinstance(t, tuple):
        yield t
        for x in t:
            for y in subterms(x):
                yield y


def definition(n):
    """the class an expression defines is under -> (parent, is it a module)"""
    for x in walk_ast(n):
        if x['k'] == 'call' and (x.get('n') or '').startswith(('rb_define_class', 'rb_define_module')):
            refs = [y for a in x['args'] for y in walk_ast(a) if y['k'] == 'ref' and y.get('dk') in ('global', 'local', 'slocal', 'param')]
            if x['n'] == 'rb_define_class_under' and len(x['args']) == 3:
                r = [y for y in walk_ast(x['args'][2]) if y['k'] == 'ref']
                return (last(r[0].get('qn') or r[0]['n']), False) if r else None
            if x['n'] == 'rb_define_module_under':
                r = [y for y in walk_ast(x['args'][0]) if y['k'] == 'ref']
                return (last(r[0].get('qn') or r[0]['n']), True) if r else None
    return None


DEFINE = {'rb_define_method': 'value', 'rb_define_singleton_method': 'type', 'rb_define_module_function': 'type', 'rb_define_private_method': 'value', 'rb_define_protected_method': 'value', 'rb_define_global_function': 'value'}


def ruby_methods(P):
    """{function key: [(class, 'value' for instance methods or 'type' for methods of the class, arity)]}"""
    res = {}
    for f in P.functions.values():
        if 'body' not in f or not f['file'].startswith('bindings'):
            continue
        copies = {}
        for x in walk_ast(f['body']):
            for v in x.get('v') or () if x['k'] == 'decl' else ():
                i = v.get('init')
                while isinstance(i, dict) and i['k'] in ('cast', 'expr', 'paren'):
                    i = i.get('a')
                if isinstance(i, dict) and i['k'] == 'ref':
                    copies[v['d']] = i
        for x in walk_ast(f['body']):
            if x['k'] != 'call':
                continue
            n = x.get('n') or last(x.get('qn') or '')
            ar = None
            m = re.search(r'&(rb_define_\w+)>::engine<(-?\d+),', x.get('qn') or '')
            if m:
                n, ar = m.group(1), int(m.group(2))
            n = re.sub(r'_(m?\d+|00|notimpl)$', '', n) if n.startswith('rb_define') else n
            if n not in DEFINE:
                continue
            off = 0 if n == 'rb_define_global_function' else 1
            c = [y for y in walk_ast(x['args'][0]) if y['k'] == 'ref'] if off else []
            while c and c[0].get('d') in copies:
                c = [copies[c[0]['d']]]
            fn = [y for a in x['args'][off:] for y in walk_ast(a) if y['k'] == 'ref' and y.get('dk') == 'func']
            if ar is None:
                ar = const_of(x['args'][-1])
            if fn:
                res.setdefault(fn[0]['d'], []).append((last(c[0].get('qn') or c[0]['n']) if c else None, DEFINE[n], ar))
    return res


def const_of(n):
    while n['k'] in ('cast', 'expr', 'paren') and isinstance(n.get('a'), dict):
        n = n['a']
    if n['k'] == 'int':
        return int(n['v'])
    if n['k'] == 'un' and n.get('op', '').startswith('-') and n['a']['k'] == 'int':
        return -int(n['a']['v'])
    return None


def sites(P, N):
    """functions with a narrowing cast -> casts"""
    res = {}
    for f in P.functions.values():
        if 'body' not in f:
            continue
        roots = [f['body']] + [i['e'] for i in f.get('inits') or () if isinstance(i.get('e'), dict)]
        for r in roots:
            for x in walk_ast(r):
                if x['k'] == 'cast' and x.get('ck') in ('static', 'c', 'dynamic', 'reinterpret', 'functional'):
                    T, S = bare(P, x.get('t')), bare(P, x.get('from') or (x['a'].get('t') if isinstance(x.get('a'), dict) else ''))
                    if T in N.types and S in N.types and N.below(T, S):
                        res.setdefault(f['key'], []).append(x)
    return res


def narrowings(ctx):
    ctx.rule = 'a type is known to be what it is used as'
    P = ctx.P
    N = Narrow(ctx)
    todo = sites(P, N)
    for f in P.functions.values():
        for x in walk_ast(f.get('body') or {}):
            if x['k'] == 'asg' and x['a']['k'] == 'mem' and x['a']['n'] == 'm_category' and bare(P, x['a'].get('cls')) == TYPE:
                ctx.bad(ctx.where(f, x['l']), 'the category of a type stays the same', 'it is assigned')
    ctx.need(len(todo) >= 5, 'only %d functions narrow a type' % len(todo))
    for key, casts in sorted(todo.items()):
        f = P.functions[key]
        try:
            outs = N.paths(f)
        except Exception as x:
            if type(x).__name__ not in ('Overflow', 'AnalysisBroken', 'RecursionError'):
                raise
            ctx.unk(ctx.where(f), 'narrowed types', str(x)[:100])
            continue
        seen = {}
        nodes = {id(x) for x in casts}
        reached = set()

        def walk(o, open_, facts0):
            for e in o.events:
                if e.k == 'cast':
                    T, S = bare(P, e.to), bare(P, e.frm)
                    if T in N.types and S in N.types and N.below(T, S) and id(e.node) in nodes:
                        reached.add(id(e.node))
                        st = N.established(e.val, T, e.facts, f)
                        open_ = open_ + [(e, T, S, st)]
                        seen.setdefault(id(e.node), []).append((e, T, S, None if e.ck != 'dynamic' else True, e.facts))
                elif e.k == 'member':
                    for c, T, S, st in open_:
                        if norm(e.ptr) == norm(c.val) and (e.d['cls'] == T or N.below(e.d['cls'], S)) and c.ck != 'dynamic':
                            seen[id(c.node)].append((c, T, S, N.established(c.val, T, e.facts, f), e.facts))
                elif e.k in ('call', 'ctor'):
                    for c, T, S, st in open_:
                        if c.ck != 'dynamic' and any(isinstance(a, tuple) and norm(a) == norm(c.val) for a in e.d.get('args') or ()) and e.node is not None and takes(e.node, T):
                            seen[id(c.node)].append((c, T, S, N.established(c.val, T, e.facts, f), e.facts))
                elif e.k in ('loop', 'loop0'):
                    for i in e.iters:
                        walk(i, open_, facts0)
            if o.kind == 'return' and o.val is not None:
                for c, T, S, st in open_:
                    if c.ck != 'dynamic' and isinstance(o.val, tuple) and norm(o.val) == norm(c.val) and T == bare(P, f['ret']):
                        seen[id(c.node)].append((c, T, S, N.established(c.val, T, o.facts, f), o.facts))

        def takes(node, T):
            g = P.functions.get(node.get('fn'))
            return bool(g) and any(bare(P, p['t']) == T for p in g['params'])
        for o in outs:
            walk(o, [], None)
        for x in casts:
            uses = seen.get(id(x), [])
            T = bare(P, x['t'])
            wh = ctx.where(f, x.get('l'))
            what = 'what is used as %s is one' % last(T)
            if id(x) not in reached:
                ctx.unk(wh, what, 'the cast was not reached by the analysis')
                continue
            ptr = x['t'].rstrip().endswith('*')
            ent = [u for u in uses if u[3] is False]
            if x['ck'] == 'dynamic':
                c = uses[0][0]
                if f['file'].startswith('bindings') and not ptr:
                    # an exception must not reach the Ruby interpreter
                    r = N.from_ruby(c.val, T, f)
                    est = all(N.established(u[0].val, T, u[4], f) for u in uses)
                    if est or r:
                        ctx.ok(wh, what)
                    elif r is False:
                        ctx.bad(wh, what, 'the method is registered on a class of other categories as well, and the error is not handled')
                    elif protected(f, x):
                        ctx.ok(wh, what)
                    else:
                        ctx.unk(wh, what, 'where the type comes from was not recognised')
                elif ptr:
                    nulls = null_uses(outs, x, N, f)
                    if nulls:
                        ctx.bad(wh, 'a type that turned out to be something else is not used', 'line %d uses the result although the cast may have failed' % nulls)
                    else:
                        ctx.ok(wh, what)
                else:
                    ctx.ok(wh, what)
                continue
            if not ent:
                ctx.ok(wh, what)
                continue
            c = ent[0][0]
            r = N.from_ruby(c.val, T, f)
            if r is True:
                ctx.ok(wh, what)
                continue
            if r is False:
                ctx.bad(wh, what, 'the method is registered on a class of other categories as well')
                continue
            ok, why = N.by_callers(f, c.val, T, 0)
            if ok:
                ctx.ok(wh, what)
            else:
                ctx.bad(wh, what, 'a path uses it without knowing its category' + (' (%s)' % why if why else ''))


def protected(f, x):
    """is the node inside a try block that takes every exception?"""
    for t in walk_ast(f['body']):
        if t['k'] == 'try' and any(y is x for y in walk_ast(t['b'])):
            if any(not h.get('ct') or 'exception' in h['ct'] or 'bad_cast' in h['ct'] for h in t['h']):
                return True
    return False


def null_uses(outs, x, N, f):
    """line at which a failed pointer cast is used"""
    hit = []

    def walk(o, failed):
        for e in o.events:
            if e.k == 'cast' and e.node is x:
                if N.established(e.val, bare(N.P, x['t']), e.facts, f):
                    failed = None
                else:
                    failed = e
            elif failed is not None and e.k == 'member' and e.ptr == ZERO and bare(N.P, e.d['cls']) in N.types:
                # only on paths where the cast gave nothing
                if any(a[0] == 'eq' and v is True and any(isinstance(t, tuple) and t[0] == 'pure' and str(t[1]).startswith('isa:') and norm(t[2]) == norm(failed.val) for t, k in lin_parts(a[1])[1]) for a, v in e.facts.items()):
                    hit.append(e.line)
            elif e.k in ('loop', 'loop0'):
                for i in e.iters:
                    walk(i, failed)
    for o in outs:
        walk(o, None)
    return hit[0] if hit else None
