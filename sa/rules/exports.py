"""F01: what the exporter writes, and in which order.

The ordering loop of Exporter::save is followed symbolically. For each entry
(named by the iterator that stands for it) the facts and events of its path must
show that it was only made available for writing when its dependencies were in
the set of types done, that it goes into that set only when it is written or not
to be written at all, and that it leaves the tables only in one of these ways.
"""
from core import *
from rules.owners import last, of, Sweep, mentions
from rules.singleton import strip_fresh
from rules.recursion import strip, root_var, subs_of

RI = 'Typelib::RegistryIterator'


def who(t):
    """the iterator or entry that a term is about"""
    t = strip_fresh(t)
    best = None
    for x in subs_of(t):
        if x[:1] == ('deref',) and isinstance(x[1], tuple) and x[1] and x[1][0] in ('L', 'X', 'res', 'pure', 'lin', 'iter'):
            best = x[1]
    if best is None:
        for x in subs_of(t):
            if x[:1] in (('L',), ('X',)):
                return x
    return best


def same_entry(a, b):
    return a is not None and a == b


def about(t, w, *names):
    """t is the result of one of the methods, for the entry w"""
    return isinstance(t, tuple) and t and t[0] in ('pure', 'res') and last([x for x in t[1:3] if isinstance(x, str)][0]) in names and same_entry(who(t), w)


def fact(facts, w, *names):
    """what the facts say about a boolean method of an entry"""
    for a, v in facts.items():
        if a[0] == 'eq':
            t = strip_fresh(a[1])
            if about(t, w, *names):
                return not v
        if a[0] == 'bool' and about(strip_fresh(a[1]), w, *names):
            return v
    return None


def walk(events, before, loops):
    """every event with those that came before it on its path"""
    before = list(before)
    for e in events:
        if e.k in ('loop', 'loop0'):
            inside = [x for x, _o, _l in eventsof(e.iters, ('call',))]
            for i in e.iters:
                for y in walk(i.events, before + [('start', e, inside)], loops + ((e, i),)):
                    yield y
            before.append(e)
            continue
        yield e, before, loops
        before.append(e)


def obj(e):
    o = strip(e.obj) if e.k == 'call' and e.obj is not None else None
    return o if isinstance(o, tuple) and o and o[0] in ('var', 'fld') else None


class Export:
    def __init__(self, ctx):
        self.ctx = ctx
        self.memo, self.alll, self.stored = {}, None, None
        P = ctx.P
        fs = [f for f in ctx.fn('Typelib::Exporter::save') if any('Registry &' in p['t'] and 'Iterator' not in p['t'] for p in f['params']) and any('ostream' in p['t'] for p in f['params'])]
        ctx.need(len(fs) == 1, 'Exporter::save not found')
        self.f = fs[0]
        self.wh = ctx.where(self.f)
        one = [m for m in P.records['Typelib::Exporter']['methods'] if m['n'] == 'save' and m.get('virt')]
        self.write = {m['key'] for m in one if 'RegistryIterator' in m['key']}
        ctx.need(self.write, 'no virtual method that writes one type')
        self.outs = ctx.run(self.f, merge=False, opaque=lambda g: g.get('cls') in ('Typelib::Registry', RI) or g['n'] in ('dependsOn', 'begin', 'end') or 'utilmm' in g['qn'])
        # the set of types done, and the tables of entries
        self.S = set(); self.tabs = set()
        for e, o, l in eventsof(self.outs, ('call',)):
            b = obj(e)
            if b is not None and last(e.qn) in ('insert', 'emplace', 'push_back'):
                if 'std::set<const Typelib::Type *' in e.qn:
                    self.S.add(b)
                elif RI in e.qn:
                    self.tabs.add(b)
        ctx.need(len(self.S) == 1, 'the set of types that have been written was not found')
        self.S = self.S.pop()

    def writes(self, e):
        return e.k == 'call' and e.key in self.write

    def checked(self, facts, w, before):
        """a loop over the dependencies has found all of them in the set: True, None if there is a loop that is not understood"""
        res = False
        for L in before:
            if isinstance(L, tuple) or L.k not in ('loop', 'loop0'):
                continue
            conts = [x for v in list(L.init.values()) + [L.d.get('trip') or ZERO, L.rng or ZERO] for x in subs_of(strip_fresh(v)) if depends(x, w, None)]
            if not conts:
                continue
            res = None
            if L.k == 'loop0':
                return True
            good = True; flags = set(); back = set()
            for i in L.iters:
                if i.kind in ('throw', 'noreturn', 'return') or i.kind == 'break' and not L.d.get('partial'):
                    continue
                inside = any(a[0] == 'eq' and not v and of(strip_fresh(a[1]), ('count', 'contains')) and has_sub(a[1], lambda y: y == self.S) or
                             a[0] == 'eq' and not v and lin_parts(a[1])[0] == 0 and len(lin_parts(a[1])[1]) == 2 and any(of(strip_fresh(x), ('find',)) and has_sub(x, lambda y: y == self.S) for x, c in lin_parts(a[1])[1]) for a, v in i.facts.items())
                off = {strip_fresh(e.loc) for e, _o, _l in eventsof([i], ('store',)) if e.val == ZERO}
                on = {strip_fresh(e.loc) for e, _o, _l in eventsof([i], ('store',)) if e.val != ZERO}
                back |= on
                if inside and i.kind == 'continue' and not on & off:
                    continue
                flags.add(frozenset(off))
                if not off:
                    good = False
            if not good:
                continue
            # one flag that every iteration that found something missing turns off
            common = (frozenset.intersection(*flags) if flags else frozenset()) - back
            for a, v in facts.items():
                if a[0] == 'eq' and not v and isinstance(a[1], tuple) and a[1][:1] in (('X',), ('L',)) and strip_fresh(a[1])[2] in common:
                    return True
            if not flags:
                return True
        return res

    def ready(self, facts, w, before=()):
        r = self.ready1(facts, w)
        if r is not True:
            c = self.checked(facts, w, before)
            r = c if c is not False else r
        return r

    def ready1(self, facts, w):
        """True, False if nothing about dependencies is known, None if something else was looked at"""
        S = self.S
        seen = False
        for a, v in facts.items():
            t = strip_fresh(a[1]) if len(a) > 1 else None
            if t is None:
                continue
            if not has_sub(t, lambda y: y == S) and not has_sub(t, lambda y: isinstance(y, tuple) and y and y[0] == 'rd' and y[1] == S):
                inc = of(t, ('includes',))
                if not inc:
                    continue
            if of(t, ('includes',)):
                args = t[2:] if t[0] == 'pure' else t[3:]
                args = [x for x in args if isinstance(x, tuple)]
                if a[0] == 'eq' and not v and len(args) >= 4:
                    ok = in_set(args[0], S, 'begin', self) and in_set(args[1], S, 'end', self) and depends(args[2], w, 'begin') and depends(args[3], w, 'end')
                    if ok:
                        return True
                    if in_set(args[2], S, 'begin', self) and in_set(args[3], S, 'end', self) and depends(args[0], w, 'begin'):
                        return False
                    seen = seen or any(depends(x, w, None) for x in args)
                continue
            if fact(facts, w, 'isAlias'):
                if a[0] == 'eq' and not v and lin_parts(t)[0] == 0 and len(lin_parts(t)[1]) == 2:
                    ts = [x for x, c in lin_parts(t)[1]]
                    if any(of(x, ('find',)) and has_sub(x, lambda y: isinstance(y, tuple) and y and same_entry(who(y), w)) for x in ts) and any(of(x, ('end', 'cend')) for x in ts):
                        return True
                if a[0] == 'eq' and not v and of(t, ('count', 'contains')) and same_entry(who(t), w):
                    return True
            if same_entry(who(t), w) and of(t, ('count', 'contains', 'find')):
                seen = True
        return None if seen else False

    def table_of(self, w, before, loops):
        """the table of entries that an iterator goes through"""
        w = strip_fresh(w)
        if w in self.memo:
            return self.memo[w]
        if self.alll is None:
            self.alll = [([(strip_fresh(s), strip_fresh(i)) for s, i in e.init.items()],
                          [(strip_fresh(x.loc), strip_fresh(x.val)) for x, o, l in eventsof(e.iters, ('store',))]) for e, o, l in eventsof(self.outs, ('loop', 'loop0'))]
            self.stored = {}
            for e, o, l in eventsof(self.outs, ('store', 'init')):
                self.stored.setdefault(strip_fresh(e.loc), {})[strip_fresh(e.val)] = 1
        found = self.memo[w] = set()
        seen = set()
        todo = [w]
        while todo:
            t = todo.pop()
            if t in seen:
                continue
            seen.add(t)
            hit = [b for b in self.tabs if has_sub(t, lambda y: y == b)]
            if hit and t[0] not in ('L', 'X'):
                found |= set(hit)
                continue
            loc = t[2] if t[0] in ('L', 'X') else None
            for init, stores in self.alll:
                for s2, i in init:
                    if s2 == t or (loc is not None and s2[0] == 'L' and s2[2] == loc):
                        todo.append(i)
                        todo += [v for l, v in stores if loc is not None and l == loc]
            if loc is not None:
                todo += list(self.stored.get(loc, ()))
            for x in subs_of(t):
                if x[:1] in (('L',), ('X',)):
                    todo.append(x)
        return found


def in_set(t, S, which, ex):
    """begin or end of the set, whose value the engine may have put in place of the variable"""
    if not of(t, (which, 'c' + which)):
        return False
    return has_sub(t, lambda y: y == S) or has_sub(t, lambda y: isinstance(y, tuple) and y[:1] in (('L',), ('X',)) and y[2] == S)


def depends(t, w, which):
    if which and not of(t, (which, 'c' + which)):
        return False
    return has_sub(t, lambda y: isinstance(y, tuple) and y and y[0] in ('pure', 'res') and last([x for x in y[1:3] if isinstance(x, str)][0]) == 'dependsOn' and same_entry(who(y), w))


def available(ex, evs):
    """tables that only hold entries whose dependencies are done"""
    state = {}
    for e, before, loops, o in evs:
        b = obj(e)
        if b in ex.tabs and last(e.qn) in ('insert', 'emplace', 'push_back', 'operator[]'):
            w = who(e.args[-1] if e.args else ZERO)
            r = ex.ready(e.facts, w, before)
            state.setdefault(b, []).append((r, e, w))
    return {b for b, l in state.items() if any(r is not False for r, e, w in l)}, state


def ordered(ctx):
    ex = Export(ctx)
    f, wh = ex.f, ex.wh
    P = ctx.P
    evs = []
    for o in ex.outs:
        for y in walk(o.events, [], ()):
            evs.append(y + (o,))
    ctx.need(any(ex.writes(e) for e, b, l, o in evs), 'no type is ever written')
    free, state = available(ex, evs)
    text = 'a type is only written after all it depends on'
    for b in free:
        for r, e, w in state[b]:
            if r is not True and not fact(e.facts, w, 'isAlias'):
                # the table of all entries may be filled with entries of the registry
                ctx.check(r, wh, text, 'at line %s an entry becomes available without its dependencies being done' % e.line)
            elif r is not True:
                ctx.check(r, wh, text, 'at line %s an alias becomes available before its type is done' % e.line)
            else:
                ctx.ok(wh, text)
    for e, before, loops, o in evs:
        b = obj(e)
        if ex.writes(e):
            w = who(e.args[-1])
            t = ex.table_of(w, before, loops) if w is not None else set()
            r = ex.ready(e.facts, w, before)
            ok = r is True or (bool(t) and t <= free)
            if not ok and (w is None or not t and r is None):
                ok = None
            ctx.check(ok, wh, text, 'at line %s something is written that may have dependencies left' % e.line)
            pers(ctx, ex, e, w, before, loops, t)
            once(ctx, ex, e, w, before, loops, o, evs, t)
        elif b == ex.S and last(e.qn) in ('insert', 'emplace'):
            w = who(e.args[-1] if e.args else ZERO)
            text2 = 'types count as done when they are written, or not to be written'
            i = loops[-1][1] if loops else o
            wr = [x for x, _o, _l in eventsof([i], ('call',)) if ex.writes(x) and same_entry(who(x.args[-1]), w)]
            np = fact(e.facts, w, 'isPersistent') is False or fact(i.facts, w, 'isPersistent') is False
            ctx.check(bool(wr) or np if w is not None else None, wh, text2, 'at line %s' % e.line)
            t = ex.table_of(w, before, loops) if w is not None else set()
            r = ex.ready(e.facts, w, before)
            ctx.check(r is True or (bool(t) and t <= free) or (None if w is None else False), wh, 'only what is available counts as done', 'at line %s' % e.line)
        elif b in ex.tabs and last(e.qn) in ('erase', 'pop_front', 'pop_back', 'clear'):
            w = erased(e)
            i = loops[-1][1] if loops else o
            text3 = 'no entry gets lost before it is written'
            if last(e.qn) == 'clear' or w is None:
                ctx.check(False if last(e.qn) == 'clear' and loops else None, wh, text3, '%s at line %s' % (last(e.qn), e.line))
                continue
            wr = [x for x, _o, _l in eventsof([i], ('call',)) if ex.writes(x) and same_entry(who(x.args[-1]), w)]
            mv = [x for x, _o, _l in eventsof([i], ('call',)) if obj(x) in ex.tabs and obj(x) != b and last(x.qn) in ('insert', 'emplace', 'push_back') and same_entry(who(x.args[-1]), w)]
            np = fact(e.facts, w, 'isPersistent') is False
            done = np and any(obj(x) == ex.S and same_entry(who(x.args[-1]), w) for x, _o, _l in eventsof([i], ('call',)) if last(x.qn) in ('insert', 'emplace'))
            ctx.check(bool(wr) or bool(mv) or done, wh, text3, 'an entry is taken out at line %s that was neither written nor put elsewhere' % e.line)


def erased(e):
    for a in e.args:
        t = strip_fresh(a)
        if t[:1] in (('L',), ('X',)):
            return t
        if t[0] in ('res', 'pure'):
            return t
        for x in subs_of(t):
            if x[:1] in (('L',), ('X',)):
                return x
    return None


def inserts(ex, tabs, events):
    return [x for x in events if obj(x) in tabs and last(x.qn) in ('insert', 'emplace', 'push_back', 'operator[]', 'swap', 'operator=')]


def purge(ex, L, tabs):
    """a loop that takes all entries that are not to be written out of the table"""
    if not isinstance(L, object) or getattr(L, 'k', None) not in ('loop', 'loop0'):
        return False
    if not any(has_sub(strip_fresh(i), lambda y: y in tabs) and of(strip_fresh(i), ('begin', 'cbegin')) for i in L.init.values()):
        return False
    for i in L.iters:
        if i.kind in ('throw', 'noreturn'):
            continue
        if i.kind != 'continue':
            return False
        syms = [strip_fresh(s) for s, init in L.init.items() if has_sub(strip_fresh(init), lambda y: y in tabs) and of(strip_fresh(init), ('begin', 'cbegin'))]
        ok = False
        for w in syms:
            p = fact(i.facts, w, 'isPersistent')
            if p is True:
                ok = True
            for x, _o, _l in eventsof([i], ('call',)):
                if obj(x) in tabs and last(x.qn) == 'erase' and erased(x) == w:
                    ok = True
        if not ok:
            return False
    return True


def pers(ctx, ex, e, w, before, loops, tabs):
    text = 'only persistent entries are written'
    p = fact(e.facts, w, 'isPersistent') if w is not None else None
    if p is not None:
        ctx.check(p, ex.wh, text, 'line %s writes those that are not persistent' % e.line)
        return
    good = False
    for x in before:
        if isinstance(x, tuple) and x[0] == 'start':
            if inserts(ex, tabs, x[2]):
                good = False
            continue
        if x.k in ('loop', 'loop0'):
            if purge(ex, x, tabs):
                good = True
            elif inserts(ex, tabs, [y for y, _o, _l in eventsof(x.iters, ('call',))]):
                good = False
        elif inserts(ex, tabs, [x]):
            good = False
    ctx.check(good, ex.wh, text, 'line %s writes without knowing that the entry is persistent' % e.line)


def once(ctx, ex, e, w, before, loops, o, evs, tabs):
    text = 'an entry that was written is not written again'
    if not loops or w is None:
        ctx.check(None, ex.wh, text, 'line %s' % e.line)
        return
    L, i = loops[-1]
    n = [x for x, _o, l in eventsof([i], ('call',)) if ex.writes(x) and same_entry(who(x.args[-1]), w)]
    out = [x for x, _o, l in eventsof([i], ('call',)) if obj(x) in tabs and last(x.qn) == 'erase' and erased(x) == w]
    sweep = any(Sweep(L, b).kind == 'all' for b in tabs) and len(loops) == 1
    if i.kind in ('throw', 'noreturn'):
        return
    ctx.check(len(n) == 1 and (bool(out) or sweep), ex.wh, text, '%d times at line %s' % (len(n), e.line) if len(n) != 1 else 'it stays in the table after line %s' % e.line)


def complete(ctx):
    """all entries of the registry are considered, and the loop goes on until all are done"""
    ex = Export(ctx)
    wh = ex.wh
    whole = set()
    for o in ex.outs:
        if o.kind != 'return':
            continue
        bs = [i for i, e in enumerate(o.events) if e.k == 'call' and last(e.qn) == 'begin' and e.qn.startswith('Typelib::Exporter')]
        es = [i for i, e in enumerate(o.events) if e.k == 'call' and last(e.qn) == 'end' and e.qn.startswith('Typelib::Exporter')]
        ws = [i for i, e in enumerate(o.events) if e.k in ('loop', 'loop0') and any(ex.writes(x) for x, _o, _l in eventsof(e.iters, ('call',)))]
        ctx.check(len(bs) == 1 and len(es) == 1 and all(bs[0] < i < es[0] for i in ws), wh, 'types are written between begin and end', 'begin %d times, end %d times' % (len(bs), len(es)))
        # filled with every entry
        fill = None
        for e in o.events:
            if e.k not in ('loop', 'loop0'):
                continue
            if not any(of(strip_fresh(i), ('begin',)) and strip_fresh(i)[1 if i[0] == 'pure' else 2] == 'Typelib::Registry::begin' for i in e.init.values()):
                continue
            bad = []
            for i in e.iters:
                if i.kind in ('throw', 'noreturn'):
                    continue
                ins = inserts(ex, ex.tabs, [x for x, _o, _l in eventsof([i], ('call',))])
                if i.kind != 'continue':
                    bad.append('the loop can stop early')
                elif len(ins) != 1:
                    bad.append('an entry is not put into the table')
                else:
                    whole.add(obj(ins[0]))
            fill = bad
        text = 'every entry of the registry is considered'
        if fill is None:
            ctx.unk(wh, text, 'no loop over the registry')
        else:
            ctx.check(not fill, wh, text, ', '.join(sorted(set(fill))))
        # nothing left at the end
        left = []
        for b in sorted(ex.tabs, key=str):
            ran = lambda e: e.k == 'loop'
            last_ins = max([i for i, e in enumerate(o.events) for x in ([e] if e.k == 'call' else [y for y, _o, _l in eventsof(e.iters, ('call',))] if ran(e) else []) if inserts(ex, {b}, [x])] or [-1])
            if last_ins < 0:
                continue
            empty = any(v and a[0] == 'eq' and of(strip_fresh(a[1]), ('size',)) and has_sub(a[1], lambda y: y == b or isinstance(y, tuple) and y[:1] in (('X',), ('L',)) and y[2] == b) for a, v in o.facts.items())
            swept = False
            for i, e in enumerate(o.events):
                if e.k in ('loop', 'loop0') and i > last_ins and Sweep(e, b).kind == 'all' and not any(x.kind in ('break', 'return') for x in e.iters):
                    swept = all(any(ex.writes(x) for x, _o, _l in eventsof([it], ('call',))) or np_(it) for it in e.iters if it.kind == 'continue')
            if not empty and not swept:
                left.append(show(b))
        ctx.check(not left, wh, 'every persistent entry has been written at the end', 'left: %s' % ', '.join(left))
    evs = [y + (o,) for o in ex.outs for y in walk(o.events, [], ())]
    free, _state = available(ex, evs)
    # the loop makes progress or reports an error
    for e, o, l in eventsof(ex.outs, ('loop',)):
        if l or not any(ex.writes(x) for x, _o, _l in eventsof(e.iters, ('call',))) or any(Sweep(e, b).kind == 'all' for b in ex.tabs):
            continue
        for i in e.iters:
            text = 'types that cannot be ordered are reported'
            if i.kind == 'continue':
                known = any(a[0] == 'eq' and not v and of(strip_fresh(a[1]), ('size', 'empty')) and has_sub(a[1], lambda y: y in free or isinstance(y, tuple) and y[:1] in (('X',), ('L',)) and y[2] in free) for a, v in late(i))
                moved = any(obj(x) in ex.tabs and last(x.qn) == 'erase' for x in i.events)
                ctx.check(known or moved, wh, text, 'the loop may go on without having found anything to write')
            elif i.kind in ('break', 'return'):
                ctx.bad(wh, text, 'the loop ends at once')


def late(i):
    """facts of the iteration about tables after entries became available"""
    return list(i.facts.items())


def np_(it):
    """facts say that the entry is not persistent"""
    return any(a[0] == 'eq' and v and of(strip_fresh(a[1]), ('isPersistent',)) for a, v in it.facts.items())


def dependencies(ctx):
    """dependsOn has all types that a type refers to"""
    P = ctx.P
    n = 0
    for cls in sorted(P.all_subs('Typelib::Type')):
        r = P.records.get(cls)
        for m in (r or {}).get('methods', []):
            if m['n'] != 'dependsOn':
                continue
            f = P.functions.get(m['key'])
            if not f or 'body' not in f:
                continue
            n += 1
            refs = [x['n'] for x in r['fields'] if x['t'].replace('const ', '').replace(' const', '').strip() in ('Typelib::Type &', 'Typelib::Type *')]
            lists = [x['n'] for x in r['fields'] if 'Typelib::Field' in x['t']]
            wh = ctx.where(f)
            for o in ctx.run(f, merge=False):
                if o.kind != 'return':
                    continue
                for name in refs:
                    ins = [e for e, _o, l in eventsof([o], ('call',)) if last(e.qn) in ('insert', 'emplace') and has_sub(e.args, lambda y: isinstance(y, tuple) and y[:1] == ('fld',) and y[2].split('@')[0] == name)]
                    inh = any(e.k == 'call' and last(e.qn) == 'dependsOn' for e in o.events)
                    ok = bool(ins) or has_sub(o.val, lambda y: isinstance(y, tuple) and y[:1] == ('fld',) and y[2].split('@')[0] == name)
                    ctx.check(ok or inh, wh, 'a type depends on what it refers to', '%s is left out' % name)
                for name in lists:
                    loc = ('fld', ('deref', ('sym', 'this')), name)
                    swept = None
                    for e in o.events:
                        if e.k in ('loop', 'loop0') and (Sweep(e, loc).kind == 'all'):
                            sw = Sweep(e, loc)
                            swept = not sw.why and all(any(x.k == 'call' and last(x.qn) in ('insert', 'emplace') and has_sub(x.args, lambda y: isinstance(y, tuple) and (y[:1] == ('fld',) and y[2] == 'm_type' or y[0] == 'pure' and last(y[1]) == 'getType')) for x, _o, _l in eventsof([i], ('call',))) for i in e.iters if i.kind == 'continue')
                        elif e.k in ('loop', 'loop0') and swept is None and any(mentions(x, loc) for x in e.init.values()):
                            swept = False
                    inh = any(e.k == 'call' and last(e.qn) in ('dependsOn', 'transform') for e in o.events)
                    ctx.check(swept if swept is not None or not inh else None, wh, 'a type depends on the types of all its fields', 'fields are left out')
    ctx.need(n >= 2, 'dependsOn not found')
