"""C06: what a definition says is what was put into it; errors in it are refused."""
from core import *
from rules.owners import Sweep, last, of
from rules.singleton import strip_fresh
from rules.transfer import plain

EN = 'Typelib::Enum'
CO = 'Typelib::Compound'
SELF = ('deref', ('sym', 'this'))
VALS = ('fld', SELF, 'm_values')
LAST = ('fld', SELF, 'm_last_value')
FIELDS = ('fld', SELF, 'm_fields')
SIZE = ('fld', SELF, 'm_size')


def sym(f, i):
    return ('sym', f['params'][i]['n'])


def onvals(x):
    return has_sub(x, lambda y: y == VALS)


def member(x, n):
    return isinstance(x, tuple) and len(x) > 2 and x[0] in ('fld', 'fldv') and x[2] == n


def inserted_term(x, f):
    """a term for the outcome of inserting or finding the given name"""
    return has_sub(x, lambda y: of(y, ('insert', 'emplace', 'find', 'at', 'lower_bound', 'try_emplace')) and onvals(y) and has_sub(y, lambda z: z == sym(f, 0)))


def changes(o, cont):
    """calls and stores that change a container -> (name, args)"""
    res = []
    for e, _o, loops in eventsof([o]):
        if e.k == 'call' and e.obj == ('addr', cont) and last(e.qn) in ('insert', 'emplace', 'erase', 'clear', 'swap', 'operator[]', 'operator=', 'try_emplace', 'insert_or_assign', 'push_back', 'emplace_back', 'push_front', 'pop_back', 'pop_front', 'sort', 'splice', 'remove', 'resize', 'emplace_front'):
            res.append((last(e.qn), strip_fresh(e.args), e))
        elif e.k == 'store' and isinstance(e.loc, tuple) and has_sub(e.loc, lambda y: y == ('addr', cont) or y == cont) and not has_sub(e.loc, lambda y: of(y, ('back',))):
            res.append(('store', (strip_fresh(e.loc), strip_fresh(e.val)), e))
    return res


def symbols(ctx):
    P = ctx.P
    for f in ctx.fn(EN + '::add'):
        wh = ctx.where(f)
        name, value = sym(f, 0), sym(f, 1)
        for o in ctx.run(f, merge=False):
            new = None          # the name is new / was there
            same = None         # the value it has is the given one / is not
            said = set()
            for a, v in o.facts.items():
                if a[0] != 'eq':
                    continue
                t = a[1]
                if member(t, 'second') and inserted_term(t, f) and of(strip_fresh(t[1]), ('insert', 'emplace', 'try_emplace')):
                    new = not v
                    said.add(new)
                elif has_sub(t, lambda y: of(y, ('find',)) and onvals(y)) and has_sub(t, lambda y: of(y, ('end', 'cend'))):
                    new = v
                    said.add(new)
                elif of(strip_fresh(t), ('count',)):
                    new = v
                    said.add(new)
                elif has_sub(t, lambda y: y == value) and inserted_term(t, f):
                    same = v
            if len(said) > 1:
                continue        # two lookups of one name agree: no such path
            ch = changes(o, VALS)
            put = [c for c in ch if c[0] in ('insert', 'emplace', 'try_emplace')]
            force = [c for c in ch if c[0] not in ('insert', 'emplace', 'try_emplace')]
            force = [c for c in force if not (c[0] == 'operator[]')] 
            lastv = o.st.heap.get(LAST)
            if o.kind == 'throw':
                text = 'a refused symbol changes nothing'
                why = []
                if force or put and new is not False:
                    why.append('the symbol is entered before the error')
                if lastv is not None and plain(lastv)[:2] != ('rd', LAST):
                    why.append('the last value is changed before the error')
                if new is True:
                    why.append('a new symbol is refused')
                if same is not False:
                    why.append('a symbol with the same value is refused')
                ctx.check(not why, wh, text, '; '.join(why))
                ctx.check(P_derives(P, getattr(o, 'ty', None) or thrown(o), EN + '::AlreadyExists'), wh, 'a symbol that exists with another value is refused with the error for it', 'throws %s' % thrown(o))
                continue
            if o.kind != 'return':
                continue
            why = []
            text = 'a symbol stands for the value it was added with'
            for c in put:
                args = tuple(plain(x) for x in c[1])
                if not has_sub(args, lambda y: y == name) or not has_sub(args, lambda y: y == value):
                    why.append('enters %s' % show(args)[:60])
            for c in force:
                if c[0] == 'store':
                    if new is not True and same is not True:
                        why.append('a symbol that exists gets another value')
                    if plain(c[1][1]) != value:
                        why.append('the value is %s' % show(c[1][1])[:50])
                else:
                    why.append('%s on the symbols' % c[0])
            if put and not any(c[0] == 'store' for c in force):
                if new is None and same is None:
                    why.append('a symbol that exists with another value is not refused')
                elif new is False and same is not True:
                    why.append('a symbol that exists with another value is not refused')
            if not put and not force and same is not True:
                why.append('the symbol is not entered')
            ctx.check(not why, wh, text, '; '.join(sorted(set(why))))
            ctx.check(lastv is not None and plain(lastv) == value, wh, 'the next value follows the one added last', 'the last value is %s' % (show(lastv)[:50] if lastv else 'unchanged'))
    # the following value
    for f in ctx.fn(EN + '::getNextValue'):
        for o in ctx.run(f):
            if o.kind == 'return':
                c, ps = lin_parts(o.val)
                ctx.check(c == 1 and len(ps) == 1 and ps[0][1] == 1 and has_sub(ps[0][0], lambda y: y == LAST), ctx.where(f), 'the next value follows the one added last', 'it is %s' % show(o.val)[:60])
    for f in [g for g in P.functions.values() if 'body' in g and g.get('ctor') and g.get('cls') == EN]:
        if len(f['params']) == 2:
            for o in ctx.run(f):
                if o.kind == 'return':
                    v = o.st.heap.get(LAST)
                    ctx.check(v is not None and show(v) == '(%s+-1)' % f['params'][1]['n'], ctx.where(f), 'the first value is the initial one', 'the last value starts as %s' % show(v)[:50])
    # lookups
    for f in ctx.fn(EN + '::get'):
        wh = ctx.where(f)
        key = sym(f, 0)
        byname = 'string' in f['params'][0]['t']
        err = EN + ('::SymbolNotFound' if byname else '::ValueNotFound')
        for o in ctx.run(f, merge=False):
            if o.kind == 'throw':
                ctx.check(P_derives(P, thrown(o), err), wh, 'an unknown %s is refused with the error for it' % ('symbol' if byname else 'value'), 'throws %s' % thrown(o))
                if byname:
                    t = presence(o, key)
                    ctx.check(t is False if t is not None else None, wh, 'only an unknown symbol is refused', 'it is known')
                else:
                    loops = [e for e in o.events if e.k in ('loop', 'loop0')]
                    ss = [Sweep(e, VALS) for e in loops]
                    ok = None
                    why = ''
                    for e, s in zip(loops, ss):
                        if s.kind != 'all':
                            ok = False if s.why or e.init else None
                            why = s.why or 'not every symbol is looked at'
                            continue
                        skipped = [i for i in e.iters if i.kind == 'continue' and not compared(i.facts, key, 'second', False) or i.kind == 'break' and not compared(i.facts, key, 'second', True)]
                        ok = not skipped
                        why = 'a symbol can be passed over without comparing its value'
                    ctx.check(ok, wh, 'only an unknown value is refused', why or 'no loop over the symbols')
                continue
            if o.kind != 'return':
                continue
            if byname:
                t = presence(o, key)
                text = 'a symbol stands for the value it was added with'
                v = plain(o.val)
                if t is None and has_sub(v, lambda y: of(y, ('at',))):
                    ctx.bad(wh, 'an unknown symbol is refused with the error for it', 'another error is raised')
                    continue
                ctx.check(t is True and member(v[1] if v[0] == 'rd' else v, 'second') and has_sub(v, lambda y: of(y, ('find',)) and onvals(y) and has_sub(y, lambda z: z == key)), wh, text, 'returns %s without knowing that it is there' % show(v)[:60] if t is not True else 'returns %s' % show(v)[:60])
            else:
                text = 'a value is given the name of a symbol that has it'
                v = plain(o.val)
                loc = v[1] if v[0] == 'rd' else v
                if not (member(loc, 'first') and (onvals(loc) or has_sub(loc, lambda y: isinstance(y, tuple) and y and y[0] in ('L', 'X')))):
                    ctx.check(None if has_sub(v, lambda y: isinstance(y, tuple) and y and y[0] in ('res', 'pure')) else False, wh, text, 'returns %s' % show(v)[:60])
                    continue
                good = compared(o.facts, key, 'second', True, loc[1])
                ctx.check(good, wh, text, 'the values need not be the same')
    for f in ctx.fn(EN + '::names'):
        wh = ctx.where(f)
        text = 'the names are those of all symbols'
        for o in ctx.run(f):
            if o.kind != 'return':
                continue
            loops = [e for e in o.events if e.k in ('loop', 'loop0') and any(x.k == 'call' and last(x.qn) in ('push_back', 'push_front', 'insert', 'emplace_back') for i in e.iters for x in i.events)]
            why = []
            for e in loops:
                s = Sweep(e, VALS)
                if s.kind != 'all' or s.why:
                    why.append(s.why or 'not every symbol is looked at')
                for i in e.iters:
                    if i.kind != 'continue':
                        continue
                    puts = [x for x in i.events if x.k == 'call' and last(x.qn) in ('push_back', 'push_front', 'insert', 'emplace_back')]
                    a = plain(puts[0].args[-1]) if len(puts) == 1 else None
                    a = a[1] if a is not None and a[0] == 'rd' else a
                    if a is None or not member(a, 'first') or s.it is not None and not has_sub(a, lambda y: y == s.it):
                        why.append('a symbol is left out' if not puts else 'gives %s' % show(puts[0].args[-1])[:50])
            ctx.check((not why) if loops else None, wh, text, '; '.join(sorted(set(why))) or 'no loop over the symbols')
    # nothing else changes the symbols
    for f in sorted((g for g in P.functions.values() if 'body' in g and g.get('cls') == EN and not g.get('ctor') and g['n'] not in ('add',)), key=lambda g: g['key']):
        for n in walk_ast(f['body']):
            if n['k'] == 'call' and n.get('obj') is not None and n.get('n') in ('insert', 'emplace', 'erase', 'clear', 'operator[]', 'operator=', 'swap'):
                if any(m['k'] == 'mem' and m.get('n') == 'm_values' and m.get('cls') == EN for m in walk_ast(n['obj'])):
                    own = any(m['k'] == 'mem' and m.get('n') == 'm_values' for m in [strip_casts(n['obj'])])
                    if own and f['n'] != 'operator=':
                        ctx.bad(ctx.where(f, n.get('l')), 'symbols are only changed by adding them', 'changed in %s' % f['n'])


def strip_casts(n):
    while isinstance(n, dict) and n['k'] in ('cast', 'paren', 'icast') and isinstance(n.get('a'), dict):
        n = n['a']
    return n


def thrown(o):
    for e in reversed(o.events):
        if e.k == 'throw':
            return e.ty
    return '?'


def P_derives(P, ty, base):
    if ty == '?':
        return None
    ty = ty.replace('const ', '').strip()
    return ty == base or base in base_names(P, ty)


def presence(o, key):
    for a, v in o.facts.items():
        if a[0] != 'eq':
            continue
        if has_sub(a[1], lambda y: of(y, ('find',)) and has_sub(y, lambda z: z == key)) and has_sub(a[1], lambda y: of(y, ('end', 'cend'))):
            return not v
        if of(strip_fresh(a[1]), ('count',)) and has_sub(a[1], lambda z: z == key):
            return not v
    return None


# -------------------------------------------------------------------- compounds
def lookup(x, k):
    """value of a member inside a by-value struct term"""
    x = plain(x)
    if isinstance(x, tuple) and x and x[0] == 'struct':
        d = dict(x[1])
        return d.get(k)
    return None


def fields(ctx):
    P = ctx.P
    for f in ctx.fn(CO + '::addField'):
        wh = ctx.where(f)
        copies = len(f['params']) == 2
        off = sym(f, len(f['params']) - 1)
        text = 'an added field has the name, type and offset it was added with'
        for o in ctx.run(f, merge=False):
            if o.kind != 'return':
                continue
            ch = changes(o, FIELDS)
            adds = [c for c in ch if c[0] in ('push_back', 'emplace_back') or c[0] in ('insert', 'emplace') and of(c[1][0], ('end', 'cend'))]
            why = []
            if len(adds) != 1:
                why.append('%d fields are added' % len(adds))
            if [c for c in ch if c not in adds]:
                why.append('%s on the fields' % [c for c in ch if c not in adds][0][0])
            offs = None
            for c in adds:
                v = c[1][-1]
                if copies:
                    if not has_sub(v, lambda y: y == sym(f, 0)):
                        why.append('adds %s' % show(v)[:50])
                else:
                    n, t = lookup(v, 'm_name'), lookup(v, 'm_type')
                    if n is None:
                        n = t = v
                    if not has_sub(n, lambda y: y == sym(f, 0)):
                        why.append('the name is %s' % show(n)[:50])
                    if not has_sub(t, lambda y: y == sym(f, 1)):
                        why.append('the type is %s' % show(t)[:50])
                offs = lookup(v, 'm_offset')
            for e in o.events:
                if e.k == 'store' and member(e.loc, 'm_offset'):
                    offs = e.val
            if offs is None or plain(offs) != off:
                why.append('the offset is %s' % (show(offs)[:40] if offs is not None else 'not set'))
            ctx.check(not why, wh, text, '; '.join(sorted(set(why))))
            # size
            text = 'a compound is large enough for its fields'
            new = o.st.heap.get(SIZE)
            fsz = lambda y: isinstance(y, tuple) and len(y) > 2 and y[0] in ('fld', 'fldv') and y[2] == 'm_size' and y[1] != SELF

            def is_end(x):
                c, ps = lin_parts(plain(x))
                ts = [(plain(t), k) for t, k in ps]
                return c >= 0 and len(ts) == 2 and all(k == 1 for t, k in ts) and any(t == off for t, k in ts) and any(has_sub(t, fsz) for t, k in ts)

            def old(x):
                x = plain(x)
                return x[0] == 'rd' and x[1] == SIZE or x == SIZE
            enough = None      # does a fact say the old size suffices?
            for a, v in o.facts.items():
                if a[0] not in ('lt', 'eq'):
                    continue
                c, ps = lin_parts(a[1])
                pos = {t: k for t, k in ps}
                olds = [k for t, k in ps if old(t)]
                ends = [k for t, k in ps if plain(t) == off or has_sub(plain(t), fsz) and not old(t)]
                if len(olds) != 1 or len(ends) != 2 or len(ps) != 3 or ends[0] != ends[1] or ends[0] != -olds[0]:
                    continue
                if a[0] == 'lt':
                    # sign: old - end + c < 0  (olds=1)   or   end - old + c < 0 (olds=-1)
                    if olds[0] == 1:
                        enough = None if v and c != 0 else (not v if c <= 0 else None)
                        if v:
                            enough = False
                    else:
                        # end + c < old: enough when c >= 0 ; negated: end + c >= old
                        enough = True if v and c >= -1 else (False if not v else None)
                elif a[0] == 'eq' and v:
                    enough = True
            mx = new is not None and has_sub(new, lambda y: of(y, ('max',)))
            if new is None or old(new):
                ctx.check(enough is True, wh, text, 'the size is left as it is without a check' if enough is None else 'the size is left although it does not suffice')
            elif mx:
                m = [y for y in subterms(new) if of(y, ('max',))][0]
                ar = m[-1] if isinstance(m[-1], tuple) and m[-1] and isinstance(m[-1][0], tuple) else m[3:]
                ctx.check(True if has_sub(m, lambda y: y == off) and has_sub(m, fsz) else None, wh, text, '')
            elif is_end(new):
                ctx.check(enough is False, wh, text, 'the size can shrink')
            else:
                c, ps = lin_parts(plain(new))
                ctx.check(False if not has_sub(new, lambda y: isinstance(y, tuple) and y and y[0] in ('res', 'pure')) else None, wh, text, 'it becomes %s' % show(new)[:60])
    for f in ctx.fn(CO + '::getField'):
        wh = ctx.where(f)
        text = 'a field is found by its name'
        for o in ctx.run(f, merge=False):
            if o.kind != 'return':
                continue
            v = plain(o.val)
            if v == ZERO:
                why = []
                loops = [e for e in o.events if e.k in ('loop', 'loop0')]
                for e in loops:
                    s = Sweep(e, FIELDS)
                    if s.kind != 'all':
                        why.append('not every field is looked at')
                        continue
                    for i in e.iters:
                        if i.kind == 'continue' and not named(i.facts, sym(f, 0), False):
                            why.append('a field is passed over without comparing its name')
                ctx.check((not why) if loops else None, wh, text, '; '.join(sorted(set(why))))
            else:
                it = v
                while isinstance(it, tuple) and it and it[0] in ('addr', 'deref', 'rd', 'ptr', 'ref', 'refto'):
                    it = it[1]
                ctx.check(True if named(o.facts, sym(f, 0), True, it) else None if has_sub(v, lambda y: isinstance(y, tuple) and y and y[0] in ('res', 'pure') and not of(y, ('begin', 'end', 'back', 'front'))) else False, wh, text, 'returns %s, whose name need not be the one asked for' % show(v)[:50])


def subterms(t):
    if isinstance(t, tuple):
        yield t
        for x in t:
            for y in subterms(x):
                yield y


def compared(facts, key, what, want, it=None):
    """a fact that says that a member of an element is (not) the key"""
    for a, v in facts.items():
        if a[0] != 'eq' or v != want:
            continue
        c, ps = lin_parts(a[1])
        if c != 0 or len(ps) != 2 or ps[0][1] != -ps[1][1]:
            continue
        ts = [plain(t) for t, k in ps]
        ts = [t[1] if t[0] == 'rd' else t for t in ts]
        for k, m in (ts, ts[::-1]):
            if (k == key or k == ('deref', key)) and member(m, what) and (it is None or m[1] == it or has_sub(m[1], lambda z: z == it)):
                return True
    return False


def named(facts, key, want, it=None):
    return compared(facts, key, 'm_name', want, it)


# ----------------------------------------------------------------------- sizes
CATS = {'Typelib::Array': 'Array', 'Typelib::Pointer': 'Pointer', 'Typelib::Enum': 'Enum', 'Typelib::Compound': 'Compound', 'Typelib::Numeric': 'Numeric',
        'Typelib::Container': 'Container', 'Typelib::OpaqueType': 'Opaque', 'Typelib::NullType': 'NullType'}


def objects(ctx):
    P = ctx.P
    consts = dict((c['n'], c['v']) if isinstance(c, dict) else c for c in P.enums['Typelib::Type::Category']['consts'])
    ctx.need('Array' in consts, 'no categories')
    n = 0
    for f in sorted((g for g in P.functions.values() if 'body' in g and g.get('ctor') and g.get('cls') in CATS), key=lambda g: g['key']):
        if len(f['params']) == 1 and f['cls'] in f['params'][0]['t']:
            continue
        wh = ctx.where(f)
        cat = consts[CATS[f['cls']]]
        ps = {p['n']: p['t'] for p in f['params']}
        for o in ctx.run(f):
            if o.kind != 'return':
                continue
            n += 1
            v = o.st.heap.get(('fld', SELF, 'm_category'))
            ctx.check(v == ('int', cat) if v is not None else None, wh, 'an object has the category of its class', 'it is %s' % (show(v)[:40] if v else '?'))
            nm = o.st.heap.get(('fld', SELF, 'm_name'))
            sz = o.st.heap.get(SIZE)
            if f['cls'] == 'Typelib::Array':
                d = o.st.heap.get(('fld', SELF, 'm_dimension'))
                dp = [p['n'] for p in f['params'] if 'Type' not in p['t']]
                tp = [p['n'] for p in f['params'] if 'Type' in p['t']]
                ctx.check(d is not None and plain(d) == ('sym', dp[0]), wh, 'an array has the dimension it is made with', 'it is %s' % (show(d)[:40] if d else '?'))
                t = show(sz).replace(' ', '') if sz is not None else '?'
                good = sz is not None and sz[0] in ('mul', 'prod', 'bin', '*') or sz is not None and '*' in t
                ok = sz is not None and has_sub(sz, lambda y: y == ('sym', dp[0])) and has_sub(sz, lambda y: isinstance(y, tuple) and len(y) > 2 and y[0] in ('fld', 'fldv') and y[2] == 'm_size' and has_sub(y, lambda z: z == ('sym', tp[0]))) and t in ('*%s.m_size*%s' % (tp[0], dp[0]), '%s**%s.m_size' % (dp[0], tp[0]))
                ctx.check(ok, wh, 'an array has the size of all its elements', 'it is %s' % t[:60])
                ind = o.st.heap.get(('fld', SELF, 'm_indirection'))
                ctx.check(ind is not None and has_sub(ind, lambda y: y == ('sym', tp[0])), wh, 'an array is made of the type it is given', 'of %s' % (show(ind)[:40] if ind else '?'))
            elif f['cls'] in ('Typelib::Numeric', 'Typelib::OpaqueType'):
                sp = [p['n'] for p in f['params'] if p['t'] in ('size_t', 'unsigned long')]
                ctx.check(sz is not None and sp and plain(sz) == ('sym', sp[0]), wh, 'a type has the size it is made with', 'it is %s' % (show(sz)[:40] if sz else '?'))
            elif f['cls'] == 'Typelib::Pointer':
                tp = [p['n'] for p in f['params'] if 'Type' in p['t']]
                ctx.check(sz == ('int', 8) if sz is not None else None, wh, 'a pointer has the size of a pointer', 'it is %s' % (show(sz)[:40] if sz else '?'))
                ind = o.st.heap.get(('fld', SELF, 'm_indirection'))
                ctx.check(ind is not None and has_sub(ind, lambda y: y == ('sym', tp[0])), wh, 'a pointer points to the type it is given', 'to %s' % (show(ind)[:40] if ind else '?'))
    ctx.need(n >= 6, 'only %d constructors' % n)


def order(ctx):
    """compounds that are read have their fields in the order of their offsets"""
    P = ctx.P
    f = ctx.one('Typelib::Compound::normalizeFieldOrder')
    wh = ctx.where(f)
    text = 'the fields are put in the order of their offsets'
    comps = []
    for o in ctx.run(f, merge=False):
        if o.kind != 'return':
            continue
        ss = [e for e in o.events if e.k == 'call' and e.qn.split('::')[-1] in ('sort', 'stable_sort') and has_sub(('x', e.obj) + tuple(e.args), lambda y: isinstance(y, tuple) and len(y) > 2 and y[0] == 'fld' and y[2] == 'm_fields')]
        if not ss:
            few = any(a[0] in ('eq', 'lt') and has_sub(a, lambda y: isinstance(y, tuple) and len(y) > 2 and y[0] == 'fld' and y[2] == 'm_fields') for a in o.facts)
            other = any(e.k in ('loop', 'loop0') or e.k == 'call' and e.qn.split('::')[-1] in ('splice', 'swap', 'insert', 'merge') for e in o.events)
            ctx.check(None if few or other else False, wh, text, 'they are not sorted')
        for e in ss:
            fn = [a for a in e.args if isinstance(a, tuple) and a and a[0] == 'func']
            ctx.check(True if fn else None, wh, text, 'the order is not known')
            comps += [a[2] for a in fn]
    for key in sorted(set(comps)):
        g = P.functions.get(key)
        if g is None or len(g.get('params', ())) != 2:
            ctx.unk(wh, text, 'the order is not known')
            continue
        x, y = (('sym', p['n']) for p in g['params'])
        wg = ctx.where(g)
        for o in ctx.run(g, merge=False):
            terms = set()
            has_sub(('x', o.val) + tuple(o.facts), lambda t: terms.add(t) or False if isinstance(t, tuple) and t and t[0] == 'rd' and t[1][0] == 'fld' and t[1][2].split('@')[0] == 'm_offset' else False)
            a = [t for t in terms if has_sub(t, lambda z: z == x)]
            b = [t for t in terms if has_sub(t, lambda z: z == y)]
            if len(a) != 1 or len(b) != 1:
                ctx.check(False if not terms and any(has_sub(a, lambda t: isinstance(t, tuple) and len(t) > 2 and t[0] == 'fld' and t[2] == 'm_name') for a in o.facts) else None, wg, text, 'the offsets are not compared')
                continue
            for va, vb in ((3, 8), (8, 3)):
                m = {a[0]: I(va), b[0]: I(vb)}
                if not fact_ok(o.facts, m):
                    continue
                v = o.val
                if v[0] == 'cmp':
                    at, pol = cnorm(('cmp', v[1], subst(v[2], m), subst(v[3], m)))
                    v = I(int(pol)) if at[0] == 'true' else None
                else:
                    v = subst(v, m)
                    v = I(int(v[1])) if v[0] in ('int', 'bool') and not isinstance(v[1], tuple) else None
                ctx.check(None if v is None else (v[1] != 0) == (va < vb), wg, text, 'a field with the %s offset comes first' % 'larger')
    n = 0
    for g in P.functions.values():
        if 'body' not in g or not g['file'].startswith('lang/') or not any(c['k'] == 'call' and c.get('n') == 'addField' for c in walk_ast(g['body'])):
            continue
        wg = ctx.where(g)
        for o in ctx.run(g, opaque=lambda h: h.get('cls') == 'Typelib::Compound' or h['n'] != 'normalizeFieldOrder' and not any(c['k'] == 'call' and c.get('n') in ('addField', 'normalizeFieldOrder') for c in walk_ast(h.get('body') or {'k': 'block', 'b': []})), merge=False):
            if o.kind != 'return':
                continue
            adds = [k for k, e in enumerate(o.events) if e.k == 'call' and e.qn == 'Typelib::Compound::addField' or e.k in ('loop', 'loop0') and any(x.qn == 'Typelib::Compound::addField' for x, _o, _l in eventsof(e.iters, ('call',)))]
            if not adds:
                continue
            n += 1
            norm = [k for k, e in enumerate(o.events) if e.k == 'call' and e.qn == 'Typelib::Compound::normalizeFieldOrder']
            few = any(has_sub(a, lambda y: of(y, ('size', 'empty', 'getFields'))) for a in o.facts)
            ctx.check(True if norm and norm[-1] > adds[-1] else None if few and not norm else False, wg, 'a compound that is read has its fields in the order of their offsets', 'they stay in the order of the file')
    ctx.need(n, 'no reader adds fields')
