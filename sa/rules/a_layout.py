"""A01-A04: layout interpreters agree with the layout compiler."""
from core import *
from rules.layout import *

PUBLIC = ['dump', 'load', 'init', 'zero', 'destroy', 'copy', 'compare', 'getDumpSize']
BULK = {'memset': 'set', 'std::memset': 'set', 'memcpy': 'cpy', 'std::memcpy': 'cpy', 'memmove': 'cpy', 'std::memmove': 'cpy', 'memcmp': 'cmp', 'std::memcmp': 'cmp', 'std::copy': 'stdcpy',
        'std::fill': '?', 'std::fill_n': '?', 'std::equal': '?', 'std::copy_n': '?', 'std::for_each': '?', 'bzero': '?'}
SIG = ('write', 'read', 'clear', 'init', 'destroy', 'copy', 'compare', 'dump', 'load')


def roots(ctx, name):
    return [f for f in ctx.P.by_qn.get('Typelib::' + name, []) if 'body' in f]


def by_operation(ctx):
    """operation name -> interpreters its public entry points reach"""
    res = {}
    for n in PUBLIC:
        rs = roots(ctx, n)
        ctx.need(rs, 'public operation Typelib::%s not found' % n)
        fs = interpreters(ctx, rs)
        ctx.need(fs, 'no layout interpreter reached from Typelib::%s' % n)
        res[n] = fs
    return res


_walkers = {}


def walker(ctx, f):
    k = (id(ctx.P), f['key'])
    if k not in _walkers:
        w = Walker(ctx, f)
        if w.outs is not None and w.loop is not None:
            w.has = w.collect()
        _walkers[k] = w
    else:
        ctx.functions.add(f['qn'])
    return _walkers[k]


def sig_events(o):
    """effects of an iteration on data, in order"""
    res = []
    for e in o.events:
        if e.k == 'call':
            n = sq(e.qn); last = n.rsplit('::', 1)[-1]
            if e.d.get('rec'):
                res.append(('rec', e))
            elif e.d.get('skip'):
                pass
            elif n in BULK:
                res.append((BULK[n], e))
            elif e.d.get('virt') and last in SIG:
                res.append((last, e))
            elif last in SIG and n.startswith('Typelib::'):
                res.append((last, e))
        elif e.k == 'loop':
            res.append(('loop', e))
        elif e.k == 'store' and e.loc[0] == 'deref':
            res.append(('store', e))
    return res


def opnames(w, init):
    return IOPN if init else OPN


def analyse(ctx, f, opn, init):
    """yields (opcode name or 'OTHER', path) of one generic iteration; None when not understood"""
    w = walker(ctx, f)
    if w.outs is None:
        ctx.unk(ctx.where(f), 'layout walk of %s' % sq(f['qn']), 'too many paths')
        return None
    if w.loop is None or not w.has or not w.pos or w.op1 is None:
        ctx.unk(ctx.where(f), 'layout walk of %s' % sq(f['qn']), 'no loop over the layout instructions recognised')
        return None
    return w


def lines(f, o):
    for e in reversed(o.events):
        if e.fn == f['qn'] and e.line:
            return e.line
    return f['line']


def is_init(name):
    return name == 'init'


# ------------------------------------------------------------------------------------------- A01
def movement(ctx):
    ops = opcodes(ctx)
    seen = set()
    for name, fs in by_operation(ctx).items():
        for f in fs:
            if f['key'] in seen:
                continue
            seen.add(f['key'])
            check_movement(ctx, ops, f, is_init(name), name)
    verify_skips(ctx, ops)


def block_eq(ctx, v, cur, op):
    """is v the end of the block that starts two words after cur?"""
    if v == blockend(add(cur, I(2))):
        return True
    if op == 'CONTAINER' and v == blockend(add(cur, I(1))):
        return True      # skipping may start at the operand: it is not a block delimiter
    return False


def at_block_end(w, o, cur, end):
    """can this path be taken when the body ends, before the end of the program, at an END instruction?"""
    b = blockend(add(cur, I(2)))
    for a, v in o.facts.items():
        a = nblock(a, cur)
        if a[0] == 'eq' and v and a[1] in (sub(b, w.end), sub(w.end, b)):
            return False
        at = [t for t in subterms(a) if t and t[0] == 'rd' and len(t) == 3 and t[1] == ('deref', b)]
        if at and not fact_ok({a: v}, {t: I(end) for t in at}):
            return False
    return True


def nblock(t, cur):
    return subst(t, {blockend(add(cur, I(1))): blockend(add(cur, I(2)))})


def check_movement(ctx, ops, f, init, name):
    w = analyse(ctx, f, ops, init)
    if w is None:
        return
    iops = {'MEMCPY': ops['INIT'], 'ARRAY': ops['INIT_REPEAT'], 'CONTAINER': ops['INIT_CONTAINER'], 'SKIP': ops['INIT_SKIP'], 'END': ops['END']} if init else \
        {n: ops[n] for n in ('MEMCPY', 'ARRAY', 'CONTAINER', 'SKIP', 'END')}
    cur, op1 = w.cur, w.op1
    for on, k in iops.items():
        paths = [o for o in w.loop.iters if w.relevant(o, k)]
        going = [o for o in paths if o.kind == 'continue']
        if on == 'END':
            stop = [o for o in paths if o.kind in ('continue', 'throw')]
            ctx.check(not stop, ctx.where(f, lines(f, stop[0]) if stop else None), 'an END instruction ends the walk of %s' % name, 'it is processed like an instruction')
            continue
        if not going:
            ctx.bad(ctx.where(f), '%s handles the %s instruction' % (name, on), 'no path continues after it')
            continue
        if on in ('ARRAY', 'CONTAINER') and not (init and on == 'CONTAINER'):
            body = [o for o in going if on != 'ARRAY' or any(e.k == 'loop' and any(x.d.get('rec') for i in e.iters for x in i.events if x.k == 'call') for e in o.events)]
            wrong = [o for o in body if not at_block_end(w, o, cur, iops['END'])]
            ctx.check(not body or len(wrong) < len(body), ctx.where(f, lines(f, wrong[0]) if wrong else None), '%s goes on after the body of %s that ends at its END instruction' % (name, on),
                      'it goes on only after a body that does not end at an END instruction')
        for o in going:
            wh = ctx.where(f, lines(f, o))
            nc = nblock(w.final(o, w.cur), cur)
            dc = nblock(sub(nc, cur), cur)
            zero = fact_ok(o.facts, {w.op1: I(0)}) and not fact_ok(o.facts, {w.op1: I(5)})
            exp_c = add(blockend(add(cur, I(2))), I(1)) if on in ('ARRAY', 'CONTAINER') and not (init and on == 'CONTAINER') else add(cur, I(2))
            if init and on == 'MEMCPY':
                exp_c = add(add(cur, I(2)), op1)
            skip_empty = False
            if on == 'ARRAY':
                inner = [e for e in o.events if e.k == 'loop' and any(x.d.get('rec') for i in e.iters for x in i.events if x.k == 'call')]
                inner0 = [e for e in o.events if e.k == 'loop0' and any(x.d.get('rec') for i in e.iters for x in i.events if x.k == 'call')]
                if not inner:
                    # zero repetitions: only valid for an empty array
                    if not inner0 and not zero:
                        if any(x.k in ('call', 'icall', 'havoc') for x, _o, l in eventsof([o]) if l):
                            ctx.unk(wh, '%s processes the elements of an array' % name, 'no recursive walk recognised in the loop')
                        else:
                            ctx.bad(wh, '%s processes the elements of an array' % name, 'the body is not walked')
                        continue
                    ctx.check(zero or None, wh, '%s walks the body of an array zero times only if it is empty' % name, 'path not conditioned on the element count')
                    skip_empty = True
            if on == 'ARRAY' and not skip_empty:
                trip = inner[0].trip
                if trip is None:
                    ctx.unk(wh, '%s repeats an array body element-count times' % name, 'number of repetitions not derived')
                else:
                    ctx.check(trip == op1, wh, '%s repeats an array body element-count times' % name, 'it is repeated %s times' % show(trip))
                for i in inner[0].iters:
                    rec = [x for x in i.events if x.k == 'call' and x.d.get('rec')]
                    if i.kind == 'continue':
                        ctx.check(len(rec) == 1, wh, '%s walks each array element once' % name, '%d walks' % len(rec))
                    for r in rec:
                        b = r.begin
                        b = subst(b, inner[0].init)
                        ctx.check(b == add(cur, I(2)), wh, '%s walks array elements from the first instruction of the body' % name, 'starts at %s' % show(r.begin))
            if not skip_empty:
                # (an array of zero elements is never compiled, see the compiler rules)
                unknown = has_sub(nc, lambda x: x[0] in ('X', 'unk', '?') or x[0] == 'rd' and x not in (op1,))
                ctx.check(True if nc == exp_c else None if unknown else False, wh, '%s continues after the %s instruction and its operands' % (name, on),
                          'continues at %s instead of %s' % (show(nc), show(exp_c)))
            elif on == 'ARRAY' and nc != exp_c:
                ctx.ok(wh, 'empty array in %s: excluded by the compiler (A04)' % name)
            for p in w.pos:
                np = nblock(w.final(o, p), cur)
                if on == 'CONTAINER':
                    d = sub(np, p)
                    good = on_operand(d, op1) and (d[0] in ('pure', 'res') and sq(d[1] if d[0] == 'pure' else d[2]).endswith('::getSize') or d[0] == 'rd' and d[1][0] == 'fld' and d[1][2] == 'm_size')
                    if not good:
                        ctx.check(None if has_sub(d, lambda x: x[0] in ('X', 'unk', '?')) else False, wh, '%s advances over a container by its size' % name, 'advances by %s' % show(d))
                    else:
                        ctx.ok(wh, '%s advances over a container by its size' % name)
                    continue
                exp = add(p, op1) if on in ('MEMCPY', 'SKIP') else add(p, mul(op1, span(add(cur, I(2)))))
                if skip_empty:
                    exp = p
                if subst(np, {op1: ZERO}) == exp and zero:
                    np = exp
                unknown = has_sub(sub(np, p), lambda x: x[0] in ('X', 'unk', '?'))
                ctx.check(True if np == exp else None if unknown else False, wh, '%s advances through the value by what %s describes' % (name, on),
                          'advances by %s instead of %s' % (show(sub(np, p)), show(sub(exp, p))))
    # unknown instructions
    paths = [o for o in w.loop.iters if w.relevant(o, OTHER)]
    silent = [o for o in paths if o.kind not in ('throw', 'noreturn')]
    ctx.check(bool(paths) and not silent, ctx.where(f, lines(f, silent[0]) if silent else None), '%s throws for an instruction it does not know' % name,
              'it goes on silently' if silent else 'no path')
    # what the walk returns
    for o in w.outs:
        if o.kind != 'return' or o.val is None:
            continue
        comps = o.val[1] if o.val[0] == 'tuple' else (o.val,)
        if name == 'compare' and comps and cnorm(comps[0]) == (('true',), False):
            continue
        ran = any(e.k == 'loop' and e.d.get('id') == w.loop.id for e in o.events)
        tail = [c for c in comps]
        m = {}
        if not ran:
            exp = {('c',): w.begin}
            okc = w.begin in tail
        else:
            okc = any(t[0] in ('X', 'L') and t[1] == w.loop.id and t[2] == w.loop.symloc[w.cur] for t in tail if isinstance(t, tuple))
        wh = ctx.where(f)
        if name in ('dump', 'load', 'init', 'zero', 'destroy', 'copy', 'compare'):
            ctx.check(okc or None, wh, '%s returns where the walk stopped' % name, 'returns %s' % show(o.val))
        want = []
        for s, l in w.loop.symloc.items():
            if any(has_sub(p, lambda x: x == s) for p in w.pos):
                want.append((s, l))
        for s, l in want:
            if not ran:
                good = w.loop.init[s] in tail
            else:
                good = any(t[0] in ('X', 'L') and t[1] == w.loop.id and t[2] == l for t in tail)
            ctx.check(good or None, wh, '%s returns the position reached in the value' % name, 'returns %s' % show(o.val))


def on_operand(d, op1):
    return has_sub(d, lambda x: x == op1)


def verify_skips(ctx, ops):
    """the block skipping helper understands the nesting of blocks"""
    keys = set()
    for w in _walkers.values():
        keys |= w.skips
    for k in sorted(keys):
        f = ctx.P.functions[k]
        w = SkipWalk(ctx, f)
        w.check(ops)


class SkipWalk(Walker):
    def __init__(self, ctx, f):
        self.key = f['key']
        Walker.__init__(self, ctx, f)

    def check(self, ops):
        ctx, f = self.ctx, self.f
        if self.outs is None or self.loop is None or not self.collect():
            ctx.unk(ctx.where(f), 'block skipping', 'no loop over the layout instructions recognised')
            return
        L = self.loop
        cnt = [s for s, v in L.init.items() if v == ZERO]
        if len(cnt) != 1:
            ctx.unk(ctx.where(f), 'block skipping', 'no nesting counter recognised')
            return
        n = cnt[0]
        for on in ('MEMCPY', 'ARRAY', 'CONTAINER', 'SKIP', 'END'):
            k = ops[on]
            paths = [o for o in L.iters if self.relevant(o, k)]
            for o in paths:
                wh = ctx.where(f, lines(f, o))
                if o.kind == 'continue':
                    dc = sub(self.final(o, self.cur), self.cur)
                    dn = sub(self.final(o, n), n)
                    exp = {'MEMCPY': (2, 0), 'SKIP': (2, 0), 'ARRAY': (2, 1), 'CONTAINER': (2, 1), 'END': (1, -1)}[on]
                    good = dc == I(exp[0]) and dn == I(exp[1])
                    unknown = dc[0] != 'int' or dn[0] != 'int'
                    ctx.check(True if good else None if unknown else False, wh, 'skipping a block steps over %s with its operand and tracks nesting' % on,
                              'moves by %s, nesting changes by %s' % (show(dc), show(dn)))
                elif on != 'END' and o.kind in ('return', 'break'):
                    ctx.bad(wh, 'skipping a block stops only at its END', 'stops at %s' % on)
            if on == 'END':
                z = [o for o in paths if o.kind == 'continue' and fact_ok(o.facts, {n: I(0)}) and fact_ok(o.facts, {t: I(k) for t in self.rdterms})]
                z = [o for o in z if fact_ok(o.facts, dict([(t, I(k)) for t in self.rdterms] + [(n, I(0))]))]
                ctx.check(not z, ctx.where(f), 'skipping a block stops at its own END', 'it goes on past it')


# ------------------------------------------------------------------------------------------- A02
def effects(ctx):
    ops = opcodes(ctx)
    for name, fs in by_operation(ctx).items():
        if name in ('dump', 'load', 'getDumpSize'):
            continue
        for f in fs:
            check_effects(ctx, ops, f, name)


def argeq(a, b):
    return a == b


def one_effect(ctx, w, wh, name, on, sigs, kind, pred, what):
    """exactly the effect wanted, and nothing else"""
    loops = [s for s in sigs if s[0] == 'loop']
    others = [s for s in sigs if s[0] in ('store', '?')]
    mine = [s for s in sigs if s[0] == kind]
    if len(mine) == 1 and len(sigs) == 1:
        ctx.check(pred(mine[0][1]), wh, what, 'called with %s' % ', '.join(show(a) for a in mine[0][1].args))
    elif not mine and (loops or others):
        ctx.unk(wh, what, 'done by a loop or another library function')
    elif not mine:
        ctx.bad(wh, what, 'no such effect on this path')
    elif len(mine) > 1:
        ctx.bad(wh, what, 'done %d times' % len(mine))
    else:
        ctx.unk(wh, what, 'other effects on the same path: %s' % ', '.join(s[0] for s in sigs))


def check_effects(ctx, ops, f, name):
    init = is_init(name)
    w = analyse(ctx, f, ops, init)
    if w is None:
        return
    iops = {'MEMCPY': ops['INIT'], 'ARRAY': ops['INIT_REPEAT'], 'CONTAINER': ops['INIT_CONTAINER'], 'SKIP': ops['INIT_SKIP']} if init else \
        {n: ops[n] for n in ('MEMCPY', 'ARRAY', 'CONTAINER', 'SKIP')}
    op1, cur = w.op1, w.cur
    p0 = w.pos[0]
    src = w.pos[-1]
    for on, k in iops.items():
        for o in w.loop.iters:
            if not w.relevant(o, k):
                continue
            wh = ctx.where(f, lines(f, o))
            sigs = sig_events(o)
            if name == 'compare':
                compare_path(ctx, w, f, o, on, sigs, wh)
                continue
            if o.kind != 'continue':
                continue
            if name in ('copy',) and any(s[0] == 'store' for s in sigs):
                pass
            if on == 'MEMCPY':
                if name == 'copy':
                    one_effect(ctx, w, wh, name, on, [('cpy', s[1]) if s[0] == 'stdcpy' else s for s in sigs], 'cpy',
                               lambda e: tuple(e.args) == (p0, src, op1) or tuple(e.args) == (src, add(src, op1), p0), 'copy transfers every byte of a data block from source to destination')
                elif name == 'zero':
                    one_effect(ctx, w, wh, name, on, sigs, 'set', lambda e: tuple(e.args) == (p0, ZERO, op1), 'zero clears every byte of a data block')
                elif name == 'init':
                    one_effect(ctx, w, wh, name, on, sigs, 'stdcpy', lambda e: tuple(e.args) == (add(cur, I(2)), add(add(cur, I(2)), op1), p0), 'init stores the initial bytes of a data block')
                elif name == 'destroy':
                    ctx.check(None if any(s[0] in ('loop', '?') for s in sigs) else not sigs, wh, 'destroy leaves plain data alone', 'effects: %s' % ', '.join(s[0] for s in sigs))
            elif on == 'SKIP':
                if name == 'zero':
                    good = not sigs or len(sigs) == 1 and sigs[0][0] == 'set' and tuple(sigs[0][1].args) == (p0, ZERO, op1)
                else:
                    good = not sigs
                ctx.check(None if not good and any(s[0] in ('loop', '?') for s in sigs) else good, wh, '%s leaves padding alone' % name, 'effects: %s' % ', '.join(s[0] for s in sigs))
            elif on == 'CONTAINER':
                meth = {'zero': 'clear'}.get(name, name)

                def pred(e):
                    args = tuple(e.args)
                    exp = (p0, src) if name == 'copy' else (p0,)
                    return args == exp and (e.obj == op1 or has_sub(e.obj, lambda x: x == op1))
                one_effect(ctx, w, wh, name, on, sigs, meth, pred, '%s acts exactly once on each container, through its type' % name)
            elif on == 'ARRAY':
                array_effect(ctx, w, o, name, wh)


def array_effect(ctx, w, o, name, wh):
    for e in o.events:
        if e.k != 'loop':
            continue
        for i in e.iters:
            recs = [x for x in i.events if x.k == 'call' and x.d.get('rec')]
            for r in recs:
                ptr = [a for a, p in zip(r.args, ctx.P.functions[r.key]['params']) if ptype(ctx, p['t']) == 'byte*']
                # each pointer of the element walk is the loop variable that starts where the array starts
                starts = [e.init.get(a, a) for a in ptr]
                steps = [e.step.get(a) for a in ptr]
                good = tuple(starts) == tuple(w.pos)
                stepok = all(s == span(r.begin) for s in steps)
                if None in steps:
                    ctx.unk(wh, '%s walks each array element at its place' % name, 'element position not derived')
                else:
                    ctx.check(good and stepok, wh, '%s walks each array element at its place, destination and source alike' % name,
                              'walks %s starting at %s' % (', '.join(map(show, ptr)), ', '.join(map(show, starts))))
    # other effects besides the element walks
    sigs = [s for s in sig_events(o) if s[0] not in ('loop', 'rec')]
    ctx.check(not sigs, wh, '%s does nothing to an array but walk its elements' % name, ', '.join(s[0] for s in sigs))


def compare_path(ctx, w, f, o, on, sigs, wh):
    op1 = w.op1
    comp = o.val[1][0] if o.kind == 'return' and o.val is not None and o.val[0] == 'tuple' else None
    verdict = None
    if comp is not None:
        a, p = cnorm(comp)
        verdict = p if a == ('true',) else None
    if on == 'SKIP':
        ctx.check(None if any(s[0] in ('loop', '?') for s in sigs) else not sigs and o.kind == 'continue', wh, 'compare ignores padding', '%s' % o.kind)
        return
    if on == 'MEMCPY':
        m = [s[1] for s in sigs if s[0] == 'cmp']
        if len(m) != 1:
            ctx.check(None if any(s[0] in ('loop', '?') for s in sigs) else False, wh, 'compare compares every byte of a data block', '%d comparisons' % len(m))
            return
        e = m[0]
        ctx.check(set(e.args[:2]) == set(w.pos) and len(w.pos) == 2 and e.args[2] == op1, wh, 'compare compares every byte of a data block', 'called with %s' % ', '.join(show(a) for a in e.args))
        outcome(ctx, o, e.res, True, verdict, wh, 'a data block')
    elif on == 'CONTAINER':
        m = [s[1] for s in sigs if s[0] == 'compare']
        if len(m) != 1:
            ctx.check(None if any(s[0] in ('loop', '?') for s in sigs) else False, wh, 'compare compares each container', '%d comparisons' % len(m))
            return
        e = m[0]
        ctx.check(set(e.args) == set(w.pos) and has_sub(e.obj, lambda x: x == op1), wh, 'compare compares each container with its counterpart', 'called with %s' % ', '.join(show(a) for a in e.args))
        outcome(ctx, o, e.res, False, verdict, wh, 'a container')
    elif on == 'ARRAY':
        if o.kind == 'continue':
            array_effect(ctx, w, o, 'compare', wh)
        for e in o.events:
            if e.k == 'loop':
                for i in e.iters:
                    recs = [x for x in i.events if x.k == 'call' and x.d.get('rec')]
                    if not recs:
                        continue
                    eq = [a for a in i.facts if any(t[0] == 'pure' and t[1] == 'equal' for t in subterms(a))]
                    for a in eq:
                        tv = (i.facts[a] == (a[0] == 'eq'))     # eq(equal) true means not equal
                        if a[0] != 'eq':
                            ctx.unk(wh, 'outcome of element comparison', show(a)); continue
                        differs = i.facts[a]
                        if i.kind == 'continue':
                            ctx.check(not differs, wh, 'compare goes on only while array elements are equal', 'goes on after a difference')
                        elif i.kind == 'return':
                            v = None
                            if i.val is not None and i.val[0] == 'tuple':
                                aa, pp = cnorm(i.val[1][0]); v = pp if aa == ('true',) else None
                            ctx.check(None if v is None else v == (not differs), wh, 'compare reports a difference between array elements', 'reports %s' % v)
                    if not eq and i.kind == 'continue':
                        ctx.bad(wh, 'compare uses the outcome of the element comparison', 'the outcome is ignored')


def outcome(ctx, o, res, zero_is_equal, verdict, wh, what):
    a, p = cnorm(res)
    v = decide(o.facts, a)
    if v is None:
        ctx.bad(wh, 'compare uses the outcome of comparing %s' % what, 'the outcome is ignored')
        return
    nonzero = (v == p)
    equal = (not nonzero) if zero_is_equal else nonzero
    if o.kind == 'continue':
        ctx.check(equal, wh, 'compare goes on only if %s is equal' % what, 'goes on after a difference')
    elif o.kind == 'return':
        ctx.check(None if verdict is None else verdict is False and not equal, wh, 'compare reports a difference in %s' % what, 'returns %s when they are %s' % (verdict, 'equal' if equal else 'different'))
    elif o.kind == 'break':
        ctx.unk(wh, 'compare reports a difference in %s' % what, 'leaves the loop')


def public_entry(ctx):
    """public entry points hand the right data and layout to the interpreter"""
    for name in ('init', 'zero', 'destroy', 'copy', 'compare'):
        fs = by_operation(ctx)[name]
        keys = set(f['key'] for f in fs)
        for r in roots(ctx, name):
            outs = ctx.run(r, opaque=lambda f: f['key'] in keys or sq(f['qn']).endswith('layout_of'))
            rets = [o for o in outs if o.kind == 'return']
            reached = False
            for o in rets:
                calls = [e for e in o.events if e.k == 'call' and e.key in keys]
                if not calls:
                    # nothing to do: only legitimate for copying something onto itself, or comparing incompatible types
                    wh = ctx.where(r)
                    n0, n1 = [p['n'] for p in r['params'][:2]] if len(r['params']) > 1 else ('', '')
                    same = False
                    if name == 'copy':
                        for a, v in o.facts.items():
                            if a[0] == 'eq' and v:
                                c, parts = lin_parts(a[1])
                                if c == 0 and len(parts) == 2 and not any('type' in str(x).lower() for t, k in parts for x in subterms(t)) and {order(t, (n0, n1)) for t, k in parts} == {0, 1}:
                                    same = True
                    elif name == 'compare' and o.val is not None and cnorm(o.val) == (('true',), False):
                        same = any(any('compare' in str(x) or 'canCast' in str(x) or 'type' in str(x).lower() for x in subterms(a)) for a in o.facts)
                    ctx.check(same, wh, '%s processes the value' % name, 'a path returns without doing anything')
                    continue
                reached = True
                for e in calls:
                    wh = ctx.at(e)
                    g = ctx.P.functions[e.key]
                    pts = [ptype(ctx, p['t']) for p in g['params']]
                    cs = [a for a, t in zip(e.args, pts) if t == 'cur']
                    fam = 'init_begin' if name == 'init' else 'begin'
                    b, en = cs[0], cs[1]
                    nb = [sq(t[1]).rsplit('::', 1)[-1] for t in subterms(b) if t[0] == 'pure' and sq(t[1]).startswith('Typelib::MemoryLayout')] or field_names(b)
                    ctx.check(len(calls) == 1, wh, '%s walks the layout once' % name, '%d walks' % len(calls))
                    d = [a for a, t in zip(e.args, pts) if t == 'byte*']
                    if len(d) == 2:
                        names = [p['n'] for p in r['params'][:2]]
                        i0 = order(d[0], names); i1 = order(d[1], names)
                        ctx.check(None if None in (i0, i1) else (i0, i1) == (0, 1) or (name == 'compare' and {i0, i1} == {0, 1}), wh, '%s hands destination and source over in order' % name, 'passes %s' % ', '.join(map(show, d)))
                if name == 'compare':
                    for e in o.events:
                        if e.k == 'call' and sq(e.qn) == 'Typelib::layout_of' and len(e.args) >= 4:
                            ctx.check(e.args[3] == ZERO if e.args[3][0] == 'int' else None, ctx.at(e), 'compare walks a layout in which padding is not merged into data blocks', 'merging requested')
                    c = calls[0]
                    v = o.val
                    good = v is not None and has_sub(v, lambda x: x == c.res)
                    ctx.check(good or None, ctx.where(r), 'compare returns the verdict of the walk', 'returns %s' % (show(v) if v else None))


def data_terms(r):
    return [('sym', p['n']) for p in r['params'][:2]]


def field_names(t):
    return [x[2] for x in subterms(t) if x[0] == 'fld' and len(x) == 3]


def order(t, names):
    got = [i for i, n in enumerate(names) if has_sub(t, lambda x: x == ('sym', n))]
    return got[0] if len(got) == 1 else None
