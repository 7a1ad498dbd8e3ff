"""A11: merging the instructions of a layout keeps what they stand for; A01: stepping over a block ends at its end.

A simplifier reads words through a cursor and appends words to another layout, keeping the run it has not written yet in
local variables. For every path of one round of its loop, the instructions pending before followed by the instruction
that was read must stand for the same bytes as the words written in that round followed by what is pending afterwards."""
import os
from core import *
from rules.layout import *
from rules import words as W
from flow import mul

ML = 'Typelib::MemoryLayout'


def vec8(t):
    return 'vector<unsigned char' in t


def mlparam(ctx, f):
    """the layout that is written"""
    r = [i for i, p in enumerate(f['params']) if strip(ctx, p['t']) == ML and 'const' not in p['t'] and (ctx.P.types.get(p['t']) or {}).get('k') == 'ref']
    return r[0] if len(r) == 1 else None


def simplifiers(ctx):
    P = ctx.P
    cand = [f for f in P.functions.values() if 'body' in f and curs(ctx, f) and mlparam(ctx, f) is not None]
    keys = {f['key'] for f in cand}
    calls = {f['key']: {x.get('fn') for x in walk_ast(f['body']) if x['k'] == 'call'} & keys for f in cand}

    def reach(k):
        seen, work = set(), list(calls[k])
        while work:
            x = work.pop()
            if x not in seen:
                seen.add(x)
                work += calls[x]
        return seen
    rec = [f for f in cand if f['key'] in reach(f['key'])]
    looped = [f for f in rec if any(x['k'] in ('for', 'while', 'do', 'rfor') for x in walk_ast(f['body']))]
    return looped, {f['key'] for f in rec}


def solve(facts):
    """equalities as a substitution"""
    m = {}
    for a, v in facts.items():
        if a[0] == 'eq' and v is True:
            e = subst(rdt(a[1]), m)
            c, ts = lin_parts(e)
            # prefer to replace what was read by constants
            for t, k in sorted(ts, key=lambda x: repr(x[0])):
                if abs(k) == 1 and not any(has_sub(u, lambda y: y == t) for u, q in ts if u != t):
                    r = scale(sub(e, scale(t, k)), -k)
                    m = {x: subst(y, {t: r}) for x, y in m.items()}
                    m[t] = r
                    break
    return m


def no(facts, d, m=None):
    """the facts say that the term is not zero"""
    m = m if m is not None else solve(facts)
    d = subst(rdt(d), m)
    if d[0] == 'int':
        return d[1] != 0
    for a, v in facts.items():
        if a[0] == 'eq' and v is False:
            e = subst(rdt(a[1]), m)
            if e == d or e == scale(d, -1):
                return True
        if a[0] == 'lt' and v is True:
            e = subst(rdt(a[1]), m)
            if e == d or e == scale(d, -1):
                return True
    return False


class Paths:
    def __init__(self, ctx, f, keys):
        self.ctx, self.f, self.P = ctx, f, ctx.P
        self.cur = curs(ctx, f)
        self.out = mlparam(ctx, f)
        P = self.P
        isw = lambda c: sq(c.e.get('qn', '')).startswith('std::vector::') and ('vector<unsigned long' in c.e['qn'] or vec8(c.e['qn']))
        base = W.hook_for(ctx, isw=isw)

        def hook(en, st, c):
            if c.e.get('fn') in keys:
                out = mlparam(ctx, P.functions[c.e['fn']])
                st = st.copy()
                st.n += 1
                import flow
                j = ('sym', '#J%d' % st.n)
                target = c.locs[out] if c.locs[out] is not None else deref(c.vals[out])
                sizes = {}
                at = {}
                for v in ('ops', 'init_ops'):
                    b = ('sym', '#B%s%d' % (v[0], st.n))
                    flow.UNSIGNED.add(b)
                    vec = ('fld', target, v)
                    at[v] = W.wsize(st, vec)
                    sizes[v] = b
                    st.heap[('fld', vec, W.SIZE)] = add(at[v], b)
                    if root(vec)[0] == 'var':
                        st.heap[vec] = ('sym', '#%s%d' % (v, st.n))
                en.ev_(st, 'block', c.e, target=target, at=at, size=sizes, args=tuple(c.vals), j=j, callee=c.e['fn'])
                return [(st, j)]
            if c.obj is not None and isw(c):
                last = c.name.rsplit('::', 1)[-1]
                ol = c.ol if c.ol is not None else deref(c.obj)
                if last in ('begin', 'cbegin', 'end', 'cend'):
                    return [(st, ('pure', '#' + last[-5 if 'begin' in last else -3:], ('addr', ol)))]
                if last in ('insert', 'assign'):
                    st = st.copy()
                    a = c.vals[1:] if last == 'insert' else c.vals
                    if last == 'assign':
                        st.heap[('fld', ol, W.SIZE)] = ZERO
                        en.ev_(st, 'wclear', c.e, vec=ol)
                    cur = W.wsize(st, ol)
                    src, n = None, None
                    if len(a) == 2 and a[0][:2] == ('pure', '#begin') and a[1] == ('pure', '#end') + a[0][2:]:
                        src = ('all', a[0][2][1]); n = W.wsize(st, src[1])
                    elif len(a) == 2:
                        src = ('range', a[0]); n = sub(a[1], a[0])
                    if src is None:
                        return None
                    st.heap[('fld', ol, W.SIZE)] = add(cur, n)
                    pos = c.vals[0] if last == 'insert' else None
                    en.ev_(st, 'wins', c.e, vec=ol, at=cur, src=src, n=n, end=pos is None or pos == ('pure', '#end', ('addr', ol)))
                    return [(st, ('sym', '#it%d' % st.n))]
            return base(en, st, c)
        self.outs = ctx.run(f, opaque=lambda g: g.get('cls') != ML and not g.get('internal') or g['n'] == 'display', merge=False, hook=hook)
        loops = [e for e, o, ls in eventsof(self.outs, ('loop',)) if not ls]
        best = {}
        for e in loops:
            best.setdefault(e.d['id'], e)
        self.loops = list(best.values())


def segment(items):
    """words written -> [('run', kind, n) | ('data', pieces) | ('block', op, operand, block)], or a reason"""
    res = []
    i = 0
    while i < len(items):
        x = items[i]
        if x[0] != 'w' or i + 1 >= len(items) or items[i + 1][0] != 'w':
            return None, 'an instruction is written without its operand'
        k, n = x[1], items[i + 1][1]
        nxt = items[i + 2] if i + 2 < len(items) else None
        if nxt is not None and nxt[0] == 'block':
            if i + 3 >= len(items) or items[i + 3][0] != 'w':
                return None, 'a block is written without its end'
            res.append(('block', k, n, nxt[1], items[i + 3][1]))
            i += 4
        elif nxt is not None and nxt[0] == 'data':
            res.append(('data', k, n, nxt[1], nxt[2]))
            i += 3
        else:
            res.append(('run', k, n))
            i += 2
    return res, None


class Round:
    """what one path of the loop body (or the rest of the function) wrote and kept"""
    def __init__(self, pt, o, vec, events, L, names):
        self.why = None
        self.items = []          # written words in order: ('w', val, pos) / ('block', event, pos) / ('data', pieces, size, pos)
        self.data = {}           # byte vectors: [pieces]
        self.blocks = []
        base = None
        for e in events:
            if e.k == 'word' and e.d['vec'] == vec:
                self.items.append(('w', e.d['val'], e.d['at']))
            elif e.k == 'block' and e.d['target'] == vec[1]:
                self.items.append(('block', e, e.d['at'][vec[2]]))
                self.blocks.append(e)
            elif e.k == 'block':
                self.why = 'a block is written somewhere else'
            elif e.k == 'wins' and e.d['vec'] == vec:
                s = e.d['src']
                p = self.pieces(s[1]) if s[0] == 'all' else [('rng', s[1], e.d['n'])]
                if not e.d['end']:
                    self.why = 'words are not written at the end'
                self.items.append(('data', list(p), e.d['n'], e.d['at']))
            elif e.k == 'wins':
                s = e.d['src']
                if s[0] != 'range' or not e.d['end']:
                    self.why = 'bytes are kept in another order'
                    continue
                self.pieces(e.d['vec']).append(('rng', s[1], e.d['n']))
            elif e.k == 'wclear' and e.d['vec'] != vec:
                self.data[e.d['vec']] = []
            elif e.k == 'wclear':
                self.why = 'everything written before is dropped'
            elif e.k in ('unword',) and e.d['vec'] == vec:
                self.trunc(e.d['at'])
            elif e.k == 'wresize' and e.d['vec'] == vec:
                self.trunc(e.d['new'], e.d['old'])
            elif e.k == 'word':
                self.why = 'words are written somewhere else'

    def pieces(self, v):
        return self.data.setdefault(v, [('pre', v)])

    def trunc(self, new, old=None):
        if old is not None and old == new:
            return
        keep = []
        hit = False
        for it in self.items:
            d = sub(new, it[-1])
            if d[0] == 'int' and d[1] <= 0:
                hit = hit or d[1] == 0
                continue
            if d[0] != 'int':
                # after a block of unknown size
                if it[0] == 'block' or any(x[0] == 'block' for x in keep):
                    self.why = self.why or 'the words that are dropped were not recognised'
                    keep.append(it)
                    continue
            keep.append(it)
        if keep and not hit:
            # ends after what is kept?
            last = keep[-1]
            if last[0] != 'w' or sub(new, last[-1]) != I(1):
                self.why = self.why or 'the words that are dropped were not recognised'
        if not keep and not hit:
            self.why = self.why or 'words written in an earlier round are dropped'
        self.items = keep


def rules(ctx):
    ctx.rule = 'simplification'
    fs, rec = simplifiers(ctx)
    ctx.need(fs, 'no function that merges the instructions of a layout was found')
    seen = {'ops': 0, 'init_ops': 0}
    done = []
    for f in fs:
        pt = Paths(ctx, f, {f['key']})
        # which instructions it is about
        n = {'ops': 0, 'init_ops': 0}
        for e, o, ls in eventsof(pt.outs, ('word', 'wins')):
            v = e.d['vec']
            if v[0] == 'fld' and v[2] in n and has_sub(v[1], lambda y: y == ('sym', f['params'][pt.out]['n'])):
                n[v[2]] += 1
        kind = max(n, key=lambda k: n[k])
        if not n[kind]:
            continue
        seen[kind] += 1
        one(ctx, pt, f, kind)
        done.append((f, kind, pt))
    for k in seen:
        if not seen[k]:
            ctx.unk(ML, 'the %s are merged' % ('instructions' if k == 'ops' else 'initialisation instructions'), 'the function was not recognised')
    tops(ctx, done, rec)


def one(ctx, pt, f, kind):
    OPS = opcodes(ctx)
    init = kind == 'init_ops'
    if init:
        RUN = {OPS['INIT_SKIP']}; ARRAY, CONT, END, DATA = OPS['INIT_REPEAT'], OPS['INIT_CONTAINER'], OPS.get('INIT_END', OPS['END']), OPS['INIT']
    else:
        RUN = {OPS['MEMCPY'], OPS['SKIP']}; ARRAY, CONT, END, DATA = OPS['ARRAY'], OPS['CONTAINER'], OPS['END'], None
    wh0 = ctx.where(f)
    if len(pt.loops) != 1:
        ctx.unk(wh0, 'merging instructions keeps what they stand for', 'the loop over the instructions was not recognised')
        return
    loop = pt.loops[0]
    outsym = ('sym', f['params'][pt.out]['n'])
    symloc = loop.d['symloc']
    L = {loc: s for s, loc in symloc.items()}
    vec = next((e.d['vec'] for e, o, ls in eventsof(pt.outs, ('word',)) if e.d['vec'][0] == 'fld' and e.d['vec'][2] == kind and has_sub(e.d['vec'], lambda y: y == outsym)), None)
    # the cursor
    cl = [loc for loc in L if loc[0] == 'var' and loc[1] == f['params'][pt.cur[0]]['n']]
    if len(cl) != 1:
        cl = [loc for loc in L if loc[0] == 'var' and any(e.k == 'store' and e.d['loc'] == loc and e.d.get('val') is not None and has_sub(e.d['val'], lambda y: y[:1] == ('sym',) and str(y[1]).startswith('#J')) for i in loop.iters for e in i.events)]
    if len(cl) != 1:
        ctx.unk(wh0, 'merging instructions keeps what they stand for', 'the position in the instructions was not recognised')
        return
    it = cl[0]
    itL = L[it]

    def rd(p):
        return lambda t: t[0] == 'rd' and t[1] == deref(p)
    # pending runs: the variables the written operands are taken from
    counts, kinds = {}, {}
    rounds = []
    for i in loop.iters:
        if i.kind == 'throw':
            continue
        r = Round(pt, i, vec, i.events, L, None)
        rounds.append((i, r))
    tails = []
    for o in pt.outs:
        if o.kind != 'return':
            continue
        ev = o.events
        k = [j for j, e in enumerate(ev) if e.k in ('loop', 'loop0')]
        le = ev[k[0]] if k else None
        if o.val is not None and has_sub(o.val, lambda y: y == itL):
            continue        # left from inside the loop
        after = ev[k[-1] + 1:] if k else ev
        tails.append((o, Round(pt, o, vec, after, L, None), le))
    byloc = {}
    for s, loc in symloc.items():
        byloc[s] = loc
    pend = {}      # count location -> kinds seen (location or constant)
    for i, r in rounds:
        ws = [x for x in i.events if x.k == 'word' and x.d['vec'] == vec]
        for a, b in zip(ws, ws[1:]):
            if b.d['val'] in byloc and byloc[b.d['val']][0] == 'var' and byloc[b.d['val']] != it and b.d['at'] == add(a.d['at'], I(1)):
                v = a.d['val']
                pend.setdefault(byloc[b.d['val']], set()).add(byloc[v] if v in byloc else v)
    if len(pend) != 1 or len(next(iter(pend.values()))) != 1:
        ctx.unk(wh0, 'merging instructions keeps what they stand for', 'how the run that is not written yet is kept was not recognised')
        return
    cloc, kv = next(iter(pend.items()))
    kloc = next(iter(kv))
    datas = {v for i, r in rounds for v in r.data}
    flagsyms = {('sym', p['n']) for p in f['params'] if strip(ctx, p['t']) == 'bool'}
    merged_by, trailed_by = set(), set()

    def value(heap, loc, dflt):
        return heap.get(loc, dflt)

    def flag(facts):
        return {s for s in flagsyms for a, v in facts.items() if a == ('eq', s) and v is False or a == ('nz', s) and v is True}

    def norm(segs, m, merge, sz=None):
        sz = sz or L
        """adjacent runs of one kind are one run; what is empty is left out"""
        res = []
        for s in segs:
            if s[0] == 'run':
                k, n = subst(rdt(s[1]), m), subst(rdt(s[2]), m)
                if n == ZERO:
                    continue
                if res and res[-1][0] == 'run' and (res[-1][1] == k or merge):
                    res[-1] = ('run', k if res[-1][1] == k else ('?',), add(res[-1][2], n))
                    continue
                res.append(('run', k, n))
            elif s[0] == 'data':
                p = [(q[0], subst(q[1], m), subst(q[2], m)) if q[0] == 'rng' else q for q in s[1] if not (q[0] == 'pre' and is_zero(sz.get(('fld', q[1], W.SIZE)), m))]
                p = [q for q in p if not (q[0] == 'rng' and q[2] == ZERO)]
                if not p:
                    continue
                if res and res[-1][0] == 'data':
                    res[-1] = ('data', res[-1][1] + p)
                else:
                    res.append(('data', p))
            else:
                res.append(tuple(subst(x, m) if isinstance(x, tuple) else x for x in s))
        return res

    def written(r, m):
        segs, why = segment(r.items)
        if segs is None:
            return None, why
        out = []
        for s in segs:
            if s[0] == 'run':
                out.append(s)
            elif s[0] == 'data':
                if subst(s[1], m) != I(DATA if DATA is not None else -1):
                    return None, 'bytes are written after another instruction'
                if subst(s[2], m) != subst(s[4], m):
                    return None, 'the number of bytes that is written is not that of the bytes'
                out.append(('data', s[3]))
            else:
                if subst(s[4], m) != I(END):
                    return None, 'a block is not closed'
                out.append(('block', s[1], s[2], s[3].d['j']))
        return out, None

    def cases(facts, dsizes):
        """either nothing is pending as a run, or no bytes are"""
        if not datas:
            return [(solve(facts), 'run')]
        res = []
        for which in ('run', 'data'):
            zero = [L[cloc]] if which == 'data' else dsizes
            f2 = dict(facts)
            m = solve(facts)
            bad = False
            for z in zero:
                z2 = subst(z, m)
                if z2[0] == 'int' and z2[1] != 0 or no(facts, z, m):
                    bad = True
                f2[('eq', z)] = True
            if not bad:
                res.append((solve(f2), which))
        return res

    what = 'merging %s keeps what they stand for' % ('initialisation instructions' if init else 'instructions')
    dsz = [L[('fld', d, W.SIZE)] for d in datas if ('fld', d, W.SIZE) in L]
    n_ok = 0
    for i, r in rounds:
        facts = i.facts
        line = next((e.line for e in reversed(i.events) if e.k in ('word', 'store', 'wresize') and e.line), loop.line)
        wh = ctx.where(f, line)
        if r.why:
            (ctx.bad if 'dropped' in r.why and 'recognised' not in r.why else ctx.unk)(wh, what, r.why)
            continue
        for m, which in cases(facts, dsz):
            op = subst(('rd', deref(itL), 0), m)
            w0 = next((t for a in facts if a[0] == 'eq' for t, k in lin_parts(a[1])[1] if t[0] == 'rd' and t[1] == deref(itL)), ('rd', deref(itL), 0))
            op = subst(w0, m)
            opn = op[1] if op[0] == 'int' else None
            w1 = ('rd', deref(add(itL, I(1))), 0)
            itpost = i.st.heap.get(it, itL)
            pre = [('run', L[kloc] if kloc in L else kloc, L[cloc])]
            for d in datas:
                pre.append(('data', [('pre', d)]) if which == 'data' else ('data', []))
            post = []
            cpost = i.st.heap.get(cloc, L[cloc])
            kpost = i.st.heap.get(kloc, L.get(kloc)) if kloc in L else kloc
            post.append(('run', kpost, cpost))
            for d in datas:
                p = r.data.get(d, [('pre', d)])
                post.append(('data', [q for q in p if not (q[0] == 'pre' and which == 'run')]))
            wr, why = written(r, m)
            if wr is None:
                ctx.bad(wh, what, why)
                continue
            consumed, after = None, None
            if opn == END or (i.kind == 'return' and opn is None and i.val == itL):
                # the end of the block
                if opn != END:
                    ctx.bad(wh, 'only the end of a block ends it', 'a path returns at another instruction')
                    continue
                consumed = []
                after = itL
                post = []
                fin = i.val
                if i.kind != 'return':
                    ctx.bad(wh, 'only the end of a block ends it', 'a path goes on after the end')
                    continue
                ctx.check(fin == itL, wh, 'the end of a block is reported where it is', 'another position is returned')
            elif i.kind != 'continue':
                ctx.bad(wh, 'only the end of a block ends it', 'a path leaves the loop at another instruction')
                continue
            elif opn == ARRAY or (opn == CONT and not init):
                if len(r.blocks) != 1 and not any(e.k == 'block' for e in i.events):
                    ctx.bad(wh, what, 'the contents of a block are not merged and written')
                    continue
                b = [e for e in i.events if e.k == 'block']
                if len(b) != 1:
                    ctx.unk(wh, what, 'the contents of a block are looked at more than once')
                    continue
                b = b[0]
                if not ctx.check(b.d['args'][pt.cur[0]] == add(itL, I(2)), wh, 'the contents of a block start after its operand', 'another position is given'):
                    continue
                j = b.d['j']
                closed = any(a[0] == 'eq' and v is True and subst(a[1], {}) in () for a, v in facts.items())
                jr = [t for a, v in facts.items() if a[0] == 'eq' for t, k in lin_parts(a[1])[1] if t[0] == 'rd' and t[1] == deref(j)]
                closed = any(subst(t, m) == I(END) for t in jr)
                ctx.check(closed, wh, 'a block that is not closed is refused', 'nothing looks for its end')
                after = add(j, I(1))
                start, size = b.d['at'][kind], b.d['size'][kind]
                s2 = subst(size, m)
                kept = any(x[0] == 'block' for x in wr)
                elt = lambda k: ('rd', ('elt', vec, add(start, I(k))), 0)
                if kept:
                    consumed = [('block', I(opn), w1, j)]
                elif opn == CONT:
                    ctx.bad(wh, what, 'a container is dropped')
                    continue
                elif s2 == I(2):
                    consumed = [('run', subst(elt(0), m), mul(subst(w1, m), subst(elt(1), m)))]
                elif s2 == ZERO:
                    consumed = []
                else:
                    ctx.bad(wh, what, 'the contents of an array are dropped on a path that does not know that they are one run')
                    continue
            elif opn == CONT:
                consumed = [('run', I(CONT), w1)]
                after = add(itL, I(2))
            elif init and opn == DATA:
                consumed = [('data', [('rng', add(itL, I(2)), w1)])]
                after = add(add(itL, I(2)), w1)
            elif opn in RUN or opn is None:
                # what is left when the others were excluded
                if opn is None:
                    left = [c for c in (ARRAY, CONT, END, DATA) if c is not None and not no(facts, sub(w0, I(c)), solve(facts))]
                    if left:
                        ctx.bad(wh, what, 'a path takes any instruction for a plain run')
                        continue
                consumed = [('run', op, w1)]
                after = add(itL, I(2))
            else:
                ctx.bad(wh, what, 'an unknown instruction is taken for one')
                continue
            if opn != END:
                a1, a2 = subst(itpost, m), subst(after, m)
                if not ctx.check(a1 == a2 or strip_rd(a1) == strip_rd(a2), wh, 'the next instruction is the one after', 'another one is looked at: %s' % show(sub(itpost, after))):
                    continue
            l0 = [rdz(x) for x in norm(pre + consumed, m, False)]
            r0 = [rdz(x) for x in norm(wr + post, m, False)]
            if datas and opn != END:
                pr = [x for x in post if x[0] == 'run' and subst(x[2], m) != ZERO]
                pd = [x for x in norm(post, m, False) if x[0] == 'data']
                if pr and pd:
                    ctx.bad(wh, what, 'a run and bytes are kept at the same time, and which came first is lost')
                    continue
            if same(l0, r0):
                ctx.ok(wh, what); n_ok += 1
                continue
            fl = flag(facts)
            l1 = [rdz(x) for x in norm(pre + consumed, m, True)]
            r1 = [rdz(x) for x in norm(wr + post, m, True)]
            if not init and fl and forget(l1) == forget(r1):
                # runs of different kinds were merged: into copies, because the caller asked for it
                ks = [x[1] for x in r1 if x[0] == 'run']
                if all(k == I(OPS['MEMCPY']) for k in ks):
                    merged_by.add(frozenset(fl))
                    ctx.ok(wh, what); n_ok += 1
                else:
                    ctx.bad(wh, what, 'skipped bytes and copied ones are merged into something else than a copy')
                continue
            if not init and forget(l1) == forget(r1):
                ctx.bad(wh, what, 'skipped bytes and copied ones are merged on a path where the caller did not ask for it')
                continue
            if os.environ.get('DBG'): print('DBG', l0, '\n   ', r0, '\n   ', [(show(a[1]),v) for a,v in facts.items()], which, dsz, '\n  ', m)
            ctx.bad(wh, what, '%s becomes %s' % (text(l0), text(r0)))
    # what is left at the end
    tr = None
    for o, r, le in tails:
        if le is None:
            continue
        wh = ctx.where(f)
        facts = o.facts
        if le.k == 'loop0':
            m = solve(facts)
            ini = {loc: le.d['init'][s] for s, loc in le.d['symloc'].items()}
            X = {loc: ini[loc] for loc in ini}
        else:
            X = {loc: ('X',) + s[1:] for s, loc in symloc.items()}
        if r.why:
            ctx.unk(wh, what, r.why)
            continue
        xs = [X.get(('fld', d, W.SIZE)) for d in datas]
        m = solve(facts)
        wr, why = written(r, m)
        if wr is None:
            ctx.bad(wh, what, why)
            continue
        if cloc not in X:
            continue
        kx = X.get(kloc) if kloc in L else kloc
        done = False
        for which in (('run', 'data') if datas else ('run',)):
            f2 = dict(facts)
            z = [X[cloc]] if which == 'data' else [x for x in xs if x is not None]
            if any(no(facts, y, m) for y in z):
                continue
            for y in z:
                f2[('eq', y)] = True
            m2 = solve(f2)
            pend_ = [('run', kx, X[cloc])]
            for d in datas:
                pend_.append(('data', [('pre', d)] if which == 'data' and not is_zero(X.get(('fld', d, W.SIZE)), m2) else []))
            l0 = [rdz(x) for x in norm(pend_, m2, False, X)]
            r0 = [rdz(x) for x in norm([s if s[0] != 'data' or which == 'data' else ('data', []) for s in wr], m2, False, X)]
            if same(l0, r0):
                ctx.ok(wh, 'what is left at the end is written')
                continue
            fl = flag(facts)
            if len(l0) == 1 and l0[0][0] == 'run' and fl and not r0:
                k = l0[0][1]
                if init or k == I(OPS['SKIP']):
                    trailed_by.add(frozenset(fl))
                    ctx.ok(wh, 'what is left at the end is written')
                    continue
                ctx.bad(wh, 'what is left at the end is written', 'a path leaves out a run that is not known to be skipped')
                continue
            if len(l0) == 1 and len(r0) == 1 and l0[0][0] == r0[0][0] == 'run' and l0[0][1] == r0[0][1] and fl:
                d = sub(l0[0][2], r0[0][2])
                loc = next((loc for loc, x in X.items() if x == d), None)
                if loc is not None:
                    tr = loc
                    trailed_by.add(frozenset(fl))
                    ctx.ok(wh, 'what is left at the end is written')
                    continue
            if len(l0) == 1 and len(r0) == 1 and l0[0][0] == r0[0][0] == 'run' and l0[0][1] == r0[0][1]:
                d = sub(l0[0][2], r0[0][2])
                if any(x == d for x in X.values()):
                    ctx.bad(wh, 'what is left at the end is written', 'the last bytes are left out on a path where the caller did not ask for it')
                    continue
            if os.environ.get('DBG'): print('DBG', l0, '\n   ', r0, '\n   ', [(show(a[1]),v) for a,v in facts.items()], which, X, le.k)
            ctx.bad(wh, 'what is left at the end is written', '%s becomes %s' % (text(l0), text(r0)))
    # the bytes that may be left out at the end are the skipped ones
    if tr is not None:
        w1 = ('rd', deref(add(itL, I(1))), 0)
        for i, r in rounds:
            if i.kind != 'continue':
                continue
            m = solve(i.facts)
            w0 = next((t for a in i.facts if a[0] == 'eq' for t, k in lin_parts(a[1])[1] if t[0] == 'rd' and t[1] == deref(itL)), ('rd', deref(itL), 0))
            op = subst(w0, m)
            v = subst(i.st.heap.get(tr, L[tr]), m)
            line = next((e.line for e in reversed(i.events) if e.k in ('word', 'store', 'wresize') and e.line), loop.line)
            wh = ctx.where(f, line)
            what2 = 'only skipped bytes count as left out at the end'
            if v == ZERO:
                ctx.ok(wh, what2)
            elif op == I(OPS['SKIP']):
                ctx.check(rdt(v) == rdt(subst(add(L[tr], w1), m)) or rdt(v) == rdt(subst(w1, m)), wh, what2, 'after a skip, %s count' % show(v))
            else:
                ctx.bad(wh, what2, 'after an instruction that is not a skip, they still do')
        ini = loop.d['init'].get(L[tr])
        if ini is not None:
            ctx.check(ini == ZERO, wh0, 'only skipped bytes count as left out at the end', 'they do before the first instruction')
    for a in merged_by:
        for b in trailed_by:
            if len(a) == len(b) == 1:
                ctx.check(a != b, wh0, 'merging and leaving out are asked for separately', 'the same option does both')
    ini = loop.d['init'].get(L[cloc])
    if ini is not None:
        ctx.check(ini == ZERO, wh0, 'nothing is pending before the first instruction', 'it starts with %s' % show(ini))
    pt.merge = {x for a in merged_by if len(a) == 1 for x in a}
    pt.trail = {x for a in trailed_by if len(a) == 1 for x in a}
    # options of the blocks inside
    for i, r in rounds:
        for e in i.events:
            if e.k != 'block':
                continue
            for n, p in enumerate(f['params']):
                s = ('sym', p['n'])
                if s in pt.merge:
                    v = e.d['args'][n]
                    ctx.check(v in (s, ZERO), ctx.where(f, e.line), 'the contents of a block are merged as the caller asked', 'another option is given')


def is_zero(t, m):
    return t is not None and (subst(t, m) == ZERO or t[0] == 'fldv' and t[1][:1] == ('empty',))


def rdt(t):
    """reads of the same word at different times are the same: nothing writes the layout that is read"""
    if isinstance(t, tuple):
        if t[:1] == ('rd',) and len(t) == 3:
            return ('rd', rdt(t[1]), 0)
        if t[:1] == ('L',) and len(t) == 3 and t[2][:1] == ('elt',):
            return ('rd', rdt(t[2]), 0)
        if t[:1] == ('lin',):
            r = I(t[1])
            for x, k in t[2]:
                r = add(r, scale(rdt(x), k))
            return r
        if t[:1] == ('mul',):
            return ('mul', tuple(sorted((rdt(x) for x in t[1]), key=repr)))
        return tuple(rdt(x) for x in t)
    return t


strip_rd = rdt


def rdz(s):
    if s[0] == 'data':
        return ('data', [rdt(q) for q in s[1]])
    return tuple(rdt(x) if isinstance(x, tuple) else x for x in s)


def same(a, b):
    return a == b


def forget(segs):
    return [('run', s[2]) if s[0] == 'run' else s for s in segs]


def text(segs):
    r = []
    for s in segs:
        if s[0] == 'run':
            r.append('%s x %s' % (show(s[1]), show(s[2])))
        elif s[0] == 'data':
            r.append('bytes %s' % '+'.join('kept' if q[0] == 'pre' else show(q[2]) for q in s[1]))
        else:
            r.append('block of %s' % show(s[2]))
    return ('{%s}' % ', '.join(r))[:200] if r else 'nothing'


def tops(ctx, done, rec):
    """the functions that merge a whole layout"""
    P = ctx.P
    OPS = opcodes(ctx)
    keys = {f['key']: (kind, pt) for f, kind, pt in done}
    blocks = rec - set(keys)
    heads = [g for k, g in P.functions.items() if 'body' in g and k not in rec and any(x['k'] == 'call' and x.get('fn') in rec for x in walk_ast(g['body']))]
    api = [g for g in P.functions.values() if g['qn'] == 'Typelib::layout_of' and 'body' in g]
    ctx.need(heads, 'nothing merges a whole layout')
    for g in heads + api:
        pt = Paths(ctx, g, set(keys))
        wh = ctx.where(g)
        rets = [o for o in pt.outs if o.kind == 'return']
        for o in rets:
            m = solve(o.facts)
            bs = [e for e in o.events if e.k == 'block']
            for b in bs:
                kind, sp = keys[b.d['callee']]
                a = [b.d['args'][i] for i in sp.cur[:2]]
                ok = a[0][:2] == ('pure', '#begin') and len(a) > 1 and a[1] == ('pure', '#end') + a[0][2:] and a[0][2][1][0] == 'fld' and a[0][2][1][2] == kind
                w2 = ctx.where(g, b.line) if b.fn == g['qn'] else wh
                if not ctx.check(ok, w2, 'a whole layout is merged', 'the words from %s to %s are' % (show(a[0]), show(a[1]) if len(a) > 1 else '?')):
                    continue
                ctx.check(subst(sub(b.d['j'], a[1]), m) == ZERO, w2, 'merging that ends too early is an error', 'a path goes on without looking where it ended')
                vec = ('fld', b.d['target'], kind)
                k = o.events.index(b)
                for e in o.events[k + 1:]:
                    if e.k not in ('word', 'wins', 'unword', 'wresize', 'wclear') or e.d.get('vec') != vec:
                        continue
                    if e.k == 'wclear' and kind == 'init_ops':
                        one_ = subst(b.d['size'][kind], m) == I(2) and any(v == I(OPS['INIT_SKIP']) for t, v in m.items() if t[0] in ('rd', 'elem', 'L', 'pure', 'elt') or 'elem' in str(t[0]))
                        ctx.check(one_, w2, 'only initialisation instructions that do nothing are dropped', 'a path drops them without knowing that they are one skip')
                    else:
                        ctx.unk(w2, 'the merged instructions are passed on', 'they are changed afterwards')
                if g in api:
                    for i, p in enumerate(P.functions[b.d['callee']]['params']):
                        s = ('sym', p['n'])
                        for want, n, t in ((sp.merge, 3, 'merging skips into copies'), (sp.trail, 4, 'leaving out what is skipped at the end')):
                            if s in want and kind == 'ops' and len(g['params']) > 4:
                                ctx.check(b.d['args'][i] == ('sym', g['params'][n]['n']), wh, '%s is done when the caller asks for it' % t, 'another option decides')
            if g in api:
                got = {keys[b.d['callee']][0]: b for b in bs}
                for kind in ('ops', 'init_ops'):
                    v = o.val
                    if kind not in got:
                        ctx.bad(wh, 'the %s are passed on merged' % kind, 'a path does not merge them')
                        continue
                    n = '#%s%s' % (kind, got[kind].d['j'][1][2:])
                    dropped = any(e.k == 'wclear' and e.d['vec'] == ('fld', got[kind].d['target'], kind) for e in o.events)
                    if v is None or v[0] not in ('struct', 'make', 'rd'):
                        ctx.unk(wh, 'the %s are passed on merged' % kind, 'the result was not recognised')
                    elif v[0] == 'struct':
                        f = dict((x[0], x[1]) for x in v[1] if isinstance(x, tuple) and len(x) == 2)
                        r = f.get(kind)
                        ctx.check(r == ('sym', n), wh, 'the %s are passed on merged' % kind, 'others are: %s' % (show(r) if r is not None else None))


def skipping(ctx):
    """a function from a position in the instructions to the end of the block it is in"""
    ctx.rule = 'stepping over a block'
    P = ctx.P
    OPS = opcodes(ctx)
    cand = [f for f in P.functions.values() if 'body' in f and f.get('cls') == ML and len(curs(ctx, f)) == 2 and len(f['params']) == 2 and is_cur(ctx, f['ret'])]
    ctx.need(cand, 'the function that steps over a block was not found')
    for f in cand:
        outs = ctx.run(f, merge=False)
        wh0 = ctx.where(f)
        what = 'stepping over a block ends at its end'
        loops = {}
        for e, o, ls in eventsof(outs, ('loop',)):
            if not ls:
                loops.setdefault(e.d['id'], e)
        if len(loops) != 1:
            ctx.unk(wh0, what, 'the loop over the instructions was not recognised')
            continue
        loop = list(loops.values())[0]
        symloc = loop.d['symloc']
        it = [s for s, l in symloc.items() if loop.d['init'].get(s) == ('sym', f['params'][0]['n'])]
        nest = [s for s, l in symloc.items() if l[0] == 'var' and s not in it]
        if len(it) != 1 or len(nest) != 1:
            ctx.unk(wh0, what, 'the depth was not recognised')
            continue
        it, nest = it[0], nest[0]
        n0 = loop.d['init'][nest]
        seen = set()
        for i in loop.iters:
            if i.kind == 'throw':
                continue
            m = solve(i.facts)
            op = [subst(t, m) for a in i.facts if a[0] == 'eq' for t, k in lin_parts(rdt(a[1]))[1] if t[0] == 'rd' and t[1] == deref(it)]
            op = next((x[1] for x in op if x[0] == 'int'), None)
            line = next((e.line for e in reversed(i.events) if e.k == 'store' and e.line), loop.line)
            wh = ctx.where(f, line)
            pos = rdt(i.st.heap.get(symloc[it], it))
            lev = rdt(i.st.heap.get(symloc[nest], nest))
            if op is None:
                continue
            seen.add(op)
            if op == OPS['END']:
                z = subst(sub(nest, n0), m)
                if z == ZERO:
                    ctx.check(i.kind == 'return' and i.val == it, wh, what, 'the end of the block itself is stepped over' if i.kind != 'return' else 'another position is returned')
                elif no(i.facts, sub(nest, n0), m):
                    ctx.check(i.kind == 'continue' and sub(pos, it) == I(1) and sub(lev, nest) == I(-1), wh, what, 'the end of a block inside it is not taken for one')
                else:
                    ctx.bad(wh, what, 'the end of a block inside it is taken for its own')
            elif op in (OPS['ARRAY'], OPS['CONTAINER']):
                ctx.check(i.kind == 'continue' and sub(pos, it) == I(2) and sub(lev, nest) == I(1), wh, what, 'a block inside it is not stepped into with its operand')
            elif op in (OPS['MEMCPY'], OPS['SKIP']):
                ctx.check(i.kind == 'continue' and sub(pos, it) == I(2) and sub(lev, nest) == ZERO, wh, what, 'the operand of a plain instruction is taken for an instruction')
        for n in ('END', 'ARRAY', 'CONTAINER', 'MEMCPY', 'SKIP'):
            ctx.check(OPS[n] in seen, wh0, what, 'FLAG_%s is not told apart' % n)
        for o in outs:
            if o.kind == 'return' and not has_sub(o.val or (), lambda y: y == it):
                ctx.check(o.val == ('sym', f['params'][1]['n']) or any(x.k == 'loop0' for x in o.events) and True or subst(sub(o.val, ('sym', f['params'][1]['n'])), solve(o.facts)) == ZERO, wh0, 'a block without an end ends where the instructions do', 'another position is returned')
