"""Layout interpreters: functions that walk a compiled memory layout (two iterators over size_t words)."""
from core import *

CUR = '__normal_iterator<const unsigned long'
OPN = {0: 'MEMCPY', 1: 'ARRAY', 2: 'CONTAINER', 3: 'SKIP', 4: 'END'}
IOPN = {0: 'INIT', 1: 'INIT_REPEAT', 2: 'INIT_CONTAINER', 3: 'INIT_SKIP', 4: 'END'}
OTHER = 77


def opcodes(ctx):
    """opcode numbers by name, from the enumeration in the source"""
    r = {}
    for e in ctx.P.enums.values():
        for c in e['consts']:
            if c['n'].startswith('FLAG_'):
                r[c['n'][5:]] = c['v']
    for n in ('MEMCPY', 'ARRAY', 'CONTAINER', 'SKIP', 'END', 'INIT', 'INIT_REPEAT', 'INIT_CONTAINER', 'INIT_SKIP'):
        ctx.need(n in r, 'opcode FLAG_%s not found' % n)
    return r


def strip(ctx, t):
    ti = ctx.P.types.get(t) or {}
    if ti.get('k') == 'ref':
        t = ti['to']
    t = t.strip()
    for p in ('const ',):
        if t.startswith(p):
            t = t[len(p):]
    if t.endswith(' const'):
        t = t[:-6]
    return t


def is_cur(ctx, t):
    return CUR in t and 'boost::tuples' not in t and 'std::tuple' not in t and 'pair' not in t


def ptype(ctx, t):
    """'cur' | 'byte*' | 'size' | 'stream' | other"""
    if is_cur(ctx, t):
        return 'cur'
    s = strip(ctx, t)
    ti = ctx.P.types.get(s) or {}
    if ti.get('k') == 'ptr':
        e = ctx.P.types.get(ti['to']) or {}
        if e.get('k') == 'int' and e.get('size') == 1 or ti['to'].replace('const ', '').strip() in ('void', 'unsigned char'):
            return 'byte*'
    if ti.get('k') == 'int' and ti.get('size') == 8:
        return 'size'
    if ti.get('k') == 'int' and s == 'bool' or s == 'bool':
        return 'bool'
    if 'Stream' in s:
        return 'stream'
    return s


def curs(ctx, f):
    return [i for i, p in enumerate(f['params']) if ptype(ctx, p['t']) == 'cur']


def callees(P, f):
    for n in walk_ast(f.get('body')):
        if n['k'] == 'call' and n.get('fn'):
            yield n
        elif n['k'] == 'ctor' and n.get('fn'):
            yield n


def interpreters(ctx, roots):
    """first functions with two cursor parameters reachable from a root"""
    res, seen, todo = [], set(), list(roots)
    while todo:
        f = todo.pop(0)
        if f['key'] in seen:
            continue
        seen.add(f['key'])
        if len(curs(ctx, f)) >= 2 and any(ptype(ctx, p['t']) in ('byte*', 'size') for p in f['params']):
            res.append(f)
            continue
        for n in callees(ctx.P, f):
            if n.get('virt'):
                continue
            g = ctx.P.functions.get(n['fn'])
            if g and 'body' in g:
                todo.append(g)
    return res


def span(b):
    return ('pure', 'span', b)


def blockend(b):
    return ('pure', 'blockend', b)


class Walker:
    """symbolic walk of one interpreter"""

    def __init__(self, ctx, f):
        self.ctx = ctx; self.f = f
        self.skips = set()
        P = ctx.P
        self.role = {}
        cs = curs(ctx, f)
        self.begin, self.end = ('sym', f['params'][cs[0]]['n']), ('sym', f['params'][cs[1]]['n'])
        self.ptrs = [('sym', p['n']) for p in f['params'] if ptype(ctx, p['t']) == 'byte*']
        self.offs = [('sym', p['n']) for p in f['params'] if ptype(ctx, p['t']) == 'size']
        self.byref = [p['n'] for p in f['params'] if (P.types.get(p['t']) or {}).get('k') == 'ref']

        def immut(en, loc, t):
            return loc[0] == 'deref' and (t or '').replace('const ', '').strip() in ('unsigned long', 'size_t', 'Typelib::MemLayout::Operations') and self.on_cursor(loc[1])

        def hook(en, st, c):
            g = P.functions.get(c.e.get('fn'))
            if g is None and not c.e.get('virt'):
                return None
            pts = [ptype(ctx, p['t']) for p in g['params']] if g else [ptype(ctx, a.get('t', '')) for a in c.e['args']]
            if pts.count('cur') < 2:
                return None
            cb = c.vals[pts.index('cur')]
            rt = c.e.get('t', '')
            st = st.copy()
            if c.e.get('virt'):
                en.ev_(st, 'call', c.e, qn=c.name, key=c.e['fn'], obj=c.obj, args=tuple(c.vals), locs=tuple(c.locs), virt=True)
                return [(st, blockend(cb))]
            if all(x == 'cur' for x in pts):
                self.skips.add(g['key'])
                en.ev_(st, 'call', c.e, qn=c.name, key=c.e['fn'], obj=c.obj, args=tuple(c.vals), locs=tuple(c.locs), virt=False, skip=True)
                return [(st, blockend(cb))]
            if g['key'] != f['key'] and g['key'] not in en.stack:
                return None
            en.ev_(st, 'call', c.e, qn=c.name, key=c.e['fn'], obj=c.obj, args=tuple(c.vals), locs=tuple(c.locs), virt=False, rec=True, begin=cb)
            s = span(cb)
            first = True
            for i, p in enumerate(g['params']):
                if (P.types.get(p['t']) or {}).get('k') == 'ref' and c.locs[i] is not None and not (P.types.get(p['t']) or {}).get('to', '').startswith('const '):
                    if pts[i] == 'cur' and first:
                        en.store(st, c.locs[i], blockend(cb)); first = False
                    elif pts[i] in ('byte*', 'size'):
                        en.store(st, c.locs[i], add(c.vals[i], s))
            ti = P.types.get(strip(ctx, rt)) or {}
            tas = [t for t in ti.get('targs', []) if isinstance(t, str) and 'null_type' not in t] or [rt]
            vals = []
            ptrs = [v for v, k in zip(c.vals, pts) if k == 'byte*']
            offs = [v for v, k in zip(c.vals, pts) if k == 'size']
            for t in tas:
                k = ptype(ctx, t)
                if k == 'cur':
                    vals.append(blockend(cb))
                elif k == 'byte*' and ptrs:
                    vals.append(add(ptrs.pop(0), s))
                elif k == 'size':
                    vals.append(add(offs.pop(0), s) if offs else s)
                elif k == 'bool':
                    vals.append(('pure', 'equal') + tuple(v for v, k in zip(c.vals, pts) if k == 'byte*') + (cb,))
                else:
                    vals.append(('unk', 'rec'))
            if len(tas) == 1 and tas[0] == rt:
                return [(st, vals[0])]
            return [(st, ('tuple', tuple(vals)))]

        try:
            self.outs = ctx.run(f, immut=immut, hook=hook, may_throw=None)
        except Overflow:
            self.outs = None
            return
        self.find_loop()

    def on_cursor(self, p):
        return True

    def find_loop(self):
        self.loop = None
        for e in loops_of(self.outs):
            if any(v == self.begin for v in e.init.values()):
                # the outermost loop whose cursor starts at begin
                if self.loop is None:
                    self.loop = e
        if self.loop is None:
            return
        L = self.loop
        self.cur = [s for s, v in L.init.items() if v == self.begin][0]
        for o in L.iters + []:
            pass
        # position expressions
        self.pos = []
        inv = {v: s for s, v in L.init.items()}
        if self.offs and len(self.ptrs) == 1:
            tot = add(self.ptrs[0], self.offs[0])
            if tot in inv:
                self.pos = [inv[tot]]
            elif self.offs[0] in inv:
                self.pos = [add(self.ptrs[0], inv[self.offs[0]])]
            elif self.ptrs[0] in inv:
                self.pos = [add(inv[self.ptrs[0]], self.offs[0])]
        elif self.ptrs:
            self.pos = [inv.get(p) for p in self.ptrs]
            if None in self.pos:
                self.pos = []
        elif self.offs:
            self.pos = [inv.get(p) for p in self.offs]
            if None in self.pos:
                self.pos = []

    def final(self, o, expr):
        """value of a head expression at the end of an iteration"""
        m = {s: o.st.heap.get(l, ('?',)) for s, l in self.loop.symloc.items()}
        return subst(expr, m)

    def op(self):
        return None

    def relevant(self, o, k):
        """can this path be taken when the instruction under the cursor is k?"""
        rd = self.rdterms
        return fact_ok(o.facts, {t: I(k) for t in rd})

    def word(self, i):
        return [t for t in self.words if t[1] == ('deref', add(self.cur, I(i)))]

    def collect(self):
        """the terms that read instruction words"""
        self.words = set()
        for o in self.loop.iters:
            for a in o.facts:
                self.words |= set(t for t in subterms(a) if t and t[0] == 'rd' and len(t) == 3 and t[1][0] == 'deref')
            for v in o.st.heap.values():
                self.words |= set(t for t in subterms(v) if t and t[0] == 'rd' and len(t) == 3 and t[1][0] == 'deref')
            for e in o.events:
                for v in e.d.values():
                    if isinstance(v, tuple):
                        self.words |= set(t for t in subterms(v) if t and t[0] == 'rd' and len(t) == 3 and t[1][0] == 'deref')
        self.rdterms = set(self.word(0))
        w1 = self.word(1)
        self.op1 = w1[0] if len(w1) == 1 else None
        return bool(self.rdterms)
