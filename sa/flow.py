"""Abstract interpreter over the extracted program (value-numbering dataflow, no solver).

Functions are interpreted over symbolic values (hash-consed terms; integers and pointers are linear
forms over opaque symbols), with helpers of the repository inlined at their resolved call sites.
Branches partition the abstract state by a canonical condition; loops are summarised by ONE generic
iteration over havocked loop variables, from which linear induction variables and loop-invariant
assignments give the exit state (zero iterations / one or more).  The result of a function is a set
of abstract paths, each with the facts it rests on and its effects in order.  The rules only look at
those results, so temporaries, helper extraction, if/switch, loop form, and order of independent
statements do not matter.
"""
import sys
sys.setrecursionlimit(20000)

_sq = {}


def sq(qn):
    """qualified name without template arguments"""
    r = _sq.get(qn)
    if r is None:
        out, d = [], 0
        i = 0
        while i < len(qn):
            c = qn[i]
            if c == '<' and not qn[:i].endswith('operator') and not qn[:i].endswith('operator<'):
                d += 1
            elif c == '>' and d > 0:
                d -= 1
            elif d == 0:
                out.append(c)
            i += 1
        r = _sq[qn] = ''.join(out)
    return r


# ---------------------------------------------------------------- terms
def I(n):
    return ('int', n)


ZERO = ('int', 0)


def lin_parts(t):
    if t[0] == 'int':
        return t[1], ()
    if t[0] == 'lin':
        return t[1], t[2]
    return 0, ((t, 1),)


def mklin(c, parts):
    d = {}
    for t, k in parts:
        d[t] = d.get(t, 0) + k
    items = tuple(sorted(((t, k) for t, k in d.items() if k != 0), key=repr))
    if not items:
        return ('int', c)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return ('lin', c, items)


def add(a, b):
    ca, pa = lin_parts(a); cb, pb = lin_parts(b)
    return mklin(ca + cb, pa + pb)


def scale(a, k):
    c, p = lin_parts(a)
    return mklin(c * k, tuple((t, q * k) for t, q in p))


def sub(a, b):
    return add(a, scale(b, -1))


def mul(a, b):
    if a[0] == 'int':
        return scale(b, a[1])
    if b[0] == 'int':
        return scale(a, b[1])
    ca, pa = lin_parts(a); cb, pb = lin_parts(b)
    if len(pa) + (1 if ca else 0) + len(pb) + (1 if cb else 0) > 2:
        # distribute
        res = ZERO
        for t, k in list(pa) + ([(None, ca)] if ca else []):
            for u, j in list(pb) + ([(None, cb)] if cb else []):
                if t is None and u is None:
                    x = I(k * j)
                elif t is None:
                    x = scale(u, k * j)
                elif u is None:
                    x = scale(t, k * j)
                else:
                    x = scale(mulatom(t, u), k * j)
                res = add(res, x)
        return res
    if a[0] == 'lin' or b[0] == 'lin':
        ka = pa[0][1]; kb = pb[0][1]
        return scale(mulatom(pa[0][0], pb[0][0]), ka * kb)
    return mulatom(a, b)


def mulatom(a, b):
    fa = a[1] if a[0] == 'mul' else (a,)
    fb = b[1] if b[0] == 'mul' else (b,)
    return ('mul', tuple(sorted(fa + fb, key=repr)))


def subterms(t):
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            if not x:
                continue
            yield x
            stack.extend(x)


def has_sub(t, pred):
    return any(pred(x) for x in subterms(t))


def subst(t, m):
    """replace subterms (terms) by terms; linear forms are renormalised"""
    if t in m:
        return m[t]
    if not isinstance(t, tuple):
        return t
    if t[0] == 'lin':
        r = I(t[1])
        for x, k in t[2]:
            r = add(r, scale(subst(x, m), k))
        return r
    if t[0] == 'mul' and len(t) == 2:
        r = I(1)
        for x in t[1]:
            r = mul(r, subst(x, m))
        return r
    n = tuple(subst(x, m) if isinstance(x, tuple) else x for x in t)
    if n != t and n[0] == 'deref' and n[1][0] == 'addr':
        return n[1][1]
    if n != t and n[0] == 'addr' and n[1][0] == 'deref':
        return n[1][1]
    return n


def deref(p):
    if p[0] == 'addr':
        return p[1]
    return ('deref', p)


def addr(l):
    if l[0] == 'deref':
        return l[1]
    return ('addr', l)


def root(loc):
    while loc[0] in ('fld', 'elt'):
        loc = loc[1]
    return loc


def under(loc, pre):
    while True:
        if loc == pre:
            return True
        if loc[0] in ('fld', 'elt'):
            loc = loc[1]
        else:
            return False


# ---------------------------------------------------------------- conditions
def cnorm(t):
    """condition term -> (atom, polarity); atom ('true',) for constants"""
    k = t[0]
    if k == 'int':
        return ('true',), t[1] != 0
    if k == 'not':
        a, p = cnorm(t[1])
        return a, not p
    if k == 'cmp':
        op, a, b = t[1:]
        if op in ('==', '!='):
            # boolean compared with constant
            for x, y in ((a, b), (b, a)):
                if y[0] == 'int' and y[1] in (0, 1) and x[0] in ('cmp', 'not', 'bool'):
                    at, p = cnorm(x)
                    return at, (p == (y[1] == 1)) == (op == '==')
            if a[0] == 'addr' and b == ZERO or b[0] == 'addr' and a == ZERO:
                return ('true',), op == '!='
            d = sub(a, b)
            if d[0] == 'int':
                return ('true',), (d[1] == 0) == (op == '==')
            if d[0] == 'lin':
                if d[2][0][1] < 0:
                    d = scale(d, -1)
            return ('eq', d), op == '=='
        if op == '<':
            d = sub(a, b)
        elif op == '>':
            d = sub(b, a)
        elif op == '<=':   # a<=b == !(b<a)
            at, p = cnorm(('cmp', '<', b, a))
            return at, not p
        elif op == '>=':
            at, p = cnorm(('cmp', '<', a, b))
            return at, not p
        else:
            return ('b', t), True
        if d[0] == 'int':
            return ('true',), d[1] < 0
        c_, p_ = lin_parts(d)
        if len(p_) == 1 and p_[0][0] in UNSIGNED:
            if c_ == 0 and p_[0][1] == -1:       # 0 < u
                return ('eq', p_[0][0]), False
            if c_ == -1 and p_[0][1] == 1:       # u < 1
                return ('eq', p_[0][0]), True
        return ('lt', d), True
    if k == 'bool':
        return cnorm(t[1])
    if k == 'addr':
        return ('true',), True
    if k == 'str':
        return ('true',), True
    # truth of an integer/pointer term: != 0
    return cnorm(('cmp', '!=', t, ZERO))


def decide(facts, atom, depth=0):
    """True/False/None"""
    if atom[0] == 'true':
        return True
    if atom in facts:
        return facts[atom]
    if atom[0] in ('eq', 'lt'):
        d = atom[1]
        c, parts = lin_parts(d)
        for f, v in facts.items():
            if f[0] == 'eq':
                fc, fp = lin_parts(f[1])
                if fp == parts:
                    df = c - fc
                elif tuple((t, -k) for t, k in fp) == parts:
                    df = c + fc
                else:
                    continue
                if v:      # d == df
                    if atom[0] == 'eq':
                        return df == 0
                    return df < 0
                elif atom[0] == 'eq' and df == 0:
                    return False
            elif f[0] == 'lt':
                fc, fp = lin_parts(f[1])
                if fp == parts:
                    # f: P+fc<0 ; d = P + c
                    if v:   # P <= -fc-1 -> d <= c-fc-1
                        ub = c - fc - 1
                        if atom[0] == 'lt' and ub < 0:
                            return True
                        if atom[0] == 'eq' and ub < 0:
                            return False
                    else:   # P >= -fc -> d >= c-fc
                        lb = c - fc
                        if atom[0] == 'lt' and lb >= 0:
                            return False
                        if atom[0] == 'eq' and lb > 0:
                            return False
                elif tuple((t, -k) for t, k in fp) == parts:
                    # f: -P+fc<0 -> P > fc  ; d=P+c
                    if v:
                        lb = c + fc + 1
                        if atom[0] == 'lt' and lb >= 0:
                            return False
                        if atom[0] == 'eq' and lb > 0:
                            return False
                    else:   # -P+fc>=0 -> P<=fc -> d <= c+fc
                        ub = c + fc
                        if atom[0] == 'lt' and ub < 0:
                            return True
                        if atom[0] == 'eq' and ub < 0:
                            return False
        if atom[0] == 'lt':
            # unsigned quantities are never negative
            if c >= 0 and parts and all(k > 0 and is_unsigned(t) for t, k in parts):
                return False
            if c < 0 and parts and all(k < 0 and is_unsigned(t) for t, k in parts):
                return True
        if atom[0] == 'eq' and parts:
            if c > 0 and all(k > 0 and is_unsigned(t) for t, k in parts) or c < 0 and all(k < 0 and is_unsigned(t) for t, k in parts):
                return False
    return None


UNSIGNED = set()


def is_unsigned(t):
    return t in UNSIGNED


class Overflow(Exception):
    pass


class Ev:
    __slots__ = ('k', 'd', 'file', 'line', 'fn', 'facts')

    def __init__(self, k, d, file, line, fn, facts):
        self.k = k; self.d = d; self.file = file; self.line = line; self.fn = fn; self.facts = facts

    def __getattr__(self, n):
        try:
            return self.d[n]
        except KeyError:
            raise AttributeError(n)

    def __repr__(self):
        return '%s@%s(%s)' % (self.k, self.line, ', '.join('%s=%s' % (k, show(v) if isinstance(v, tuple) else v) for k, v in self.d.items() if k not in ('node', 'iters')))


class State:
    __slots__ = ('heap', 'facts', 'trace', 'scopes', 'n', 'ver', 'alias')

    def __init__(self):
        self.heap = {}; self.facts = {}; self.trace = None; self.scopes = (); self.n = 0; self.ver = {}; self.alias = {}

    def copy(self):
        s = State.__new__(State)
        s.heap = dict(self.heap); s.facts = dict(self.facts); s.trace = self.trace
        s.scopes = self.scopes; s.n = self.n; s.ver = dict(self.ver); s.alias = dict(self.alias)
        return s

    def events(self):
        res = []
        t = self.trace
        while t is not None:
            res.append(t[0]); t = t[1]
        res.reverse()
        return res

    def emit(self, ev):
        self.trace = (ev, self.trace)


class Out:
    """one abstract path of a function"""
    __slots__ = ('kind', 'st', 'val')

    def __init__(self, kind, st, val=None):
        self.kind = kind; self.st = st; self.val = val

    @property
    def events(self):
        return self.st.events()

    @property
    def facts(self):
        return self.st.facts

    def __repr__(self):
        return 'Out(%s, %s)' % (self.kind, show(self.val) if isinstance(self.val, tuple) else self.val)


def show(t):
    if not isinstance(t, tuple):
        return str(t)
    if not t:
        return '()'
    k = t[0]
    if k == 'int':
        return str(t[1])
    if k == 'str':
        return repr(t[1])
    if k == 'sym':
        return str(t[1])
    if k == 'lin':
        s = []
        for x, c in t[2]:
            s.append((show(x) if c == 1 else '%d*%s' % (c, show(x))))
        if t[1]:
            s.append(str(t[1]))
        return '(' + '+'.join(s) + ')'
    if k == 'mul' and len(t) == 2:
        return '*'.join(show(x) for x in t[1])
    if k == 'var':
        return str(t[1])
    if k == 'fld':
        return show(t[1]) + '.' + t[2]
    if k == 'deref':
        return '*' + show(t[1])
    if k == 'addr':
        return '&' + show(t[1])
    if k == 'rd':
        return show(t[1]) + ("'%s" % (t[2],) if t[2] else '')
    if k == 'cmp':
        return '(%s %s %s)' % (show(t[2]), t[1], show(t[3]))
    if k in ('eq', 'lt'):
        return '(%s %s 0)' % (show(t[1]), '==' if k == 'eq' else '<')
    if k == 'pure':
        return sq(t[1]).split('::')[-1] + '(' + ', '.join(show(x) for x in t[2:]) + ')'
    if k == 'res':
        return '%s#%s(%s)' % (sq(t[2]).split('::')[-1], t[1], ', '.join(show(x) for x in t[3:]))
    if k == 'L':
        return show(t[2]) + '_i'
    if k == 'X':
        return show(t[2]) + '_end'
    if not isinstance(k, str):
        return '(' + ', '.join(show(x) for x in t) + ')'
    return '%s(%s)' % (k, ', '.join(show(x) for x in t[1:]))


# functions whose iterator-like argument behaves like a pointer
ITER_MARKS = ('__normal_iterator', '_Rb_tree_iterator', '_Rb_tree_const_iterator', '_List_iterator', '_List_const_iterator',
              '_Node_iterator', '_Bit_iterator', 'RegistryIterator@never', 'reverse_iterator@never')


class Engine:
    def __init__(self, prog, opaque=None, models=None, inline=None, max_paths=3000, max_depth=12, may_throw=None,
                 loop_iters=True, inline_virtual=False, events_deref=False, events_member=False, trust=None, immut=None, hook=None, merge=True, signs=False):
        self.merge = merge                                  # join states that differ in facts only
        self.P = prog
        self.opaque = opaque or (lambda fn: False)       # repo function not to be inlined
        self.models = models or {}                        # sq(qn) -> handler(engine, st, call) -> list[(st, val)] or None
        self.inline = inline
        self.max_paths = max_paths
        self.max_depth = max_depth
        self.may_throw = may_throw                         # call dict, qn -> bool or exception type name
        self.events_deref = events_deref
        self.signs = signs
        self.events_member = events_member
        self.hook = hook                                    # (engine, st, Call) -> [(st, val)] or None, tried before everything else
        self.immut = immut                                  # (location, type) -> memory that does not change during the run
        self.throws = []
        self.stack = []       # inlined function keys
        self.frames = {}
        self.npaths = 0
        self.inlined = set()
        self.unmodelled = set()

    # ------------------------------------------------------------ helpers
    def frame(self, parent, line, key):
        return self.frames.setdefault((parent, line, key), len(self.frames) + 1)

    def ti(self, t):
        return self.P.types.get(t) or {}

    def is_iter(self, t):
        t = self.P.strip_ref(t) if hasattr(self.P, 'strip_ref') else t
        return any(m in t for m in ITER_MARKS)

    def loc_of_type(self, t):
        ti = self.ti(t)
        if ti.get('k') == 'ref':
            ti = self.ti(ti['to'])
        return ti

    def ev_(self, st, k, node, **d):
        e = Ev(k, d, self.cur['file'], node.get('l', 0) if node else 0, self.cur['qn'], st.facts)
        e.d['node'] = node
        st.emit(e)
        return e

    def tick(self, n=1):
        self.npaths += n
        if self.npaths > self.max_paths * 60:
            raise Overflow()

    # ------------------------------------------------------------ memory
    def version(self, st, loc):
        v = st.ver.get('*', 0)
        l = loc
        parts = []
        while True:
            if l in st.ver:
                parts.append(st.ver[l])
            if l[0] in ('fld', 'elt'):
                l = l[1]
            else:
                break
        g = st.ver.get('*', 0)
        if root(loc)[0] == 'var':
            # locals are only invalidated explicitly
            g = 0
        pv = 0 if not parts else parts[0] if len(parts) == 1 else ('v',) + tuple(parts)
        return pv if not g else ('g', g, pv)

    def load(self, st, loc, t=None):
        # exact value
        if loc in st.heap:
            return st.heap[loc]
        # field of a whole-object value
        path = []
        l = loc
        while l[0] in ('fld', 'elt'):
            path.append(l)
            l = l[1]
            if l in st.heap:
                v = st.heap[l]
                for f in reversed(path):
                    v = self.field_of(st, v, f[2]) if f[0] == 'fld' else ('elem', v, f[2])
                return v
        # has any subfields set?
        fields = {}
        for h in st.heap:
            if h != loc and h[0] in ('fld', 'elt') and h[1] == loc:
                fields[h[2]] = st.heap[h]
        ver = 0 if self.immut and t is not None and self.immut(self, loc, t) else self.version(st, loc)
        base = ('rd', loc, ver)
        if t is not None:
            ti = self.loc_of_type(t)
            if ti.get('k') == 'int' and not ti.get('signed') or ti.get('k') == 'enum':
                UNSIGNED.add(base)
        if fields:
            return ('struct', tuple(sorted(fields.items(), key=repr)), base)
        return base

    def field_of(self, st, v, f):
        if v[0] == 'struct':
            for n, x in v[1]:
                if n == f:
                    return x
            return self.field_of(st, v[2], f)
        if v[0] == 'rd':
            return ('rd', ('fld', v[1], f), v[2])
        if v[0] == 'pair' and f in ('first', 'second'):
            return v[1] if f == 'first' else v[2]
        if v[0] == 'zero':
            return ZERO
        return ('fldv', v, f)

    def store(self, st, loc, val):
        for h in [h for h in st.heap if h != loc and under(h, loc)]:
            del st.heap[h]
        # a store into a field of a whole value keeps the other fields
        l = loc
        while l[0] in ('fld', 'elt'):
            l = l[1]
            if l in st.heap and l != loc:
                v = st.heap.pop(l)
                st.ver[l] = st.ver.get(l, 0)
                # expand: remember base as struct base
                # relative one level only
                if loc[0] == 'fld' and loc[1] == l:
                    fs = dict(v[1]) if v[0] == 'struct' else {}
                    fs[loc[2]] = val
                    st.heap[l] = ('struct', tuple(sorted(fs.items(), key=repr)), v[2] if v[0] == 'struct' else v)
                    return
                st.heap[l] = ('struct', (), v) if False else v
                break
        st.heap[loc] = val
        # possible aliases through symbolic pointers: a store through *p may change other *q / fields reached through pointers
        if loc[0] == 'deref' or root(loc)[0] == 'deref':
            r = root(loc)
            for h in list(st.heap):
                if h != loc and root(h)[0] == 'deref' and root(h) != r and self.may_alias(root(h), r, h, loc):
                    del st.heap[h]

    def may_alias(self, a, b, fa, fb):
        # same-field aliasing only; distinct constants offsets from the same base do not alias
        d = sub(a[1], b[1])
        if d[0] == 'int' and d[1] != 0:
            return False
        pa, pb = [], []
        while fa[0] == 'fld':
            pa.append(fa[2]); fa = fa[1]
        while fb[0] == 'fld':
            pb.append(fb[2]); fb = fb[1]
        if pa and pb:
            return pa[-1] == pb[-1]
        return False

    def havoc(self, st, loc):
        """the object at loc (and what is inside it) has an unknown new value"""
        for h in [h for h in st.heap if under(h, loc)]:
            del st.heap[h]
        l = loc
        while l[0] in ('fld', 'elt'):
            l = l[1]
            if l in st.heap:
                v = st.heap[l]
                if loc[0] == 'fld' and loc[1] == l:
                    fs = dict(v[1]) if v[0] == 'struct' else {}
                    st.n += 1
                    fs[loc[2]] = ('hv', st.n, loc)
                    st.heap[l] = ('struct', tuple(sorted(fs.items(), key=repr)), v[2] if v[0] == 'struct' else v)
                    return
                del st.heap[l]
        st.n += 1
        st.ver[loc] = st.n

    def havoc_heap(self, st):
        """everything that is not a local whose address did not escape may have changed"""
        for h in [h for h in st.heap if root(h)[0] != 'var']:
            del st.heap[h]
        st.n += 1
        st.ver['*'] = st.n

    # ------------------------------------------------------------ variables
    def varloc(self, st, fr, d, name):
        f = fr
        while f is not None:
            k = (f.id, d)
            if k in st.alias:
                return st.alias[k]
            if d in f.locals:
                return ('var', name, f.id, d)
            f = f.closure
        # variable not declared in a known frame (captured by something we did not follow)
        return ('var', name, fr.id, d)

    # ------------------------------------------------------------ conditions
    def assume(self, st, t, want):
        """-> list of states in which condition t has truth value `want` (0 or 1 states)"""
        if t[0] == 'and' or t[0] == 'or':
            raise AssertionError
        a, p = cnorm(t)
        want = want == p
        v = decide(st.facts, a)
        if v is not None:
            return st if v == want else None
        st = st.copy()
        st.facts[a] = want
        # equality with a constant propagates as substitution only through decide()
        return st

    def branch(self, st, t):
        """-> [(state, bool)]"""
        a, p = cnorm(t)
        v = decide(st.facts, a)
        if v is not None:
            return [(st, v == p)]
        s1 = st.copy(); s1.facts[a] = p
        s2 = st.copy(); s2.facts[a] = not p
        self.tick()
        return [(s1, True), (s2, False)]

    def cond(self, st, e, fr):
        """evaluate a condition with short circuit -> [(state, bool)]"""
        if e['k'] == 'bin' and e['op'] in ('&&', '||'):
            res = []
            for s, b in self.cond(st, e['a'], fr):
                if b == (e['op'] == '||'):
                    res.append((s, b))
                else:
                    res += self.cond(s, e['b'], fr)
            return res
        if e['k'] == 'un' and e['op'] == '!':
            return [(s, not b) for s, b in self.cond(st, e['a'], fr)]
        if e['k'] == 'cast' and e.get('kind') in ('IntegralToBoolean', 'PointerToBoolean', 'NoOp'):
            return self.cond(st, e['a'], fr)
        res = []
        for s, v in self.ev(st, e, fr):
            res += self.branch(s, v)
        return res

    # ------------------------------------------------------------ expressions
    def evs(self, st, es, fr):
        """evaluate a list -> [(state, [vals])]"""
        res = [(st, [])]
        for e in es:
            nxt = []
            for s, vs in res:
                for s2, v in self.ev(s, e, fr):
                    nxt.append((s2, vs + [v]))
            res = nxt
        return res

    def lv(self, st, e, fr):
        """-> [(state, location)]"""
        k = e['k']
        if k == 'ref':
            if e['dk'] in ('local', 'param', 'slocal', 'other'):
                return [(st, self.varloc(st, fr, e.get('d'), e['n']))]
            if e['dk'] == 'global':
                return [(st, ('glob', e['qn']))]
            return [(st, ('func', e.get('qn')))]
        if k == 'mem':
            res = []
            if e['arrow']:
                for s, p in self.ev(st, e['o'], fr):
                    self.deref_ev(s, p, e)
                    self.member_ev(s, p, e)
                    res.append((s, ('fld', deref(p), e['n'])))
            else:
                for s, l in self.lv(st, e['o'], fr):
                    self.member_ev(s, addr(l), e)
                    res.append((s, ('fld', l, e['n'])))
            return res
        if k == 'un' and e['op'] == '*':
            res = []
            for s, p in self.ev(st, e['a'], fr):
                self.deref_ev(s, p, e)
                res.append((s, deref(p)))
            return res
        if k == 'idx':
            res = []
            at = self.ti(e['a'].get('t', ''))
            for s, b in self.ev(st, e['a'], fr):
                for s2, i in self.ev(s, e['b'], fr):
                    p = add(b, i)
                    self.deref_ev(s2, p, e)
                    res.append((s2, deref(p)))
            return res
        if k == 'un' and e['op'] in ('++pre', '--pre'):
            return self.incdec(st, e, fr, want_loc=True)
        if k == 'asg':
            return self.assign(st, e, fr, want_loc=True)
        if k == 'cast':
            ti = self.ti(e['t'])
            if e.get('lv') or e['ck'] in ('const', 'static', 'implicit') and e['a'].get('lv'):
                res = []
                for s, l in self.lv(st, e['a'], fr):
                    if e['ck'] == 'dynamic' or e.get('kind') in ('BaseToDerived', 'Dynamic'):
                        self.ev_(s, 'cast', e, ck=e['ck'], kind=e.get('kind'), to=e['t'], frm=e.get('from'), val=addr(l))
                        if e['ck'] == 'dynamic':
                            # failing reference casts throw
                            s2 = s.copy()
                            c = ('cmp', '!=', ('pure', 'isa:' + self.P.strip(e['t']), addr(l)), ZERO)
                            a = self.assume(s, c, True); b = self.assume(s2, c, False)
                            if b is not None:
                                self.throw(b, 'std::bad_cast', e, None)
                            if a is None:
                                continue
                            s = a
                    res.append((s, l))
                return res
        if k == 'cond':
            res = []
            for s, b in self.cond(st, e['c'], fr):
                res += self.lv(s, e['a'] if b else e['b'], fr)
            return res
        if k == 'bin' and e['op'] == ',':
            res = []
            for s, _ in self.ev(st, e['a'], fr):
                res += self.lv(s, e['b'], fr)
            return res
        if k == 'this':
            return [(st, deref(fr.this))]
        if k == 'str':
            return [(st, ('strlit', e['v']))]
        if k in ('call', 'ctor', 'lambda', 'initlist', 'zeroinit', 'new', 'throw', 'bin', 'int', 'null', 'float', 'typeid', 'other', 'un', 'cast', 'stmtexpr'):
            res = []
            for s, v in self.ev(st, e, fr, want_loc=True):
                if v[0] == 'loc':
                    res.append((s, v[1]))
                else:
                    # temporary object
                    s = s.copy()
                    s.n += 1
                    l = ('var', '$t', fr.id, ('tmp', s.n))
                    s.heap[l] = v
                    self.register_tmp(s, l, e)
                    res.append((s, l))
            return res
        return [(st, ('unk', k))]

    def register_tmp(self, st, l, e):
        pass

    def member_ev(self, st, p, node):
        if self.events_member and node.get('cls'):
            self.ev_(st, 'member', node, ptr=p, cls=node['cls'], name=node.get('n') or node.get('qn', ''))

    def deref_ev(self, st, p, node):
        if self.events_deref and p[0] != 'addr':
            self.ev_(st, 'deref', node, ptr=p)

    def ev(self, st, e, fr, want_loc=False):
        """-> [(state, value)]; with want_loc a glvalue result may be returned as ('loc', location)"""
        if e is None:
            return [(st, ZERO)]
        self.tick()
        k = e['k']
        if k == 'int':
            v = e['v']
            if v < 0:
                ti = self.ti(e['t'])
                if ti.get('k') == 'int' and not ti.get('signed') and ti.get('size') == 8:
                    v += 1 << 64
            return [(st, I(v))]
        if k == 'null':
            return [(st, ZERO)]
        if k == 'str':
            return [(st, ('str', e['v']))]
        if k == 'float':
            return [(st, ('flt', e['v']))]
        if k == 'this':
            return [(st, fr.this)]
        if k in ('ref', 'mem', 'idx') or k == 'un' and e['op'] == '*':
            if k == 'ref' and e['dk'] == 'func':
                return [(st, ('func', e['qn'], e['d']))]
            if k == 'ref' and e['dk'] == 'global' and 'cv' in e:
                return [(st, self.wrap(I(e['cv']), e['t']))]
            res = []
            ti = self.ti(e['t'])
            for s, l in self.lv(st, e, fr):
                if ti.get('k') == 'arr':
                    res.append((s, addr(('fld', l, '[]'))))     # decays to pointer to first element
                else:
                    res.append((s, self.load(s, l, e['t'])))
            return res
        if k == 'un':
            op = e['op']
            if op == '&':
                return [(s, addr(l)) for s, l in self.lv(st, e['a'], fr)]
            if op == '!':
                return [(s, I(0 if b else 1)) for s, b in self.cond(st, e['a'], fr)]
            if op in ('++pre', '--pre', '++post', '--post'):
                return self.incdec(st, e, fr)
            res = []
            for s, v in self.ev(st, e['a'], fr):
                if op == '-':
                    v = scale(v, -1)
                elif op == '+':
                    pass
                elif op == '~':
                    v = self.wrap(('op', '~', v), e['t']) if v[0] != 'int' else self.wrap(I(~v[1]), e['t'])
                else:
                    v = ('op', op, v)
                res.append((s, v))
            return res
        if k == 'bin':
            return self.binop(st, e, fr)
        if k == 'asg':
            return self.assign(st, e, fr)
        if k == 'cond':
            res = []
            for s, b in self.cond(st, e['c'], fr):
                res += self.ev(s, e['a'] if b else e['b'], fr, want_loc)
            return res
        if k == 'cast':
            return self.cast(st, e, fr, want_loc)
        if k == 'call':
            return self.call(st, e, fr, want_loc)
        if k == 'ctor':
            return self.construct(st, e, fr)
        if k == 'new':
            return self.new(st, e, fr)
        if k == 'del':
            res = []
            for s, v in self.ev(st, e['a'], fr):
                s = s.copy()
                self.ev_(s, 'delete', e, ptr=v, ty=e['dty'], arr=e['arr'], dtor=e.get('dtor'))
                res += self.after_delete(s, e, v, fr)
            return res
        if k == 'throw':
            res = self.ev(st, e['a'], fr) if e['a'] else [(st, None)]
            for s, v in res:
                s = s.copy()
                t = e.get('tt') or 'rethrow'
                self.ev_(s, 'throw', e, ty=t, val=v)
                self.throw(s, t, e, v)
            return []
        if k == 'lambda':
            caps = []
            for c in e['caps']:
                if c.get('this'):
                    caps.append(('this', fr.this))
                elif c.get('byref'):
                    caps.append((c['d'], ('ref', self.varloc(st, fr, c['d'], c['n']))))
                else:
                    caps.append((c.get('d'), ('val', self.load(st, self.varloc(st, fr, c.get('d'), c.get('n'))))))
            return [(st, ('lambda', e['fn'], tuple(caps)))]
        if k == 'initlist':
            ti = self.ti(e['t'])
            res = []
            for s, vs in self.evs(st, e['a'], fr):
                res.append((s, ('ilist', tuple(vs))))
            if len(e['a']) == 1 and ti.get('k') not in ('rec', 'arr'):
                return self.ev(st, e['a'][0], fr)
            if ti.get('k') == 'rec' and ti.get('n') in self.P.records:
                fs = [f['n'] for f in self.P.records[ti['n']]['fields']]
                return [(s, ('struct', tuple(sorted(zip(fs, v[1]), key=repr)), ('zero',))) for s, v in res]
            return res
        if k == 'zeroinit':
            return [(st, ZERO if self.ti(e['t']).get('k') != 'rec' else ('zero',))]
        if k == 'typeid':
            return [(st, ('pure', 'typeid', ('str', e.get('ty', ''))))]
        if k == 'stmtexpr':
            res = []
            for o in self.stmt(st, e['s'], fr):
                res.append((o.st, ('unk', 'stmtexpr')))
            return res
        res = []
        for s, vs in self.evs(st, [x for x in e.get('kids', []) if x], fr):
            res.append((s, ('oth', e.get('cls', k)) + tuple(vs)))
        return res

    def after_delete(self, s, e, v, fr):
        return [(s, ZERO)]

    def wrap(self, v, t):
        """integer value converted to type t (constants only)"""
        ti = self.ti(t)
        if v[0] == 'int' and ti.get('k') in ('int', 'enum', 'bool') and 'size' in ti:
            if ti['k'] == 'bool':
                return I(1 if v[1] else 0)
            n = 8 * ti['size']
            x = v[1] & ((1 << n) - 1)
            if ti.get('signed') and x >> (n - 1):
                x -= 1 << n
            return I(x)
        return v

    def typed(self, v, t):
        ti = self.ti(t)
        if ti.get('k') == 'ref':
            ti = self.ti(ti['to'])
        if ti.get('k') == 'int' and not ti.get('signed') and v[0] not in ('int', 'lin'):
            UNSIGNED.add(v)
        return v

    def binop(self, st, e, fr):
        op = e['op']
        if op in ('&&', '||'):
            return [(s, I(1 if b else 0)) for s, b in self.cond(st, e, fr)]
        if op == ',':
            res = []
            for s, _ in self.ev(st, e['a'], fr):
                res += self.ev(s, e['b'], fr)
            return res
        res = []
        for s, a in self.ev(st, e['a'], fr):
            for s2, b in self.ev(s, e['b'], fr):
                res.append((s2, self.arith(op, a, b, e)))
        return res

    def arith(self, op, a, b, e):
        if op in ('==', '!=', '<', '>', '<=', '>='):
            if a == b and op in ('==', '!=', '<=', '>=') and a[0] not in ('int', 'flt') and isinstance(e.get('a'), dict) and (e['a'].get('t') or '').replace('const ', '') in ('float', 'double', 'long double'):
                # not the case of numbers that are not numbers
                return ('cmp', '!=' if op == '!=' else '==', ('pure', 'isordered', a), I(1))
            return ('cmp', op, a, b)
        if op == '+':
            if a[0] == 'flt' or b[0] == 'flt':
                return ('op', '+', a, b)
            return add(a, b)
        if op == '-':
            return sub(a, b)
        if op == '*':
            return mul(a, b)
        if a[0] == 'int' and b[0] == 'int':
            x, y = a[1], b[1]
            try:
                if op == '/': return I(int(x / y) if abs(x) < 1 << 50 else x // y)
                if op == '%': return I(x % y if x >= 0 else -((-x) % y))
                if op == '<<': return self.wrap(I(x << y), e['t'])
                if op == '>>': return I(x >> y)
                if op == '&': return I(x & y)
                if op == '|': return I(x | y)
                if op == '^': return I(x ^ y)
            except (ZeroDivisionError, ValueError):
                pass
        r = ('op', op, a, b)
        if e.get('t'):
            self.typed(r, e['t'])
        return r

    def incdec(self, st, e, fr, want_loc=False):
        res = []
        for s, l in self.lv(st, e['a'], fr):
            s = s.copy()
            v = self.load(s, l, e['a']['t'])
            n = add(v, I(1 if e['op'].startswith('++') else -1))
            self.store(s, l, n)
            self.ev_(s, 'store', e, loc=l, val=n, old=v)
            if want_loc:
                res.append((s, l))
            else:
                res.append((s, v if e['op'].endswith('post') else n))
        return res

    def assign(self, st, e, fr, want_loc=False):
        res = []
        for s, v in self.ev(st, e['b'], fr):
            for s2, l in self.lv(s, e['a'], fr):
                s2 = s2.copy()
                old = None
                if e['op'] != '=':
                    old = self.load(s2, l, e['a']['t'])
                    v2 = self.arith(e['op'][:-1], old, v, e)
                else:
                    v2 = v
                    if v2[0] == 'trunc' and v2[2][0] == 'lin':
                        # x = x + y is x += y
                        w = self.load(s2, l, e['a']['t'])
                        if w[0] not in ('int', 'lin') and dict(lin_parts(v2[2])[1]).get(w) == 1:
                            v2 = v2[2]
                if v2[0] == 'int':
                    v2 = self.wrap(v2, e['a']['t'])
                self.store(s2, l, v2)
                self.ev_(s2, 'store', e, loc=l, val=v2, old=old, op=e['op'], b=v)
                res.append((s2, l if want_loc else v2))
        return res

    def cast(self, st, e, fr, want_loc=False):
        kind = e.get('kind')
        if kind == 'ToVoid':
            return [(s, ZERO) for s, v in self.ev(st, e['a'], fr)]
        res = []
        if e.get('lv') and e['a'].get('lv'):
            r = self.lv(st, e, fr)
            if want_loc:
                return [(s, ('loc', l)) for s, l in r]
            return [(s, self.load(s, l, e['t'])) for s, l in r]
        for s, v in self.ev(st, e['a'], fr):
            if kind in ('IntegralCast',):
                f, t = self.ti(e['a'].get('t', '')), self.ti(e['t'])
                if v[0] == 'int':
                    v = self.wrap(v, e['t'])
                elif self.signs == 'bits' and t.get('k') == 'int' and f.get('k') == 'int':
                    # the exact conversion: source width, sign extension, target width
                    v = ('conv', f['size'], bool(f.get('signed')), t['size'], v)
                elif t.get('size', 8) < f.get('size', 0):
                    v = self.typed(('trunc', t.get('size'), v), e['t'])
                elif self.signs and f.get('signed') != t.get('signed') and f.get('k') == 'int' and t.get('k') == 'int' and not (t.get('signed') and t.get('size', 0) > f.get('size', 0)):
                    # the same bits read with another sign
                    v = self.typed(('op', 'unsigned' if f.get('signed') else 'signed', v), e['t'])
                else:
                    if not f.get('signed'):
                        self.typed(v, e['a']['t'])
            elif kind in ('IntegralToBoolean', 'PointerToBoolean'):
                a, p = cnorm(v)
                d = decide(s.facts, a)
                v = I(1 if d == p else 0) if d is not None else ('bool', ('cmp', '!=', v, ZERO) if v[0] not in ('cmp', 'not', 'bool') else v)
            elif kind in ('Dynamic', 'BaseToDerived') or e['ck'] in ('dynamic',):
                s = s.copy()
                self.ev_(s, 'cast', e, ck=e['ck'], kind=kind, to=e['t'], frm=e.get('from'), val=v)
                if e['ck'] == 'dynamic':
                    c = ('cmp', '!=', ('pure', 'isa:' + self.P.strip(e['t']), v), ZERO)
                    s2 = s.copy()
                    a = self.assume(s, c, True); b = self.assume(s2, c, False)
                    if a is not None:
                        res.append((a, v))
                    if b is not None:
                        res.append((b, ZERO))
                    continue
            elif e['ck'] in ('reinterpret', 'c') and kind not in ('NoOp',):
                s = s.copy()
                self.ev_(s, 'cast', e, ck=e['ck'], kind=kind, to=e['t'], frm=e.get('from'), val=v)
            res.append((s, v))
        return res

    def new(self, st, e, fr):
        res = []
        sz = [(st, None)]
        if e.get('size'):
            sz = self.ev(st, e['size'], fr)
        for s, n in sz:
            pls = [(s, [])]
            if e.get('placement'):
                pls = self.evs(s, e['placement'], fr)
            for s1, pl in pls:
                vals = [(s1, None)]
                if e.get('init'):
                    if e['init']['k'] == 'ctor':
                        # evaluated below on the object itself
                        vals = [(s1, e['init'])]
                    else:
                        vals = self.ev(s1, e['init'], fr)
                for s2, iv in vals:
                    s2 = s2.copy()
                    s2.n += 1
                    p = ('new', s2.n, e['ty']) if not pl else pl[0]
                    if isinstance(iv, dict):
                        rs = self.construct(s2, iv, fr, this=p, newexpr=True)
                    else:
                        rs = [(s2, iv)]
                    for s3, v in rs:
                        s3 = s3.copy()
                        self.ev_(s3, 'new', e, ptr=p, ty=e['ty'], size=n, init=v if isinstance(v, tuple) else None, placement=tuple(pl))
                        s3.facts[('eq', p)] = False
                        res.append((s3, p))
        return res

    # ------------------------------------------------------------ calls
    def throw(self, st, ty, node, val):
        self.throws.append((st, ty, val))

    def argvals(self, st, args, pm, fr):
        """-> [(state, [values], [locs])]: by-reference arguments also get their location"""
        res = [(st, [], [])]
        for i, a in enumerate(args):
            mode = pm[i] if i < len(pm) else 'v'
            nxt = []
            for s, vs, ls in res:
                if mode in 'rcm' and (a.get('lv') or a['k'] in ('ref', 'mem', 'idx')):
                    for s2, l in self.lv(s, a, fr):
                        ti = self.ti(a['t'])
                        nxt.append((s2, vs + [addr(('fld', l, '[]')) if ti.get('k') == 'arr' else self.load(s2, l, a['t'])], ls + [l]))
                else:
                    for s2, v in self.ev(s, a, fr):
                        nxt.append((s2, vs + [v], ls + [None]))
            res = nxt
        return res

    def call(self, st, e, fr, want_loc=False):
        qn = e.get('qn')
        if qn is None:
            # indirect call
            res = []
            for s, c in self.ev(st, e['callee'], fr):
                for s2, vs, ls in self.argvals(s, e['args'], 'v' * len(e['args']), fr):
                    if c[0] == 'func' and len(c) > 2:
                        res += self.finish_call(s2, dict(e, qn=c[1], fn=c[2], pm=e.get('pm', 'v' * len(e['args']))), fr, None, None, vs, ls, want_loc)
                    else:
                        s2 = s2.copy()
                        s2.n += 1
                        r = ('res', s2.n, 'indirect', c) + tuple(vs)
                        t = self.may_throw(e, 'indirect') if self.may_throw else None
                        if t:
                            s3 = s2.copy()
                            self.ev_(s3, 'callthrow', e, qn='indirect', key=None, obj=c, args=tuple(vs), locs=tuple(ls))
                            self.havoc_heap(s3)
                            self.throw(s3, t if isinstance(t, str) else '?', e, None)
                        self.ev_(s2, 'call', e, qn='indirect', key=None, obj=c, args=tuple(vs), locs=tuple(ls), res=r, virt=False)
                        self.havoc_heap(s2)
                        if e.get('lv'):
                            res.append((s2, ('loc', ('deref', ('refto', r))) if want_loc else self.load(s2, ('deref', ('refto', r)), e['t'])))
                        else:
                            res.append((s2, r))
            return res
        res = []
        objs = [(st, None, None)]
        if e.get('obj') is not None:
            objs = []
            o = e['obj']
            if e.get('arrow'):
                for s, v in self.ev(st, o, fr):
                    self.deref_ev(s, v, e)
                    objs.append((s, v, deref(v)))
            elif o['k'] == 'call' and o.get('n') == 'tie':
                for s, v in self.ev(st, o, fr):
                    objs.append((s, v, None))
            else:
                for s, l in self.lv(st, o, fr):
                    objs.append((s, addr(l), l))
        for s, o, ol in objs:
            if o is not None:
                self.member_ev(s, o, e)
            for s2, vs, ls in self.argvals(s, e['args'], e.get('pm', ''), fr):
                res += self.finish_call(s2, e, fr, o, ol, vs, ls, want_loc)
        return res

    def finish_call(self, st, e, fr, o, ol, vs, ls, want_loc):
        """o: pointer to object, ol: its location"""
        qn = e['qn']; name = sq(qn)
        if self.hook:
            r = self.hook(self, st, Call(e, fr, o, ol, vs, ls, want_loc, name))
            if r is not None:
                return r
        m = self.models.get(name) or MODELS.get(name)
        if m is None:
            last = name.rsplit('::', 1)[-1]
            m = SUFFIX.get(last)
        if m is not None:
            c = Call(e, fr, o, ol, vs, ls, want_loc, name)
            r = m(self, st, c)
            if r is not None:
                return r
        key = e.get('fn')
        f = self.P.functions.get(key)
        if e.get('virt'):
            key2 = self.devirt(st, e, o)
            if key2:
                f = self.P.functions.get(key2)
                if f: key = key2
            else:
                f = None
        if f is not None and 'body' in f and not self.opaque(f) and key not in self.stack and len(self.stack) < self.max_depth \
                and (self.inline is None or self.inline(f)):
            return self.run_inline(st, f, e, fr, o, vs, ls, want_loc)
        return self.opaque_call(st, e, fr, o, ol, vs, ls, want_loc)

    def devirt(self, st, e, o):
        """statically known dynamic type of the object"""
        if o is not None:
            t = None
            if o[0] == 'new':
                t = o[2]
            elif o[0] == 'addr' and o[1][0] == 'var':
                t = st.heap.get(('dyntype', o[1]))
            if t:
                n = self.ti(t).get('n', t)
                return self.lookup_virtual(n, e['fn'])
        return None

    def lookup_virtual(self, cls, key):
        """final overrider of method key in class cls"""
        todo = [cls]
        fam = self.P.all_overriders(key) | {key}
        while todo:
            c = todo.pop(0)
            r = self.P.records.get(c)
            if not r:
                continue
            for m in r['methods']:
                if m['key'] in fam:
                    return m['key']
            todo += [b['n'] for b in r['bases']]
        return None

    def opaque_call(self, st, e, fr, o, ol, vs, ls, want_loc):
        st = st.copy()
        qn = e['qn']
        pure = e.get('cm') or self.is_pure(e)
        mode = e.get('pm', '')
        args = tuple(vs)
        # what an unmodelled const member call or a call on values only returns is a function of its arguments
        rti = self.ti(e['t'])
        if pure:
            ov = ()
            if ol is not None:
                ov = (('ptr', o, self.objver(st, ol)),) if not self.valueobj(st, ol) else (self.load(st, ol),)
            elif o is not None:
                ov = (o,)
            r = ('pure', qn) + ov + args
        else:
            st.n += 1
            r = ('res', st.n, qn) + ((o,) if o is not None else ()) + args
        self.typed(r, e['t'])
        if self.may_throw:
            t = self.may_throw(e, qn)
            if t:
                s2 = st.copy()
                self.ev_(s2, 'callthrow', e, qn=qn, key=e.get('fn'), obj=o, args=args, locs=tuple(ls))
                self.effects_of(s2, e, pure, ol, ls, vs, mode)
                self.throw(s2, t if isinstance(t, str) else '?', e, None)
        ev = self.ev_(st, 'call', e, qn=qn, key=e.get('fn'), obj=o, args=args, locs=tuple(ls), res=r, virt=bool(e.get('virt')))
        if e.get('noreturn'):
            ev.d['noreturn'] = True
            self.throw(st, 'noreturn', e, None)
            return []
        self.effects_of(st, e, pure, ol, ls, vs, mode)
        if e.get('lv') and want_loc:
            return [(st, ('loc', ('deref', ('refto', r))))]
        if e.get('lv'):
            return [(st, self.load(st, ('deref', ('refto', r)), e['t']))]
        return [(st, r)]

    def effects_of(self, st, e, pure, ol, ls, vs, mode):
        if not pure:
            if ol is not None:
                self.havoc(st, ol)
        for i, l in enumerate(ls):
            if l is not None and i < len(mode) and mode[i] in 'rm':
                self.havoc(st, l)
            elif l is None and i < len(mode) and mode[i] == 'p' and vs[i][0] == 'addr':
                self.havoc(st, vs[i][1])
        for i, v in enumerate(vs):
            if i < len(mode) and mode[i] == 'p' and v[0] == 'addr':
                self.havoc(st, v[1])
            elif i < len(mode) and mode[i] == 'p' and not pure:
                self.havoc(st, deref(v))
        if not pure and e.get('repo'):
            # a repository function that is not followed may change anything reachable except unescaped locals
            self.havoc_heap(st)

    def is_pure(self, e):
        return sq(e['qn']) in PURE

    def valueobj(self, st, ol):
        return ol in st.heap

    def objver(self, st, ol):
        # fold in any explicitly known sub-state so that equal terms mean equal state
        v = self.version(st, ol)
        subs = tuple(sorted(((h, x) for h, x in st.heap.items() if h != ol and under(h, ol)), key=repr))
        return (v, subs) if subs else v

    def run_inline(self, st, f, e, fr, o, vs, ls, want_loc, ctor=False):
        self.inlined.add(f['key'])
        fid = self.frame(fr.id, (e.get('l', 0), id(e) if False else e.get('l', 0), len(self.stack)), f['key'])
        nf = Frame(fid, f)
        nf.this = o if o is not None else ZERO
        st = st.copy()
        # a repeated activation of the same call site starts from a clean frame
        for h in [h for h in st.heap if isinstance(root(h), tuple) and root(h)[0] == 'var' and root(h)[2] == fid]:
            pass
        for i, p in enumerate(f['params']):
            nf.locals.add(p['d'])
            t = self.ti(p['t'])
            loc = ('var', p['n'] or '$p%d' % i, fid, p['d'])
            v = vs[i] if i < len(vs) else ('unk', 'arg')
            l = ls[i] if i < len(ls) else None
            if t.get('k') == 'ref' and l is not None:
                st.alias[(fid, p['d'])] = l
            else:
                st.alias.pop((fid, p['d']), None)
                self.purge(st, loc)
                st.heap[loc] = v
        outs = self.body(st, f, nf)
        res = []
        ret_ref = self.ti(f['ret']).get('k') == 'ref'
        for x in outs:
            s = x.st
            v = x.val if x.val is not None else ZERO
            if v[0] == 'loc':
                if want_loc:
                    res.append((s, v))
                else:
                    res.append((s, self.load(s, v[1], e.get('t'))))
            else:
                res.append((s, v))
            # forget the locals of the frame
        for s, v in res:
            self.purge_frame(s, fid, v)
        return res

    def purge(self, st, loc):
        for h in [h for h in st.heap if under(h, loc)]:
            del st.heap[h]

    def purge_frame(self, st, fid, keep):
        if keep and keep[0] == 'loc' and root(keep[1])[0] == 'var':
            return
        if keep and keep[0] in ('addr', 'struct', 'lambda', 'tuple', 'ilist'):
            return
        dead = [h for h in st.heap if h[0] != 'dyntype' and root(h)[0] == 'var' and root(h)[2] == fid and not (isinstance(root(h)[3], tuple))]
        for h in dead:
            del st.heap[h]

    def construct(self, st, e, fr, this=None, newexpr=False):
        """value of a constructed object; repository constructors are inlined"""
        res = []
        for s, vs, ls in self.argvals(st, e['args'], e.get('pm', ''), fr):
            res += self.construct_with(s, e, fr, vs, ls, this)
        return res

    def construct_with(self, st, e, fr, vs, ls, this=None):
        qn = e['qn']
        ti = self.ti(e['ty'])
        cls = ti.get('n', e['ty'])
        if (e.get('copy') or e.get('move')) and len(vs) >= 1:
            f = self.P.functions.get(e['fn'])
            if f is None or f.get('implicit') or e.get('elide') or 'body' not in f or self.opaque(f):
                if this is not None:
                    st = st.copy(); self.store(st, deref(this), vs[0])
                return [(st, vs[0])]
        name = sq(qn)
        m = self.models.get(name) or CTORS.get(sq(cls))
        if m is not None:
            c = Call(e, fr, this, deref(this) if this else None, vs, ls, False, name)
            r = m(self, st, c)
            if r is not None:
                if this is not None:
                    for s, v in r:
                        self.store(s, deref(this), v)
                return r
        if self.is_iter(cls) and len(vs) == 1:
            return [(st, vs[0])]
        f = self.P.functions.get(e['fn'])
        if f is not None and (('body' in f) or f.get('inits')) and not self.opaque(f) and e['fn'] not in self.stack and len(self.stack) < self.max_depth \
                and (self.inline is None or self.inline(f)):
            st = st.copy()
            st.n += 1
            obj = deref(this) if this is not None else ('var', '$obj', fr.id, ('obj', st.n))
            st.heap[('dyntype', obj)] = e['ty']
            self.ev_(st, 'ctor', e, qn=qn, cls=cls, args=tuple(vs), obj=addr(obj), inl=True)
            res = []
            for s, _ in self.run_inline(st, f, dict(e, l=e.get('l', 0)), fr, addr(obj), vs, ls, False, ctor=True):
                res.append((s, self.load(s, obj) if this is None else ('loc', obj)))
            return res
        st = st.copy()
        if not vs and ti.get('k') == 'rec':
            v = ('empty', cls)
        else:
            v = ('make', cls) + tuple(vs)
        for i, l in enumerate(ls):
            if l is not None and i < len(e.get('pm', '')) and e['pm'][i] == 'r':
                pass
        if self.may_throw:
            t = self.may_throw(e, qn)
            if t:
                s2 = st.copy()
                self.ev_(s2, 'callthrow', e, qn=qn, key=e.get('fn'), obj=None, args=tuple(vs), locs=tuple(ls))
                self.throw(s2, t if isinstance(t, str) else '?', e, None)
        self.ev_(st, 'ctor', e, qn=qn, cls=cls, args=tuple(vs), locs=tuple(ls), obj=this, inl=False, res=v)
        return [(st, v)]

    # ------------------------------------------------------------ function bodies
    def body(self, st, f, fr):
        """interpret f in frame fr -> [Out(return)]; throws go to self.throws"""
        self.stack.append(f['key'])
        prev = getattr(self, 'cur', None)
        self.cur = f
        try:
            depth = len(st.scopes)
            outs = []
            sts = [st]
            if f.get('ctor'):
                for ini in f.get('inits', []):
                    nxt = []
                    for s in sts:
                        if ini.get('e') is None:
                            nxt.append(s); continue
                        if 'f' in ini:
                            loc = ('fld', deref(fr.this), ini['f'])
                            ft = ini['e'].get('t')
                            if ini['e'].get('lv') and self.field_is_ref(f['cls'], ini['f']):
                                for s2, l in self.lv(s, ini['e'], fr):
                                    s2 = s2.copy()
                                    s2.alias[('fldref', loc)] = l
                                    s2.heap[loc] = ('refloc', l)
                                    nxt.append(s2)
                                continue
                            for s2, v in self.ev(s, ini['e'], fr):
                                if v[0] == 'loc':
                                    v = self.load(s2, v[1])
                                s2 = s2.copy()
                                self.store(s2, loc, v)
                                self.ev_(s2, 'init', ini['e'], loc=loc, val=v)
                                nxt.append(s2)
                        else:
                            # base or delegating constructor runs on the same object
                            ie = ini['e']
                            if ie['k'] == 'ctor':
                                for s2, v in self.construct_base(s, ie, fr):
                                    nxt.append(s2)
                            else:
                                for s2, v in self.ev(s, ie, fr):
                                    nxt.append(s2)
                    sts = nxt
            for s in sts:
                if f.get('body') is None:
                    outs.append(Out('return', s, None))
                    continue
                for o in self.stmt(s, f['body'], fr):
                    if o.kind in ('next', 'return'):
                        o.st = self.unwind(o.st, depth)
                        outs.append(Out('return', o.st, o.val))
                    elif o.kind in ('break', 'continue', 'goto'):
                        outs.append(Out('return', o.st, None))
            if len(outs) > self.max_paths:
                raise Overflow()
            return outs
        finally:
            self.stack.pop()
            self.cur = prev

    def field_is_ref(self, cls, fld):
        r = self.P.records.get(cls)
        if r:
            for x in r['fields']:
                if x['n'] == fld:
                    return self.ti(x['t']).get('k') == 'ref'
        return False

    def construct_base(self, st, e, fr):
        f = self.P.functions.get(e['fn'])
        res = []
        for s, vs, ls in self.argvals(st, e['args'], e.get('pm', ''), fr):
            if f is not None and (('body' in f) or f.get('inits')) and not self.opaque(f) and e['fn'] not in self.stack and len(self.stack) < self.max_depth \
                    and (self.inline is None or self.inline(f)):
                res += self.run_inline(s, f, e, fr, fr.this, vs, ls, False, ctor=True)
            else:
                s = s.copy()
                self.ev_(s, 'ctor', e, qn=e['qn'], cls=self.ti(e['ty']).get('n', e['ty']), args=tuple(vs), locs=tuple(ls), obj=fr.this, inl=False, base=True, res=ZERO)
                res.append((s, ZERO))
        return res

    def unwind(self, st, depth, exc=False):
        if len(st.scopes) <= depth:
            return st
        st = st.copy()
        while len(st.scopes) > depth:
            loc, t, node, fn = st.scopes[-1]
            st.scopes = st.scopes[:-1]
            e = Ev('dtor', dict(loc=loc, ty=t, val=self.load(st, loc), exc=exc, node=node), fn['file'], node.get('l', 0), fn['qn'], st.facts)
            st.emit(e)
            st = self.run_dtor(st, loc, t, node, exc)
            if not exc:
                self.purge(st, loc)
        return st

    def run_dtor(self, st, loc, t, node, exc):
        return st

    # ------------------------------------------------------------ statements
    def stmts(self, st, lst, fr):
        outs = []
        cur = [st]
        for n, s in enumerate(lst):
            nxt = []
            for c in cur:
                for o in self.stmt(c, s, fr):
                    if o.kind == 'next':
                        nxt.append(o.st)
                    else:
                        outs.append(o)
            if s is not None and s['k'] in ('decl', 'expr') and n + 1 < len(lst) and lst[n + 1] is not None and lst[n + 1]['k'] in ('return', 'if') and len(nxt) <= 8:
                cur = nxt        # a condition that is computed before it is used
            else:
                cur = self.merge_states(nxt)
            if not cur:
                break
            if len(cur) > self.max_paths:
                raise Overflow()
        return [Out('next', c) for c in cur] + outs

    def merge_states(self, sts):
        if len(sts) < 2 or not self.merge:
            return sts
        seen = {}
        res = []
        for s in sts:
            key = (id(s.trace), frozenset(s.heap.items()))
            if key in seen:
                o = seen[key]
                # keep only the common facts
                for a in list(o.facts):
                    if s.facts.get(a) != o.facts[a]:
                        o.facts = dict(o.facts)
                        del o.facts[a]
            else:
                seen[key] = s
                res.append(s)
        return res

    def stmt(self, st, s, fr):
        if s is None:
            return [Out('next', st)]
        k = s['k']
        self.tick()
        if k == 'block':
            depth = len(st.scopes)
            outs = self.stmts(st, s['b'], fr)
            for o in outs:
                if o.kind == 'return' and o.val and o.val[0] == 'loc':
                    pass
                o.st = self.unwind(o.st, depth)
            return outs
        if k == 'expr':
            return [Out('next', x) for x, v in self.ev(st, s['e'], fr)]
        if k == 'decl':
            cur = [st]
            for v in s['v']:
                nxt = []
                for c in cur:
                    nxt += self.declare(c, v, fr, s)
                cur = nxt
            return [Out('next', c) for c in cur]
        if k == 'if':
            depth = len(st.scopes)
            sts = [st]
            if s.get('init'):
                sts = [o.st for o in self.stmt(st, s['init'], fr) if o.kind == 'next']
            if s.get('cv'):
                sts = [y for x in sts for y in self.declare(x, s['cv'], fr, s)]
            outs = []
            for x in sts:
                for y, b in self.cond(x, s['c'], fr):
                    outs += self.stmt(y, s['a'] if b else s.get('b'), fr)
            for o in outs:
                o.st = self.unwind(o.st, depth)
            return outs
        if k == 'return':
            if s.get('a') is None:
                return [Out('return', st, None)]
            isref = self.ti(fr.fn['ret']).get('k') == 'ref'
            if isref:
                return [Out('return', x, ('loc', l)) for x, l in self.lv(st, s['a'], fr)]
            return [Out('return', x, v) for x, v in self.ev(st, s['a'], fr)]
        if k in ('break', 'continue'):
            return [Out(k, st)]
        if k in ('for', 'while', 'do', 'rfor'):
            return self.loop(st, s, fr)
        if k == 'switch':
            return self.switch(st, s, fr)
        if k == 'try':
            return self.try_(st, s, fr)
        if k in ('case', 'default', 'label'):
            return self.stmt(st, s['b'], fr)
        if k == 'goto':
            return [Out('goto', st)]
        return [Out('next', st)]

    def declare(self, st, v, fr, node):
        fr.locals.add(v['d'])
        loc = ('var', v['n'], fr.id, v['d'])
        t = self.ti(v['t'])
        if v.get('static'):
            return [st]
        if t.get('k') == 'ref' and v.get('init'):
            res = []
            for s, l in self.lv(st, v['init'], fr):
                s = s.copy()
                s.alias[(fr.id, v['d'])] = l
                res.append(s)
            return res
        if not v.get('init'):
            st = st.copy()
            self.purge(st, loc)
            st.n += 1
            st.heap[loc] = ('uninit', st.n)
            return [st]
        res = []
        ie = v['init']
        if ie['k'] == 'ctor' and not (ie.get('copy') or ie.get('move')):
            f = self.P.functions.get(ie['fn'])
            if f is not None and t.get('k') == 'rec' and not self.is_iter(t.get('n', '')):
                # construct in place so that the object keeps its identity
                rs = self.construct(st, ie, fr, this=addr(loc))
                for s, val in rs:
                    s = s.copy()
                    s.heap[('dyntype', loc)] = v['t']
                    if val[0] == 'loc':
                        pass
                    elif loc not in s.heap and not any(under(h, loc) for h in s.heap if h[0] != 'dyntype'):
                        s.heap[loc] = val
                    self.ev_(s, 'decl', node, loc=loc, val=s.heap.get(loc), ty=v['t'])
                    res.append(self.declared(s, loc, v, node))
                return res
        for s, val in self.ev(st, ie, fr):
            if val[0] == 'loc':
                val = self.load(s, val[1], v['t'])
            s = s.copy()
            self.purge(s, loc)
            s.heap[loc] = self.wrap(val, v['t'])
            if t.get('k') == 'rec':
                s.heap[('dyntype', loc)] = v['t']
            self.ev_(s, 'decl', node, loc=loc, val=val, ty=v['t'])
            res.append(self.declared(s, loc, v, node))
        return res

    def declared(self, s, loc, v, node):
        t = self.ti(v['t'])
        if t.get('k') == 'rec' and not t.get('tdtor', False):
            s.scopes = s.scopes + ((loc, v['t'], node, self.cur),)
        return s

    def try_(self, st, s, fr):
        save = self.throws
        self.throws = []
        depth = len(st.scopes)
        outs = self.stmt(st, s['b'], fr)
        thrown = self.throws
        self.throws = save
        for (x, ty, val) in thrown:
            if ty == 'noreturn':
                self.throws.append((x, ty, val)); continue
            handled = False
            for h in s['h']:
                m = self.catches(h, ty)
                if m:
                    y = self.unwind(x, depth, exc=True)
                    y = y.copy()
                    if h.get('v'):
                        fr.locals.add(h['v']['d'])
                        y.heap[('var', h['v']['n'], fr.id, h['v']['d'])] = val if val is not None else ('exc', ty)
                    self.ev_(y, 'catch', h, ty=h.get('ct'), thrown=ty)
                    outs += self.stmt(y, h['b'], fr)
                    if m == 'yes':
                        handled = True
                        break
            if not handled:
                self.throws.append((x, ty, val))
        return outs

    def catches(self, h, ty):
        """'yes', 'maybe' or None"""
        if 'ct' not in h:
            return 'yes'
        ct = h['ct']
        ct = ct[6:] if ct.startswith('const ') else ct
        if ty == '?':
            return 'maybe'
        if ty == 'rethrow':
            return 'maybe'
        n = ty[6:] if ty.startswith('const ') else ty
        if n == ct:
            return 'yes'
        bases = self.P.all_bases(n) or self.ti(n).get('bases', [])
        if ct in bases:
            return 'yes'
        if n.startswith('std::') and ct == 'std::exception' and self.ti(n).get('k', 'rec') == 'rec':
            return 'yes'
        return None

    def switch(self, st, s, fr):
        outs = []
        sts = [st]
        if s.get('cv'):
            sts = self.declare(st, s['cv'], fr, s)
        body = s['b']
        flat = []

        def flatten(x):
            # case labels nest: case A: case B: stmt
            labels = []
            while x is not None and x['k'] in ('case', 'default'):
                labels.append(x)
                x = x['b']
            flat.append((labels, x))
        for c in (body['b'] if body['k'] == 'block' else [body]):
            flatten(c)
        hasdef = any(l['k'] == 'default' for ls, _ in flat for l in ls)
        for x in sts:
            for y, v in self.ev(x, s['c'], fr):
                # decide the label for each constant
                cur = y
                entries = []
                default_entry = None
                for i, (ls, _) in enumerate(flat):
                    for l in ls:
                        if l['k'] == 'default':
                            default_entry = i
                        else:
                            if 'cv' in l:
                                cvv = I(l['cv'])
                            else:
                                cvv = ('unk', 'case')
                            cvv = self.wrap(cvv, s['c']['t'])
                            t = self.assume(cur, ('cmp', '==', v, cvv), True) if cur is not None else None
                            if t is not None:
                                entries.append((t, i))
                            if cur is not None:
                                cur = self.assume(cur, ('cmp', '==', v, cvv), False)
                if cur is not None:
                    # enum exhaustively listed without default: nothing left
                    if default_entry is not None:
                        entries.append((cur, default_entry))
                    else:
                        outs.append(Out('next', cur))
                for t, i in entries:
                    depth = len(t.scopes)
                    os = self.stmts(t, [b for _, b in flat[i:] if b is not None], fr)
                    for o in os:
                        o.st = self.unwind(o.st, depth)
                        if o.kind == 'break':
                            o.kind = 'next'
                        outs.append(o)
        return outs

    # ------------------------------------------------------------ loops
    def loop(self, st, s, fr):
        depth0 = len(st.scopes)
        k = s['k']
        sts = [st]
        if k == 'for' and s.get('init'):
            sts = [o.st for o in self.stmt(st, s['init'], fr) if o.kind == 'next']
        outs = []
        if k == 'rfor':
            rs = []
            for x in sts:
                for y, l in self.lv(x, s['r'], fr):
                    rs.append((y, l))
            for y, l in rs:
                outs += self.loop_core(y, s, fr, rng=l)
        elif k == 'do':
            for x in sts:
                for o in self.stmt(x, s['b'], fr):
                    if o.kind in ('next', 'continue'):
                        outs += self.loop_core(o.st, s, fr)
                    elif o.kind == 'break':
                        outs.append(Out('next', o.st))
                    else:
                        outs.append(o)
        else:
            for x in sts:
                outs += self.loop_core(x, s, fr)
        for o in outs:
            o.st = self.unwind(o.st, depth0)
        return outs

    def one_iter(self, st, s, fr, rng, lid):
        """one pass: condition, body, increment. -> (continue outs, exit states on false condition, other outs)"""
        cont, exits, other = [], [], []
        if s['k'] == 'rfor':
            v = s['v']
            fr.locals.add(v['d'])
            st2 = st.copy()
            el = ('deref', ('iter', lid, rng))
            st2.facts[('more', lid)] = True
            vloc = ('var', v['n'], fr.id, v['d'])
            if self.ti(v['t']).get('k') == 'ref':
                st2.alias[(fr.id, v['d'])] = el
            else:
                self.purge(st2, vloc)
                st2.heap[vloc] = self.load(st2, el, v['t'])
            exits.append(st)
            conds = [(st2, True)]
        elif s.get('c') is None:
            conds = [(st, True)]
        else:
            pre = [st]
            if s.get('cv'):
                pre = self.declare(st, s['cv'], fr, s)
            conds = [c for x in pre for c in self.cond(x, s['c'], fr)]
        for x, b in conds:
            if not b:
                exits.append(x)
                continue
            d = len(x.scopes)
            for o in self.stmt(x, s['b'], fr):
                if o.kind in ('next', 'continue'):
                    y = self.unwind(o.st, d)
                    if s.get('inc'):
                        for z, _ in self.ev(y, s['inc'], fr):
                            cont.append(z)
                    else:
                        cont.append(y)
                else:
                    other.append(o)
        return cont, exits, other

    def loop_core(self, st, s, fr, rng=None):
        lid = self.frame(fr.id, ('loop', s['l'], s['k'], len(self.stack)), self.cur['key'])
        outs = []
        # 1. zero iterations
        zero = []
        if s['k'] == 'rfor':
            z = st.copy(); z.facts[('more', lid)] = False
            zero = [z]
        elif s.get('c') is not None:
            save = self.throws; self.throws = []
            pre = [st]
            if s.get('cv'):
                pre = self.declare(st, s['cv'], fr, s)
            for x in pre:
                for y, b in self.cond(x, s['c'], fr):
                    if not b:
                        zero.append(y)
            self.throws = save + self.throws
        # 2. find what one iteration changes
        modified = {}
        vers = set()
        save = self.throws
        for rounds in range(4):
            self.throws = []
            g = self.generic(st, modified, vers, lid)
            t0 = g.trace
            cont, exits, other = self.one_iter(g, s, fr, rng, lid)
            new = False
            for x in cont + exits:
                for h, v in x.heap.items():
                    if h[0] == 'dyntype' or h not in g.heap and root(h)[0] == 'var' and self.local_to_iter(h, st):
                        continue
                    if g.heap.get(h) != v and h not in modified:
                        modified[h] = True; new = True
                for h in g.heap:
                    if h not in x.heap and h[0] != 'dyntype' and h not in modified:
                        modified[h] = True; new = True
                for h, v in x.ver.items():
                    if g.ver.get(h) != v and h not in vers and not (h != '*' and root(h)[0] == 'var' and self.local_to_iter(h, st)):
                        vers.add(h); new = True
            if not new:
                break
        self.throws = save
        # 3. the generic iteration
        save = self.throws; self.throws = []
        g = self.generic(st, modified, vers, lid)
        base_trace = st.trace
        g.trace = None
        cont, exits, other = self.one_iter(g, s, fr, rng, lid)
        thrown = self.throws; self.throws = save
        # 4. induction variables
        sym = {h: self.loopsym(lid, h) for h in modified}
        inv = lambda t: not has_sub(t, lambda x: x[0] == 'L' and len(x) == 3 and x[1] == lid or x == ('iterlocal', lid)) and not self.iter_local(t, g, lid)
        step = {}
        const = {}
        for h in modified:
            vals = [self.load(x, h) if h in x.heap or True else None for x in cont]
            if not vals:
                continue
            ds = set(sub(v, sym[h]) if self.numeric(v) else ('?',) for v in vals)
            if len(ds) == 1:
                d = ds.pop()
                if d != ('?',) and inv(d):
                    step[h] = d
                    continue
            vv = set(vals)
            if len(vv) == 1:
                v = vv.pop()
                if inv(v):
                    const[h] = v
        init = {h: self.load(st, h) for h in modified}
        # trip count from the exit conditions
        trip = self.tripcount(g, exits, sym, step, init, lid)
        breaks = [o for o in other if o.kind == 'break']
        iters = [Out('continue', x) for x in cont] + [o for o in other] + [Out('throw', x, ty) for x, ty, v in thrown]
        loopev = lambda facts, partial: Ev('loop', dict(id=lid, trip=trip if not partial else None, partial=partial, iters=iters, step={sym[h]: d for h, d in step.items()},
                                                 init={sym[h]: init[h] for h in modified}, symloc={sym[h]: h for h in modified}, node=s, rng=rng, kindof=s['k'], nbreaks=len(breaks), entry=g, exits=exits), self.cur['file'], s['l'], self.cur['qn'], facts)
        # zero-trip exit
        for z in zero:
            z = z.copy()
            if z.trace is base_trace:
                pass
            ze = Ev('loop0', dict(id=lid, node=s, rng=rng, iters=iters, step={sym[h]: d for h, d in step.items()}, init={sym[h]: init[h] for h in modified}, symloc={sym[h]: h for h in modified}), self.cur['file'], s['l'], self.cur['qn'], z.facts)
            z.emit(ze)
            outs.append(Out('next', z))

        def attach(x, partial=True):
            """prefix the iteration's trace with what came before and the loop summary"""
            evs = x.events()
            x = x.copy()
            x.trace = base_trace
            x.emit(loopev(x.facts, partial))
            for e in evs:
                x.trace = (e, x.trace)
            return x
        # 5. exit after one or more complete iterations with a false condition
        if cont:
            for ex in exits:
                y = self.exit_state(st, ex, modified, sym, step, const, init, trip, vers, lid)
                if y is None:
                    continue
                evs = ex.events()
                y.trace = base_trace
                y.emit(loopev(y.facts, False))
                for e in evs:
                    y.trace = (e, y.trace)
                y.facts[('ran', lid)] = True
                outs.append(Out('next', y))
        for o in other:
            x = attach(o.st)
            if o.kind == 'break':
                outs.append(Out('next', x))
            else:
                outs.append(Out(o.kind, x, o.val))
        for x, ty, v in thrown:
            self.throws.append((attach(x), ty, v))
        return outs

    def numeric(self, v):
        return v[0] in ('int', 'lin', 'L', 'rd', 'pure', 'res', 'mul', 'sym', 'addr', 'span', 'blockend', 'iter', 'op', 'hv', 'trunc', 'fldv', 'new', 'uninit', 'deref')

    def iter_local(self, t, g, lid):
        """does the term mention a symbol born inside the iteration?"""
        n0 = g.n
        for x in subterms(t):
            if x[0] == 'res' and len(x) > 2 and isinstance(x[1], int) and x[1] > n0:
                return True
            if x[0] in ('new', 'hv', 'uninit') and len(x) > 1 and isinstance(x[1], int) and x[1] > n0:
                return True
            if x[0] == 'rd' and len(x) == 3:
                v = x[2]
                if isinstance(v, tuple):
                    if any(isinstance(y, int) and y > n0 for y in v):
                        return True
                elif isinstance(v, int) and v > n0:
                    return True
        return False

    def local_to_iter(self, h, st):
        return not any(h == k or under(h, k) for k in st.heap) and (root(h)[3] not in ()) and not any(root(k) == root(h) for k in st.heap if k[0] != 'dyntype')

    def loopsym(self, lid, h):
        return ('L', lid, h)

    def generic(self, st, modified, vers, lid):
        g = st.copy()
        for h in modified:
            self.purge(g, h)
            g.heap[h] = self.loopsym(lid, h)
            v0 = st.heap.get(h)
            if v0 is not None and v0 in UNSIGNED or v0 is not None and v0[0] == 'int' and v0[1] >= 0 and False:
                UNSIGNED.add(g.heap[h])
        for l in vers:
            if l == '*':
                for h in [h for h in g.heap if h[0] != 'dyntype' and root(h)[0] != 'var' and h not in modified]:
                    del g.heap[h]
            g.ver[l] = ('loop', lid)
        # facts that mention changed memory were about the first iteration only
        if vers or modified:
            bad = set(vers)
            mod = set(modified)

            def stale(t):
                return any(x[0] == 'rd' and len(x) == 3 and (x[1] in mod or any(l == '*' and root(x[1])[0] != 'var' or l != '*' and under(x[1], l) for l in bad)) for x in subterms(t))
            for a in [a for a in g.facts if a[0] in ('eq', 'lt') and stale(a)]:
                pass      # terms carry versions, facts about old versions stay true of them
        g.n = st.n + 1000
        return g

    def tripcount(self, g, exits, sym, step, init, lid):
        """number of iterations when the loop is left only through one linear condition"""
        if len(exits) != 1:
            # several exit paths (a && b): no closed form
            return None
        ex = exits[0]
        newf = [(a, v) for a, v in ex.facts.items() if g.facts.get(a) != v]
        if len(newf) != 1:
            return None
        a, v = newf[0]
        if a[0] not in ('eq', 'lt'):
            return None
        d = a[1]
        c, parts = lin_parts(d)
        dstep = ZERO
        d0 = I(c)
        loopsyms = {sym[h]: h for h in sym}
        for t, k in parts:
            if t in loopsyms:
                h = loopsyms[t]
                if h not in step:
                    return None
                dstep = add(dstep, scale(step[h], k))
                d0 = add(d0, scale(init[h], k))
            elif has_sub(t, lambda x: x in loopsyms):
                return None
            else:
                d0 = add(d0, scale(t, k))
        if dstep[0] != 'int' or dstep[1] == 0:
            return None
        s_ = dstep[1]
        if a[0] == 'eq' and v:           # leaves when d == 0
            if s_ == 1:
                return scale(d0, -1)
            if s_ == -1:
                return d0
        if a[0] == 'lt':
            if not v and s_ == 1:        # continues while d<0, leaves when d>=0
                return scale(d0, -1)
            if v and s_ == -1:           # continues while d>=0, leaves when d<0
                return add(d0, I(1))
            if not v and s_ == -1:
                # an unsigned counter going down past zero leaves the range
                lv = [(t, k) for t, k in parts if t in loopsyms]
                if len(lv) == 1 and lv[0][1] == 1:
                    return add(init[loopsyms[lv[0][0]]], I(1))
            if not v and s_ > 1:
                return ('ceildiv', scale(d0, -1), I(s_))
        return None

    def exit_state(self, st, ex, modified, sym, step, const, init, trip, vers, lid):
        m = {}
        y = ex.copy()
        # value of each head variable when the last condition is evaluated
        for h in modified:
            if h in const:
                m[sym[h]] = const[h]
            elif h in step and trip is not None:
                m[sym[h]] = add(init[h], mul(step[h], trip))
            else:
                m[sym[h]] = ('X', lid, h)
                if sym[h] in UNSIGNED:
                    UNSIGNED.add(m[sym[h]])
        for h in list(y.heap):
            v = y.heap[h]
            if isinstance(v, tuple):
                y.heap[h] = subst(v, m)
        facts = {}
        for a, v in y.facts.items():
            a2 = subst(a, m)
            if a2 != a and a2[0] in ('eq', 'lt'):
                d = a2[1]
                at, p = cnorm(('cmp', '==' if a2[0] == 'eq' else '<', d, ZERO))
                if at[0] == 'true':
                    if a[0] == 'eq' or a[0] == 'lt':
                        if p != v:
                            return None if trip is None else y if False else None
                    continue
                facts[at] = (v == p)
            else:
                facts[a2] = v
        y.facts = facts
        if trip is not None and trip[0] != 'int':
            a, p = cnorm(('cmp', '<', ZERO, trip))
            dv = decide(st.facts, a)
            if dv is not None and dv != p:
                return None
            y.facts[a] = p
        for l in vers:
            y.n += 1
            y.ver[l] = ('after', lid, y.n)
        return y

    # ------------------------------------------------------------ entry point
    def run(self, f, args=None, this=None, facts=None):
        """interpret function f with symbolic parameters -> list of Out (return / throw)"""
        self.throws = []
        self.stack = []
        self.npaths = 0
        st = State()
        fr = Frame(0, f)
        fr.this = this or (('sym', 'this') if f.get('cls') and not f.get('static') else ZERO)
        if f.get('cls'):
            st.facts[('eq', fr.this)] = False
        for i, p in enumerate(f['params']):
            fr.locals.add(p['d'])
            loc = ('var', p['n'] or '$p%d' % i, 0, p['d'])
            t = self.ti(p['t'])
            v = (args or {}).get(p['n']) or (args or {}).get(i) or ('sym', p['n'] or '$p%d' % i)
            if t.get('k') == 'ref':
                st.alias[(0, p['d'])] = deref(v)
                st.facts[('eq', v)] = False
            else:
                st.heap[loc] = v
                self.typed(v, p['t'])
        for a, v in (facts or {}).items():
            st.facts[a] = v
        outs = self.body(st, f, fr)
        for s, ty, v in self.throws:
            if ty == 'noreturn':
                outs.append(Out('noreturn', s, None))
            else:
                outs.append(Out('throw', self.unwind(s, 0, exc=True), ty))
        return outs


class Frame:
    __slots__ = ('id', 'fn', 'this', 'locals', 'closure')

    def __init__(self, id, fn):
        self.id = id; self.fn = fn; self.this = ZERO; self.locals = set(); self.closure = None


class Call:
    __slots__ = ('e', 'fr', 'obj', 'ol', 'vals', 'locs', 'want_loc', 'name')

    def __init__(self, e, fr, obj, ol, vals, locs, want_loc, name):
        self.e = e; self.fr = fr; self.obj = obj; self.ol = ol; self.vals = vals; self.locs = locs; self.want_loc = want_loc; self.name = name


# ---------------------------------------------------------------- library models
MODELS = {}
SUFFIX = {}
CTORS = {}
PURE = set('''strcmp strlen memcmp strncmp strerror __errno_location isspace isdigit isalpha tolower std::operator+ std::operator== std::operator!= std::operator<
 std::move std::forward boost::lexical_cast boost::make_tuple std::make_pair std::make_tuple std::min std::max boost::join'''.split())


def objval(en, st, c):
    """value of the object a member operator is called on"""
    return en.load(st, c.ol, c.e['obj'].get('t')) if c.ol is not None else c.obj


def isiter(en, c):
    cls = c.e.get('cls', '')
    return any(m in cls for m in ITER_MARKS)


def m_deref(en, st, c):
    if c.obj is None or not isiter(en, c):
        return None
    v = objval(en, st, c)
    en.deref_ev(st, v, c.e)
    if c.want_loc:
        return [(st, ('loc', deref(v)))]
    return [(st, en.load(st, deref(v), c.e['t']))]


def m_arrow(en, st, c):
    if c.obj is None or not isiter(en, c):
        return None
    v = objval(en, st, c)
    return [(st, v)]


def m_inc(step):
    def f(en, st, c):
        if c.obj is None or not isiter(en, c):
            return None
        st = st.copy()
        v = objval(en, st, c)
        n = add(v, I(step))
        en.store(st, c.ol, n)
        en.ev_(st, 'store', c.e, loc=c.ol, val=n, old=v)
        if c.vals:       # postfix
            return [(st, v)]
        if c.want_loc:
            return [(st, ('loc', c.ol))]
        return [(st, n)]
    return f


def m_addop(sign, assign):
    def f(en, st, c):
        if c.obj is None or not isiter(en, c):
            if c.obj is None and len(c.vals) == 2 and not assign and any(m in c.e['args'][0].get('t', '') for m in ITER_MARKS):
                return [(st, add(c.vals[0], scale(c.vals[1], sign)))]
            return None
        v = objval(en, st, c)
        n = add(v, scale(c.vals[0], sign))
        if assign:
            st = st.copy()
            en.store(st, c.ol, n)
            en.ev_(st, 'store', c.e, loc=c.ol, val=n, old=v)
            if c.want_loc:
                return [(st, ('loc', c.ol))]
        return [(st, n)]
    return f


def m_cmp(op):
    def f(en, st, c):
        if c.obj is not None:
            a, b = objval(en, st, c), c.vals[0]
        elif len(c.vals) == 2:
            a, b = c.vals
        else:
            return None
        t = c.e['obj'].get('t', '') if c.e.get('obj') else c.e['args'][0].get('t', '')
        if any(m in t for m in ITER_MARKS):
            return [(st, ('cmp', op, a, b))]
        cls = sq(en.P.strip(t))
        if cls.startswith('const '):
            cls = cls[6:]
        if cls in ('std::basic_string', 'std::vector', 'std::map', 'std::set', 'std::list', 'std::pair') or t.startswith('const char') or t.startswith('std::basic_string') or 'basic_string' in t.split('<')[0]:
            return [(st, ('cmp', op, a, b))]
        # a std:: comparison of a string with a literal
        if c.name.startswith('std::operator'):
            return [(st, ('cmp', op, a, b))]
        return None
    return f


def m_assign(en, st, c):
    """operator= of library value types and of implicitly assigned records"""
    if c.obj is None:
        return None
    if c.obj[0] == 'tie':
        st = st.copy()
        v = c.vals[0]
        for i, l in enumerate(c.obj[1]):
            if l is None:
                continue
            x = tget(v, i)
            en.store(st, l, x)
            en.ev_(st, 'store', c.e, loc=l, val=x, old=None)
        return [(st, c.obj)]
    f = en.P.functions.get(c.e.get('fn'))
    if f is not None and not f.get('implicit'):
        return None
    if c.e.get('virt'):
        return None
    if c.ol is None or not c.vals:
        return None
    st = st.copy()
    old = en.load(st, c.ol)
    en.store(st, c.ol, c.vals[0])
    en.ev_(st, 'store', c.e, loc=c.ol, val=c.vals[0], old=old)
    if c.want_loc:
        return [(st, ('loc', c.ol))]
    return [(st, c.vals[0])]


def tget(v, i):
    if v[0] == 'tuple':
        return v[1][i]
    if v[0] == 'pair' and i < 2:
        return v[1 + i]
    return ('tget', i, v)


def m_tie(en, st, c):
    return [(st, ('tie', tuple(None if v[0] == 'ignore' or (v[0] == 'rd' and 'ignore' in repr(v)) else l for v, l in zip(c.vals, c.locs))))]


def m_tuple(en, st, c):
    return [(st, ('tuple', tuple(c.vals)))]


def m_pair(en, st, c):
    if len(c.vals) != 2:
        return None
    return [(st, ('pair', c.vals[0], c.vals[1]))]


def m_get(en, st, c):
    ta = c.e.get('ta')
    if not ta or not isinstance(ta[0], int):
        return None
    if c.obj is not None:
        v = objval(en, st, c)
    elif c.vals:
        v = c.vals[0]
    else:
        return None
    return [(st, tget(v, ta[0]))]


def m_ident(en, st, c):
    if len(c.vals) != 1:
        return None
    if c.want_loc and c.locs[0] is not None:
        return [(st, ('loc', c.locs[0]))]
    return [(st, c.vals[0])]


def m_copy(en, st, c):
    """std::copy(first, last, out): one bulk effect"""
    if len(c.vals) != 3:
        return None
    st = st.copy()
    n = sub(c.vals[1], c.vals[0])
    en.ev_(st, 'call', c.e, qn='std::copy', key=None, obj=None, args=tuple(c.vals), locs=tuple(c.locs), res=add(c.vals[2], n), virt=False)
    return [(st, add(c.vals[2], n))]


def m_minmax(ismin):
    def f(en, st, c):
        if len(c.vals) != 2:
            return None
        a, b = c.vals
        res = []
        for s, less in en.branch(st, ('cmp', '<', b, a)):      # std::min(a, b) is b only if b < a
            i = 1 if less == ismin else 0
            if not ismin:
                i = 0 if less else 1
            if c.want_loc:
                if c.locs[i] is None:
                    l = ('var', '$tmp', c.fr.id, id(c.e))
                    s = s.copy(); s.heap[l] = c.vals[i]
                    res.append((s, ('loc', l)))
                else:
                    res.append((s, ('loc', c.locs[i])))
            else:
                res.append((s, c.vals[i]))
        return res
    return f


def m_cstr(en, st, c):
    if c.obj is None or 'basic_string' not in c.e.get('cls', ''):
        return None
    return [(st, objval(en, st, c))]


def m_empty(en, st, c):
    if c.obj is None or c.vals or not c.e.get('cls', '').startswith('std::'):
        return None
    if objval(en, st, c)[0] == 'empty':
        return [(st, I(1))]
    e = dict(c.e, qn=c.e['qn'].rsplit('::', 1)[0] + '::size', n='size')
    r = en.opaque_call(st, e, c.fr, c.obj, c.ol, [], [], False)
    for s, v in r:
        UNSIGNED.add(v)
    return [(s, ('cmp', '==', v, ZERO)) for s, v in r]


def m_size(en, st, c):
    if c.obj is None or c.vals or not c.e.get('cls', '').startswith('std::') or objval(en, st, c)[0] != 'empty':
        return None
    return [(st, ZERO)]


def m_index(en, st, c):
    """operator[] of vector/string: pointer arithmetic from begin()"""
    if c.obj is None:
        return None
    cls = sq(c.e.get('cls', ''))
    if cls in ('std::vector', 'std::basic_string', 'std::deque', 'std::array'):
        st = st.copy()
        l = ('elt', c.ol, c.vals[0]) if c.ol is not None else deref(add(c.obj, c.vals[0]))
        en.ev_(st, 'index', c.e, obj=c.obj, idx=c.vals[0], cls=cls)
        if c.want_loc:
            return [(st, ('loc', l))]
        return [(st, en.load(st, l, c.e['t']))]
    return None


def m_begin(en, st, c):
    return None


def m_lambda_call(en, st, c):
    if c.obj is None or not c.e.get('cls', '').startswith('lambda@'):
        return None
    v = objval(en, st, c)
    if v[0] != 'lambda':
        return None
    f = en.P.functions.get(v[1])
    if f is None:
        return None
    fid = en.frame(c.fr.id, c.e.get('l', 0), v[1])
    nf = Frame(fid, f)
    st = st.copy()
    nf.this = ZERO
    for d, x in v[2]:
        if d == 'this':
            nf.this = x
        elif x[0] == 'ref':
            st.alias[(fid, d)] = x[1]; nf.locals.add(d)
        else:
            nf.locals.add(d); st.heap[('var', '$cap', fid, d)] = x[1]; st.alias[(fid, d)] = ('var', '$cap', fid, d)
    for i, p in enumerate(f['params']):
        nf.locals.add(p['d'])
        t = en.ti(p['t'])
        if t.get('k') == 'ref' and i < len(c.locs) and c.locs[i] is not None:
            st.alias[(fid, p['d'])] = c.locs[i]
        else:
            st.alias.pop((fid, p['d']), None)
            st.heap[('var', p['n'] or '$p%d' % i, fid, p['d'])] = c.vals[i] if i < len(c.vals) else ('unk', 'arg')
    if v[1] in en.stack or len(en.stack) >= en.max_depth:
        return None
    res = []
    for o in en.body(st, f, nf):
        x = o.val if o.val is not None else ZERO
        if x[0] == 'loc' and not c.want_loc:
            x = en.load(o.st, x[1])
        res.append((o.st, x))
    return res


def c_string(en, st, c):
    if len(c.vals) == 0:
        return [(st, ('str', ''))]
    nondef = [a for a in c.e['args'] if not a.get('def')]
    if len(nondef) == 1 and (c.vals[0][0] == 'str' or 'char' in c.e['args'][0].get('t', '') or 'basic_string' in c.e['args'][0].get('t', '')):
        return [(st, c.vals[0])]
    return None


def c_pair(en, st, c):
    if len(c.vals) == 2:
        return [(st, ('pair', c.vals[0], c.vals[1]))]
    if len(c.vals) == 1:
        return [(st, c.vals[0])]
    return None


def c_tuple(en, st, c):
    if len(c.vals) == 1 and c.vals[0][0] in ('tuple', 'res', 'pure', 'pair', 'tget'):
        return [(st, c.vals[0])]
    return [(st, ('tuple', tuple(c.vals)))]


def c_sptr(en, st, c):
    """smart pointer: its value is the pointer it holds"""
    if len(c.vals) == 0:
        return [(st, ZERO)]
    if c.vals[0][:1] == ('new',):
        st = st.copy()
        en.ev_(st, 'own', c.e, ptr=c.vals[0])
    return [(st, c.vals[0])]


def m_sp_get(en, st, c):
    cls = sq(c.e.get('cls', ''))
    if c.obj is None or not cls.endswith('_ptr') and cls not in ('std::__shared_ptr_access', 'std::__shared_ptr'):
        return None
    v = objval(en, st, c)
    if c.name.endswith('operator*'):
        if c.want_loc:
            return [(st, ('loc', deref(v)))]
        return [(st, en.load(st, deref(v), c.e['t']))]
    return [(st, v)]


def m_sp_release(en, st, c):
    cls = sq(c.e.get('cls', ''))
    if c.obj is None or not cls.endswith('_ptr'):
        return None
    st = st.copy()
    v = objval(en, st, c)
    en.store(st, c.ol, ZERO)
    en.ev_(st, 'release', c.e, obj=c.ol, ptr=v)
    return [(st, v)]


def m_sp_reset(en, st, c):
    cls = sq(c.e.get('cls', ''))
    if c.obj is None or not cls.endswith('_ptr'):
        return None
    st = st.copy()
    v = objval(en, st, c)
    en.ev_(st, 'delete', c.e, ptr=v, ty='', arr=False, smart=True)
    en.store(st, c.ol, c.vals[0] if c.vals else ZERO)
    return [(st, ZERO)]


def chain(*fs):
    def f(en, st, c):
        for g in fs:
            r = g(en, st, c)
            if r is not None:
                return r
        return None
    return f


SUFFIX.update({
    'operator*': chain(m_deref, m_sp_get), 'operator->': chain(m_arrow, m_sp_get), 'operator++': m_inc(1), 'operator--': m_inc(-1),
    'operator+': m_addop(1, False), 'operator-': m_addop(-1, False), 'operator+=': m_addop(1, True), 'operator-=': m_addop(-1, True),
    'operator==': m_cmp('=='), 'operator!=': m_cmp('!='), 'operator<': m_cmp('<'), 'operator=': m_assign,
    'operator[]': m_index, 'get': chain(m_get, m_sp_get), 'c_str': m_cstr, 'empty': m_empty, 'size': m_size, 'operator()': m_lambda_call,
    'release': m_sp_release, 'reset': m_sp_reset,
})
MODELS.update({
    'boost::tuples::tie': m_tie, 'std::tie': m_tie, 'boost::tuples::make_tuple': m_tuple, 'std::make_tuple': m_tuple,
    'boost::make_tuple': m_tuple, 'std::make_pair': m_pair, 'boost::tuples::get': m_get, 'std::get': m_get,
    'std::min': m_minmax(True), 'std::max': m_minmax(False), 'std::move': m_ident, 'std::forward': m_ident, 'std::copy': m_copy, 'std::addressof': None,
})
CTORS.update({
    'std::basic_string': c_string, 'std::pair': c_pair, 'boost::tuples::tuple': c_tuple, 'std::tuple': c_tuple,
    'std::unique_ptr': c_sptr, 'std::auto_ptr': c_sptr, 'boost::scoped_ptr': c_sptr,
})
