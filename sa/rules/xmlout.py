"""E01/E02: what the type library exporter writes, as a language.

The functions that write are followed on every path and what they write is
turned into a sequence of literal text and holes, with loops. An XML lexer is
run over these sequences, with the holes checked against the place they are in:
an attribute value takes numbers and text from which the special characters
were replaced, a CDATA section takes text from which the end marker was, the
rest of a document takes neither. A loop must leave the lexer where it found it.
"""
import re
from core import *
from rules.owners import last

STR = 'std::basic_string'
NAME0 = re.compile(r'[A-Za-z_:]')
NAMEC = re.compile(r'[-A-Za-z0-9_:.]')
ENT = {'lt': '<', 'gt': '>', 'amp': '&', 'quot': '"', 'apos': "'"}
SPECIAL = ('<', '&', '"', '>', "'", '\t', '\n', '\r')


def decode(text, inval):
    """(text a parser gives for this piece of an attribute or of content, or None if it is malformed there)"""
    out = ''; i = 0
    while i < len(text):
        c = text[i]
        if c == '&':
            m = re.compile(r'&(#[0-9]+|#x[0-9A-Fa-f]+|[a-z]+);').match(text, i)
            if not m:
                return None
            n = m.group(1)
            if n[0] == '#':
                v = int(n[2:], 16) if n[1] == 'x' else int(n[1:])
                if v == 0 or v > 0x10ffff:
                    return None
                out += chr(v)
            elif n in ENT:
                out += ENT[n]
            else:
                return None
            i = m.end()
            continue
        if c == '<' or c == inval:
            return None
        out += ' ' if inval and c in '\t\n\r' else '\n' if c == '\r' else c
        i += 1
    return out


def cdata_text(t):
    """what a replacement for the end marker stands for, inside a CDATA section that goes on after it"""
    out = ''; i = 0; inside = True
    while i < len(t):
        if inside:
            if t.startswith(']]>', i):
                inside = False; i += 3
            else:
                out += t[i]; i += 1
        elif t.startswith('<![CDATA[', i):
            inside = True; i += 9
        else:
            return None
    return out if inside else None


# ---------------------------------------------------------------- characters a string variable can hold
class Chars:
    """flow-insensitive: the set of characters that can be in a string variable or member, or None when it takes other text than literals"""

    def __init__(self, P, files):
        self.P = P
        self.parent = {}
        self.writes = {}
        self.fs = [f for f in P.functions.values() if 'body' in f and f.get('file') in files]
        self.keys = {f['key']: f for f in self.fs}
        for f in self.fs:
            self.scan(f)

    def find(self, n):
        while self.parent.get(n, n) != n:
            n = self.parent[n]
        return n

    def union(self, a, b):
        a, b = self.find(a), self.find(b)
        if a != b:
            self.parent[a] = b
            self.writes.setdefault(b, []).extend(self.writes.pop(a, []))

    def write(self, n, e):
        self.writes.setdefault(self.find(n), []).append(e)

    def node(self, e, f):
        if not isinstance(e, dict):
            return None
        if e.get('k') == 'mem':
            return ('fld', e.get('cls'), e.get('n'), f['file'] if '(anonymous' in (e.get('cls') or '') else '')
        if e.get('k') == 'ref' and e.get('dk') in ('param', 'var', 'local'):
            return ('var', f['file'], e.get('d'))
        if e.get('k') in ('cast', 'paren') and e.get('a'):
            return self.node(e['a'], f)
        return None

    def scan(self, f):
        for i in f.get('inits') or []:
            if i.get('f'):
                n = ('fld', f['cls'], i['f'], f['file'] if '(anonymous' in f['cls'] else '')
                e = i['e']
                m = self.node(e, f)
                if m:
                    self.union(n, m)     # a reference member, or a plain copy: an over-approximation is fine
                self.write(n, (e, f))
        for x in walk_ast([f['body'], [i['e'] for i in f.get('inits') or []]]):
            k = x['k']
            if k == 'decl':
                for v in x['v']:
                    n = ('var', f['file'], v['d'])
                    if v.get('init'):
                        m = self.node(v['init'], f)
                        if m and v.get('t', '').endswith('&'):
                            self.union(n, m)
                        self.write(n, (v['init'], f))
            elif k == 'asg':
                n = self.node(x['a'], f)
                if n:
                    self.write(n, (x['b'], f))
            elif k in ('call', 'ctor'):
                if k == 'call' and x.get('obj') and (x.get('cls') or '').startswith(STR):
                    n = self.node(x['obj'], f)
                    if n:
                        if x['n'] in ('operator=', 'operator+=', 'append', 'assign', 'push_back', 'insert', 'replace'):
                            for a in x['args']:
                                self.write(n, (a, f))
                        elif x['n'] in ('swap', 'data', 'begin', 'end', 'operator[]', 'at', 'front', 'back') and not x.get('cm'):
                            self.write(n, None)
                g = self.keys.get(x.get('fn'))
                for i, a in enumerate(x.get('args', [])):
                    n = self.node(a, f)
                    if g and i < len(g['params']):
                        m = ('var', g['file'], g['params'][i]['d'])
                        if n and i < len(x.get('pm', '')) and x['pm'][i] in 'rp':
                            self.union(m, n)
                        self.write(m, (a, f))
                    elif n and not g and i < len(x.get('pm', '')) and x['pm'][i] == 'r':
                        self.write(n, None)

    def of_node(self, n, busy=()):
        n = self.find(n)
        if n in busy:
            return set()
        if n not in self.writes:
            return None
        res = set()
        for w in self.writes[n]:
            if w is None:
                return None
            r = self.of(w[0], w[1], busy + (n,))
            if r is None:
                return None
            res |= r
        return res

    def of(self, e, f, busy=()):
        if e is None:
            return set()
        k = e.get('k')
        if k == 'str':
            return set(e['v'])
        if k in ('int', 'chr') and 'v' in e:
            try:
                return {chr(int(e['v']) & 255)}
            except (ValueError, TypeError):
                return None
        if k in ('mem', 'ref'):
            n = self.node(e, f)
            return self.of_node(n, busy) if n else None
        if k == 'ctor' and (e.get('ty') or '').replace('const ', '').startswith(STR):
            res = set()
            for a in e.get('args', []):
                if 'std::allocator' in (a.get('t') or '')[:20] or a.get('def'):
                    continue
                r = self.of(a, f, busy)
                if r is None:
                    return None
                res |= r
            return res
        if k == 'call' and last(e.get('qn', '')).split('<')[0] in ('operator+', 'operator+='):
            res = set()
            for a in ([e['obj']] if e.get('obj') else []) + e['args']:
                r = self.of(a, f, busy)
                if r is None:
                    return None
                res |= r
            return res
        if k in ('cond', 'ite'):
            res = set()
            for a in (e.get('b') or e.get('t'), e.get('c') or e.get('e')):
                r = self.of(a, f, busy) if isinstance(a, dict) else None
                if r is None:
                    return None
                res |= r
            return res
        if k in ('cast', 'paren', 'tmp', 'bind') and isinstance(e.get('a'), dict):
            return self.of(e['a'], f, busy)
        return None


# ---------------------------------------------------------------- what is written, per path
class Piece:
    """lit(text), hole(term, facts), char(term, facts), num(term), call(key, event), loop(list of piece lists), other(text)"""

    def __init__(self, k, v, line, facts=None, ops=(), ev=None):
        self.k, self.v, self.line, self.facts, self.ops, self.ev = k, v, line, facts or {}, ops, ev

    def __repr__(self):
        return '%s(%s)' % (self.k, str(self.v)[:60])


def unwrap(t):
    """the lvalue below reads and references"""
    while isinstance(t, tuple) and t:
        if t[0] in ('rd', 'addr', 'refto', 'deref', 'ptr') and len(t) > 1:
            t = t[1]
        elif t[0] in ('L', 'X') and len(t) == 3 and isinstance(t[2], tuple):
            t = t[2]
        else:
            return t
    return t


class Scope:
    """the pieces of each sink at one level of nesting, with those of the levels around"""

    def __init__(self, outer=None):
        self.own, self.outer = {}, outer

    def put(self, s, p):
        self.own.setdefault(s, []).append(p)

    def get(self, s):
        return (self.outer.get(s) if self.outer else []) + self.own.get(s, [])

    def __contains__(self, s):
        return s in self.own or bool(self.outer) and s in self.outer


class Writer:
    """the pieces every sink (stream or string) receives on a path"""

    def __init__(self, ctx, opaque, files):
        self.files = files
        self.ctx = ctx
        self.P = ctx.P
        self.opaque = opaque
        self.memo = {}

    def outs(self, f):
        if f['key'] not in self.memo:
            self.memo[f['key']] = self.ctx.run(f, opaque=lambda g: g['key'] != f['key'] and self.opaque(g), merge=False)
        return self.memo[f['key']]

    def path(self, o):
        """{sink: [pieces]}"""
        self.roots = {}
        self.keyof = {}
        return self.events(o.events, Scope())

    def root(self, t, loc=None):
        u = unwrap(t)
        if isinstance(u, tuple) and u and u[0] == 'res' and u[1] in self.roots:
            return self.roots[u[1]]
        if loc is not None:
            v = unwrap(loc)
            if isinstance(v, tuple) and v and v[0] == 'res' and v[1] in self.roots:
                return self.roots[v[1]]
            if isinstance(v, tuple) and v and v[0] in ('var', 'glob', 'sym', 'fld'):
                return v
        return u

    def stream(self, t, loc=None):
        """a local stream, or the one output there is"""
        r = self.root(t, loc)
        if isinstance(r, tuple) and r and r[0] == 'var':
            return r
        if isinstance(r, tuple) and r and r[0] == 'glob' and last(r[1]) in ('cout', 'cerr', 'clog'):
            return r
        return 'OUT'

    def events(self, evs, sinks):
        put = sinks.put
        for e in evs:
            if e.k == 'loop':
                its = [i for i in e.iters if i.kind == 'continue']
                sub = [(self.events(i.events, Scope(sinks)), i) for i in its]
                rep = self.replace_loop(e)
                if rep:
                    put(rep[0], Piece('replace', rep[1:], e.line, e.facts))
                    continue
                for s in sorted({s for d, i in sub for s in d.own}, key=str):
                    put(s, Piece('loop', [(d.own.get(s, []), i) for d, i in sub], e.line, e.facts, ev=e))
            elif e.k == 'decl':
                ty = e.d.get('ty') or ''
                if ty.startswith(STR) and e.d.get('val') is not None:
                    put(e.d['loc'], Piece('set', e.d['val'], e.line, e.facts))
            elif e.k == 'store':
                if e.d['loc'] in sinks and e.d.get('val') is not None:
                    put(e.d['loc'], Piece('set', e.d['val'], e.line, e.facts))
            elif e.k == 'call':
                self.call(e, put, sinks)
        return sinks

    def call(self, e, put, sinks):
        n = last(e.qn).split('<')[0] if not e.qn.endswith('operator<<') else 'operator<<'
        locs = e.d.get('locs') or ()
        obj = e.d.get('obj')
        if n == 'operator<<':
            if obj is not None:
                r = self.stream(obj)
                a = e.args[0] if e.args else None
                if isinstance(a, tuple) and a and (a[0] in ('fn', 'func', 'fun') or 'endl' in str(a) or 'flush' in str(a)):
                    put(r, Piece('lit', '\n' if 'endl' in str(a) else '', e.line) if 'endl' in str(a) or 'flush' in str(a) else Piece('other', 'a manipulator', e.line))
                else:
                    put(r, Piece('num', a, e.line, e.facts))
            else:
                r = self.stream(e.args[0], locs[0] if locs else None)
                for p in self.value(e.args[1], e, sinks, self.argtype(e, 1)):
                    put(r, p)
            self.bind(e, r)
            return
        cls = e.qn.rsplit('::', 1)[0]
        if obj is not None and cls.startswith('std::basic_o') and n in ('put', 'write'):
            r = self.stream(obj)
            if n == 'put':
                for p in self.value(e.args[0], e, sinks, 'char'):
                    put(r, p)
            else:
                put(r, Piece('other', 'what is written by write()', e.line))
            self.bind(e, r)
            return
        if obj is not None and cls.startswith(STR):
            r = self.root(obj)
            if n in ('operator+=', 'append', 'push_back') and len(e.args) == 1:
                for p in self.value(e.args[0], e, sinks, 'char' if n == 'push_back' else self.argtype(e, 0)):
                    put(r, p)
            elif n == 'operator=' or n == 'assign' and len(e.args) == 1:
                put(r, Piece('set', e.args[0], e.line, e.facts))
            elif n == 'replace' and len(e.args) == 3 and e.args[2][:1] == ('str',) and self.found(e.args[0]) and lin_parts(fold(e.args[1])) == (len(self.found(e.args[0])), ()):
                put(r, Piece('replace', (self.found(e.args[0]), e.args[2][1], len(e.args[2][1]), 'once'), e.line, e.facts))
            elif n in ('append', 'insert', 'replace', 'assign', 'erase', 'resize', 'swap', 'clear', 'pop_back'):
                put(r, Piece('clear', None, e.line) if n == 'clear' else Piece('other', 'what %s does' % n, e.line, e.facts))
            if n in ('operator+=', 'append'):
                self.bind(e, r)
            return
        if n == 'replace_all' and e.qn.startswith('boost::') and len(e.args) >= 3:
            r = self.root(e.args[0], locs[0] if locs else None)
            if e.args[1][:1] == ('str',) and e.args[2][:1] == ('str',):
                put(r, Piece('replace', (e.args[1][1], e.args[2][1], len(e.args[2][1])), e.line))
            else:
                put(r, Piece('other', 'what %s does' % n, e.line))
            return
        # a visit or a function of the program that writes by itself
        f = self.P.functions.get(e.d.get('key'))
        if e.d.get('res') is not None:
            self.keyof[e.d['res']] = e.d.get('key')
        if f is not None and f.get('cls') and 'TypeVisitor' in str([f['cls']] + list(self.P.all_bases(f['cls']))) and f['n'] in ('apply', 'dispatch', 'visit_'):
            put('OUT', Piece('visit', e, e.line, e.facts))
            return
        # other functions that take the stream
        for i, a in enumerate(e.args):
            u = unwrap(locs[i]) if i < len(locs) and locs[i] is not None else None
            if u is None or not self.writable(e, i):
                continue
            if 'stream' in self.argtype(e, i):
                put(self.stream(a, locs[i]), Piece('other', 'what %s writes' % e.qn, e.line))
            elif u in sinks:
                put(u, Piece('other', 'what %s writes' % e.qn, e.line))

    def writable(self, e, i):
        n = e.d.get('node') or {}
        pm = n.get('pm', '')
        return i < len(pm) and pm[i] in 'rp'

    def argtype(self, e, i):
        n = e.d.get('node') or {}
        a = n.get('args') or []
        return (a[i].get('t') or a[i].get('ty') or '') if i < len(a) and isinstance(a[i], dict) else ''

    def bind(self, e, r):
        t = e.d.get('res')
        if isinstance(t, tuple) and t[0] == 'res':
            self.roots[t[1]] = r

    def replace_loop(self, e):
        """(sink, from, to, where the search goes on) for a loop that replaces every occurrence"""
        its = [i for i in e.iters if i.kind == 'continue']
        if len(its) != 1 or any(i.kind in ('break', 'return') for i in e.iters):
            return None
        it = its[0]
        reps = [x for x in it.events if x.k == 'call' and x.qn.startswith(STR) and last(x.qn) == 'replace']
        if len(reps) != 1 or len(reps[0].args) != 3 or reps[0].args[2][:1] != ('str',):
            return None
        r = reps[0]
        sink = unwrap(r.d['obj'])
        others = [x for x in it.events if x.k == 'call' and x.qn.startswith(STR) and last(x.qn) in ('operator+=', 'append', 'insert', 'erase', 'operator=', 'clear', 'push_back')]
        if others:
            return None
        c, ts = lin_parts(fold(r.args[1]))
        if ts:
            return None
        pos = r.args[0]
        finds = [x for x in it.events if x.k == 'call' and x.qn.startswith(STR) and last(x.qn) == 'find' and unwrap(x.d.get('obj')) == sink]
        frm = {x.args[0] for x in finds}
        if not frm and reps[0].args[0][0] == 'L' and self.found(e.init.get(reps[0].args[0])):
            frm = {('str', self.found(e.init[reps[0].args[0]]))}
        if len(frm) != 1:
            return None
        frm = frm.pop()
        if frm[0] != 'str' or len(frm[1]) != c:
            return None
        npos = lambda t: any(a[0] == 'eq' and v is False and t in [z[0] for z in lin_parts(a[1])[1]] for a, v in it.facts.items())
        # where the occurrence is from and where the next search starts
        if pos[0] == 'L':
            init = e.init.get(pos)
            nxt = [x for x in it.events if x.k == 'store' and x.d['loc'] == pos[2]]
            if not nxt or not npos(pos):
                # the search is done in the condition: the position is the start
                return None
            new = nxt[-1].d['val']
            ok = self.find_of(init, sink, frm, 0, e)
            k = self.start_of(new, frm, pos)
            if ok and k is not None:
                return (sink, frm[1], r.args[2][1], k)
            if ok and new[0] == 'int' and new[1] in (-1, 2 ** 64 - 1):
                return (sink, frm[1], r.args[2][1], len(r.args[2][1]), 'once')
            return None
        if pos[0] in ('pure', 'res') and any(isinstance(y, str) and y.endswith('::find') for y in pos[1:3]) and npos(pos):
            start = pos[-1]
            if start[0] == 'L' and e.init.get(start) == ('int', 0):
                nxt = [x for x in it.events if x.k == 'store' and x.d['loc'] == start[2]]
                if nxt:
                    c2, ts2 = lin_parts(lin_diff(fold(nxt[-1].d['val']), pos))
                    if not ts2:
                        return (sink, frm[1], r.args[2][1], c2)
            elif start == ('int', 0):
                return (sink, frm[1], r.args[2][1], 0)
        return None

    def found(self, t):
        """the text a position is the first occurrence of"""
        if isinstance(t, tuple) and t[0] in ('pure', 'res') and any(isinstance(y, str) and y.startswith(STR) and y.endswith('::find') for y in t[1:3]):
            w = [x for x in t if isinstance(x, tuple) and x[:1] == ('str',)]
            if len(w) == 1 and t[-1] in (w[0], ('int', 0)):
                return w[0][1]
        return None

    def find_of(self, t, sink, frm, start, e):
        if not (isinstance(t, tuple) and t[0] in ('pure', 'res') and any(isinstance(y, str) and y.endswith('::find') for y in t[1:3])):
            return False
        return frm in t and (t[-1] == ('int', 0) or t[-1] == frm)

    def start_of(self, t, frm, pos):
        if not (isinstance(t, tuple) and t[0] in ('pure', 'res') and any(isinstance(y, str) and y.endswith('::find') for y in t[1:3]) and frm in t):
            return None
        if t[-1] == frm or t[-1] == ('int', 0):
            return 0 if t[-1] == ('int', 0) else None
        c, ts = lin_parts(fold(t[-1]))
        return c if ts == [(pos, 1)] or ts == ((pos, 1),) else None

    def value(self, t, e, sinks, ty=''):
        """pieces of a string valued term"""
        line, facts = e.line, e.facts
        if not isinstance(t, tuple):
            return [Piece('other', 'text that is not known', line)]
        if t[0] == 'str':
            return [Piece('lit', t[1], line, facts)]
        if t[0] == 'int' and ('char' in ty or not ty):
            return [Piece('lit', chr(t[1] & 255), line, facts)]
        c = const_of(t)
        if c is not None and 'char' in ty and '*' not in ty:
            return [Piece('lit', chr(c & 255), line)]
        if t[0] in ('pure', 'res'):
            q = t[1] if t[0] == 'pure' else t[2]
            rest = t[2:] if t[0] == 'pure' else t[3:]
            if q.split('<')[0].endswith('operator+') and len(rest) == 2:
                return self.value(rest[0], e, sinks) + self.value(rest[1], e, sinks)
            if q.endswith('stringstream') or last(q) == 'str' and 'stream' in q:
                s = unwrap(rest[0])
                return list(sinks.get(s))
            if last(q).split('<')[0] in ('to_string',):
                return [Piece('num', t, line)]
            if last(q).split('<')[0] == 'lexical_cast':
                return [Piece('num' if any(b in ty for b in ('int', 'long')) else 'hole', t, line, facts)]
        u = unwrap(t)
        if t[0] in ('res', 'pure'):
            q = t[1] if t[0] == 'pure' else t[2]
            fs = [self.P.functions.get(self.keyof.get(t))]
            if fs[0] and 'body' in fs[0] and self.opaque(fs[0]) and (fs[0].get('file') or '') in self.files and ('basic_string' in fs[0].get('ret', '') or 'char' in fs[0].get('ret', '')):
                return [Piece('call', t, line, facts)]
        if u in sinks:
            p = self.resolve(u, sinks, e)
            if p is not None:
                return p
        ch = ty.replace('const ', '').strip() in ('char', 'unsigned char', 'signed char')
        return [Piece('char' if ch else 'hole', t, line, facts)]

    def resolve(self, u, sinks, e):
        """the content of a string variable: from the last assignment"""
        ps = sinks.get(u)
        if changed(ps):
            return [Piece('other', 'text that is changed in place', e.line)]
        res = []
        for p in ps:
            if p.k == 'set':
                if unwrap(p.v) == u:
                    continue
                res = self.value(p.v, e, Scope())
            elif p.k == 'clear':
                res = []
            elif p.k == 'replace':
                res = [self.replaced(x, p.v) for x in res]
            else:
                res = res + [p]
        return res

    def replaced(self, p, op):
        if p.k == 'lit':
            return Piece('lit', p.v.replace(op[0], op[1]), p.line)
        if p.k in ('hole', 'char'):
            return Piece(p.k, p.v, p.line, p.facts, p.ops + (op,))
        return Piece('other', 'text in which %r is replaced' % op[0], p.line) if p.k != 'num' else p


def fold(t):
    """lengths of literals are numbers"""
    if not isinstance(t, tuple):
        return t
    t = tuple(fold(x) if isinstance(x, tuple) else x for x in t)
    if len(t) == 3 and t[0] == 'pure' and isinstance(t[1], str) and t[1].startswith(STR) and last(t[1]) in ('length', 'size') and isinstance(t[2], tuple) and t[2][:1] == ('str',):
        return ('int', len(t[2][1]))
    if t and t[0] == 'lin':
        c = t[1]; ts = []
        for x, k in t[2]:
            if x[0] == 'int':
                c += k * x[1]
            else:
                ts.append((x, k))
        return ('lin', c, tuple(ts)) if ts else ('int', c)
    return t


def changed(ps):
    return any(p.k == 'other' or p.k == 'loop' and any(changed(x) for x, _i in p.v) for p in ps)


def absent(facts, v):
    """texts the value v is known not to contain"""
    res = set()
    for a, val in facts.items():
        if a[0] != 'eq' or val is not True:
            continue
        for t, k in lin_parts(a[1])[1]:
            if not (isinstance(t, tuple) and t[0] in ('pure', 'res')):
                continue
            q = t[1] if t[0] == 'pure' else t[2]
            rest = t[2:] if t[0] == 'pure' else t[3:]
            if not isinstance(q, str) or not q.startswith(STR) or len(rest) < 2 or rest[0] != v and unwrap(rest[0]) != unwrap(v):
                continue
            if len(rest) > 2 and rest[2] != ('int', 0):
                continue
            n = last(q)
            w = rest[1]
            if w[0] == 'int':
                w = ('str', chr(w[1] & 255))
            if w[0] != 'str':
                continue
            if n == 'find':
                res.add(w[1])
            elif n == 'find_first_of':
                res |= set(w[1])
    return res


def const_of(t):
    if t[0] == 'int':
        return t[1]
    return None


def lin_diff(a, b):
    ca, ta = lin_parts(a); cb, tb = lin_parts(b)
    m = {}
    for t, k in ta:
        m[t] = m.get(t, 0) + k
    for t, k in tb:
        m[t] = m.get(t, 0) - k
    return ('lin', ca - cb, tuple((t, k) for t, k in m.items() if k))


# ---------------------------------------------------------------- the lexer
class Bad(Exception):
    def __init__(self, line, what):
        self.line, self.what = line, what


class Unknown(Bad):
    pass


class State(tuple):
    """(mode, buffer, open elements, element, attributes, attribute name, attribute value, quote)"""
    __slots__ = ()
    F = ('mode', 'buf', 'stack', 'name', 'attrs', 'an', 'av', 'q')

    def __getattr__(self, n):
        return self[State.F.index(n)]

    def but(self, **kw):
        return State(kw.get(n, self[i]) for i, n in enumerate(State.F))

    def shape(self):
        return (self.mode, self.stack, self.name if self.mode != 'content' else '', self.buf, self.q if self.mode == 'val' else '')

    def say(self):
        at = {'content': 'outside tags', 'val': 'in the value of an attribute', 'cdata': 'in a CDATA section', 'aftval': 'in the tag of', 'tag': 'in the tag of', 'name': 'in the name of an element'}.get(self.mode, self.mode)
        if at == 'in the tag of':
            at += ' ' + self.name
        return at + (' inside %s' % '/'.join(self.stack) if self.stack else '')


START = State(('content', '', (), '', (), '', (), ''))


class Lexer:
    def __init__(self, on_element=None):
        self.on_element = on_element

    def open(self, s, empty, line):
        names = [a for a, _v in s.attrs]
        for a in names:
            if names.count(a) > 1:
                raise Bad(line, 'the attribute %s of %s is written twice' % (a, s.name))
        if self.on_element:
            self.on_element(s.stack, s.name, s.attrs, line)
        return s.but(mode='content', stack=s.stack if empty else s.stack + (s.name,), name='', attrs=(), buf='')

    def lit(self, s, text, line):
        for c in text:
            s = self.char(s, c, line)
        return s

    def char(self, s, c, line):
        m = s.mode
        if m == 'content':
            if c == '<':
                return s.but(mode='lt', buf='')
            if c == '&':
                return s.but(mode='ref', buf='')
            if not s.stack and not c.isspace():
                raise Bad(line, 'text %r outside the root element' % c)
            return s
        if m == 'ref' or m == 'vref':
            if c == ';':
                if decode('&%s;' % s.buf, '"') is None:
                    raise Bad(line, '&%s; is not defined' % s.buf)
                return s.but(mode='content' if m == 'ref' else 'val', buf='')
            if not (c.isalnum() or c in '#_'):
                raise Bad(line, 'a & that does not begin an entity')
            return s.but(buf=s.buf + c)
        if m == 'lt':
            if c == '/':
                return s.but(mode='close', buf='')
            if c == '!':
                return s.but(mode='bang', buf='')
            if c == '?':
                return s.but(mode='pi', buf='')
            if NAME0.match(c):
                return s.but(mode='name', name=c, attrs=())
            raise Bad(line, '< followed by %r' % c)
        if m == 'name':
            if NAMEC.match(c):
                return s.but(name=s.name + c)
            if c.isspace():
                return s.but(mode='tag')
            if c == '>':
                return self.open(s, False, line)
            if c == '/':
                return s.but(mode='slash')
            raise Bad(line, '%r in the name of an element' % c)
        if m in ('tag', 'aftval'):
            if c.isspace():
                return s.but(mode='tag')
            if c == '>':
                return self.open(s, False, line)
            if c == '/':
                return s.but(mode='slash')
            if m == 'tag' and NAME0.match(c):
                return s.but(mode='aname', an=c)
            raise Bad(line, '%r after the attributes of %s' % (c, s.name) if m == 'tag' else 'no space between attributes of %s' % s.name)
        if m == 'slash':
            if c == '>':
                return self.open(s, True, line)
            raise Bad(line, '/ in the tag of %s' % s.name)
        if m == 'aname':
            if NAMEC.match(c) and not s.buf:
                return s.but(an=s.an + c)
            if c == '=':
                return s.but(mode='eq', buf='')
            if c.isspace():
                return s.but(buf=' ')
            raise Bad(line, '%r in the name of an attribute of %s' % (c, s.name))
        if m == 'eq':
            if c in '"\'':
                return s.but(mode='val', q=c, av=())
            if c.isspace():
                return s
            raise Bad(line, 'the value of %s is not quoted' % s.an)
        if m == 'val':
            if c == s.q:
                return s.but(mode='aftval', attrs=s.attrs + ((s.an, s.av),), av=(), buf='')
            if c == '<':
                raise Bad(line, '< in the value of %s' % s.an)
            if c == '&':
                return s.but(mode='vref', buf='')
            av = s.av
            av = av[:-1] + (('lit', av[-1][1] + c),) if av and av[-1][0] == 'lit' else av + (('lit', c),)
            return s.but(av=av)
        if m == 'close':
            if c == '>':
                n = s.buf.rstrip()
                if not s.stack or s.stack[-1] != n:
                    raise Bad(line, '</%s> where %s' % (n, '%s is open' % s.stack[-1] if s.stack else 'nothing is open'))
                return s.but(mode='content', stack=s.stack[:-1], buf='')
            if NAMEC.match(c) or c.isspace():
                return s.but(buf=s.buf + c)
            raise Bad(line, '%r in a closing tag' % c)
        if m == 'bang':
            b = s.buf + c
            if b == '--':
                return s.but(mode='comment', buf='')
            if b == '[CDATA[':
                if not s.stack:
                    raise Bad(line, 'CDATA outside the root element')
                return s.but(mode='cdata', buf='')
            if '--'.startswith(b) or '[CDATA['.startswith(b):
                return s.but(buf=b)
            if 'DOCTYPE'.startswith(b):
                raise Unknown(line, 'a document type')
            raise Bad(line, '<!%s' % b)
        if m == 'cdata':
            b = (s.buf + c)[-3:]
            if b == ']]>':
                return s.but(mode='content', buf='')
            return s.but(buf=b if b.endswith(']') else '')
        if m == 'comment':
            b = (s.buf + c)[-3:]
            if b == '-->':
                return s.but(mode='content', buf='')
            if b[:2] == '--' and len(b) == 3:
                raise Bad(line, '-- in a comment')
            return s.but(buf=b if b.endswith('-') else '')
        if m == 'pi':
            b = s.buf + c
            if b.endswith('?>'):
                return s.but(mode='content', buf='')
            return s.but(buf=b)
        raise Unknown(line, m)


# ---------------------------------------------------------------- documents
def char_value(facts, T, c):
    """whether the facts on the character T can hold for the value c: True, False or None when they cannot be judged"""
    res = True
    for a, v in facts.items():
        if a[0] not in ('eq', 'lt', 'le') or not has_sub(a[1], lambda x: x == T):
            if a[0] not in ('eq', 'lt', 'le') and has_sub(a, lambda x: x == T):
                res = None
            continue
        k, ts = lin_parts(a[1])
        if len(ts) != 1 or ts[0][0] != T:
            res = None
            continue
        x = k + ts[0][1] * c
        if (x == 0 if a[0] == 'eq' else x < 0 if a[0] == 'lt' else x <= 0) != v:
            return False
    return res


def tests(ops):
    return [c for c in SPECIAL] + ['x', '\xe9'] + [o[0] for o in ops if len(o[0]) > 1]


class Doc:
    def __init__(self, ctx, files, opaque, visitors):
        self.ctx, self.P = ctx, ctx.P
        self.W = Writer(ctx, opaque, files)
        self.lex = Lexer(self.element)
        self.chars = Chars(ctx.P, files)
        self.visitors = visitors
        self.memo = {}
        self.busy = set()
        self.elements = []
        self.fn = None
        self.holes = 0
        self.said = set()
        self.closing = None
        self.closed = False
        self.facts = {}
        self.texts = []

    def element(self, stack, name, attrs, line):
        if self.closing == (stack, name):
            self.closed = True
            return
        self.elements.append((stack, name, attrs, self.fn, line, self.facts))

    # -------------------------------------------------- reports
    def report(self, b, what='what is written is well formed'):
        f = self.fn
        k = (f['key'], b.line, b.what)
        if k in self.said:
            return
        self.said.add(k)
        if isinstance(b, Unknown):
            self.ctx.unk(self.ctx.where(f, b.line), what, b.what)
        else:
            self.ctx.bad(self.ctx.where(f, b.line), what, b.what)

    # -------------------------------------------------- functions
    def function(self, f, s, string=False, cls=None):
        """states after the function has written, from the state s"""
        k = (f['key'], s.shape(), cls)
        if k in self.busy:
            return {s}
        intag = s.mode in ('tag', 'aftval', 'val', 'aname', 'slash', 'eq', 'name')
        if k not in self.memo:
            self.closed = False
            save = self.closing
            self.closing = (s.stack, s.name) if intag else None
            self.memo[k] = self.compute(f, s.but(attrs=(), av=()) if intag else s, string, cls, k)
            self.closing = save
            if self.closed:
                self.memo[k] = None
        if self.memo[k] is None:
            return self.compute(f, s, string, cls, k)
        res = set()
        for r in self.memo[k]:
            if intag:
                same = r.stack == s.stack and r.name == s.name and r.mode != 'content'
                r = r.but(attrs=s.attrs + r.attrs, av=s.av + r.av if r.mode == 'val' and r.an == s.an and s.mode == 'val' else r.av) if same else r
            res.add(r)
        return res

    def compute(self, f, s, string, cls, k):
        self.busy.add(k)
        save, self.fn = self.fn, f
        self.ctx.functions.add(f['qn'])
        res = set()
        try:
            for o in self.W.outs(f):
                if o.kind in ('throw', 'noreturn'):
                    continue
                scope = self.W.path(o)
                keys = self.W.keyof
                if string:
                    if scope.get('OUT'):
                        raise Unknown(f.get('line'), '%s both writes and returns text' % f['qn'])
                    ps = self.W.value(o.val, Line(f.get('le') or f.get('line'), o.facts), scope, f.get('ret', ''))
                else:
                    ps = scope.get('OUT')
                res |= self.run(ps, {s}, cls, keys)
        except Bad as b:
            self.report(b)
            res = {s}
        finally:
            self.fn = save
            self.busy.discard(k)
        return res

    def run(self, pieces, states, cls, keys):
        for p in pieces:
            states = self.piece(p, states, cls, keys)
            if len(states) > 64:
                raise Unknown(p.line, 'too many forms of what is written')
        return states

    def piece(self, p, states, cls, keys):
        k = p.k
        if k == 'lit':
            self.facts = p.facts
            return {self.lex.lit(s, p.v, p.line) for s in states}
        if k == 'num':
            return {self.number(s, p) for s in states}
        if k in ('hole', 'char'):
            self.holes += 1
            return {self.hole(s, p) for s in states}
        if k == 'call':
            return self.call(p, states, cls, keys)
        if k == 'visit':
            return self.visit(p, states, cls)
        if k == 'loop':
            return self.loop(p, states, cls, keys)
        if k == 'set' or k == 'clear' or k == 'replace':
            raise Unknown(p.line, 'text that is changed after it was written')
        raise Unknown(p.line, '%s is not known' % p.v)

    def number(self, s, p):
        if s.mode == 'val':
            return s.but(av=s.av + (('num', p.v),))
        if s.mode == 'cdata' or s.mode == 'content' and s.stack:
            return s
        raise Bad(p.line, 'a number is written ' + s.say())

    def loop(self, p, states, cls, keys):
        ev = p.ev
        if any(x.k == 'char' for ps, _it in p.v for x in ps):
            for ps, _it in p.v:
                for x in ps:
                    if x.k == 'clear' or x.k == 'set' and isinstance(x.v, tuple) and x.v[:1] == ('str',):
                        raise Bad(x.line, 'a round of the loop drops the text of the characters before')
        self.charloop(p, states)
        seen = {s.shape(): s for s in states}
        todo = set(states)
        for n in range(6):
            new = set()
            for ps, it in p.v:
                for r in self.run(ps, todo, cls, keys):
                    if r.shape() not in seen:
                        if not any(r.stack == s.stack for s in states):
                            raise Bad(p.line, 'a round of the loop starts %s and ends %s' % (sorted(states)[0].say(), r.say()))
                        seen[r.shape()] = r
                        new.add(r)
            if not new:
                break
            todo = new
        else:
            raise Unknown(p.line, 'a loop that never writes the same twice')
        return set(seen.values()) | set(states)

    def charloop(self, p, states):
        """a loop that copies text character by character must write something for each that stands for it"""
        T = {x.v for ps, _it in p.v for x in ps if x.k == 'char'}
        if len(T) != 1:
            return
        T = T.pop()
        for s in states:
            if s.mode not in ('val', 'content', 'cdata'):
                continue
            for c in tests(()):
                for ps, it in p.v:
                    v = ord(c) if ord(c) < 128 else ord(c) - 256
                    ok = char_value(it.facts, T, v)
                    if ok is False:
                        continue
                    if any(x.k not in ('lit', 'char') for x in ps):
                        continue
                    text = ''.join(x.v if x.k == 'lit' else c for x in ps)
                    self.judge(s, c, text, ps[0].line if ps else p.line, ok is None)

    def judge(self, s, c, text, line, unsure=False):
        """text is what is written for c"""
        if s.mode == 'val':
            got = decode(text, s.q)
        elif s.mode == 'cdata':
            got = cdata_text(text)
        else:
            got = decode(text, None)
            if c == '\r' and got == '\n':
                got = '\r'              # line ends in the text of an element are the reader's
        if got == c:
            return
        what = 'a %r in the text is written as %r, which %s %s' % (c, text, 'is malformed' if got is None else 'is read back as %r' % got, s.say())
        raise (Unknown if unsure else Bad)(line, what)

    def hole(self, s, p):
        m = s.mode
        chars = self.charset(p)
        if chars is not None and not p.ops:
            if all(c.isspace() for c in chars) and m in ('content', 'tag', 'cdata', 'comment', 'aftval'):
                return s
            if m == 'val' and not chars & set('<&\t\n\r' + s.q):
                return s.but(av=s.av + (('text', p.v),))
            if m in ('content', 'cdata') and s.stack and not chars & set('<&>]'):
                return s
        if m in ('content', 'cdata'):
            self.texts.append((s.stack, m, self.fn, p.line))
        text = show(p.v)[:60]
        if m not in ('val', 'content', 'cdata') or m == 'content' and not s.stack:
            raise Bad(p.line, 'the text %s is written %s' % (text, s.say()))
        done = s.but(av=s.av + (('text', p.v),)) if m == 'val' else s
        if p.k == 'char':
            for c in tests(()):
                v = ord(c) if ord(c) < 128 else ord(c) - 256
                ok = char_value(p.facts, p.v, v)
                if ok is not False:
                    self.judge(s, c, c, p.line, ok is None)
            return done
        if p.ops:
            for o in p.ops:
                if not isinstance(o[2], int) or o[2] > len(o[1]) or o[0] in o[1][o[2]:]:
                    raise Bad(p.line, 'the search for %r goes on %s' % (o[0], 'in its own replacement' if isinstance(o[2], int) and o[2] <= len(o[1]) else 'past text that was not looked at'))
        out = absent(p.facts, p.v)
        for c in tests(p.ops) + ([']]>'] if m == 'cdata' else []) + [o[0] * 2 for o in p.ops]:
            if c in out or m == 'content' and c in '>\'"' and not p.ops or m == 'val' and not p.ops and c in ">'x\xe9" and c != s.q:
                continue
            t = c
            for o in p.ops:
                t = t.replace(o[0], o[1], 1 if 'once' in o[3:] else -1)
            if m == 'cdata' and c == ']]>' and t == c:
                raise Bad(p.line, 'the text %s is written %s without the end marker being replaced' % (text, s.say()))
            if c in 'x\xe9' and not p.ops:
                continue
            if not p.ops and m != 'cdata':
                raise Bad(p.line, 'the text %s is written %s without the special characters being replaced' % (text, s.say()))
            self.judge(s, c, t, p.line)
        return done

    def charset(self, p):
        u = unwrap(p.v)
        if isinstance(u, tuple) and u[0] == 'fld':
            for n in set(self.chars.parent) | set(self.chars.writes):
                if n[0] == 'fld' and n[2] == u[2] and n[1] == (self.fn.get('cls') or ''):
                    return self.chars.of_node(n)
        return None

    def call(self, p, states, cls, keys):
        key = keys.get(p.v)
        f = self.P.functions.get(key)
        if f is None or 'body' not in f:
            return {self.hole(s, Piece('hole', p.v, p.line, p.facts)) for s in states}
        res = set()
        for s in states:
            for r in self.function(f, s, string=True):
                if r.stack != s.stack:
                    self.report(Bad(p.line, 'what %s returns starts %s and ends %s' % (f['qn'], s.say(), r.say())))
                    r = s
                if s.mode == 'val' and r.mode == 'val' and f['params']:
                    r = s.but(av=s.av + (('text', p.v),))
                res.add(r)
        return res

    def visit(self, p, states, cls):
        e = p.v
        res = set()
        for s in states:
            fs = self.visitors(e, cls, self.fn)
            if not fs:
                raise Unknown(p.line, 'a visit by %s' % e.qn)
            for f, c in fs:
                for r in self.function(f, s, cls=c):
                    if r.shape() != s.shape():
                        save, self.fn = self.fn, f
                        self.report(Bad(f.get('line'), '%s starts %s and ends %s' % (f['qn'], s.say(), r.say())))
                        self.fn = save
            res.add(s)
        return res


class Line:
    def __init__(self, line, facts):
        self.line, self.facts = line, facts


def document(ctx):
    """the Doc of the type library exporter, after every document it can write was looked at"""
    if getattr(ctx.P, '_tlbdoc', None) and ctx.P._tlbdoc[0] is ctx:
        return ctx.P._tlbdoc[1]
    P = ctx.P
    inlang = lambda f: (f or '').startswith('lang/tlb/')
    files = {f['file'] for f in P.functions.values() if inlang(f.get('file'))}
    vis = [qn for qn, r in sorted(P.records.items()) if 'Typelib::TypeVisitor' in P.all_bases(qn) and inlang(r.get('file'))]
    exps = [qn for qn, r in sorted(P.records.items()) if 'Typelib::Exporter' in P.all_bases(qn) and inlang(r.get('file'))]
    ctx.need(len(exps) == 1, 'the type library exporter was not found')
    ctx.need(vis, 'no visitor of the type library exporter found')

    def opaque(g):
        if g['qn'].startswith('Typelib::'):
            return g.get('cls') == 'Typelib::TypeVisitor' and g['n'] in ('apply', 'dispatch') or 'MetaData::' in g['qn'] or 'RegistryIterator' in g['qn'] or g['qn'].startswith('Typelib::Registry')
        if g.get('cls') in vis and g['n'] in ('visit_', 'apply', 'dispatch'):
            return True
        return inlang(g.get('file')) and 'basic_string' in g.get('ret', '') and '&' not in g.get('ret', '')

    from rules.recursion import Graph
    g = Graph.__new__(Graph); g.P = P; g.bases = {}
    handlers = [m for m in P.records['Typelib::TypeVisitor']['methods'] if m['n'] == 'visit_' and m.get('virt')]

    def visitors(e, cls, fn):
        if cls is None:
            if len(vis) != 1:
                return []
            cls = vis[0]
        f = P.functions.get(e.d['key'])
        if f['n'] in ('apply', 'dispatch'):
            res = []
            for m in handlers:
                h = P.functions.get(m['key'])
                if h is None or len(h['params']) != 1:
                    continue
                k = P.functions.get(g.lookup(cls, m['key']))
                if k is not None and 'body' in k:
                    res.append((k, cls))
            return res
        k = P.functions.get(g.lookup(cls, e.d['key'])) if e.d.get('virt') else f
        return [(k, cls)] if k is not None and 'body' in k else []

    doc = Doc(ctx, files, opaque, visitors)
    rec = P.records[exps[0]]

    def method(n):
        ms = [f for m in rec['methods'] for f in [P.functions.get(m['key'])] if f and m['n'] == n and 'body' in f and 'basic_ostream' in str(f['params'][:1])]
        if not ms:
            ms = [f for f in P.by_qn.get('Typelib::Exporter::' + n, []) if 'body' in f and 'basic_ostream' in str(f['params'][:1])]
        return ms
    states = {START}
    doc.fn = None
    for f in method('begin'):
        states = doc.function(f, START)
    ctx.need(states, 'nothing begins a document')
    saves = method('save')
    ctx.need(saves, 'nothing saves a type')
    for f in saves:
        for s in list(states):
            for r in doc.function(f, s):
                if r.shape() != s.shape():
                    doc.fn = f
                    doc.report(Bad(f.get('line'), '%s starts %s and ends %s' % (f['qn'], s.say(), r.say())))
    for f in method('end'):
        for s in states:
            for r in doc.function(f, s):
                if r.mode != 'content' or r.stack:
                    doc.fn = f
                    doc.report(Bad(f.get('line'), 'a document ends ' + r.say()))
    P._tlbdoc = (ctx, doc)
    return doc


def well_formed(ctx):
    ctx.rule = 'what is written is well formed for any text'
    doc = document(ctx)
    n = 0
    for stack, name, attrs, f, line, _facts in doc.elements:
        n += 1
        ctx.ok(ctx.where(f, line), 'the element %s is written well formed, with its text escaped' % '/'.join(stack + (name,)))
    ctx.need(n, 'no element is written')


CDATA = 4          # XML_CDATA_SECTION_NODE


def whole_values(ctx):
    """the reader joins the sections a value was split into"""
    ctx.rule = 'the sections of a value are put together'
    P = ctx.P
    n = 0
    for f in sorted(P.functions.values(), key=lambda g: g['qn']):
        if not (f.get('file') or '').startswith('lang/tlb/') or 'body' not in f:
            continue
        calls = {last(x.get('qn') or '').split('<')[0] for x in walk_ast(f['body']) if x['k'] == 'call'}
        if not any(x['k'] == 'call' and (x.get('qn') or '') == 'Typelib::MetaData::add' for x in walk_ast(f['body'])):
            continue
        wh = ctx.where(f)
        outs = ctx.run(f, opaque=lambda g: g['key'] != f['key'] and (g['n'] in ('getStringAttribute', 'getAttribute') or 'MetaData::' in g['qn']), merge=False)
        loops = []

        def look(evs):
            for i, e in enumerate(evs):
                if e.k == 'loop':
                    its = [it for it in e.iters if any(a[0] == 'eq' and v and cdata_fact(a[1]) for a, v in it.facts.items())]
                    if its:
                        loops.append((e, its, evs[i + 1:]))
                    for it in e.iters:
                        look(it.events)
        for o in outs:
            if o.kind not in ('throw', 'noreturn'):
                look(o.events)
        if not loops:
            if calls & {'xmlNodeGetContent', 'xmlNodeListGetString'}:
                n += 1
                ctx.ok(wh, 'the value is read as a whole')
            else:
                ctx.unk(wh, 'how values are read', 'no loop over the sections')
            continue
        n += 1
        kept = False
        for e, its, after in loops:
            here = ctx.where(f, e.line)
            vs = set()
            for it in its:
                if it.kind in ('break', 'return'):
                    ctx.bad(here, 'every section of a value is read', 'the loop ends with the first section')
                    continue
                if it.kind != 'continue':
                    continue
                if any(x.k == 'call' and x.qn == 'Typelib::MetaData::add' for x in it.events):
                    ctx.bad(here, 'the sections of a value make one value', 'each section is added as a value of its own')
                    kept = True
                    continue
                app = [x for x in it.events if x.k == 'call' and x.qn.startswith(STR) and last(x.qn) in ('operator+=', 'append') and has_sub(x.args, lambda t: t[:1] == ('fld',) and t[2] == 'content')]
                null = any(a[0] == 'eq' and v and has_sub(a[1], lambda t: t[:1] == ('fld',) and t[2] == 'content') for a, v in it.facts.items())
                if app:
                    vs.add(unwrap(app[0].d['obj']))
                elif not null:
                    ctx.bad(here, 'every section of a value is kept', 'a section is passed over, or replaces what was read before it')
                else:
                    ctx.ok(here, 'a section without text adds none')
            if vs and any(x.k == 'call' and x.qn == 'Typelib::MetaData::add' and any(has_sub(a, lambda t: t in vs) for a in x.args) for x in after):
                kept = True
                ctx.ok(here, 'the sections are joined and added as one value')
        ctx.check(kept, wh, 'the joined text becomes the value', 'no path adds it')
    ctx.need(n, 'nothing reads metadata')


def cdata_fact(t):
    c, ts = lin_parts(t)
    return abs(c) == CDATA and len(ts) == 1 and has_sub(ts[0][0], lambda x: x[:1] == ('fld',) and x[2] == 'type')
