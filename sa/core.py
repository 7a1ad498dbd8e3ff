"""Bookkeeping of obligations: every rule states what it examined and what it concluded."""
from prog import AnalysisBroken
from flow import *


class Ctx:
    def __init__(self, prog, pid, tier):
        self.P = prog
        self.pid = pid
        self.tier = tier
        self.obs = []          # (rule, where, text, verdict, detail)
        self.functions = set()
        self.paths = 0
        self.notes = []
        self.rule = '?'
        self.engines = []

    # verdicts -------------------------------------------------------
    def ok(self, where, text):
        self.obs.append((self.rule, where, text, 'ok', ''))

    def bad(self, where, text, detail=''):
        self.obs.append((self.rule, where, text, 'bad', detail))

    def unk(self, where, text, detail=''):
        self.obs.append((self.rule, where, text, 'unknown', detail))

    def check(self, cond, where, text, detail=''):
        """cond True/False/None"""
        (self.ok if cond else self.unk if cond is None else self.bad)(where, text, *([] if cond else [detail]))
        return cond

    def need(self, cond, text):
        if not cond:
            raise AnalysisBroken(text)

    # program access -------------------------------------------------
    def where(self, f, line=None):
        return '%s:%s %s' % (f['file'], line or f['line'], f['qn'])

    def at(self, ev):
        return '%s:%s %s' % (ev.file, ev.line, ev.fn)

    def fn(self, qn, pred=None, body=True):
        """the functions of that qualified name that have a body"""
        res = [f for f in self.P.by_qn.get(qn, []) if (not body or 'body' in f) and (pred is None or pred(f))]
        return res

    def one(self, qn, pred=None):
        r = self.fn(qn, pred)
        if len(r) != 1:
            raise AnalysisBroken('%d definitions of %s found, 1 expected' % (len(r), qn))
        return r[0]

    def engine(self, **kw):
        en = Engine(self.P, **kw)
        self.engines.append(en)
        return en

    def run(self, f, **kw):
        runkw = {k: kw.pop(k) for k in ('args', 'this', 'facts') if k in kw}
        en = self.engine(**kw)
        outs = en.run(f, **runkw)
        self.functions.add(f['qn'])
        self.paths += len(outs)
        self.last = en
        return outs

    def stats(self):
        fs = set(self.functions)
        for en in self.engines:
            for k in en.inlined:
                f = self.P.functions.get(k)
                if f:
                    fs.add(f['qn'])
        return fs


def eventsof(outs, kinds=None, deep=True):
    """all events of a set of paths, entering loop iterations -> (event, path, loops)"""
    seen = set()

    def walk(o, loops):
        for e in o.events:
            if (id(e), len(loops)) in seen:
                continue
            seen.add((id(e), len(loops)))
            if kinds is None or e.k in kinds:
                yield e, o, loops
            if deep and e.k in ('loop', 'loop0'):
                for i in e.iters:
                    for x in walk(i, loops + (e,)):
                        yield x
    for o in outs:
        for x in walk(o, ()):
            yield x


def flat_events(o):
    """events of one path, loop iterations expanded in place as ('iter', loop, [outs]) entries"""
    return o.events


def fact_ok(facts, m):
    """are the facts consistent after substituting terms? False = contradictory"""
    new = {}
    for a, v in facts.items():
        if a[0] in ('eq', 'lt'):
            d = subst(a[1], m)
            at, p = cnorm(('cmp', '==' if a[0] == 'eq' else '<', d, ZERO))
            if at[0] == 'true':
                if p != v:
                    return False
                continue
            new[at] = (v == p)
    return True


def call_events(o, *names):
    return [e for e in o.events if e.k == 'call' and sq(e.qn) in names]


def loops_of(outs):
    res = {}
    for e, o, l in eventsof(outs, ('loop',)):
        res.setdefault(id(e), e)
    return list(res.values())


def base_names(P, cls):
    """all base classes, transitively"""
    res = set(); todo = [cls]
    while todo:
        c = todo.pop()
        r = P.records.get(c)
        if not r:
            continue
        for b in r['bases']:
            if b['n'] not in res:
                res.add(b['n']); todo.append(b['n'])
    return res


def walk_ast(n):
    """all nodes of an extracted AST"""
    if isinstance(n, dict):
        if 'k' in n:
            yield n
        for v in n.values():
            if isinstance(v, (dict, list)):
                for x in walk_ast(v):
                    yield x
    elif isinstance(n, list):
        for v in n:
            for x in walk_ast(v):
                yield x


def callers_of(P):
    """{function key: keys of the functions that call it}, and the keys of functions used in another way than being called"""
    if getattr(P, '_callers', None) is None:
        calls, taken = {}, set()
        for f in P.functions.values():
            for n in walk_ast([f.get('body'), f.get('inits')]):
                if n['k'] in ('call', 'ctor') and n.get('fn'):
                    calls.setdefault(n['fn'], set()).add(f['key'])
                if n['k'] == 'ref' and n.get('dk') == 'func' or n['k'] == 'memptr':
                    taken.add(n.get('d') or n.get('fn'))
        P._callers = calls, taken
    return P._callers


def part_of_callers(P, f):
    """the function is only called from the code that is analysed, directly: it can be judged together with its callers"""
    calls, taken = callers_of(P)
    if f['key'] not in calls or f['key'] in taken or f['key'] in calls[f['key']]:
        return False
    m = P.method.get(f['key'])
    if m:
        return m[1].get('acc') == 2 and not m[1].get('virt') or bool(f.get('internal')) and not m[1].get('virt')
    return bool(f.get('internal'))
