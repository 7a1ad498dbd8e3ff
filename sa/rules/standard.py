"""H01: every throw is of a type that can be caught as std::exception, and nothing
escapes from a destructor or another function that promises not to throw.
"""
from core import *
from rules.owners import last

# library functions that throw on an argument or state, rather than only when memory runs out
THROWERS = {'at', 'lexical_cast', 'stoi', 'stol', 'stoul', 'stoll', 'stoull', 'stod', 'stof', 'any_cast', 'get_future', 'to_string_throw', 'substr', 'bad_cast', 'throw_exception', 'regex_match', 'rethrow_exception', 'terminate'}
SYSTEM = ('std::', 'boost::', '__gnu_cxx::')


def paths_to(P, t, target, via=()):
    """(number of base subobjects of type target, all reached publicly) counting virtual bases once"""
    virt = set(); n = 0; pub = True
    todo = [(t, True)]
    unknown = False
    while todo:
        c, p = todo.pop()
        if c == target:
            n += 1
            pub = pub and p
            continue
        r = P.records.get(c)
        if not r:
            if target in P.all_bases(c):
                n += 1
                pub = pub and p
            continue
        for b in r['bases']:
            if b.get('virt'):
                if b['n'] in virt:
                    continue
                virt.add(b['n'])
            todo.append((b['n'], p and b.get('acc', 0) == 0))
    return n, pub


def thrown(f):
    for n in walk_ast([f['body'], f.get('inits')]):
        if n['k'] == 'throw' and n.get('a') is not None:
            yield n


def ttype(a):
    t = a.get('ty') or a.get('cls') or a.get('t') or ''
    return t.replace('const ', '').rstrip('& ').strip()


def standard(ctx):
    ctx.rule = 'what is thrown is a standard exception'
    P = ctx.P
    E = 'std::exception'
    n = 0
    for f in P.functions.values():
        if 'body' not in f:
            continue
        for x in thrown(f):
            n += 1
            ctx.functions.add(f['qn'])
            t = ttype(x['a'])
            wh = ctx.where(f, x.get('l') or x['a'].get('l'))
            text = 'an exception of type %s can be caught as std::exception' % t
            if t == E:
                ctx.ok(wh, text)
                continue
            if t in P.records or t.startswith(SYSTEM):
                k, pub = paths_to(P, t, E)
                if k == 1 and pub:
                    ctx.ok(wh, text)
                elif k == 0:
                    ctx.bad(wh, text, 'it does not derive from it')
                elif not pub:
                    ctx.bad(wh, text, 'it derives from it privately')
                else:
                    ctx.bad(wh, text, 'it derives from it %d times, which makes the conversion ambiguous' % k)
            elif any(t.startswith(b) for b in ('char', 'int', 'unsigned', 'long', 'bool', 'double')) or '*' in t or '[' in t:
                ctx.bad(wh, text, 'it is not of a class type')
            else:
                ctx.unk(wh, text, 'the type is not known')
    ctx.need(n, 'nothing is thrown anywhere')
    # classes meant as exceptions, whether thrown at the moment or not, are left alone: only what is thrown counts


def catches_all(t):
    """the try statement handles every exception without letting one out"""
    for h in t.get('h', t.get('handlers', [])):
        if h.get('ct') in (None, '', '...', 'std::exception') and not any(x['k'] == 'throw' for x in walk_ast(h)):
            return True
    return False


class Throws:
    def __init__(self, P):
        self.P = P
        self.memo = {}

    def of(self, key, stack=()):
        """a reason why the function may throw, or None"""
        if key in self.memo:
            return self.memo[key]
        if key in stack:
            return None
        f = self.P.functions.get(key)
        if not f or 'body' not in f:
            return None
        r = self.node([f['body'], f.get('inits')], f, stack + (key,))
        if not stack or r:
            self.memo[key] = r
        return r

    def node(self, n, f, stack):
        if isinstance(n, list):
            for v in n:
                r = self.node(v, f, stack)
                if r:
                    return r
            return None
        if not isinstance(n, dict):
            return None
        k = n.get('k')
        if k in ('lambda', 'sizeof', 'typeid'):
            return None
        if k == 'try' and catches_all(n):
            for h in n.get('h', n.get('handlers', [])):
                r = self.node([v for v in h.values() if isinstance(v, (dict, list))], f, stack)
                if r:
                    return r
            return None
        if k == 'throw':
            return '%s throws%s' % (f['qn'], ' ' + ttype(n['a']) if n.get('a') else '')
        if k in ('call', 'ctor') and n.get('fn'):
            r = self.callee(n, f, stack)
            if r:
                return r
        if k == 'del' and n.get('dtor'):
            pass                     # destructors are looked at on their own
        for v in n.values():
            if isinstance(v, (dict, list)):
                r = self.node(v, f, stack)
                if r:
                    return r
        return None

    def callee(self, n, f, stack):
        P = self.P
        keys = [n['fn']]
        if n.get('virt'):
            keys = [k if isinstance(k, str) else k['key'] for k in P.all_overriders(n['fn'])] or keys
            if n['fn'] not in keys:
                keys.append(n['fn'])
        for k in keys:
            g = P.functions.get(k)
            if g is None or 'body' not in g:
                if (n.get('qn') or '').startswith(SYSTEM) and last(n['qn']).split('<')[0] in THROWERS:
                    return '%s calls %s' % (f['qn'], n['qn'])
                continue
            if g.get('noexcept'):
                continue             # looked at on its own
            r = self.of(k, stack)
            if r:
                return r
        return None


def no_escape(ctx):
    ctx.rule = 'nothing escapes from a function that promises not to throw'
    P = ctx.P
    T = Throws(P)
    n = 0
    for f in sorted(P.functions.values(), key=lambda g: g['qn']):
        if 'body' not in f or not (f.get('noexcept') or f.get('dtor')):
            continue
        n += 1
        ctx.functions.add(f['qn'])
        r = T.node([f['body'], f.get('inits')], f, (f['key'],))
        wh = ctx.where(f)
        text = 'no exception escapes from %s' % f['qn']
        if not r:
            ctx.ok(wh, text)
            continue
        try:
            outs = [o for o in ctx.run(f, merge=False) if o.kind == 'throw']
            if not outs:
                # a throwing library function that nothing the function looks at could rule out
                outs = r.startswith(f['qn'] + ' calls ') and not any(
                    x['k'] in ('if', 'cond', 'for', 'while', 'do', 'switch', 'try') or x['k'] == 'bin' and x.get('op') in ('&&', '||')
                    for x in walk_ast(f['body']))
        except Overflow:
            ctx.unk(wh, text, '%s, on a path that was not followed' % r)
            continue
        if outs:
            ctx.bad(wh, text, r)
        else:
            ctx.unk(wh, text, '%s, but no path was found on which it escapes' % r)
    ctx.need(n, 'no destructor found')
