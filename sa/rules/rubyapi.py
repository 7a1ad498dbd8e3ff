"""J01: what the Ruby extension tells the interpreter about its functions is what they are.

Registrations lose the type of the function, and variadic functions of the
interpreter are told by a number or a string how many arguments follow: the
compiler checks neither.
"""
import re
from core import *
from rules.narrow import ruby_methods, const_of
from rules.owners import last

VALUES = ('unsigned long', 'VALUE')
# functions told how many arguments follow -> index of the number
COUNTED = {'rb_funcall': 2, 'rb_yield_values': 0, 'rb_ary_new_from_args': 0, 'rb_ary_new3': 0}
# functions given a format -> index of the format
FORMATS = {'rb_raise': 1, 'rb_warn': 0, 'rb_warning': 0, 'rb_fatal': 0, 'rb_bug': 0, 'rb_sprintf': 0, 'rb_str_catf': 1, 'rb_name_error': 1, 'rb_loaderror': 0, 'rb_enc_raise': 2,
           'printf': 0, 'fprintf': 1, 'sprintf': 1, 'snprintf': 2}


def ext(P):
    return [f for f in P.functions.values() if 'body' in f and f['file'].startswith('bindings/ruby/ext')]


def name(x):
    return x.get('n') or last(x.get('qn') or '')


def through(n):
    """what is behind casts and &"""
    while isinstance(n, dict) and (n['k'] == 'cast' or n['k'] == 'un' and n.get('op') in ('&', '__extension__')):
        n = n['a']
    return n


def registered(ctx):
    ctx.rule = 'methods take the arguments they are registered with'
    P = ctx.P
    regs = ruby_methods(P)
    ctx.need(len(regs) >= 40, 'only %d methods are registered with Ruby' % len(regs))
    for key, rs in sorted(regs.items()):
        f = P.functions.get(key)
        if f is None:
            continue
        ts = [p['t'] for p in f['params']]
        for c, kind, n in rs:
            what = 'the function takes what Ruby passes'
            if n is None:
                ctx.unk(ctx.where(f), what, 'the number of arguments given to the registration is not a constant')
                continue
            if n >= 0:
                good = len(ts) == n + 1 and all(t in VALUES for t in ts)
                say = 'registered with %d arguments' % n
            elif n == -1:
                good = len(ts) == 3 and ts[0] == 'int' and re.sub(r'\bconst\b|\s', '', ts[1]) in ('unsignedlong*', 'VALUE*') and ts[2] in VALUES
                say = 'registered as taking any number of arguments'
            else:
                good = n == -2 and len(ts) == 2 and all(t in VALUES for t in ts)
                say = 'registered as taking a list'
            ctx.check(good, ctx.where(f), what, '%s, but it is declared with (%s)' % (say, ', '.join(ts)))
    # functions handed to the interpreter in other ways
    for f in ext(P):
        for x in walk_ast(f['body']):
            if x['k'] != 'cast' or x.get('ck') == 'implicit' or '(*)(' not in x['t']:
                continue
            r = through(x)
            if r.get('k') != 'ref' or r.get('dk') != 'func' or r.get('d') not in P.functions:
                continue
            g = P.functions[r['d']]
            m = re.search(r'\(\*\)\((.*)\)$', x['t'])
            if not m or m.group(1).strip() == '...':
                continue        # a registration: above
            n = 0 if m.group(1).strip() in ('', 'void') else len(split_commas(m.group(1)))
            ctx.check(len(g['params']) == n, ctx.where(f, x['l']), 'the function takes what it is called with', '%s is called with %d arguments and takes %d' % (g['n'], n, len(g['params'])))


def split_commas(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '(<[':
            d += 1
        elif ch in ')>]':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur); cur = ''
        else:
            cur += ch
    return out + [cur]


def scan_counts(fmt):
    """arguments rb_scan_args fills in, least and most arguments accepted"""
    m = re.fullmatch(r'(\d?)(\d?)(\*?)(\d?)(:?)(&?)', fmt)
    if not m:
        return None
    a, b, s, t, k, blk = m.groups()
    n = sum(int(x) for x in (a, b, t) if x) + len(s) + len(k) + len(blk)
    lo = int(a or 0) + int(t or 0)
    hi = None if s else lo + int(b or 0)
    return n, lo, hi


def text(n):
    n = through(n)
    return n['v'] if isinstance(n, dict) and n.get('k') == 'str' else None


def argument_reads(ctx):
    ctx.rule = 'only arguments that were passed are read'
    P = ctx.P
    regs = ruby_methods(P)
    todo = [P.functions[k] for k, rs in sorted(regs.items()) if k in P.functions and any(n == -1 for c, kd, n in rs) and len(P.functions[k]['params']) == 3]
    ctx.need(todo, 'no method takes any number of arguments')
    for f in todo:
        argc, argv = ('sym', f['params'][0]['n']), ('sym', f['params'][1]['n'])

        counted = {c.get('fn') for c in walk_ast(f['body']) if c['k'] == 'call' and any(y['k'] == 'ref' and y.get('n') == argc[1] for a in c['args'] for y in walk_ast(a))}

        def small(g):
            return (any('unsigned long *' in p['t'] for p in g['params']) or g['key'] in counted) and 'body' in g
        outs = ctx.run(f, opaque=lambda g: not small(g), merge=False, events_deref=True)
        verdict = {}

        def walk(events, scan):
            for e in events:
                if e.k == 'call':
                    n = last(e.d.get('qn') or '') or (name(e.node) if e.node else '')
                    if n == 'rb_scan_args' and e.node is not None:
                        s = text(e.node['args'][2]) if len(e.node['args']) > 2 else None
                        c = scan_counts(s) if s is not None else None
                        if c:
                            scan = max(scan, c[1])
                    elif n == 'rb_check_arity' and e.node is not None:
                        k = const_of(e.node['args'][1])
                        scan = max(scan, k or 0)
                elif e.k == 'deref':
                    k, ts = lin_parts(e.ptr)
                    ts = dict(ts)
                    if ts.pop(argv, 0) != 1:
                        continue
                    verdict.setdefault(e.line, []).append(inside(k, ts, e.facts, argc, scan))
                elif e.k in ('loop', 'loop0'):
                    for i in e.iters:
                        walk(i.events, scan)
        for o in outs:
            walk(o.events, 0)
        for line, vs in sorted(verdict.items()):
            ctx.check(all(vs), ctx.where(f, line), 'the argument was passed', 'a path reads it without having looked at the number of arguments')
        ctx.ok(ctx.where(f), 'the arguments read were passed')


def inside(k, ts, facts, argc, lo):
    """is index k + ts below the number of arguments?"""
    lt = dict(ts)
    lo = max(lo, 0)
    banned = set()
    for a, v in facts.items():
        c, t = lin_parts(a[1])
        t = dict(t)
        m = t.pop(argc, None)
        if m is None:
            continue
        if not t:
            if a[0] == 'eq':
                if v:
                    lo = max(lo, -c * m)
                else:
                    banned.add(-c * m)
            elif a[0] == 'lt':
                # c + m*argc < 0
                if m == 1 and not v:
                    lo = max(lo, -c)
                elif m == -1 and v:
                    lo = max(lo, c + 1)
        elif a[0] == 'lt':
            # index - argc < 0
            if m == -1 and v and t == lt and c >= k:
                return True
            if m == 1 and not v and {x: -y for x, y in t.items()} == lt and -c > k:
                return True
    while lo in banned:
        lo += 1
    if lt == {argc: 1}:
        return k < 0 and lo + k >= 0        # counted from the last one
    return not lt and k < lo


def told(ctx):
    ctx.rule = 'variadic functions get what they are told'
    P = ctx.P
    n = 0
    for f in ext(P):
        for x in walk_ast(f['body']):
            if x['k'] != 'call':
                continue
            q = name(x)
            args = x.get('args') or []
            if q in COUNTED and len(args) > COUNTED[q]:
                n += 1
                i = COUNTED[q]
                c = const_of(args[i])
                if c is None:
                    ctx.unk(ctx.where(f, x['l']), '%s gets the arguments it is told' % q, 'the number is not a constant')
                else:
                    ctx.check(len(args) == i + 1 + c, ctx.where(f, x['l']), '%s gets the arguments it is told' % q, 'it is told %d and given %d' % (c, len(args) - i - 1))
            elif q == 'rb_scan_args' and len(args) > 2:
                n += 1
                s = text(args[2])
                c = scan_counts(s) if s is not None else None
                if c is None:
                    ctx.unk(ctx.where(f, x['l']), 'rb_scan_args gets the variables it fills in', 'the format was not understood')
                else:
                    ctx.check(len(args) == 3 + c[0], ctx.where(f, x['l']), 'rb_scan_args gets the variables it fills in', 'the format "%s" fills in %d, and %d are given' % (s, c[0], len(args) - 3))
            elif q in FORMATS and len(args) > FORMATS[q]:
                n += 1
                i = FORMATS[q]
                s = text(args[i])
                if s is None:
                    ctx.bad(ctx.where(f, x['l']), '%s gets the arguments of its format' % q, 'the format is not a constant: any %% in it is taken as an argument') if len(args) == i + 1 else ctx.unk(ctx.where(f, x['l']), '%s gets the arguments of its format' % q, 'the format is not a constant')
                    continue
                want = conversions(s)
                got = [a.get('t') or '' for a in args[i + 1:]]
                if len(want) > len(got):
                    ctx.bad(ctx.where(f, x['l']), '%s gets the arguments of its format' % q, '"%s" takes %d, and %d are given' % (s, len(want), len(got)))
                    continue
                wrong = [(w, g) for w, g in zip(want, got) if (w in 'sp') != pointer(g)]
                ctx.check(not wrong, ctx.where(f, x['l']), '%s gets the arguments of its format' % q, '%%%s is given %s' % wrong[0] if wrong else '')
    ctx.need(n >= 20, 'only %d variadic calls were found' % n)


def pointer(t):
    t = t.strip()
    return t.endswith(('*', '* const', ']')) or '(*)' in t


def conversions(s):
    """conversion letters of a format, * as d"""
    out = []
    for m in re.finditer(r'%(?:%|([-+ #0]*)(\*|\d*)(?:\.(\*|\d*))?(?:hh|h|ll|l|q|j|z|t|L)*([a-zA-Z]))', s):
        if m.group(0) == '%%':
            continue
        if m.group(2) == '*':
            out.append('d')
        if m.group(3) == '*':
            out.append('d')
        out.append(m.group(4))
    return out


# ---- J02: numbers

RANGE = {'signed char': (-2**7, 2**7 - 1), 'char': (-2**7, 2**7 - 1), 'unsigned char': (0, 2**8 - 1), 'short': (-2**15, 2**15 - 1), 'unsigned short': (0, 2**16 - 1),
         'int': (-2**31, 2**31 - 1), 'unsigned int': (0, 2**32 - 1), 'long': (-2**63, 2**63 - 1), 'unsigned long': (0, 2**64 - 1),
         'long long': (-2**63, 2**63 - 1), 'unsigned long long': (0, 2**64 - 1), 'bool': (0, 1)}
FIXNUM = (-2**62, 2**62 - 1)
TO_RUBY = re.compile(r'^(RB_|rb_)?(u?int|u?long|u?ll|size|ssize)(2num|2inum|2fix)(_inline)?$|^(RB_)?(U?INT|U?LONG|U?LL|SIZET|SSIZET)2(NUM|FIX)$|^rb_float_new(_inline|_in_heap)?$|^DBL2NUM$', re.I)
FROM_RUBY = re.compile(r'^(RB_|rb_)?(num2|fix2|big2|NUM2|FIX2)\w+$')
FLOATS = {'float': 4, 'double': 8, 'long double': 16}


def within(a, b):
    return b[0] <= a[0] and a[1] <= b[1]


def target(n, node_type):
    """what a conversion to Ruby keeps: a range, or the size of a floating point number"""
    if n and re.search('fix', n, re.I):
        return FIXNUM
    return FLOATS.get(node_type) or RANGE.get(node_type)


def keeps(S, T):
    """does a number type fit into what a conversion takes?"""
    if S in FLOATS:
        return isinstance(T, int) and T >= FLOATS[S]
    if S in RANGE and isinstance(T, tuple):
        return within(RANGE[S], T)
    return False


def chain(n):
    """types a value goes through, innermost first"""
    ts = []
    while isinstance(n, dict) and n['k'] in ('cast', 'paren'):
        ts.append((n['t'], n.get('kind')))
        n = n['a']
    ts.append((n.get('t') or '?', None))
    return ts[::-1], n


def plain(t):
    return re.sub(r'\bconst\b|\bvolatile\b', '', t or '').replace('&', '').strip()


def fixnum_of(n):
    """the value shifted into an immediate Ruby integer"""
    if n['k'] == 'bin' and n['op'] == '|' and const_of(n['b']) == 1:
        a = through(n['a'])
        if isinstance(a, dict) and a['k'] == 'bin' and a['op'] == '<<' and const_of(a['b']) == 1:
            return a['a']
    return None


def numbers_out(ctx):
    ctx.rule = 'numbers given to Ruby keep their value'
    P = ctx.P
    n = 0
    values = {id(f) for f, T in visited(P)}
    for f in ext(P):
        for x in walk_ast(f['body']):
            if x['k'] == 'call' and TO_RUBY.match(name(x)) and x.get('args'):
                arg, T = x['args'][0], target(name(x), plain(x['args'][0].get('t')))
                nm = name(x)
            elif x['k'] == 'bin' and fixnum_of(x):
                arg, T, nm = fixnum_of(x), FIXNUM, 'INT2FIX'
            else:
                continue
            ts, src = chain(arg)
            steps = [plain(t) for t, k in ts]
            wh = ctx.where(f, x['l'])
            what = 'the number passed to %s arrives unchanged' % nm
            S = steps[0]
            n += 1
            if src['k'] == 'int':
                ctx.ok(wh, what); continue
            if S.endswith('*') or S not in RANGE and S not in FLOATS:
                if S.endswith('*') and all(t.endswith('*') or t in RANGE and RANGE[t][1] - RANGE[t][0] == 2**64 - 1 for t in steps[1:]) and (T == FIXNUM or isinstance(T, tuple) and T[1] - T[0] == 2**64 - 1):
                    ctx.check(T != FIXNUM, wh, what, 'an address does not fit')
                elif S in P.enums:
                    ctx.ok(wh, what)
                else:
                    ctx.unk(wh, what, 'the type %s was not recognised' % S)
                continue
            # sizes and counts are below 2^62
            size = S in ('long', 'long long', 'unsigned long', 'unsigned long long') and id(f) not in values
            last_ = S
            bad = None
            for t in steps[1:]:
                R = FLOATS.get(t) or RANGE.get(t)
                if nm == 'INT2FIX' and t in ('unsigned long', 'unsigned long long') and (last_ in RANGE):
                    last_ = last_       # the shift works on the two's complement
                    continue
                if not keeps(last_, R) and not (size and isinstance(R, tuple) and within(FIXNUM, R)):
                    bad = '%s does not hold every %s' % (t, last_)
                    break
                last_ = t if t in RANGE or t in FLOATS else last_
            if not bad and T is not None and not keeps(S, T) and not (size and isinstance(T, tuple) and within(FIXNUM, T)):
                bad = '%s does not take every %s' % (nm, S)
            ctx.check(not bad, wh, what, bad or '')
    ctx.need(n >= 10, 'only %d conversions to Ruby numbers were found' % n)


def visited(P):
    """[(visitor method of the extension, number type)]"""
    res = []
    for f in ext(P):
        if f.get('cls') and 'Typelib::ValueVisitor' in base_names(P, f['cls']) and f['n'] == 'visit_' and len(f['params']) == 1:
            t = f['params'][0]['t'].strip()
            if t.endswith('&') and (plain(t) in RANGE or plain(t) in FLOATS):
                res.append((f, plain(t)))
    return res


NUMBERS = ['signed char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned int', 'long', 'unsigned long', 'float', 'double']


def numeric_values(ctx):
    ctx.rule = 'every width and signedness has a conversion that holds it'
    P = ctx.P
    vs = visited(P)
    by = {}
    for f, T in vs:
        by.setdefault(f['cls'], {})[T] = f
    by = {c: d for c, d in by.items() if len(d) >= 5}
    ctx.need(by, 'no visitor converts numbers')
    dirs = set()
    for cls, d in sorted(by.items()):
        for T in NUMBERS:
            ctx.check(T in d, ctx.where(next(iter(d.values()))), '%s converts %s' % (last(cls), T), 'there is no function for it, and the value is left as it is')
        for T, f in sorted(d.items()):
            what = '%s keeps every %s' % (last(cls), T)
            par = ('sym', f['params'][0]['n'])

            def conv(g):
                return bool(TO_RUBY.match(g['n']) or FROM_RUBY.match(g['n'])) or g['file'].startswith('/')
            outs = ctx.run(f, opaque=conv, merge=False)
            verdicts = []
            if T == 'double':
                for x in walk_ast(f['body']):
                    if x['k'] == 'cast' and plain(x['t']) == 'float' and plain(x.get('from') or x['a'].get('t') or '') == 'double':
                        verdicts.append('it is cut to a float')
            for o in outs:
                if o.kind not in ('return',):
                    continue
                calls = {e.res: e for e, _o, _l in eventsof([o], ('call',)) if e.d.get('res') is not None and e.node is not None}
                got = None
                for e, _o, _l in eventsof([o], ('store',)):
                    loc = e.loc
                    if loc == ('deref', par):
                        dirs.add('in')
                        got = setter(e.val, calls, T)
                    elif isinstance(loc, tuple) and loc[:1] == ('fld',) and contains_read(e.val, par):
                        dirs.add('out')
                        got = getter(e.val, calls, T, par)
                verdicts.append(got or 'the value is not converted on a path')
            if not verdicts:
                ctx.unk(ctx.where(f), what, 'no path was followed to its end')
                continue
            wrong = [v for v in verdicts if v is not True]
            if any(v == '?' for v in verdicts) and all(v in (True, '?') for v in verdicts):
                ctx.unk(ctx.where(f), what, 'the conversion was not recognised')
            else:
                wrong = [v for v in wrong if v != '?']
                ctx.check(not wrong, ctx.where(f), what, wrong[0] if wrong else '')
    if not dirs >= {'in', 'out'}:
        ctx.unk('bindings/ruby/ext', 'values are read and written', 'only one direction was found')


def contains_read(t, par):
    if t == ('deref', par):
        return True
    return isinstance(t, tuple) and any(contains_read(x, par) for x in t)


def is_read(t, par):
    return isinstance(t, tuple) and t[:1] == ('rd',) and t[1] == ('deref', par)


def getter(val, calls, T, par):
    if isinstance(val, tuple) and val[:2] == ('op', '|') and isinstance(val[2], tuple) and val[2][:2] == ('op', '<<'):
        x = val[2][2]
        if is_read(x, par):
            return True if keeps(T, FIXNUM) else 'an immediate integer does not hold every %s' % T
        return 'something else than the value is converted' if not contains_read(x, par) else '?' if not (isinstance(x, tuple) and x[0] == 'trunc') else 'it is cut to %d bytes' % x[1]
    e = calls.get(val)
    if e is None or not TO_RUBY.match(last(e.qn)):
        return '?'
    a = e.args[0]
    if isinstance(a, tuple) and a[:1] == ('trunc',):
        return 'it is cut to %d bytes' % a[1]
    if not is_read(a, par):
        return '?'
    P = target(last(e.qn), plain(e.node['args'][0].get('t')))
    if P is None:
        return '?'
    return True if keeps(T, P) else '%s does not take every %s' % (last(e.qn), T)


def setter(val, calls, T):
    size = (RANGE[T][1] - RANGE[T][0]).bit_length() // 8 if T in RANGE else FLOATS[T]
    if isinstance(val, tuple) and val[:1] == ('trunc',):
        if val[1] < size:
            return 'it is cut to %d bytes' % val[1]
        val = val[2]
    if isinstance(val, tuple) and val[:1] == ('trunc',):
        if val[1] < size:
            return 'it is cut to %d bytes' % val[1]
        val = val[2]
    e = calls.get(val)
    if e is None or not FROM_RUBY.match(last(e.qn)):
        return '?'
    R = plain(e.node.get('t'))
    if T in FLOATS:
        return True if FLOATS.get(R, 0) >= FLOATS[T] else '%s gives %s, which does not hold every %s' % (last(e.qn), R, T)
    if R in FLOATS:
        return 'it goes through a floating point number' if size >= 8 else True
    if R not in RANGE:
        return '?'
    return True if within(RANGE[T], RANGE[R]) else '%s refuses or changes some %s' % (last(e.qn), T)
