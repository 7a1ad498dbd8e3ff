"""A vector of words as it is built: its size is a term, its words are locations."""
from core import *
from rules.layout import *

SIZE = '#words'


def start_size(loc):
    return ('sym', '#N' + '.'.join(str(x) for x in loc if isinstance(x, str)))


def wsize(st, vec):
    return st.heap.get(('fld', vec, SIZE), ZERO if root(vec)[0] == 'var' and ('fld', vec, SIZE) not in st.heap else base_size(vec))


def base_size(vec):
    t = ('sym', '#N:' + show(vec))
    import flow
    flow.UNSIGNED.add(t)
    return t


def iswords(ctx, c):
    q = c.e.get('qn', '')
    if not sq(q).startswith('std::vector::'):
        return False
    return 'vector<unsigned long' in q


def hook_for(ctx, nested=None, isw=None):
    """nested(en, st, c) -> None or (vector location, description): a call that appends an unknown block of words"""
    def hook(en, st, c):
        if nested:
            r = nested(en, st, c)
            if r is not None:
                st2, vec, d = r
                st2 = st2.copy()
                st2.n += 1
                b = ('sym', '#B%d' % st2.n)
                import flow
                flow.UNSIGNED.add(b)
                if vec is not None:
                    old = wsize(st2, vec)
                    st2.heap[('fld', vec, SIZE)] = add(old, b)
                else:
                    old = None
                en.ev_(st2, 'block', c.e, vec=vec, at=old, size=b, **d)
                return [(st2, I(1))]
        if c.obj is None or not (isw(c) if isw else iswords(ctx, c)):
            return None
        ol = c.ol if c.ol is not None else deref(c.obj)
        last = c.name.rsplit('::', 1)[-1]
        key = ('fld', ol, SIZE)
        cur = wsize(st, ol)
        if last == 'size':
            return [(st, cur)]
        if last == 'empty':
            return [(st, ('cmp', '==', cur, ZERO))]
        if last in ('push_back', 'emplace_back'):
            st = st.copy()
            v = const_of(ctx, c.vals[0])
            st.heap[('elt', ol, cur)] = v
            st.heap[key] = add(cur, I(1))
            en.ev_(st, 'word', c.e, vec=ol, at=cur, val=v)
            return [(st, ZERO)]
        if last == 'pop_back':
            st = st.copy()
            st.heap.pop(('elt', ol, sub(cur, I(1))), None)
            st.heap[key] = sub(cur, I(1))
            en.ev_(st, 'unword', c.e, vec=ol, at=sub(cur, I(1)))
            return [(st, ZERO)]
        if last == 'clear':
            st = st.copy()
            for h in [h for h in st.heap if h[0] == 'elt' and h[1] == ol]:
                del st.heap[h]
            st.heap[key] = ZERO
            en.ev_(st, 'wclear', c.e, vec=ol)
            return [(st, ZERO)]
        if last == 'back':
            l = ('elt', ol, sub(cur, I(1)))
            return [(st, ('loc', l))] if c.want_loc else [(st, en.load(st, l, c.e['t']))]
        if last in ('resize',) and c.vals:
            st = st.copy()
            st.heap[key] = c.vals[0]
            en.ev_(st, 'wresize', c.e, vec=ol, old=cur, new=c.vals[0])
            return [(st, ZERO)]
        return None
    return hook


def const_of(ctx, v):
    """the value of a constant that was passed by reference"""
    x = v
    if x[0] == 'rd' and x[1][0] == 'glob':
        x = x[1]
    if x[0] == 'glob':
        g = ctx.P.globals.get(x[1])
        if g is not None and g.get('init') and g['t'].startswith('const'):
            n = evaluate(ctx, g['init'])
            if n is not None:
                return I(n)
    return v


def evaluate(ctx, e):
    """integer value of a constant initialiser"""
    k = e.get('k')
    if 'cv' in e:
        v = e['cv']
        ti = ctx.P.types.get(e.get('t')) or ctx.P.types.get((e.get('t') or '').replace('const ', '')) or {}
        if v < 0 and ti.get('k') == 'int' and not ti.get('signed') and ti.get('size'):
            v &= (1 << 8 * ti['size']) - 1
        return v
    if k == 'int':
        return e['v']
    if k == 'un' and e['op'] in '-+~':
        v = evaluate(ctx, e['a'])
        return None if v is None else -v if e['op'] == '-' else ~v if e['op'] == '~' else v
    if k == 'bin' and e['op'] in ('+', '-', '*'):
        a, b = evaluate(ctx, e['a']), evaluate(ctx, e['b'])
        return None if a is None or b is None else a + b if e['op'] == '+' else a - b if e['op'] == '-' else a * b
    if k in ('cast', 'paren'):
        v = evaluate(ctx, e['a'])
        ti = ctx.P.types.get(e.get('t')) or {}
        if v is not None and ti.get('k') == 'int' and not ti.get('signed') and ti.get('size'):
            v &= (1 << 8 * ti['size']) - 1
        return v
    return None


def words_between(ctx, st, vec, a, b):
    """the words at positions a..b-1 (b - a must be a constant), or None"""
    d = sub(b, a)
    if d[0] != 'int' or d[1] < 0 or d[1] > 64:
        return None
    res = []
    for i in range(d[1]):
        v = st.heap.get(('elt', vec, add(a, I(i))))
        res.append(const_of(ctx, v) if v is not None else ('unk', 'word'))
    return res
