"""Abstract values: immutable tuples.

 ('i', n)                     integer / bool constant
 ('s', name)                  symbol (an unknown of any type)
                              name: (site, n, step, ...); a last step '@idx', '@cl' or '@gen'
                              makes it a part of a position word
 ('o', op, a, b..)            uninterpreted scalar operation
 ('L', c, ((atom, k), ...))   linear term, modulo 2^64
 ('b', op, t)                 truth value of  t op 0   (op: eq ne lt ge)
 ('p', base, path, meta)      pointer (also Box, Arc, NonNull)
 ('a', variant, fields)       aggregate
 ('arr', default, entries)    array or slice contents
 ('g', base, path)            lock guard
 ('f', key)                   function value
 ('u',) uninit   ('m',) moved out   ('t',) anything
"""
M64 = 1 << 64


def I(n):
    return ('i', n)


UNIT = ('a', 0, ())
TRUE = ('i', 1)
FALSE = ('i', 0)
TOP = ('t',)
UNINIT = ('u',)
MOVED = ('m',)


def to_lin(v):
    k = v[0]
    if k == 'i':
        return v[1] % M64, {}
    if k == 'L':
        return v[1], dict(v[2])
    if k in ('s', 'o', 'b'):
        return 0, {v: 1}
    return None


def from_lin(c, d):
    c %= M64
    items = []
    for a, k in d.items():
        k %= M64
        if k:
            if k > M64 // 2:
                k -= M64
            items.append((a, k))
    if not items:
        return ('i', c)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    items.sort(key=repr)
    return ('L', c, tuple(items))


def add(a, b, kb=1):
    la, lb = to_lin(a), to_lin(b)
    if la is None or lb is None:
        return TOP
    c = la[0] + kb * lb[0]
    d = dict(la[1])
    for x, k in lb[1].items():
        d[x] = d.get(x, 0) + kb * k
    return from_lin(c, d)


def sub(a, b):
    return add(a, b, -1)


def scale(a, k):
    l = to_lin(a)
    if l is None:
        return TOP
    return from_lin(l[0] * k, {x: n * k for x, n in l[1].items()})


def neg_canon(t):
    """Canonical sign for eq/ne: returns t or -t."""
    if t[0] == 'i':
        return t
    n = scale(t, -1)
    return t if repr(t) <= repr(n) else n


def mk_cmp(op, t):
    """truth of (t op 0); lt/ge compare as signed integers."""
    if t == TOP:
        return TOP
    if t[0] == 'i':
        n = t[1]
        s = n - M64 if n >= M64 // 2 else n
        r = {'eq': s == 0, 'ne': s != 0, 'lt': s < 0, 'ge': s >= 0}[op]
        return I(int(r))
    if op in ('eq', 'ne'):
        t = neg_canon(t)
    return ('b', op, t)


NEG = {'eq': 'ne', 'ne': 'eq', 'lt': 'ge', 'ge': 'lt'}


def b_not(v):
    if v[0] == 'i':
        return I(1 - (v[1] & 1))
    if v[0] == 'b':
        return ('b', NEG[v[1]], v[2])
    if v[0] == 'o' and v[1] == 'not':
        return v[2]
    if v == TOP:
        return TOP
    return ('o', 'not', v)


_symcache = {}


def syms(v):
    """Names of the symbols in a value (also inside pointers' index projections)."""
    r = _symcache.get(v)
    if r is not None:
        return r
    k = v[0] if v else None
    if k == 's':
        r = frozenset((v[1],))
    else:
        acc = set()
        for x in v:
            if isinstance(x, tuple):
                acc |= syms(x)
        r = frozenset(acc)
    if len(_symcache) > 400000:
        _symcache.clear()
    _symcache[v] = r
    return r


def subst(v, m, memo=None):
    """Replace symbols by values: m: name -> value."""
    if not (syms(v) & m.keys()):
        return v
    k = v[0] if v else None
    if k == 's':
        return m.get(v[1], v)
    if k == 'L':
        c, d = v[1], {}
        for a, n in v[2]:
            l = to_lin(subst(a, m))
            if l is None:
                return TOP
            c += l[0] * n
            for x, j in l[1].items():
                d[x] = d.get(x, 0) + j * n
        return from_lin(c, d)
    if k == 'b':
        return mk_cmp(v[1], subst(v[2], m))
    if k == 'o':
        args = tuple(subst(x, m) if isinstance(x, tuple) else x for x in v[2:])
        return mk_op(v[1], *args)
    return tuple(subst(x, m) if isinstance(x, tuple) else x for x in v)


# hook: interprets bit operations on position words; set by the model
bit_hook = None


def mk_op(op, *a):
    if any(x == TOP for x in a):
        return TOP
    if all(x[0] == 'i' for x in a):
        r = ev_const(op, [x[1] for x in a])
        if r is not None:
            return I(r)
    if bit_hook is not None:
        r = bit_hook(op, a)
        if r is not None:
            return r
    if op == 'and' and (a[0] == I(0) or a[1] == I(0)):
        return I(0)
    if op == 'or':
        if a[0] == I(0):
            return a[1]
        if a[1] == I(0):
            return a[0]
    if op == 'not':
        return b_not(a[0])
    if op == 'bnot':  # bitwise complement = -1 - x
        return sub(I(M64 - 1), a[0])
    if op == 'shl' and a[1][0] == 'i' and a[1][1] < 64:
        return scale(a[0], 1 << a[1][1])
    if op == 'mul':
        if a[1][0] == 'i':
            return scale(a[0], a[1][1])
        if a[0][0] == 'i':
            return scale(a[1], a[0][1])
    if op in ('and', 'or', 'xor', 'mul', 'min', 'max') and len(a) == 2 and repr(a[0]) > repr(a[1]):
        a = (a[1], a[0])
    return ('o', op) + tuple(a)


def ev_const(op, a):
    if op == 'and':
        return a[0] & a[1]
    if op == 'or':
        return a[0] | a[1]
    if op == 'xor':
        return a[0] ^ a[1]
    if op == 'mul':
        return (a[0] * a[1]) % M64
    if op == 'shl':
        return (a[0] << a[1]) % M64
    if op == 'shr':
        return a[0] >> a[1]
    if op == 'not':
        return 1 - (a[0] & 1)
    if op == 'bnot':
        return M64 - 1 - a[0]
    if op == 'div':
        return a[0] // a[1] if a[1] else None
    if op == 'rem':
        return a[0] % a[1] if a[1] else None
    if op == 'ult':
        return int(a[0] < a[1])
    if op == 'min':
        return min(a)
    if op == 'max':
        return max(a)
    if op == 'npo2':
        return 1 << (a[0] - 1).bit_length() if a[0] > 1 else 1
    return None


def eval_at(v, env):
    """Evaluate a scalar term with all symbols bound to ints; None if impossible."""
    k = v[0]
    if k == 'i':
        return v[1]
    if k == 's':
        return env.get(v[1])
    if k == 'L':
        c = v[1]
        for a, n in v[2]:
            x = eval_at(a, env)
            if x is None:
                return None
            c += x * n
        return c % M64
    if k == 'b':
        x = eval_at(v[2], env)
        if x is None:
            return None
        return mk_cmp(v[1], I(x))[1]
    if k == 'o':
        a = [eval_at(x, env) for x in v[2:]]
        if any(x is None for x in a):
            return None
        return ev_const(v[1], a)
    return None
