"""Abstract interpreter over the extracted MIR.

A state is a point in a trace-partitioned abstract domain: a call stack, a store (object -> abstract value), a set of
facts (finite domains, intervals through linear relations), and the monitors' automaton states.  States are joined by
equality of their canonical form at control-flow joins and the exploration is a worklist fixpoint over those finitely
many states; no constraint solver and no execution of the program is involved.
"""
import json, re, sys
from terms import *
import terms

sys.setrecursionlimit(10000)

TRANSPARENT = {'S::cell::UnsafeCell', 'S::mem::MaybeUninit', 'S::mem::ManuallyDrop', 'S::mem::MaybeDangling',
               'S::ptr::NonNull', 'S::ptr::Unique'}
OPAQUE_SCALAR = {'S::time::Duration', 'S::time::Instant', 'S::time::SystemTime'}
POINTERISH = {'S::sync::Arc', 'S::rc::Rc'}

_np = {}


def np(p):
    """Path with std/core/alloc unified."""
    r = _np.get(p)
    if r is None:
        r = re.sub(r'\b(std|core|alloc)::', 'S::', p)
        r = r.replace('thingbuf::S::', 'S::')
        r = r.replace('S::mem::maybe_dangling::', 'S::mem::').replace('S::mem::maybe_uninit::', 'S::mem::')
        _np[p] = r
    return r


class Split(Exception):
    """The step needs a case distinction: each op is ('subst', map) | ('assume', cond, val) | ('write', o, path, v)."""

    def __init__(self, ops):
        self.ops = ops


class Unsupported(Exception):
    pass


class Budget(Exception):
    pass


class St:
    __slots__ = ('stack', 'store', 'dom', 'rel', 'mon', 'tr', 'names', 'unw', 'dead', 'cur')

    def copy(self):
        s = St.__new__(St)
        s.stack = self.stack
        s.store = self.store.copy()
        s.dom = self.dom.copy()
        s.rel = self.rel
        s.mon = self.mon.copy()
        s.tr = self.tr
        s.names = self.names
        s.unw = self.unw
        s.dead = self.dead
        s.cur = self.cur
        return s

    def key(self):
        return (self.stack, frozenset(self.store.items()), frozenset(self.dom.items()), self.rel,
                frozenset(self.mon.items()), self.unw)


def new_state():
    s = St.__new__(St)
    s.stack = ()
    s.store = {}
    s.dom = {}
    s.rel = frozenset()
    s.mon = {}
    s.tr = None
    s.names = frozenset()
    s.unw = False
    s.dead = False
    s.cur = 0
    return s


class Program:
    """Facts plus derived tables."""

    def __init__(self, path):
        with open(path) as f:
            d = json.load(f)
        self.T = d['types']
        self.I = d['insts']
        self.roots = d['roots']
        self.adts = d['adts']
        self.impls = d['impls']
        for t in self.T:
            if t and 'path' in t:
                t['np'] = np(t['path'])
        for n, i in enumerate(self.I):
            if i:
                i['id'] = n
        self._prep = {}
        self.roots_by_path = {}
        for r in self.roots:
            self.roots_by_path.setdefault(r['path'], r)

    # ---- types
    def transparent(self, t):
        t = self.T[t]
        return t['k'] == 'adt' and t['np'] in TRANSPARENT

    def strip(self, t):
        """Type with transparent wrappers removed (as values are represented)."""
        while self.transparent(t):
            ty = self.T[t]
            if ty['np'] == 'S::ptr::NonNull' or ty['np'] == 'S::ptr::Unique':
                return t
            t = ty['args'][0]
        return t

    def pointee(self, t):
        ty = self.T[t]
        k = ty['k']
        if k in ('ref', 'ptr'):
            return ty['to']
        if k == 'adt' and (ty.get('box') or ty['np'] in POINTERISH or ty['np'] in ('S::ptr::NonNull', 'S::ptr::Unique')):
            return ty['args'][0]
        return None

    def fields(self, t, variant=0):
        ty = self.T[t]
        k = ty['k']
        if k in ('tuple', 'closure', 'coroutine'):
            return ty['fields']
        if k == 'adt' and 'variants' in ty and ty['np'] not in OPAQUE_SCALAR and variant < len(ty['variants']):
            return [f[1] for f in ty['variants'][variant]['f']]
        return None

    def field_name(self, t, i, variant=0):
        ty = self.T[t]
        if ty['k'] == 'adt' and 'variants' in ty:
            f = ty['variants'][variant]['f']
            if i < len(f):
                return f[i][0]
        return str(i)

    def is_enum(self, t):
        ty = self.T[t]
        return ty['k'] == 'adt' and ty.get('ak') == 'enum' and 'variants' in ty

    def step_ty(self, t, step):
        """Type after a (stored) path step; t may be (ty, variant)."""
        v = 0
        if isinstance(t, tuple):
            t, v = t
        t = self.strip(t)
        if isinstance(step, tuple):
            if step[0] == 'v':
                return (t, step[1])
            return self.T[t].get('elem')
        if step == 'data':      # contents of a lock
            return self.T[t]['args'][-1]
        f = self.fields(t, v)
        if f is None or step >= len(f):
            return None
        return f[step]

    # ---- per-instance preparation
    def prep(self, n):
        p = self._prep.get(n)
        if p is None:
            p = self._prep[n] = Prep(self, self.I[n])
        return p


class Prep:
    """Control-flow graph, liveness, compiled places of one instance."""

    def __init__(self, prog, inst):
        self.inst = inst
        self.n = inst['id']
        self.blocks = inst['blocks']
        self.locals = [l[0] for l in inst['locals']]
        self.argc = inst['argc']
        self.name = inst['path']
        nb = len(self.blocks)
        preds = [0] * nb
        self.succ = []
        for b in self.blocks:
            s = self.succs(b['t'])
            self.succ.append(s)
            for x in s:
                preds[x] += 1
        self.join = [p >= 2 for p in preds]
        # loop heads: targets of back edges
        color = [0] * nb
        stack = [(0, iter(self.succ[0]))] if nb else []
        if nb:
            color[0] = 1
        while stack:
            b, it = stack[-1]
            for x in it:
                if color[x] == 1:
                    self.join[x] = True
                elif color[x] == 0:
                    color[x] = 1
                    stack.append((x, iter(self.succ[x])))
                    break
            else:
                color[b] = 2
                stack.pop()
        self.addr = set()
        for b in self.blocks:
            for s in b['s']:
                if s['k'] == '=' and s['r']['k'] == 'ref':
                    pl = s['r']['p']
                    if '*' not in pl['p']:
                        self.addr.add(pl['l'])
                    else:
                        pass
        self._live()

    @staticmethod
    def succs(t):
        k = t['k']
        out = []
        if k == 'goto':
            out = [t['b']]
        elif k == 'switch':
            out = [x[1] for x in t['vs']] + [t['e']]
        elif k in ('drop', 'call', 'assert'):
            if t.get('b') is not None:
                out.append(t['b'])
            if isinstance(t.get('u'), int):
                out.append(t['u'])
        elif k == 'yield':
            out = [t['b']]
            if t.get('drop') is not None:
                out.append(t['drop'])
        return [x for x in out if x is not None]

    def _live(self):
        nb = len(self.blocks)
        use = [set() for _ in range(nb)]
        deff = [set() for _ in range(nb)]

        def u(b, l):
            if l not in deff[b]:
                use[b].add(l)

        def uplace(b, p):
            u(b, p['l'])
            for e in p['p']:
                if isinstance(e, list) and e[0] == 'i':
                    u(b, e[1])

        def uop(b, o):
            if 'cp' in o:
                uplace(b, o['cp'])
            elif 'mv' in o:
                uplace(b, o['mv'])

        def dplace(b, p):
            if not p['p']:
                deff[b].add(p['l'])
            else:
                uplace(b, p)

        for n, b in enumerate(self.blocks):
            for s in b['s']:
                if s['k'] == '=':
                    r = s['r']
                    for o in ('o', 'a', 'b'):
                        if o in r and isinstance(r[o], dict):
                            uop(n, r[o])
                    if 'ops' in r:
                        for o in r['ops']:
                            uop(n, o)
                    if 'p' in r:
                        uplace(n, r['p'])
                    dplace(n, s['p'])
                elif s['k'] == 'sd':
                    uplace(n, s['p'])
                elif s['k'] == 'memcpy':
                    for o in s.values():
                        if isinstance(o, dict):
                            uop(n, o)
            t = b['t']
            k = t['k']
            if k == 'switch':
                uop(n, t['o'])
            elif k == 'drop':
                uplace(n, t['p'])
            elif k == 'call':
                uop(n, t['f'])
                for a in t['a']:
                    uop(n, a)
                dplace(n, t['d'])
            elif k == 'assert':
                uop(n, t['o'])
            elif k == 'yield':
                uop(n, t['o'])
                dplace(n, t['ra'])
            elif k == 'ret':
                u(n, 0)
        live = [set(x) for x in use]
        ch = True
        while ch:
            ch = False
            for n in range(nb - 1, -1, -1):
                o = set()
                for s in self.succ[n]:
                    o |= live[s]
                new = use[n] | (o - deff[n])
                if new != live[n]:
                    live[n] = new
                    ch = True
        al = self.addr
        nl = len(self.locals)
        # locals to forget when entering a block
        self.kill = [[l for l in range(nl) if l not in live[n] and l not in al] for n in range(nb)]
        self.live = live


class Ev:
    """An event handed to the monitors."""
    __slots__ = ('k', 'd')

    def __init__(self, k, d):
        self.k = k
        self.d = d

    def __getattr__(self, n):
        try:
            return self.d[n]
        except KeyError:
            raise AttributeError(n)


class Engine:
    def __init__(self, prog, model, monitors=(), unwind=False, budget=300000, opts=None):
        self.P = prog
        self.T = prog.T
        self.M = model
        self.mons = list(monitors)
        self.unwind = unwind
        self.budget = budget
        self.opts = opts or {}
        self.const_depth = 0
        self.root_name = '?'
        self.symty = {}
        self.objty = {}
        self._fid = {}
        self._fidinfo = []
        self._tag = {}
        self._tagname = []
        self.py = {}
        self.violations = {}
        self.stats = {'states': 0, 'blocks': 0, 'joins': 0}
        self.functions = set()
        self.counts = {}
        self.unmodelled = {}
        self._wid = {}
        self._role = {}
        self.K = 10
        self.constfields = {}
        self.rec = None
        self._gone = frozenset()
        self.py['glue'] = self._py_glue
        self.py['catch'] = self._py_catch
        self.py['then'] = self._py_then
        model.attach(self)
        for m in self.mons:
            m.attach(self)

    # ------------------------------------------------------------ bookkeeping
    def count(self, what, item=None):
        self.counts.setdefault(what, set()).add(item)

    def fid(self, parent, site, inst):
        k = (parent, site, inst)
        r = self._fid.get(k)
        if r is None:
            r = self._fid[k] = len(self._fidinfo)
            self._fidinfo.append((parent, site, inst))
        return r

    def tag(self, *k):
        r = self._tag.get(k)
        if r is None:
            r = self._tag[k] = len(self._tagname)
            self._tagname.append(k)
        return r

    def site(self, st):
        """(function path, span) of the innermost frame inside the crate."""
        for f in reversed(st.stack):
            if f[0] == 'fn':
                i = self.P.I[f[1]]
                if i.get('local', True):
                    return i['path']
        return self.root_name

    def where(self, st):
        out = []
        for f in reversed(st.stack):
            if f[0] == 'fn':
                i = self.P.I[f[1]]
                if i.get('local', True):
                    b = i['blocks'][f[3]]
                    out.append('%s (%s)' % (i['path'], b['t'].get('sp', i['sp'])))
        return out

    def fresh_name(self, st, tag):
        n = 0
        names = st.names
        if (tag, 0) in names:
            names = st.names = frozenset(self.live_bases(st))
            while (tag, n) in names:
                n += 1
        st.names = names | {(tag, n)}
        return (tag, n)

    def live_bases(self, st):
        acc = set()

        def walk(v):
            for n in syms_all(v):
                acc.add(n)
        for o, v in st.store.items():
            walk(o)
            walk(v)
        for v in st.mon.values():
            walk(v)
        for r in st.rel:
            walk(r)
        for f in st.stack:
            walk(f)
        return acc

    def fresh(self, st, ty, kind='v', dom=None):
        top = st.stack[-1] if st.stack else None
        if top is not None and top[0] == 'fn':
            tag = self.tag(kind, top[2], top[3])
        elif top is not None:
            tag = self.tag(kind, top[:2], len(st.stack))
        else:
            tag = self.tag(kind)
        name = self.fresh_name(st, tag)
        v = self.mk_sym(name, ty)
        if dom is not None and v[0] == 's':
            st.dom[v[1]] = frozenset(dom)
        return v

    def mk_sym(self, name, ty):
        """Symbolic value of a type."""
        if ty is None:
            return ('s', name)
        if isinstance(ty, tuple):
            self.symty[name] = ty
            return ('s', name)
        ty = self.P.strip(ty)
        t = self.T[ty]
        pt = self.P.pointee(ty)
        if pt is not None:
            o = ('x', name)
            self.objty[o] = pt
            pk = self.T[self.P.strip(pt)]['k']
            meta = self.M.slice_len(name, pt) if pk in ('slice', 'str') else None
            return ('p', o, (), meta)
        self.symty[name] = ty
        if t['k'] == 'tuple' and not t['fields']:
            return UNIT
        if t['k'] == 'adt' and 'variants' in t and t['ak'] == 'struct' and not t['variants'][0]['f'] and not t.get('dtor'):
            return UNIT
        if t['k'] == 'fndef':
            return ('f', ty)
        return ('s', name)

    # ------------------------------------------------------------ store
    def obj_type(self, o):
        if o[0] == 'l':
            return self._fid_local_ty(o)
        if o[0] == 'e':
            r = self.objty.get(('e', o[1], o[2]))
            if r is None:
                t = self.path_ty(o[1], o[2])
                r = self.P.T[self.P.strip(t)].get('elem') if t is not None else None
                self.objty[('e', o[1], o[2])] = r
            return r
        return self.objty.get(o)

    def _fid_local_ty(self, o):
        inst = self._fidinfo[o[1]][2]
        return self.P.prep(inst).locals[o[2]]

    def path_ty(self, o, path):
        k = (o if o[0] != 'e' else ('e', o[1], o[2]), path)
        t = self.obj_type(o)
        for s in path:
            if t is None:
                return None
            t = self.P.step_ty(t, s)
        return t

    def get_obj(self, st, o):
        v = st.store.get(o)
        if v is None:
            if o[0] == 'l':
                return UNINIT
            v = self.M.init_obj(st, o)
            if v is None:
                ty = self.obj_type(o)
                if o[0] == 'x':
                    name = o[1] + ('*',)
                elif o[0] == 'e':
                    name = self.fresh_name(st, self.tag('elem'))
                else:
                    name = (self.tag('obj', o), 0)
                v = self.mk_sym(name, ty)
                if o[0] == 'e':
                    st.store[o] = v
        return v

    def proj(self, v, step):
        k = v[0]
        if k == 'a':
            if isinstance(step, tuple):
                return v
            f = v[2]
            if step == 'data':
                step = len(f) - 1
            return f[step] if step < len(f) else TOP
        if k == 's':
            n = v[1] + (step,)
            t = self.symty.get(v[1])
            if t is None:
                return TOP
            c = self.constfields.get((t, step))
            if c is not None:
                return c
            return self.mk_sym(n, self.P.step_ty(t, step))
        if k == 'u':
            return UNINIT
        if k == 'm':
            return MOVED
        return TOP

    def read(self, st, o, path):
        v = self.get_obj(st, o)
        for s in path:
            v = self.proj(v, s)
        return v

    def expand(self, st, v, ty, step):
        """Value as an aggregate one level deep, for a write below it."""
        var = 0
        if isinstance(ty, tuple):
            ty, var = ty
        if isinstance(step, tuple) and step[0] == 'v':
            return v
        if v[0] == 'a':
            return v
        if ty is None:
            return None
        ty = self.P.strip(ty)
        if step == 'data' and self.P.fields(ty) is None:
            return ('a', 0, (self.proj(v, 'data') if v[0] == 's' else UNINIT,))
        fs = self.P.fields(ty, var)
        if fs is None:
            return None
        if v[0] == 's':
            return ('a', var, tuple(self.proj(v, i) for i in range(len(fs))))
        d = MOVED if v[0] == 'm' else UNINIT if v[0] == 'u' else TOP
        return ('a', var, tuple(d for _ in fs))

    def write(self, st, o, path, val):
        if not path:
            st.store[o] = val
            return
        cur = st.store.get(o)
        if cur is None:
            cur = self.get_obj(st, o)
        st.store[o] = self._upd(st, cur, self.obj_type(o), path, val)

    def _upd(self, st, v, ty, path, val):
        if not path:
            return val
        s = path[0]
        e = self.expand(st, v, ty, s)
        if e is None:
            return TOP
        nt = self.P.step_ty(ty, s) if ty is not None else None
        if isinstance(s, tuple):
            if e[0] != 'a' and len(path) > 1:
                return self._upd(st, e, nt, path[1:], val)
            return self._upd(st, e, nt, path[1:], val)
        f = list(e[2])
        if s == 'data':
            s = len(f) - 1
        while len(f) <= s:
            f.append(UNINIT)
        f[s] = self._upd(st, f[s], nt, path[1:], val)
        return ('a', e[1], tuple(f))

    # ------------------------------------------------------------ places
    def compile_place(self, inst, p):
        c = p.get('_c')
        if c is not None:
            return c
        P = self.P
        t = P.prep(inst).locals[p['l']]
        out = []
        var = 0
        for e in p['p']:
            if e == '*':
                pt = P.pointee(t)
                out.append(('*', pt))
                t = pt
                var = 0
            elif e == 'o':
                pass
            elif isinstance(e, int):
                if t is None:
                    out.append(e)
                    continue
                ty = self.T[t]
                if P.transparent(t):
                    if ty['np'] == 'S::mem::MaybeUninit' and e == 0:
                        out.append('uninit')
                        t = P.fields(t)[0]
                    else:
                        t = P.fields(t)[e]
                else:
                    fs = P.fields(t, var)
                    out.append(e)
                    t = fs[e] if fs is not None and e < len(fs) else None
                var = 0
            elif e[0] == 'v':
                out.append(('v', e[1]))
                var = e[1]
            elif e[0] == 'i':
                out.append(('i', e[1]))
                t = self.T[t].get('elem') if t is not None else None
            elif e[0] == 'c':
                out.append(('c', e[1], e[2]))
                t = self.T[t].get('elem') if t is not None else None
            else:
                out.append(('sub',))
        p['_c'] = out
        return out

    def resolve(self, st, fr, p):
        """Place -> (object, path, meta of the last deref)."""
        fid = fr[2]
        o = ('l', fid, p['l'])
        path = ()
        meta = None
        for e in self.compile_place(fr[1], p):
            if isinstance(e, int):
                path = path + (e,)
            elif e == 'uninit':
                path = path + ('uninit',)
            elif e[0] == '*':
                v = self.read(st, o, path)
                v = self.as_ptr(st, v, e[1], (o, path))
                o, path, meta = v[1], v[2], v[3]
            elif e[0] == 'v':
                path = path + (e,)
            elif e[0] == 'i':
                ix = self.read(st, ('l', fid, e[1]), ())
                o, path = ('e', o, path, ix), ()
            elif e[0] == 'c':
                o, path = ('e', o, path, I(e[1])), ()
        return o, path, meta

    def as_ptr(self, st, v, pt, loc):
        if v[0] == 'p':
            return v
        if v[0] == 'g':
            return v
        if v[0] == 's':
            o = ('x', v[1] + ('&',))
        elif v[0] == 'a' and len(v[2]) >= 1 and v[2][0][0] == 'p':
            return v[2][0]
        else:
            o = ('x', (self.tag('wild', pt), 0))
        if o not in self.objty:
            self.objty[o] = pt
        return ('p', o, (), None)

    def rd_place(self, st, fr, p):
        o, path, _ = self.resolve(st, fr, p)
        return self.load(st, o, path, p['t'])

    def load(self, st, o, path, ty=None, kind='read'):
        if path and path[-1] == 'uninit':
            return UNIT
        self.access(st, o, path, kind)
        return self.read(st, o, path)

    def store_to(self, st, o, path, val):
        if path and path[-1] == 'uninit':
            path = path[:-1]
            val = UNINIT
        self.access(st, o, path, 'write')
        if o[0] == 'e' and not path:
            self.emit(st, 'elem_write', obj=o, val=val)
        self.write(st, o, path, val)

    def access(self, st, o, path, kind):
        if o[0] == 'l':
            ot = None
        r = self.roles(o, path)
        if r:
            self.M.access(st, o, path, kind, r)

    def roles(self, o, path):
        """Fields of the crate's own types that the access path goes through: tuple of (adt, field, prefix length)."""
        ot = self.obj_type(o)
        if ot is None:
            return ()
        k = (ot, path)
        r = self._role.get(k)
        if r is None:
            out = []
            t = ot
            for n, s in enumerate(path):
                if s == 'uninit':
                    break
                if isinstance(s, int) and t is not None:
                    tt, var = (t if isinstance(t, tuple) else (t, 0))
                    tt = self.P.strip(tt)
                    ty = self.T[tt]
                    if ty['k'] == 'adt' and ty.get('local'):
                        out.append((ty['path'].split('::')[-1], self.P.field_name(tt, s, var), n))
                if t is None:
                    break
                t = self.P.step_ty(t, s)
            r = self._role[k] = tuple(out)
        return r

    def role(self, ptr):
        """Innermost non-wrapper (adt, field) that a pointer designates."""
        r = self.roles(ptr[1], ptr[2])
        for a, f, n in reversed(r):
            if a not in ('CachePadded', 'UnsafeCell', 'AtomicUsize'):
                return (a, f)
        return None

    # ------------------------------------------------------------ operands, rvalues
    def const(self, st, c):
        ty = self.P.strip(c['t'])
        t = self.T[ty]
        if 'fn' in c:
            return ('f', c['t'])
        if 'v' in c:
            n = int(c['v'])
            return self.scalar_const(ty, n)
        if 'z' in c:
            return self.zst(ty)
        if 'body' in c:
            v, objs = self.eval_const_body(st, c['body'])
            for o, x in objs:
                if o not in st.store:
                    st.store[o] = x
            return v
        if 'g' in c:
            name = (self.tag('const', c['g']), 0)
            return self.mk_sym(name, ty)
        if 'str' in c:
            o = ('h', ('str', c['str']))
            self.objty[o] = t.get('to', ty)
            return ('p', o, (), I(0))
        if 'ptr' in c:
            o = ('h', ('cptr', c['ptr']))
            self.objty[o] = t.get('to', ty)
            return ('p', o, (), None)
        name = (self.tag('ind', ty), 0)
        return self.mk_sym(name, ty)

    def zst(self, ty):
        t = self.T[ty]
        if t['k'] == 'fndef':
            return ('f', ty)
        fs = self.P.fields(ty)
        if fs:
            return ('a', 0, tuple(self.zst(self.P.strip(f)) for f in fs))
        return UNIT

    def scalar_const(self, ty, n):
        t = self.T[ty]
        if t['k'] == 'adt' and t['np'] not in OPAQUE_SCALAR:
            if t['ak'] == 'enum':
                for vi, v in enumerate(t['variants']):
                    if v['d'] == n:
                        if v['f']:
                            return TOP
                        return ('a', vi, ())
                return TOP
            fs = self.P.fields(ty)
            out = []
            for f in fs:
                f = self.P.strip(f)
                ft = self.T[f]
                if ft['k'] in ('uint', 'int', 'bool', 'char') or (ft['k'] == 'adt' and ft.get('variants') and any(v['f'] for v in ft['variants'])):
                    out.append(self.scalar_const(f, n))
                else:
                    out.append(self.zst(f))
            return ('a', 0, tuple(out))
        if t['k'] in ('ref', 'ptr'):
            return ('p', ('h', ('addr', n)), (), None)
        if t['k'] == 'tuple':
            return ('a', 0, tuple(self.scalar_const(self.P.strip(f), n) for f in t['fields']))
        return I(n)

    def eval_const_body(self, st, b):
        """Evaluate a promoted / constant body (straight-line) to a value."""
        ck = ('constbody', b)
        r = self.constfields.get(ck)
        if r is not None:
            return r
        s = new_state()
        out = []

        def done(eng, s2, data, val, unw):
            if not out and not unw:
                objs = [(o, x) for o, x in s2.store.items() if o[0] in 'lh' and x[0] != 'u']
                out.append((val, objs))
            return []
        key = 'constbody%d' % b
        self.py[key] = done
        s.stack = (('py', key, ()),)
        self.const_depth += 1
        sub = [self.push_call(s, b, [], ('const', b))]
        n = 0
        while sub:
            x = sub.pop()
            n += 1
            if n > 2000:
                break
            sub.extend(self.step(x))
        self.const_depth -= 1
        if not out:
            r = (TOP, ())
        else:
            v, objs = out[0]
            m = {o: ('h', ('const', b, n)) for n, (o, x) in enumerate(objs) if o[0] == 'l'}
            for o, q in m.items():
                ty = self.obj_type(o)
                if isinstance(ty, int):
                    self.objty[q] = ty
            r = (self.rebase(v, m), tuple((m.get(o, o), self.rebase(x, m)) for o, x in objs))
        self.constfields[ck] = r
        return r

    def rebase(self, v, m):
        """Replace the base objects of the pointers in a value."""
        if v[0] == 'p':
            return ('p', m.get(v[1], v[1]), v[2], v[3])
        if v[0] == 'a':
            return ('a', v[1], tuple(self.rebase(x, m) for x in v[2]))
        if v[0] == 'arr':
            return ('arr', self.rebase(v[1], m), tuple((k, self.rebase(x, m)) for k, x in v[2]))
        return v

    def operand(self, st, fr, o):
        if 'cp' in o:
            return self.rd_place(st, fr, o['cp'])
        if 'mv' in o:
            p = o['mv']
            ob, path, _ = self.resolve(st, fr, p)
            v = self.load(st, ob, path, p['t'], 'move')
            if self.T[p['t']]['nd'] and not (path and path[-1] == 'uninit'):
                self.write(st, ob, path, MOVED)
            return v
        if 'rt' in o:
            return FALSE
        return self.const(st, o['c'])

    def bits(self, ty):
        t = self.T[ty]
        if t['k'] == 'bool':
            return 1
        return t.get('bits', 64)

    def unsigned(self, ty):
        return ty is not None and self.T[ty]['k'] in ('uint', 'int') and self.T[ty].get('s', '').startswith('u')

    def wraps(self, v):
        """Whether a value may be 2^63 or more: a mask, or a wrapping difference of position words."""
        if v[0] == 'i':
            return v[1] >= M64 // 2
        l = to_lin(v) if v[0] in ('s', 'L', 'o') else None
        if l is None:
            return False
        return any((k < 0 or k >= M64 // 2) and self.M.kind_of(a) in ('gen', 'cl', 'C') for a, k in l[1].items())

    def binop(self, st, op, a, b, ty):
        bits = self.bits(ty) if ty is not None else 64
        bo = self.T[ty]['k'] == 'bool' if ty is not None else False
        if op in ('Add', 'AddUnchecked', 'Sub', 'SubUnchecked'):
            r = add(a, b, 1 if op[0] == 'A' else -1)
            if r[0] == 'i' and bits < 64:
                r = I(r[1] % (1 << bits))
            return r
        if op in ('AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow'):
            r = self.binop(st, op[:3], a, b, ty)
            return ('a', 0, (r, FALSE))
        if op in ('Eq', 'Ne'):
            return self.eq(st, a, b, op == 'Ne')
        if op in ('Lt', 'Le', 'Gt', 'Ge'):
            if op == 'Gt':
                a, b, op = b, a, 'Lt'
            elif op == 'Le':
                a, b, op = b, a, 'Ge'
            d = sub(a, b)
            if op == 'Lt' and a == I(0):
                return mk_cmp('ne', b)
            if op == 'Ge' and a == I(0):
                return mk_cmp('eq', b)
            if op == 'Lt' and b == I(1):
                return mk_cmp('eq', a)
            if op == 'Ge' and b == I(1):
                return mk_cmp('ne', a)
            if b == I(0):
                return FALSE if op == 'Lt' else TRUE
            if self.unsigned(ty) and (self.wraps(a) or self.wraps(b)):
                if a[0] == 'i' and b[0] == 'i':
                    return I(int((a[1] < b[1]) == (op == 'Lt')))
                return mk_cmp('ne' if op == 'Lt' else 'eq', ('o', 'ult', a, b))
            return mk_cmp('lt' if op == 'Lt' else 'ge', d)
        if op == 'Cmp':
            c = self.cases(st, [self.binop(st, 'Lt', a, b, ty) if ty is not None else mk_cmp('lt', sub(a, b)), mk_cmp('eq', sub(a, b))])
            if c[0]:
                return ('a', 0, ())
            if c[1]:
                return ('a', 1, ())
            return ('a', 2, ())
        m = {'BitAnd': 'and', 'BitOr': 'or', 'BitXor': 'xor', 'Mul': 'mul', 'MulUnchecked': 'mul', 'Shl': 'shl', 'Shr': 'shr',
             'ShlUnchecked': 'shl', 'ShrUnchecked': 'shr', 'Div': 'div', 'Rem': 'rem'}.get(op)
        if m is None:
            return TOP
        if bo and m == 'xor':
            if a[0] == 'i':
                return b_not(b) if a[1] else b
            if b[0] == 'i':
                return b_not(a) if b[1] else a
        if bo and m in ('and', 'or'):
            for x, y in ((a, b), (b, a)):
                if x[0] == 'i':
                    if m == 'and':
                        return y if x[1] else FALSE
                    return TRUE if x[1] else y
        if m == 'rem':
            r = self.M.rem(st, a, b)
            if r is not None:
                return r
        r = mk_op(m, a, b)
        if r[0] == 'i' and bits < 64:
            r = I(r[1] % (1 << bits))
        return r

    def eq(self, st, a, b, neg=False):
        if a[0] == 'p' or b[0] == 'p':
            r = self.ptr_eq(a, b)
            if r is None:
                return TOP
            return I(int(r != neg))
        if a[0] == 'a' and b[0] == 'a':
            if a == b and not syms(a):
                return I(int(not neg))
            if a[1] != b[1]:
                return I(int(neg))
            return TOP
        r = mk_cmp('eq', sub(a, b))
        return b_not(r) if neg else r

    def ptr_eq(self, a, b):
        if a[0] != 'p' or b[0] != 'p':
            return None
        if a[1:3] == b[1:3]:
            return True
        if a[1][0] == 'e' and b[1][0] == 'e' and a[1][1:3] == b[1][1:3]:
            return None
        return False

    def rvalue(self, st, fr, r, dty):
        k = r['k']
        if k == 'use':
            return self.operand(st, fr, r['o'])
        if k == 'ref':
            o, path, meta = self.resolve(st, fr, r['p'])
            if path and path[-1] == 'uninit':
                path = path[:-1]
            self.access(st, o, path, 'ref')
            if not r['p']['p'] or r['p']['p'][-1] != '*':
                meta = None
                t = self.T[self.P.strip(r['p']['t'])]
            if o[0] == 'g':
                return ('p', o, path, meta)
            return ('p', o, path, meta)
        if k == 'bin':
            a = self.operand(st, fr, r['a'])
            b = self.operand(st, fr, r['b'])
            return self.binop(st, r['op'], a, b, self.op_ty(fr, r['a']))
        if k == 'un':
            a = self.operand(st, fr, r['a'])
            if r['op'] == 'Not':
                ty = self.op_ty(fr, r['a'])
                if self.T[ty]['k'] == 'bool':
                    return b_not(a)
                if a[0] == 'i':
                    bits = self.bits(ty)
                    return I((~a[1]) % (1 << bits))
                return mk_op('bnot', a)
            if r['op'] == 'Neg':
                return scale(a, -1)
            if r['op'] == 'PtrMetadata':
                return a[3] if a[0] == 'p' and a[3] is not None else TOP
            return TOP
        if k == 'discr':
            o, path, _ = self.resolve(st, fr, r['p'])
            v = self.load(st, o, path, r['p']['t'])
            return self.discr(st, v, r['p']['t'], (o, path))
        if k == 'agg':
            ops = [self.operand(st, fr, x) for x in r['ops']]
            t = self.T[r['t']]
            if r['ak'] == 'array':
                return ('arr', None, tuple((I(n), v) for n, v in enumerate(ops)))
            if r['ak'] == 'rawptr' or r['ak'] == 'RawPtr':
                return ops[0]
            if self.P.transparent(r['t']):
                if t['np'] == 'S::mem::MaybeUninit' and r.get('af') == 0:
                    return UNINIT
                return ops[0] if ops else UNINIT
            if t['k'] == 'adt' and t.get('ak') == 'union':
                return ops[0]
            return ('a', r['vi'], tuple(ops))
        if k == 'cast':
            v = self.operand(st, fr, r['o'])
            return self.cast(st, r['ck'], v, self.op_ty(fr, r['o']), r['t'])
        if k == 'repeat':
            v = self.operand(st, fr, r['o'])
            return ('arr', v, ())
        return TOP

    def cast(self, st, ck, v, fromty, toty):
        if ck.startswith('PointerCoercion(Unsize'):
            if v[0] == 'p':
                pt = self.P.pointee(fromty)
                if pt is not None and self.T[self.P.strip(pt)]['k'] == 'array':
                    n = self.T[self.P.strip(pt)]['n']
                    meta = self.M.array_len(v, pt, n)
                    return ('p', v[1], v[2], meta)
            return v
        if ck == 'IntToInt':
            b = self.bits(self.P.strip(toty))
            if v[0] == 'i':
                return I(v[1] % (1 << b))
            return v
        if ck == 'Transmute':
            a, b = self.P.strip(fromty), self.P.strip(toty)
            if self.P.pointee(a) is not None and self.P.pointee(b) is not None:
                return v
            if v[0] == 'a' and len(v[2]) == 1:
                return v[2][0]
            return v
        return v

    def op_ty(self, fr, o):
        if 'cp' in o:
            return self.P.strip(o['cp']['t'])
        if 'mv' in o:
            return self.P.strip(o['mv']['t'])
        if 'rt' in o:
            return None
        return self.P.strip(o['c']['t'])

    def discr(self, st, v, ty, loc=None):
        ty = self.P.strip(ty)
        if v[0] == 'a':
            t = self.T[ty]
            if t['k'] == 'adt' and 'variants' in t and v[1] < len(t['variants']):
                return I(t['variants'][v[1]]['d'] % M64)
            return I(v[1])
        if v[0] == 's':
            if self.P.is_enum(ty):
                self.split_enum(st, v[1], ty)
            return v
        if v[0] in ('t', 'u', 'm') and loc is not None and self.P.is_enum(ty):
            nm = self.fresh_name(st, self.tag('havoc', ty))
            self.symty[nm] = ty
            raise Split([('write', loc[0], loc[1], ('s', nm))])
        return TOP

    def variant_val(self, name, ty, vi):
        fs = self.P.fields(ty, vi)
        return ('a', vi, tuple(self.mk_sym(name + (('v', vi), i), f) for i, f in enumerate(fs)))

    def split_enum(self, st, name, ty):
        out = []
        for vi, v in enumerate(self.T[ty]['variants']):
            d = st.dom.get(name)
            if d is not None and vi not in d:
                continue
            if any(self.uninhabited(f[1]) for f in v['f']):
                continue
            out.append(('subst', {name: self.variant_val(name, ty, vi)}))
        raise Split(out)

    def uninhabited(self, ty):
        t = self.T[ty]
        if t['k'] == 'never':
            return True
        return t['k'] == 'adt' and t.get('ak') == 'enum' and t.get('variants') == []

    # ------------------------------------------------------------ facts
    def subst_state(self, st, m):
        """Replace symbols everywhere in the state."""
        ks = m.keys()
        self._gone = self._gone | ks
        for n in ks:
            if '*' in n:
                # a symbol of lazily read memory: make the memory explicit first
                j = len(n) - 1 - n[::-1].index('*')
                o, path = ('x', n[:j]), n[j + 1:]
                if o in self.objty and '@' not in ''.join(x for x in path if isinstance(x, str)) and self.read(st, o, path) == ('s', n):
                    self.write(st, o, path, ('s', n))
        new = {}
        for o, v in st.store.items():
            if syms(v) & ks:
                v = subst(v, m)
            if (o[0] == 'e' or o[0] == 'x') and syms(o) & ks:
                o = subst(o, m)
            new[o] = v
        st.store = new
        rel = set()
        todo = []
        for r in st.rel:
            if syms(r) & ks:
                b = subst(('b',) + r, m)
                if b[0] == 'i':
                    if b[1] == 0:
                        st.dead = True
                elif b[0] == 'b':
                    rel.add(b[1:])
                    if b[1] == 'ne':
                        todo.append(b[1:])
            else:
                rel.add(r)
        st.rel = frozenset(rel)
        for n in ks:
            d = st.dom.pop(n, None)
            v = m[n]
            if d is not None:
                if v[0] == 'i' and v[1] not in d:
                    st.dead = True
                elif v[0] == 's':
                    e = st.dom.get(v[1])
                    st.dom[v[1]] = d if e is None else d & e
                    if not st.dom[v[1]]:
                        st.dead = True
        for k, v in st.mon.items():
            if isinstance(v, tuple) and syms(v) & ks:
                st.mon[k] = subst(v, m)
        if any(syms(f) & ks for f in st.stack):
            st.stack = tuple(subst(f, m) if syms(f) & ks else f for f in st.stack)
        for r in todo:
            # what is left of an inequality may now say more about a single symbol
            if not st.dead and r in st.rel:
                st.rel = st.rel - {r}
                if not self.assume(st, ('b',) + r, True):
                    st.dead = True

    def interval(self, st, name):
        """(lo, hi) known for an integer symbol."""
        d = st.dom.get(name)
        if d:
            return min(d), max(d)
        lo, hi = self.M.range(name)
        for op, t in st.rel:
            if t[0] == 's':
                c, k, n = 0, 1, t[1]
            elif t[0] == 'L' and len(t[2]) == 1 and t[2][0][0][0] == 's':
                c = t[1] - M64 if t[1] >= M64 // 2 else t[1]
                n, k = t[2][0][0][1], t[2][0][1]
            else:
                continue
            if n != name or abs(k) != 1:
                continue
            if op == 'ge':      # k*n + c >= 0
                if k == 1:
                    lo = max(lo, -c)
                elif hi is None or c < hi:
                    hi = c
            elif op == 'lt':    # k*n + c < 0
                if k == 1:
                    hi = -c - 1 if hi is None else min(hi, -c - 1)
                else:
                    lo = max(lo, c + 1)
            elif op == 'ne':
                x = (-c * k)
                if x == lo:
                    lo += 1
                if hi is not None and x == hi:
                    hi -= 1
        return lo, hi

    def truth(self, st, v):
        """Truth value of a condition under the facts: True, False or None."""
        if v[0] == 'i':
            return bool(v[1])
        if v[0] == 'b':
            op, t = v[1], v[2]
            if (op, t) in st.rel:
                return True
            if (NEG[op], t) in st.rel:
                return False
            if op in ('eq', 'ne'):
                n = scale(t, -1)
                for o2 in ('lt',):
                    if (o2, t) in st.rel or (o2, n) in st.rel:
                        return op == 'ne'
            else:
                if ('eq', neg_canon(t)) in st.rel:
                    return op == 'ge'
                n1 = sub(I(M64 - 1), t)  # -t - 1 : (t >= 0) == (-t-1 < 0)
                if ('lt', n1) in st.rel:
                    return op == 'ge'
                if ('ge', n1) in st.rel:
                    return op == 'lt'
            # interval reasoning on one symbol
            nm, k, c = None, None, None
            if t[0] == 's':
                nm, k, c = t[1], 1, 0
            elif t[0] == 'L' and len(t[2]) == 1 and t[2][0][0][0] == 's' and abs(t[2][0][1]) == 1:
                nm, k = t[2][0][0][1], t[2][0][1]
                c = t[1] - M64 if t[1] >= M64 // 2 else t[1]
            if nm is not None:
                lo, hi = self.interval(st, nm)
                a = k * lo + c
                b = None if hi is None else k * hi + c
                if b is None:
                    mn, mx = (a, None) if k == 1 else (None, a)
                else:
                    mn, mx = min(a, b), max(a, b)
                if op in ('lt', 'ge'):
                    if mn is not None and mn >= 0:
                        return op == 'ge'
                    if mx is not None and mx < 0:
                        return op == 'lt'
                else:
                    if (mn is not None and mn > 0) or (mx is not None and mx < 0):
                        return op == 'ne'
                    if mn == 0 and mx == 0:
                        return op == 'eq'
            return self.M.truth(st, v)
        return None

    def assume(self, st, v, val):
        """Restrict st (in place) by condition v being val; returns False if that is impossible."""
        if v[0] == 'i':
            return bool(v[1]) == val
        if v == TOP:
            return True
        if v[0] == 's':
            d = st.dom.get(v[1])
            n = 1 if val else 0
            if d is not None and n not in d:
                return False
            self.subst_state(st, {v[1]: I(n)})
            return not st.dead
        if v[0] == 'o' and v[1] == 'not':
            return self.assume(st, v[2], not val)
        if v[0] == 'o' and v[1] in ('and', 'or') and len(v) == 4:
            if (v[1] == 'and') == val:
                return self.assume(st, v[2], val) and self.assume(st, v[3], val)
            return True
        if v[0] != 'b':
            return True
        if not val:
            v = b_not(v)
        t = self.truth(st, v)
        if t is not None:
            if t:
                return True
            return False
        op, t = v[1], v[2]
        r = self.M.assume(st, op, t)
        if r is not None:
            return r and not st.dead
        if op == 'eq':
            # solve for a symbol with unit coefficient
            items = t[2] if t[0] == 'L' else ((t, 1),)
            for a, k in items:
                if a[0] == 's' and abs(k) == 1 and self.M.solvable(a[1]):
                    rest = sub(t, scale(a, k))
                    val2 = scale(rest, -k)
                    if val2 == TOP or a[1] in syms(val2):
                        continue
                    d = st.dom.get(a[1])
                    if val2[0] == 'i' and d is not None and val2[1] not in d:
                        return False
                    self.subst_state(st, {a[1]: val2})
                    return not st.dead
            st.rel = st.rel | {(op, t)}
            return True
        if op == 'ne' or op == 'lt' or op == 'ge':
            # finite domain filtering
            ss = [a for a in syms(t)]
            if len(ss) == 1 and ss[0] in st.dom:
                keep = [x for x in st.dom[ss[0]] if eval_at(v, {ss[0]: x}) in (1, None)]
                if not keep:
                    return False
                if len(keep) == 1:
                    self.subst_state(st, {ss[0]: I(keep[0])})
                else:
                    st.dom[ss[0]] = frozenset(keep)
                return not st.dead
            st.rel = st.rel | {(op, t)}
            # an interval may have become a point
            if len(ss) == 1:
                lo, hi = self.interval(st, ss[0])
                if hi is not None and lo == hi:
                    self.subst_state(st, {ss[0]: I(lo)})
                elif hi is not None and lo > hi:
                    return False
        return not st.dead

    def cases(self, st, conds):
        """Truth values of the conditions in st; splits st until all are determined."""
        out = []
        for c in conds:
            t = self.decide(st, c)
            out.append(t)
            if t is True and c is not conds[-1]:
                out.extend([False] * (len(conds) - len(out)))
                break
        return out

    def decide(self, st, v):
        """Truth value of v; raises Split when it depends on something unknown."""
        if v[0] == 'i':
            return bool(v[1])
        t = self.truth(st, v)
        if t is not None:
            return t
        if v[0] == 'o' and v[1] == 'not':
            return not self.decide(st, v[2])
        if v[0] == 'o' and v[1] in ('and', 'or') and len(v) == 4:
            a = self.decide(st, v[2])
            if v[1] == 'and' and not a:
                return False
            if v[1] == 'or' and a:
                return True
            return self.decide(st, v[3])
        if v[0] == 'b' or v[0] == 's':
            raise Split([('assume', v, True), ('assume', v, False)])
        ss = [n for n in syms(v) if n in st.dom]
        if ss:
            self.split_dom(st, ss[0])
        raise Choice()

    def split_dom(self, st, name):
        raise Split([('subst', {name: I(x)}) for x in sorted(st.dom[name])])

    def apply_ops(self, snap, ops):
        out = []
        for op in ops:
            s = snap.copy()
            if op[0] == 'subst':
                self.subst_state(s, op[1])
            elif op[0] == 'write':
                self.write(s, op[1], op[2], op[3])
            elif op[0] == 'mon':
                s.mon.update(op[1])
                for x in op[2:]:
                    if x[0] == 'write':
                        self.write(s, x[1], x[2], x[3])
                    else:
                        self.label(s, *x[1:])
            else:
                v, val = op[1], op[2]
                self._gone = frozenset()
                if not self.assume(s, v, val):
                    continue
                if v[0] == 'b' and not s.dead:
                    # an assumption that leaves no trace needs an explicit one
                    w = self.last_subst(s, v)
                    if w is not None and self.truth(s, w) is None:
                        s.rel = s.rel | {(v[1] if val else NEG[v[1]], v[2])}
            if not s.dead:
                out.append(s)
        return out

    def last_subst(self, st, v):
        """v itself if none of its symbols was substituted away by the assumption."""
        return v if st.rel is not None and not (syms(v) & self._gone) else None

    # ------------------------------------------------------------ running
    def push_call(self, st, n, args, site, co=None):
        """Push a frame for instance n. Caller has already set its pend."""
        pr = self.P.prep(n)
        parent = None
        for f in reversed(st.stack):
            if f[0] == 'fn':
                parent = f[2]
                break
        fid = self.fid(parent, site, n)
        depth = sum(1 for f in st.stack if f[0] == 'fn')
        if depth > 60:
            raise Unsupported('recursion: ' + pr.name)
        self.functions.add(n)
        st.stack = st.stack + (('fn', n, fid, 0, None),)
        for i, a in enumerate(args):
            st.store[('l', fid, i + 1)] = a
        return st

    def set_bb(self, st, bb):
        f = st.stack[-1]
        st.stack = st.stack[:-1] + ((f[0], f[1], f[2], bb, None),)
        return st

    def pop_frame(self, st):
        f = st.stack[-1]
        st.stack = st.stack[:-1]
        if f[0] == 'fn' and not self.const_depth:
            fid = f[2]
            store = st.store
            for n in range(len(self.P.prep(f[1]).locals)):
                store.pop(('l', fid, n), None)
        return f

    def do_return(self, st, val, popped=False):
        """Return from the top frame with a value."""
        if not popped:
            self.pop_frame(st)
        return self.deliver(st, val)

    def deliver(self, st, val):
        """Hand a call's result to the frame now on top."""
        if not st.stack:
            return []
        f = st.stack[-1]
        if f[0] == 'py':
            st.stack = st.stack[:-1]
            return self.py[f[1]](self, st, f[2], val, False)
        pend = f[4]
        o, path = pend[1]
        if o[0] != 'l' or o[2] >= 0:
            self.write(st, o, path, val)
        if pend[2] is None:
            return []
        return [self.set_bb(st, pend[2])]

    def do_unwind(self, st, u=None):
        """Propagate a panic: u is the top frame's unwind action (None: pop the top frame first)."""
        st.unw = True
        first = True
        while True:
            if u is None:
                self.pop_frame(st)
                if not st.stack:
                    return []
                f = st.stack[-1]
                if f[0] == 'py':
                    st.stack = st.stack[:-1]
                    return self.py[f[1]](self, st, f[2], None, True)
                u = f[4][3]
            if u == 'cont':
                u = None
                continue
            if isinstance(u, int):
                return [self.set_bb(st, u)]
            self.emit(st, 'abort')
            return []

    def emit(self, st, kind, **d):
        ev = Ev(kind, d)
        for m in self.mons:
            h = getattr(m, 'on_' + kind, None)
            if h is not None:
                h(self, st, ev)

    def label(self, st, *lab):
        """A step on shared state, for the recorded protocol automaton."""
        if self.rec is not None:
            self.rec.label(st, lab, self.where(st))

    def note(self, st, text):
        st.tr = (text, st.tr)

    def trace(self, st, n=40):
        out = []
        t = st.tr
        while t is not None and len(out) < n:
            out.append(t[0])
            t = t[1]
        out.reverse()
        return out

    def violation(self, st, rule, what, site=None):
        site = site or self.site(st)
        k = (rule, site, what)
        if k not in self.violations:
            self.violations[k] = {'rule': rule, 'construct': site, 'what': what, 'stack': self.where(st),
                                  'path': self.trace(st)}
        st.dead = True

    # ---- one block
    def step(self, st):
        """Execute the block (or python frame) at the top of the stack; returns the successor states."""
        f = st.stack[-1]
        self.stats['blocks'] += 1
        blk = self.P.I[f[1]]['blocks'][f[3]] if f[0] == 'fn' else None
        stm = blk['s'] if blk else ()
        ns = len(stm)
        base = st.copy() if ns else None
        todo = [(st, 0)]
        res = []
        guard = 0
        while todo:
            s, i = todo.pop()
            fr = s.stack[-1]
            while True:
                x = stm[i] if i < ns else None
                if x is not None and x['k'] != '=':
                    if x['k'] == 'dead':
                        s.store.pop(('l', fr[2], x['l']), None)
                    i += 1
                    continue
                snap = s.copy() if x is None or x['r']['k'] in ('discr', 'bin') else None
                try:
                    if x is None:
                        if blk is None:
                            s.stack = s.stack[:-1]
                            out = self.py[f[1]](self, s, fr[2], UNIT, False)
                        else:
                            out = self.terminator(s, fr, blk['t'])
                        for o in out:
                            if not o.dead:
                                res.append(o)
                        break
                    v = self.rvalue(s, fr, x['r'], None)
                    o, path, _ = self.resolve(s, fr, x['p'])
                    self.store_to(s, o, path, v)
                    if s.dead:
                        break
                except Split as e:
                    guard += 1
                    if guard > 2000:
                        raise Unsupported('too many splits at %s: %r' % (self.where(s), e.ops[:2]))
                    if snap is None:
                        snap, i = base, 0
                    todo.extend((c, i) for c in self.apply_ops(snap, e.ops))
                    break
                except Choice:
                    if x is None:
                        raise Unsupported('choice in a terminator at %s' % self.where(s))
                    s = snap
                    o, path, _ = self.resolve(s, fr, x['p'])
                    self.store_to(s, o, path, TOP)
                i += 1
        return res

    def terminator(self, st, fr, t):
        k = t['k']
        if k == 'goto':
            return [self.set_bb(st, t['b'])]
        if k == 'switch':
            return self.do_switch(st, fr, t)
        if k == 'ret':
            v = self.read(st, ('l', fr[2], 0), ())
            if v == UNINIT:
                v = self.zst_or_top(self.P.prep(fr[1]).locals[0])
            return self.do_return(st, v)
        if k == 'call':
            return self.do_call(st, fr, t)
        if k == 'drop':
            o, path, _ = self.resolve(st, fr, t['p'])
            self.pend(st, (('l', fr[2], -1), ()), t['b'], t['u'], t['p']['l'])
            return self.drop_tasks(st, [('val', o, path, t['p']['t'])], ('drop', fr[3]))
        if k == 'assert':
            v = self.operand(st, fr, t['o'])
            want = t['ex']
            tv = self.truth(st, v) if v[0] in 'ib' else None
            if tv is not None and tv != bool(want):
                self.emit(st, 'panic', what='assert')
                return self.do_unwind(st, t['u']) if self.unwind else []
            self.assume(st, v, bool(want))
            return [self.set_bb(st, t['b'])]
        if k == 'unreach':
            return []
        if k == 'resume':
            return self.do_unwind(st)
        if k == 'abort':
            self.emit(st, 'abort')
            return []
        if k == 'yield':
            return self.do_yield(st, fr, t)
        if k == 'cdrop':
            return self.do_return(st, UNIT)
        raise Unsupported('terminator ' + k)

    def zst_or_top(self, ty):
        t = self.T[ty]
        if t['k'] == 'tuple' and not t['fields']:
            return UNIT
        return TOP

    def pend(self, st, dest, retbb, unw, keep=None):
        f = st.stack[-1]
        pr = self.P.prep(f[1])
        if retbb is not None:
            live = pr.live[retbb]
            if isinstance(unw, int):
                live = live | pr.live[unw]
        elif isinstance(unw, int):
            live = pr.live[unw]
        else:
            live = ()
        al = pr.addr
        fid = f[2]
        dl = dest[0][2] if dest[0][0] == 'l' and dest[0][1] == fid else None
        for n in range(len(pr.locals)):
            if n not in live and n not in al and n != dl and n != keep:
                st.store.pop(('l', fid, n), None)
        st.stack = st.stack[:-1] + ((f[0], f[1], f[2], f[3], ('call', dest, retbb, unw)),)

    def do_switch(self, st, fr, t):
        v = self.operand(st, fr, t['o'])
        ty = self.op_ty(fr, t['o'])
        isb = ty is not None and self.T[ty]['k'] == 'bool'
        cases = [(int(a), b) for a, b in t['vs']]
        if v[0] == 'i':
            for a, b in cases:
                if a == v[1]:
                    return [self.set_bb(st, b)]
            return [self.set_bb(st, t['e'])]
        if isb:
            try:
                d = self.decide(st, v)
            except Choice:
                out = []
                for val in (0, 1):
                    s = st.copy()
                    self.assume(s, v, bool(val))
                    tgt = dict(cases).get(val, t['e'])
                    out.append(self.set_bb(s, tgt))
                return out
            return [self.set_bb(st, dict(cases).get(int(d), t['e']))]
        ss = [n for n in syms(v) if n in st.dom] if v != TOP else []
        if ss:
            self.split_dom(st, ss[0])
        out = []
        rest = st
        for a, b in cases:
            c = mk_cmp('eq', sub(v, I(a))) if v != TOP else TOP
            tv = self.truth(rest, c)
            if tv is False:
                continue
            if tv is True:
                out.append(self.set_bb(rest, b))
                return out
            s = rest.copy()
            if self.assume(s, c, True):
                out.append(self.set_bb(s, b))
            rest = rest.copy()
            if not self.assume(rest, c, False):
                return out
        out.append(self.set_bb(rest, t['e']))
        return out

    # ---- calls
    def do_call(self, st, fr, t):
        f = t['f']
        fn = f['c'].get('fn') if 'c' in f else None
        args = [self.operand(st, fr, a) for a in t['a']]
        atys = [self.op_ty(fr, a) for a in t['a']]
        if t['d']['p']:
            dst = self.resolve(st, fr, t['d'])[:2]
        else:
            dst = (('l', fr[2], t['d']['l']), ())
        self.pend(st, dst, t['b'], t['u'])
        if fn is None:
            ty = self.op_ty(fr, f)
            return self.foreign(st, 'fnptr', {'path': 'fnptr', 'targs': []}, args, t['d']['t'])
        return self.call_fn(st, fn, args, atys, t['d']['t'], fr[3])

    def call_fn(self, st, fn, args, atys, rty, site):
        """Call with the top frame already pending."""
        if 'ctor' in fn:
            ty, vi = fn['ctor']
            if self.P.transparent(ty):
                return self.deliver(st, args[0])
            return self.deliver(st, ('a', vi, tuple(args)))
        rk = fn.get('rk')
        path = np(fn.get('rpath') or fn['path'])
        h = self.M.handler(path, fn)
        if h is not None:
            return h(self, st, fn, args, atys, rty)
        if fn.get('inst') in self.M.intercept:
            return self.M.intercept[fn['inst']](st, fn, args, rty)
        if rk == 'fnptr':
            c = self.T[fn['fnty']]
            if c['k'] == 'fndef':
                inner = self.untuple(args[1:], None)
                return self.call_fn(st, c['callee'], inner, [None] * len(inner), rty, ('fp', site))
            return self.foreign(st, 'fnptr', fn, args, rty)
        if fn.get('inst') is not None and self.P.I[fn['inst']] and self.P.I[fn['inst']].get('blocks'):
            inst = self.P.I[fn['inst']]
            if inst.get('coroutine'):
                return self.M.poll_coroutine(self, st, fn, args, rty)
            if fn.get('closure') and inst.get('closure'):
                return self.call_closure(st, fn, args, site)
            return [self.push_call(st, fn['inst'], args, site)]
        return self.M.default_call(self, st, fn, path, args, atys, rty)

    def untuple(self, args, n):
        if len(args) == 1 and args[0][0] == 'a':
            return list(args[0][2])
        if len(args) == 1 and args[0][0] == 's':
            ty = self.symty.get(args[0][1])
            fs = self.P.fields(ty) if isinstance(ty, int) else None
            return [self.proj(args[0], i) for i in range(len(fs or ()))]
        return list(args)

    def call_closure(self, st, fn, args, site):
        """Fn*/call on a closure: self by value or by reference, arguments in a tuple."""
        inst = self.P.I[fn['inst']]
        pr = self.P.prep(fn['inst'])
        rest = self.untuple(args[1:], None)
        selfty = pr.locals[1]
        want_ref = self.T[selfty]['k'] in ('ref',)
        a0 = args[0]
        if want_ref and a0[0] != 'p':
            o = ('h', ('clo', st.stack[-1][2] if st.stack and st.stack[-1][0] == 'fn' else None, site if not isinstance(site, dict) else 0, fn['inst']))
            self.objty[o] = self.T[selfty]['to']
            st.store[o] = a0
            a0 = ('p', o, (), None)
            # by-value closure called through a reference: drop the environment afterwards
            st.stack = st.stack + (('py', 'then', ('clodrop', o)),)
            return [self.push_call(st, fn['inst'], [a0] + rest, site)]
        if not want_ref and a0[0] == 'p' and self.T[selfty]['k'] != 'ref':
            a0 = self.read(st, a0[1], a0[2])
        return [self.push_call(st, fn['inst'], [a0] + rest, site)]

    def _py_then(self, eng, st, data, val, unw):
        kind = data[0]
        if kind == 'clodrop':
            o = data[1]
            ty = self.objty[o]
            if self.T[ty]['nd'] and o in st.store:
                st.stack = st.stack + (('py', 'then', ('ret', val, unw, o)),)
                return self.drop_tasks(st, [('val', o, (), ty)], 'clo')
            st.store.pop(o, None)
            if unw:
                return self.cont_unwind(st)
            return self.deliver(st, val)
        if kind == 'ret':
            st.store.pop(data[3], None)
            if data[2] or unw:
                return self.cont_unwind(st)
            return self.deliver(st, data[1])
        raise Unsupported(kind)

    def cont_unwind(self, st):
        """Continue unwinding into the frame on top (which has a pend) or python frame."""
        if not st.stack:
            return []
        f = st.stack[-1]
        st.unw = True
        if f[0] == 'py':
            st.stack = st.stack[:-1]
            return self.py[f[1]](self, st, f[2], None, True)
        return self.do_unwind(st, f[4][3])

    def foreign(self, st, what, fn, args, rty, result=None, may_unwind=True, **info):
        """A call into user code (or something equally unknown)."""
        self.emit(st, 'foreign', what=what, fn=fn, args=args, info=info)
        if st.dead:
            return []
        out = []
        if self.unwind and may_unwind:
            s = st.copy()
            self.note(s, '%s panics' % what)
            self.emit(s, 'foreign_panic', what=what, fn=fn, args=args, info=info)
            out.extend(self.cont_unwind(s))
        v = result if result is not None else self.fresh(st, rty, 'ret')
        self.emit(st, 'foreign_ret', what=what, fn=fn, args=args, val=v, info=info)
        out.extend(self.deliver(st, v))
        return out

    # ---- catch_unwind
    def catch(self, st, rty):
        st.stack = st.stack + (('py', 'catch', (rty,)),)

    def _py_catch(self, eng, st, data, val, unw):
        if unw:
            st.unw = False
            nm = self.fresh_name(st, self.tag('payload'))
            return self.deliver(st, ('a', 1, (self.mk_sym(nm, self.P.fields(self.P.strip(data[0]), 1)[0]),)))
        return self.deliver(st, ('a', 0, (val,)))

    # ---- drops
    def drop_tasks(self, st, tasks, site):
        """Run drop tasks, then continue the frame on top (pending, or python)."""
        st.stack = st.stack + (('py', 'glue', (tuple(tasks), site, False)),)
        return self._glue_next(st)

    def _py_glue(self, eng, st, data, val, unw):
        tasks, site, wasunw = data
        st.stack = st.stack + (('py', 'glue', (tasks, site, wasunw or unw)),)
        return self._glue_next(st)

    def _glue_next(self, st):
        f = st.stack[-1]
        tasks, site, unw = f[2]
        st.stack = st.stack[:-1]
        while tasks:
            k = tasks[0]
            tasks = tasks[1:]
            st.stack = st.stack + (('py', 'glue', (tasks, site, unw)),)
            r = self.drop_one(st, k, site)
            if r is not None:
                return r
            f = st.stack[-1]
            tasks, site, unw = f[2]
            st.stack = st.stack[:-1]
        if unw:
            return self.cont_unwind(st)
        return self.deliver(st, UNIT)

    def more_tasks(self, st, new):
        f = st.stack[-1]
        tasks, site, unw = f[2]
        st.stack = st.stack[:-1] + (('py', 'glue', (tuple(new) + tasks, site, unw)),)

    def drop_one(self, st, task, site):
        """Returns None when done (maybe after queueing more tasks), else the successor states."""
        kind = task[0]
        if kind == 'free':
            self.emit(st, 'free', obj=task[1])
            return None
        if kind == 'dead':
            st.store.pop(task[1], None)
            return None
        _, o, path, ty = task
        if not isinstance(ty, int) or not self.T[ty]['nd']:
            return None
        v = self.read(st, o, path)
        if v[0] in ('m', 'u'):
            return None
        t = self.T[ty]
        k = t['k']
        if k == 'adt':
            h = self.M.drop_handler(t)
            if h is not None:
                return h(self, st, o, path, ty, v)
            if t.get('box'):
                pt = t['args'][0]
                p = self.as_ptr(st, v, pt, None)
                self.write(st, o, path, MOVED)
                self.more_tasks(st, [('val', p[1], p[2], pt), ('free', p[1])])
                return None
            if t['np'] in POINTERISH:
                return self.M.drop_arc(self, st, o, path, ty, v)
            if 'dtor' in t and not (task[0] == 'fields'):
                self.more_tasks(st, [('fields', o, path, ty)])
                fn = t['dtor']
                self.emit(st, 'dtor', ty=ty, obj=o, path=path)
                if fn.get('inst') is None:
                    return None
                return [self.push_call(st, fn['inst'], [('p', o, path, None)], ('dtor', ty))]
            if 'variants' in t and not self.P.transparent(ty) and not t.get('xdtor'):
                if t['ak'] == 'enum':
                    if v[0] == 's':
                        self.split_enum(st, v[1], self.P.strip(ty))
                    if v[0] != 'a':
                        return None
                    var = v[1]
                    fs = self.P.fields(ty, var)
                    self.more_tasks(st, [('val', o, path + (('v', var), i), f) for i, f in enumerate(fs) if self.T[f]['nd']])
                    return None
                fs = self.P.fields(ty)
                self.more_tasks(st, [('val', o, path + (i,), f) for i, f in enumerate(fs) if self.T[f]['nd']])
                return None
            if self.P.transparent(ty):
                return None
            return self.drop_foreign(st, o, path, ty, v)
        if k in ('tuple', 'closure'):
            fs = t['fields']
            self.more_tasks(st, [('val', o, path + (i,), f) for i, f in enumerate(fs) if self.T[f]['nd']])
            return None
        if k == 'coroutine':
            return self.M.drop_coroutine(self, st, o, path, ty, v)
        if k in ('param', 'alias', 'dyn', 'other', 'slice', 'array'):
            return self.drop_foreign(st, o, path, ty, v)
        return None

    def drop_foreign(self, st, o, path, ty, v):
        self.access(st, o, path, 'drop')
        if st.dead:
            return []
        self.emit(st, 'drop_value', ty=ty, val=v, obj=o, path=path)
        if st.dead:
            return []
        self.write(st, o, path, MOVED)
        if self.M.drop_is_user_code(ty):
            return self.foreign(st, 'drop', {'path': 'drop', 'targs': [ty]}, [v], None, result=UNIT, dropped=ty)
        return None

    # ---- coroutines: see model
    def do_yield(self, st, fr, t):
        return self.M.do_yield(self, st, fr, t)

    # ------------------------------------------------------------ exploration
    def gc(self, st):
        """Forget dead locals, unreachable objects and facts about dead symbols."""
        f = st.stack[-1]
        fid = f[2]
        store = st.store
        for n in self.P.prep(f[1]).kill[f[3]]:
            store.pop(('l', fid, n), None)
        # reachability of ext / heap / element objects
        roots = [v for o, v in store.items() if o[0] == 'l']
        roots.extend(v for v in st.mon.values() if isinstance(v, tuple))
        roots.extend(st.stack)
        seen = set()
        names = set()
        work = roots
        rest = [o for o in store if o[0] != 'l']
        while True:
            while work:
                v = work.pop()
                names |= syms_all(v)
                for b in bases(v):
                    if b not in seen:
                        seen.add(b)
                        x = store.get(b)
                        if x is not None:
                            work.append(x)
            for o in rest:
                if o not in seen and (self.M.keep_obj(o) or (o[0] == 'x' and o[1][:2] in names)):
                    seen.add(o)
                    work.append(store[o])
            if not work:
                break
        for o in rest:
            if o not in seen:
                del store[o]
        if st.rel or st.dom:
            live = set()
            for v in store.values():
                live |= syms(v)
            for o in store:
                if o[0] == 'e':
                    live |= syms(o)
            for v in st.mon.values():
                if isinstance(v, tuple):
                    live |= syms(v)
            for x in st.stack:
                live |= syms(x)
            self.M.extend_live(st, live)
            if st.dom:
                for n in [n for n in st.dom if n not in live]:
                    del st.dom[n]
            if st.rel:
                st.rel = frozenset(r for r in st.rel if syms(r) <= live)

    def widen(self, st):
        f = st.stack[-1]
        fid, bb = f[2], f[3]
        for o, v in list(st.store.items()):
            if o[0] == 'l' and v[0] in ('i', 'L', 'a', 'o'):
                if v[0] == 'i' and o[1] != fid:
                    pass
                self._widen_val(st, (fid, bb), o, (), v)

    def _widen_val(self, st, wk, o, path, v):
        if v[0] == 'a':
            for i, x in enumerate(v[2]):
                if x[0] in ('i', 'L', 'a', 'o'):
                    self._widen_val(st, wk, o, path + (i,), x)
            return
        if v[0] not in ('i', 'L', 'o'):
            return
        k = (wk, o, path, v[2] if v[0] == 'L' else v[0])
        s = self._wid.get(k)
        if s is None:
            s = self._wid[k] = set()
        if s == 'W':
            if v[0] == 'i' and v[1] < 2 and False:
                return
            nm = self.fresh_name(st, self.tag('widen', wk, o, path))
            self.write_raw(st, o, path, ('s', nm))
            if st.mon.get('d:w') == v:
                # the monitor's count of visited slots moves in step with the counter
                st.mon['d:w'] = ('s', nm)
            return
        s.add(v)
        if len(s) > (self.K if v[0] == 'i' else min(self.K, 12)):
            self._wid[k] = 'W'

    def write_raw(self, st, o, path, val):
        def upd(v, p):
            if not p:
                return val
            f = list(v[2])
            f[p[0]] = upd(f[p[0]], p[1:])
            return ('a', v[1], tuple(f))
        st.store[o] = upd(st.store[o], path)

    def run(self, inits):
        work = list(inits)
        seen = set()
        n = 0
        while work:
            st = work.pop()
            if st.dead:
                continue
            while True:
                if not st.stack:
                    break
                f = st.stack[-1]
                if f[0] == 'fn' and self.P.prep(f[1]).join[f[3]]:
                    self.gc(st)
                    self.widen(st)
                    k = st.key()
                    self.stats['joins'] += 1
                    if self.rec is not None:
                        self.rec.join(st, k)
                    if k in seen:
                        break
                    seen.add(k)
                    n += 1
                    if n > self.budget:
                        raise Budget('more than %d states' % self.budget)
                out = self.step(st)
                if not out:
                    break
                if len(out) == 1:
                    st = out[0]
                    continue
                work.extend(out[1:])
                st = out[0]
        self.stats['states'] += n


class Choice(Exception):
    """A condition nothing is known about."""


def syms_all(v):
    """Base names (tag, n) occurring in symbols or ext objects of a value."""
    r = _sa.get(v)
    if r is not None:
        return r
    acc = set()
    if isinstance(v, tuple) and v:
        k = v[0]
        if k == 's' and len(v) == 2 and isinstance(v[1], tuple):
            acc.add(v[1][:2])
        elif k == 'x' and len(v) == 2 and isinstance(v[1], tuple):
            acc.add(v[1][:2])
        else:
            for x in v:
                if isinstance(x, tuple):
                    acc |= syms_all(x)
    r = frozenset(acc)
    if len(_sa) > 400000:
        _sa.clear()
    _sa[v] = r
    return r


_sa = {}
_bs = {}


def bases(v):
    """Objects that a value points to."""
    r = _bs.get(v)
    if r is not None:
        return r
    acc = set()
    if isinstance(v, tuple) and v:
        if v[0] in ('p', 'g') and len(v) >= 3 and isinstance(v[1], tuple):
            b = v[1]
            acc.add(b)
            while b[0] == 'e':
                b = b[1]
                acc.add(b)
        for x in v:
            if isinstance(x, tuple):
                acc |= bases(x)
    r = frozenset(acc)
    if len(_bs) > 400000:
        _bs.clear()
    _bs[v] = r
    return r


def _decide_or(self, st, v):
    """decide, but unknown conditions are split as an arbitrary choice is not available: treat as unknown -> assume."""
    if v == TOP:
        return False
    try:
        return self.decide(st, v)
    except Choice:
        return False


Engine.decide_or = _decide_or
