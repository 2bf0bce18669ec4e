"""Harness: which entry points are explored, and how a caller may use what they return."""
from terms import *
from core import *


class Root:
    def __init__(self, kind, name, inst=None, ty=None, rec=None):
        self.kind = kind      # 'fn' | 'drop'
        self.name = name
        self.inst = inst
        self.ty = ty
        self.rec = rec


def roots(P, fmt=False):
    """Exported functions and the drops of exported types."""
    out = []
    seen = set()
    for r in P.roots:
        if not r['exported'] or not P.I[r['inst']] or not P.I[r['inst']].get('blocks'):
            continue
        tr = r.get('itrait', '')
        if tr.endswith('::Drop') or tr.startswith('pin_project') or 'PinnedDrop' in tr:
            continue
        if not fmt and ('::fmt::' in tr or tr.endswith('::Error')):
            continue
        if r['inst'] in seen:
            continue
        seen.add(r['inst'])
        out.append(Root('fn', r['path'], inst=r['inst'], rec=r))
    for a in P.adts:
        t = P.T[a['ty']]
        if a['exported'] and t['nd']:
            out.append(Root('drop', 'drop of ' + a['path'], ty=a['ty']))
    return out


class Driver:
    """Explores roots with an engine."""

    def __init__(self, eng):
        self.e = eng
        eng.py['root'] = self._root
        eng.py['end'] = self._end
        eng.py['polled'] = self._polled
        self.cur = None
        self.max_polls = None

    def start(self, r):
        e = self.e
        st = new_state()
        self.cur = r
        st.mon['~polls'] = 0
        for m in e.mons:
            m.start(e, st, r)
        if r.kind == 'fn':
            pr = e.P.prep(r.inst)
            args = []
            for i in range(pr.argc):
                nm = (e.tag('arg', i + 1), 0)
                args.append(e.mk_sym(nm, pr.locals[i + 1]))
            st.names = frozenset((e.tag('arg', i + 1), 0) for i in range(pr.argc))
            st.stack = (('py', 'root', (r.inst,)),)
            e.emit(st, 'start', root=r, args=args)
            return [e.push_call(st, r.inst, args, 'root')]
        o = ('x', (e.tag('dropped'), 0))
        e.objty[o] = r.ty
        st.names = frozenset([(e.tag('dropped'), 0)])
        st.stack = (('py', 'end', ()),)
        e.emit(st, 'start', root=r, args=[('p', o, (), None)])
        st.stack = st.stack + (('py', 'glue', ((('val', o, (), r.ty),), 'root', False)),)
        return [st]

    def explore(self, r):
        self.cur = r
        self.e.root_name = r.name
        self.e._wid.clear()
        self.e.run(self.start(r))

    def _root(self, e, st, data, val, unw):
        r = self.cur
        if unw:
            e.emit(st, 'unwound', root=r)
            return []
        rty = e.P.prep(data[0]).locals[0]
        o = ('h', ('result',))
        e.objty[o] = rty
        st.store[o] = val
        if e.T[rty]['k'] == 'coroutine':
            return self.poll_or_drop(st, o, rty, first=True)
        e.emit(st, 'ret', root=r, val=val, ty=rty)
        if st.dead:
            return []
        return self.drop_result(st, o, rty)

    def drop_result(self, st, o, ty):
        st.stack = st.stack + (('py', 'end', ()),)
        st.stack = st.stack + (('py', 'glue', ((('val', o, (), ty), ('dead', o)), 'result', False)),)
        return [st]

    def poll_or_drop(self, st, o, ty, first):
        """A caller may poll a pending future again or drop it."""
        e = self.e
        a = st.copy()
        e.note(a, 'future dropped')
        e.emit(a, 'future_drop', first=first)
        out = [] if a.dead else self.drop_result(a, o, ty)
        if not first and e.opts.get('wakers') and '~wv' in st.mon:
            # the future may have moved to another task
            b = st.copy()
            b.mon['~wv'] = 1 - b.mon['~wv']
            out += self.poll(b, o, ty, first)
        return out + self.poll(st, o, ty, first)

    def poll(self, st, o, ty, first):
        e = self.e
        out = []
        st.stack = st.stack + (('py', 'polled', (o, ty)),)
        cx = ('x', (e.tag('cx'), 0))
        inst = e.T[ty]['inst']
        e.objty.setdefault(cx, None)
        e.note(st, 'poll')
        e.emit(st, 'poll', first=first)
        out += e.M.poll_coroutine(e, st, {'inst': inst}, [('a', 0, (('p', o, (), None),)), ('p', cx, (), None)], None)
        return out

    def _polled(self, e, st, data, val, unw):
        o, ty = data
        if unw:
            e.emit(st, 'unwound', root=self.cur)
            if st.dead:
                return []
            st.unw = False
            return self.drop_result(st, o, ty)
        if val[0] == 'a' and val[1] == 1:
            e.note(st, 'Pending')
            e.emit(st, 'pending', root=self.cur)
            if st.dead:
                return []
            return self.poll_or_drop(st, o, ty, first=False)
        v = val[2][0] if val[0] == 'a' else TOP
        n = e.T[ty]['inst']
        rty = e.P.prep(n).locals[0]
        r = ('h', ('ready',))
        e.objty[r] = rty
        st.store[r] = v
        e.note(st, 'Ready')
        e.emit(st, 'ret', root=self.cur, val=v, ty=rty)
        if st.dead:
            return []
        # the future is dropped first, the result afterwards
        st.stack = st.stack + (('py', 'end', ()),)
        st.stack = st.stack + (('py', 'glue', ((('val', o, (), ty), ('dead', o), ('val', r, (), rty), ('dead', r)), 'result', False)),)
        return [st]

    def _end(self, e, st, data, val, unw):
        if unw:
            e.emit(st, 'unwound', root=self.cur)
        else:
            e.emit(st, 'end', root=self.cur)
        return []
