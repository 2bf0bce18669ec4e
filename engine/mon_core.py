"""Rules about the ring buffer: claiming, publishing and releasing slots, their contents, reported outcomes."""
from terms import *
from core import *
from models import acq, rel as is_rel

RULES = {
    'claim': 'a slot is claimed only by a compare-and-swap of tail (head) from v to its successor after its state was '
             'loaded (Acquire) as v (v+1)',
    'own': "a slot's element is only touched between claim and release, or under exclusive ownership of the buffer",
    'release': 'a claimed slot is released exactly once, with a Release store of v+1 (push) or v+generation (pop)',
    'pos': 'head and tail only move by claims; the closed bit is only ever added to tail',
    'leak-claim': 'an operation that claimed a slot releases it or returns a reference to it',
    'index': 'an unchecked index into the slots is below their number',
    'ctor': 'a buffer is built with at least one slot, its capacity equal to the number of slots, slot i in state i, '
            'head = tail = 0 and disjoint index/closed/generation fields',
    'init': 'the element of a slot is initialized before it is used, returned or released, never overwritten while live',
    'dropslots': 'dropping the buffer drops the element of exactly those slots whose state shows they were used',
    'full': 'Full is returned only with the needed slot seen in use (or head one lap behind tail) and tail not closed',
    'empty': 'Empty is returned only with the front slot seen not ready and the closed state of the drained queue ruled out',
    'closed': 'Closed is returned only if tail was seen closed (and, to a popper, equal to head)',
    'recycle': 'a first push initializes with new_element, a later one recycles, exactly once; a pop by value leaves a new element',
    'len': 'len, is_empty, capacity and remaining equal their specification for every position of head and tail',
    'len-snap': 'the answer of len, remaining and is_empty held at some moment between the first and the last of its reads, for every way head and tail can move between the reads (capacities up to 3)',
}


class CoreMon:
    """Monitor state: k:t k:h last values seen of tail/head; k:s last slot state seen (slot, value, acquire);
    k:c claims; k:x exclusive access; d:* progress of dropping all slots."""

    def __init__(self, ctx):
        self.ctx = ctx          # ctx.report(rule, ...) decides which property a finding belongs to

    def attach(self, e):
        self.e = e
        self.M = e.M
        self.slot_fields = {}
        self.elem = {e.P.strip(t['args'][0]) for t in e.T if t and t['k'] == 'adt' and t.get('local')
                     and t['path'].split('::')[-1] == 'Slot' and t['args']}
        for n, t in enumerate(e.T):
            if t and t['k'] == 'adt' and t.get('local') and t['path'].split('::')[-1] == 'Slot':
                self.slot_fields[n] = {f[0]: i for i, f in enumerate(t['variants'][0]['f'])}

    @property
    def G(self):
        g = None
        ct = getattr(self.M, 'core_ty', None)
        if ct is not None:
            for i, (n, _) in enumerate(self.e.T[self.e.P.strip(ct)]['variants'][0]['f']):
                if n == 'gen':
                    g = self.e.constfields.get((ct, i))
        return g if g is not None else scale(self.M.C, 2)

    def start(self, e, st, r):
        self.root = r
        st.mon['k:t'] = st.mon['k:h'] = st.mon['k:s'] = ()
        st.mon['k:c'] = ()
        st.mon['k:x'] = 1 if r.kind == 'drop' and self.owns(r.ty) else 0
        st.mon['d:cur'] = ()
        st.mon['d:vis'] = ()
        st.mon['d:rng'] = ()
        st.mon['d:look'] = st.mon['d:rv'] = 0
        st.mon['d:zero'] = ()
        st.mon['d:w'] = I(0)
        st.mon['r:new'] = ()
        st.mon['r:rec'] = 0
        st.mon['w:arg'] = st.mon['w:in'] = st.mon['w:out'] = ()

    def on_start(self, e, st, ev):
        if self.root.kind == 'fn':
            pr = e.P.prep(self.root.inst)
            for t, a in zip(pr.locals[1:1 + pr.argc], ev.args):
                if e.P.strip(t) in self.elem:
                    st.mon['w:arg'] = (a,)
        if st.mon['k:x'] and getattr(self.M, 'core_val', None):
            # plain fields of the core are as the constructor left them until the buffer is dropped
            o = ev.args[0][1]
            p = self.find_core(e.obj_type(o), ())
            if p is not None:
                for i in self.M.core_written:
                    v = self.M.core_val[2][i]
                    if v[0] == 'i':
                        e.write(st, o, p + (i,), v)

    def find_core(self, ty, path, depth=0):
        P = self.e.P
        if not isinstance(ty, int) or depth > 5:
            return None
        ty = P.strip(ty)
        t = P.T[ty]
        if t['k'] != 'adt' or not t.get('local') or t.get('ak') != 'struct':
            return None
        if t['path'].split('::')[-1] == 'Core':
            return path
        for i, f in enumerate(P.fields(ty) or ()):
            r = self.find_core(f, path + (i,), depth + 1)
            if r is not None:
                return r
        return None

    # ------------------------------------------------------------ helpers
    def bad(self, st, rule, what, extra=()):
        if st.mon.get('nodrop') == 'yes' and (rule == 'leak' or (rule == 'dropslots' and ('not dropped' in what or 'without' in what))):
            return          # the element type has no destructor on this path
        self.ctx.report(self.e, st, rule, what)

    def eq(self, st, a, b):
        if a == b:
            return True
        d = sub(a, b)
        if d == TOP:
            return None
        return self.e.truth(st, mk_cmp('eq', d))

    def owns(self, ty, depth=0, seen=None):
        """A value of this type directly contains the slots."""
        P = self.e.P
        seen = seen or set()
        if not isinstance(ty, int) or ty in seen or depth > 6:
            return False
        seen.add(ty)
        t = P.T[P.strip(ty)]
        if t['k'] in ('slice', 'array'):
            return self.is_slot_ty(t.get('elem'))
        if t['k'] == 'adt' and t.get('box'):
            return self.owns(t['args'][0], depth + 1, seen)
        if t['k'] == 'adt' and t.get('local') or t['k'] == 'tuple':
            return any(self.owns(f, depth + 1, seen) for f in (P.fields(P.strip(ty)) or ()))
        return False

    def is_slot_ty(self, ty):
        return isinstance(ty, int) and self.e.T[self.e.P.strip(ty)].get('path', '').split('::')[-1] == 'Slot'

    def is_slot_slice(self, ptr):
        if ptr[0] != 'p':
            return False
        t = self.e.path_ty(ptr[1], ptr[2])
        if not isinstance(t, int):
            return False
        return self.is_slot_ty(self.e.T[self.e.P.strip(t)].get('elem'))

    def vpath(self, o):
        t = self.e.obj_type(o)
        t = self.e.P.strip(t) if isinstance(t, int) else None
        f = self.slot_fields.get(t)
        return (f['value'],) if f and 'value' in f else None

    def content(self, st, o):
        p = self.vpath(o)
        if p is None:
            return None
        v = self.e.read(st, o, p)
        while v[0] == 'a' and len(v[2]) == 1:
            v = v[2][0]
        return v

    def set_content(self, st, o, v):
        p = self.vpath(o)
        if p is None:
            return
        cur = self.e.read(st, o, p)
        n = 0
        while cur[0] == 'a' and len(cur[2]) == 1:
            cur = cur[2][0]
            n += 1
        t = self.e.path_ty(o, p)
        # the crate's own UnsafeCell wrapper is a struct with one field
        path = p
        while isinstance(t, int):
            t = self.e.P.strip(t)
            fs = self.e.P.fields(t)
            if fs and len(fs) == 1 and self.e.T[t].get('local'):
                path = path + (0,)
                t = fs[0]
            else:
                break
        self.e.write(st, o, path, v)

    def fresh_elem(self, st, o):
        e = self.e
        nm = e.fresh_name(st, e.tag('element'))
        p = self.vpath(o)
        t = e.path_ty(o, p)
        while isinstance(t, int):
            t = e.P.strip(t)
            fs = e.P.fields(t)
            if fs and len(fs) == 1 and e.T[t].get('local'):
                t = fs[0]
            else:
                break
        return e.mk_sym(nm, t)

    def claims(self, st, o):
        return [c for c in st.mon['k:c'] if c[1] == o]

    def slot_of(self, ptr):
        """Slot object whose element a pointer leads into."""
        if ptr[0] != 'p':
            return None
        for a, f, n in self.e.roles(ptr[1], ptr[2]):
            if a == 'Slot' and f == 'value':
                return ptr[1]
        return None

    def succ(self, st, v):
        """Successor of a position; decides whether it is the last index."""
        sw = self.M.split_word(v)
        if sw is None:
            return None
        last = mk_cmp('ge', sub(add(sw['idx'], I(1)), self.M.CAP))
        if sw['idx'] == sub(self.M.CAP, I(1)):
            l = True
        else:
            l = self.e.decide(st, last)
        if l:
            return add(sw['gen'], self.G)
        return add(add(sw['idx'], sw['gen']), I(1))

    # ------------------------------------------------------------ atomics
    def on_atomic(self, e, st, ev):
        role = ev.role
        if role in (('Core', 'tail'), ('Core', 'head')):
            self.position(e, st, ev, role[1])
        elif role == ('Slot', 'state'):
            self.slot_state(e, st, ev)

    def position(self, e, st, ev, which):
        key = 'k:t' if which == 'tail' else 'k:h'
        e.count('accesses of head and tail', (e.site(st), which, ev.op))
        if ev.new is None:
            st.mon[key] = (ev.old,)
            return
        if ev.old is None:
            self.bad(st, 'pos', '%s is overwritten with a plain store' % which)
            return
        if self.eq(st, ev.old, ev.new):
            st.mon[key] = (ev.old,)
            return
        sw = self.M.split_word(ev.old)
        if which == 'tail' and sw is not None:
            o = add(sw['idx'], sw['gen'])
            if self.eq(st, ev.new, add(o, self.M.C)):
                st.mon[key] = (ev.old,)
                return
        if not ev.op.startswith('compare') or sw is None:
            self.bad(st, 'pos', '%s is changed by %s without claiming a slot' % (which, ev.op))
            return
        v = ev.old
        if which == 'tail' and sw['cl'] != I(0):
            if e.truth(st, mk_cmp('eq', sw['cl'])) is not True:
                self.bad(st, 'claim', 'a slot is claimed although the buffer may be closed')
                return
        n = self.succ(st, v)
        if self.eq(st, ev.new, n) is not True:
            self.bad(st, 'pos', '%s is advanced to something other than the next position' % which)
            return
        s = st.mon['k:s']
        want = v if which == 'tail' else add(v, I(1))
        if not s or s[0][0] != 'e' or self.eq(st, s[0][3], sw['idx']) is not True:
            self.bad(st, 'claim', 'a slot is claimed by moving %s without having loaded the state of that slot' % which)
            return
        if self.eq(st, s[1], want) is not True:
            self.bad(st, 'claim', 'a slot is claimed by moving %s although its state was not seen to be %s'
                     % (which, 'free' if which == 'tail' else 'ready'))
            return
        if not s[2]:
            self.bad(st, 'acquire', 'the state of a claimed slot is loaded without Acquire ordering')
            return
        o = s[0]
        kind = 'push' if which == 'tail' else 'pop'
        e.count('claims', (e.site(st), kind))
        if kind == 'push':
            uninit = e.decide(st, mk_cmp('eq', sw['gen'])) if sw['gen'] != I(0) else True
            self.set_content(st, o, UNINIT if uninit else self.fresh_elem(st, o))
        else:
            self.set_content(st, o, self.fresh_elem(st, o))
        st.mon['k:c'] = st.mon['k:c'] + ((kind, o, v, self.content(st, o), 0),)
        st.mon[key] = (v,)

    def slot_state(self, e, st, ev):
        o = ev.ptr[1]
        e.count('accesses of slot states', (e.site(st), ev.op))
        if ev.new is None:
            a = acq(ev.ords[-1] if ev.ok is False else ev.ords[0]) if ev.ords and ev.ords[0] else True
            prev, st.mon['k:s'] = st.mon['k:s'], (o, ev.old, int(a))
            if st.mon['k:x'] and o[0] == 'e':
                st.mon['d:look'] = 1
                rg = st.mon['d:rng']
                if rg and rg[0] == o[3] and rg[1] == 0:
                    st.mon['d:rng'] = (rg[0], 1)
                    st.mon['d:cur'] = (o, 0)
                elif not rg and not st.mon['d:vis'] and (not st.mon['d:cur'] or st.mon['d:cur'][0] != o) and self.eq(st, o[3], st.mon['d:w']) is True:
                    # a hand-written counting loop: slots are looked at in order
                    if st.mon['d:w'] != I(0):
                        st.mon['k:s'] = prev
                        self.close_item(st)
                        if st.dead:
                            return
                        st.mon['k:s'] = (o, ev.old, int(a))
                    st.mon['d:cur'] = (o, 0)
                    st.mon['d:w'] = add(o[3], I(1))
            return
        if o[0] in ('l', 'h') or st.mon['k:x']:
            return
        cs = self.claims(st, o)
        if not cs:
            if o[0] == 'e':
                self.bad(st, 'release', 'the state of a slot is changed by an operation that does not own the slot')
            return
        kind, _, v, _, _ = cs[0]
        want = add(v, I(1)) if kind == 'push' else add(v, self.G)
        if self.eq(st, ev.new, want) is not True:
            self.bad(st, 'release', 'a slot claimed for %s is released in a state other than %s' %
                     (kind, 'ready' if kind == 'push' else 'free in the next lap'))
            return
        if ev.ords and ev.ords[0] and not is_rel(ev.ords[0]) and not st.mon.get('k:rf'):
            self.bad(st, 'publish', 'a slot is released without Release ordering')
            return
        c = self.content(st, o)
        if c is not None and c[0] in ('u', 'm'):
            self.bad(st, 'init', 'a slot claimed for %s is released while its element is %s' %
                     (kind, 'uninitialized' if c[0] == 'u' else 'moved out'))
            return
        e.count('releases', (e.site(st), kind))
        if kind == 'push':
            st.mon['w:in'] = st.mon['w:in'] + (c if c is not None else TOP,)
        else:
            st.mon['w:out'] = st.mon['w:out'] + ((cs[0][3], c if c is not None else TOP),)
        st.mon['k:c'] = tuple(c for c in st.mon['k:c'] if c[1] != o)
        self.set_content(st, o, TOP)

    def on_fence(self, e, st, ev):
        if acq(ev.ord) and st.mon['k:s']:
            st.mon['k:s'] = st.mon['k:s'][:2] + (1,)
        if is_rel(ev.ord):
            st.mon['k:rf'] = 1

    # ------------------------------------------------------------ contents
    def on_slot_access(self, e, st, ev):
        o = ev.obj
        if o[0] != 'e' or st.dead:
            return
        base = o[1]
        while base[0] == 'e':
            base = base[1]
        if base[0] in ('l', 'h') and not st.mon['k:x']:
            return      # under construction
        e.count('accesses of elements in slots', (e.site(st), ev.how))
        if not st.mon['k:x'] and not self.claims(st, o):
            self.bad(st, 'own', "a slot's element is accessed (%s) without owning the slot" % ev.how)
            return
        if st.mon['k:x']:
            if ev.how == 'drop':
                self.slot_dropped(st, o)
            return
        c = e.read(st, o, ev.path)
        if ev.how in ('read', 'move', 'drop'):
            if c[0] == 'u':
                self.bad(st, 'init', 'an uninitialized element is used (%s)' % ev.how)
            elif c[0] == 'm' and ev.how != 'drop':
                self.bad(st, 'init', 'an element is used after it was moved out or dropped')
        elif ev.how == 'write':
            if c[0] not in ('u', 'm', 't') and self.whole(o, ev.path):
                self.bad(st, 'leak', 'a live element is overwritten without being dropped')

    def whole(self, o, path):
        t = self.e.path_ty(o, path)
        return isinstance(t, int) and self.e.T[self.e.P.strip(t)]['k'] in ('param', 'alias')

    def on_raw_drop(self, e, st, ev):
        o = self.slot_of(ev.ptr)
        if o is None or o[0] != 'e':
            return
        if st.mon['k:x']:
            return
        c = self.content(st, o)
        if c is not None and c[0] in ('u', 'm'):
            self.bad(st, 'init', 'an element that is %s is dropped' % ('uninitialized' if c[0] == 'u' else 'already gone'))

    def on_foreign(self, e, st, ev):
        for a in ev.args:
            for p in ptrs(a):
                o = self.slot_of(p)
                if o is None or o[0] != 'e':
                    continue
                c = self.content(st, o)
                if not st.mon['k:x'] and not self.claims(st, o):
                    self.bad(st, 'own', '%s is given an element of a slot that is not owned' % ev.what)
                elif c is not None and c[0] in ('u', 'm'):
                    self.bad(st, 'init', '%s is given an %s element' % (ev.what, 'uninitialized' if c[0] == 'u' else 'absent'))
                if st.dead:
                    return
                if ev.what == 'Recycle::recycle':
                    for cl in self.claims(st, o):
                        if cl[0] == 'push':
                            if cl[4]:
                                self.bad(st, 'recycle', 'an element is recycled twice for one push')
                                return
                            st.mon['k:c'] = tuple(x if x != cl else cl[:4] + (1,) for x in st.mon['k:c'])
        # anything may be done to an element handed out mutably

    def on_foreign_ret(self, e, st, ev):
        if ev.what == 'Recycle::new_element':
            st.mon['r:new'] = (ev.val,)
        if ev.what.split('::')[0] not in ('Recycle', 'FnOnce', 'FnMut', 'Fn', 'closure'):
            return
        for a in ev.args:
            for p in ptrs(a):
                o = self.slot_of(p)
                if o is not None and o[0] == 'e' and self.claims(st, o):
                    self.set_content(st, o, self.fresh_elem(st, o))

    def on_foreign_panic(self, e, st, ev):
        if ev.what.startswith('Recycle::'):
            # the claim of a push whose policy panics stays taken (documented limitation), but is never reused
            st.mon['k:c'] = tuple(c for c in st.mon['k:c'] if c[0] != 'push')

    # ------------------------------------------------------------ dropping everything
    def on_arc_last(self, e, st, ev):
        pt = e.T[ev.ty]['args'][0]
        if self.owns(pt):
            st.mon['k:x'] = 2

    def slot_dropped(self, st, o):
        e = self.e
        cur = st.mon['d:cur']
        e.count('drops of elements', e.site(st))
        s = st.mon['k:s']
        if not (s and s[0] == o and self.eq(st, s[1], o[3]) is False):
            self.bad(st, 'dropslots', 'an element is dropped although its slot may never have been initialized')
            return
        if cur and cur[0] == o:
            if cur[1]:
                self.bad(st, 'dropslots', 'an element is dropped twice')
                return
            st.mon['d:cur'] = (o, 1)
        else:
            st.mon['d:cur'] = (o, 2)

    def close_item(self, st):
        cur = st.mon['d:cur']
        if cur and not cur[1]:
            s = st.mon['k:s']
            if not (s and s[0] == cur[0] and self.eq(st, s[1], cur[0][3]) is True):
                self.bad(st, 'dropslots', 'a slot that was used is not dropped with the buffer')

    def on_iter_next(self, e, st, ev):
        if st.mon['k:x'] and self.is_slot_slice(ev.ptr):
            self.close_item(st)
            st.mon['d:cur'] = (('e', ev.ptr[1], ev.ptr[2], ev.ix), 0)

    def on_iter_end(self, e, st, ev):
        if st.mon['k:x'] and self.is_slot_slice(ev.ptr):
            self.close_item(st)
            if st.dead:
                return
            if st.mon['d:vis']:
                self.bad(st, 'dropslots', 'the slots are dropped more than once')
                return
            st.mon['d:vis'] = (ev.len, st.mon['k:t'])
            st.mon['d:cur'] = ()

    def on_range_next(self, e, st, ev):
        if not st.mon['k:x']:
            return
        self.range_item(st)
        if not st.dead:
            st.mon['d:rng'] = (ev.ix, 0)
            st.mon['d:cur'] = ()

    def range_item(self, st):
        rg = st.mon['d:rng']
        if rg and rg[1]:
            self.close_item(st)
            st.mon['d:rv'] = 1

    def on_range_end(self, e, st, ev):
        if not st.mon['k:x']:
            return
        self.range_item(st)
        if st.dead:
            return
        if st.mon['d:rv']:
            if st.mon['d:vis']:
                self.bad(st, 'dropslots', 'the slots are dropped more than once')
                return
            st.mon['d:vis'] = (ev.end, st.mon['k:t'])
            st.mon['d:cur'] = ()
        elif ev.start == I(0):
            st.mon['d:zero'] = (ev.end, st.mon['k:t'])
        st.mon['d:rng'] = ()
        st.mon['d:rv'] = 0

    def nothing_to_drop(self, e, st):
        """No slot was ever claimed."""
        t = st.mon['k:t']
        sw = self.M.split_word(t[0]) if t else None
        if sw is None:
            return False
        z = lambda x: x == I(0) or e.truth(st, mk_cmp('eq', x)) is True \
            or e.truth(st, mk_cmp('lt', sub(I(0), x))) is False
        return z(sw['gen']) and z(sw['idx'])

    def check_dropped(self, e, st):
        v = st.mon['d:vis'] or st.mon['d:zero']
        if not v and self.nothing_to_drop(e, st):
            return
        if not v and st.mon['d:w'] != I(0):
            self.close_item(st)
            if st.dead:
                return
            v = (st.mon['d:w'], st.mon['k:t'])
        if not v:
            if st.mon['d:cur'] or st.mon['d:look']:
                self.ctx.incomplete('slots are dropped in a way that is not understood', e.site(st))
                return
            self.bad(st, 'dropslots', 'the buffer is dropped without dropping its elements')
            return
        n, t = v
        e.count('ways to drop a buffer', self.root.name)
        covers = lambda m: self.eq(st, n, m) is True or e.truth(st, mk_cmp('lt', sub(n, m))) is False
        if covers(self.M.CAP):
            return
        if t:
            sw = self.M.split_word(t[0])
            if sw is not None and (sw['gen'] == I(0) or e.truth(st, mk_cmp('eq', sw['gen'])) is True) and covers(sw['idx']):
                return
        self.bad(st, 'dropslots', 'the buffer is dropped without visiting every slot that may be initialized')

    # ------------------------------------------------------------ indices
    def on_index(self, e, st, ev):
        if ev.checked or not self.is_slot_slice(ev.ptr):
            return
        e.count('unchecked slot indices', e.site(st))
        ln = ev.ptr[3]
        if ln is None or ev.ix == TOP:
            self.ctx.incomplete('index not understood', e.site(st))
            return
        if self.e.truth(st, mk_cmp('lt', sub(ev.ix, ln))) is not True:
            self.bad(st, 'index', 'a slot is accessed unchecked at an index that is not known to be below the capacity')

    # ------------------------------------------------------------ results
    def on_ret(self, e, st, ev):
        for kind, o, v, c0, rec in st.mon['k:c']:
            if o not in bases(ev.val):
                if kind == 'push':
                    self.bad(st, 'leak-claim', 'the operation returns with a claimed slot that nobody will release')
                else:
                    self.bad(st, 'leak-claim', 'the operation returns with a popped slot that nobody will release')
                return
            c = self.content(st, o)
            if c is not None and c[0] in ('u', 'm'):
                self.bad(st, 'init', 'a reference to an uninitialized element is returned')
                return
            if kind == 'push':
                sw = self.M.split_word(v)
                first = sw['gen'] == I(0) or e.truth(st, mk_cmp('eq', sw['gen'])) is True
                if first and st.mon['r:new'] != (c,):
                    self.bad(st, 'recycle', 'a first push does not leave a new element in the slot')
                    return
                if not first and not rec:
                    self.bad(st, 'recycle', 'a later push hands out an element that was not recycled')
                    return
                if not first and st.mon['r:new']:
                    self.bad(st, 'recycle', 'a later push makes a new element')
                    return
            elif c != c0 or st.mon['r:new']:
                self.bad(st, 'recycle', 'a popped reference does not show the element as it was pushed')
                return
        out = self.outcome(e, ev)
        if out is None:
            return
        e.count('outcomes', (ev.root.name, out))
        self.check_value(e, st, ev, out)
        if st.dead:
            return
        if out != 'ok':
            if st.mon['k:c']:
                self.bad(st, 'leak-claim', 'a failing operation has claimed a slot')
                return
            self.check_outcome(e, st, out)

    def check_value(self, e, st, ev, out):
        m = st.mon
        v = ev.val
        if m['w:arg']:
            a = m['w:arg'][0]
            if out == 'ok':
                e.count('values sent', self.root.name)
                if m['w:in'] != (a,):
                    self.bad(st, 'value-in', 'a push succeeds although what was published is not exactly the value that was passed')
            else:
                e.count('values handed back', self.root.name)
                x = v[2][0]
                while x[0] == 'a' and len(x[2]) == 1:
                    x = x[2][0]
                if m['w:in']:
                    self.bad(st, 'value-in', 'a push fails although a slot was published')
                elif x != a:
                    self.bad(st, 'value-in', 'the failing push does not hand back the value that was passed')
            return
        t = e.T[e.P.strip(ev.ty)]
        if out == 'ok' and t.get('args') and e.P.strip(t['args'][0]) in self.elem:
            e.count('values received', self.root.name)
            if len(m['w:out']) != 1:
                self.bad(st, 'value-out', 'a pop returns a value without having released exactly one slot')
            elif v[2][0] != m['w:out'][0][0]:
                self.bad(st, 'value-out', 'the value returned is not the element that was in the slot')
            elif st.mon['r:new'] != (m['w:out'][0][1],):
                self.bad(st, 'value-out', 'the slot of an element popped by value is not left with a new element')

    def outcome(self, e, ev):
        r = ev.root
        v, T = ev.val, e.T
        t = T[e.P.strip(ev.ty)]
        if v[0] != 'a':
            return None
        name = r.rec['name'] if r.rec else ''
        if t.get('np') == 'S::option::Option' and name.startswith('pop'):
            return 'empty' if v[1] == 0 else 'ok'
        if t.get('np') == 'S::result::Result':
            if v[1] == 0:
                return 'ok'
            et = T[e.P.strip(t['args'][1])]
            last = et.get('path', '').split('::')[-1]
            x = v[2][0]
            if last == 'Full':
                return 'full'
            if et.get('ak') == 'enum' and x[0] == 'a':
                return et['variants'][x[1]]['n'].lower()
        return None

    def check_outcome(self, e, st, out):
        t = st.mon['k:t'][0] if st.mon['k:t'] else None
        h = st.mon['k:h'][0] if st.mon['k:h'] else None
        s = st.mon['k:s']
        G, C = self.G, self.M.C
        st_ = self.M.split_word(t) if t is not None else None
        sh = self.M.split_word(h) if h is not None else None
        cl0 = st_ is not None and (st_['cl'] == I(0) or e.truth(st, mk_cmp('eq', st_['cl'])) is True)
        clC = st_ is not None and (st_['cl'] == C or self.eq(st, st_['cl'], C) is True)
        tp = add(st_['idx'], st_['gen']) if st_ is not None else None
        if out == 'full':
            if t is None or not cl0:
                self.bad(st, 'full', 'full is reported without having seen the queue open')
                return
            ev = False
            if s and s[0][0] == 'e' and self.eq(st, s[0][3], st_['idx']) is True:
                ev = self.eq(st, add(s[1], G), t) is True or self.eq(st, add(s[1], G), add(t, I(1))) is True
            if not ev and h is not None:
                ev = self.eq(st, add(h, G), t) is True
            if not ev:
                self.bad(st, 'full', 'full is reported although the needed slot was not seen in use')
        elif out == 'empty':
            ev = False
            if h is not None and s and s[0][0] == 'e' and self.eq(st, s[0][3], sh['idx']) is True:
                ev = self.eq(st, s[1], h) is True or self.eq(st, add(s[1], G), add(h, I(1))) is True
            if not ev and h is not None and t is not None:
                ev = self.eq(st, tp, h) is True
            if not ev:
                self.bad(st, 'empty', 'empty is reported although no unready front slot was seen')
                return
            if self.root.kind == 'fn' and 'Result' in self.rtype() and (t is None or not (cl0 or self.eq(st, tp, h) is False)):
                self.bad(st, 'empty-closed', 'empty is reported without ruling out that the queue is closed and drained')
        elif out == 'closed':
            if not clC:
                self.bad(st, 'closed', 'closed is reported although tail was not seen closed')
                return
            if self.popping():
                if h is None or self.eq(st, tp, h) is not True:
                    self.bad(st, 'closed', 'closed is reported to the popping side although elements may be left')

    def rtype(self):
        t = self.e.P.prep(self.root.inst).locals[0]
        return self.e.T[self.e.P.strip(t)].get('np', '')

    def popping(self):
        r = self.root
        return r.rec is not None and 'pop' in r.rec['name']

    def on_unwound(self, e, st, ev):
        if st.mon['k:c']:
            self.bad(st, 'leak-claim-unwind', 'a panic leaves a slot claimed although a reference to it had been obtained')

    def on_end(self, e, st, ev):
        if st.mon['k:c']:
            self.bad(st, 'release', 'dropping the reference does not release the slot')
            return
        if st.mon['k:x'] and not st.unw:
            self.check_dropped(e, st)


def ptrs(v):
    if not isinstance(v, tuple) or not v:
        return
    if v[0] == 'p':
        yield v
        return
    if v[0] == 'a':
        for x in v[2]:
            yield from ptrs(x)
