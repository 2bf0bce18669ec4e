"""Rules about the channels: what each operation returns, the values it carries, its use of locks and time, and how
handles are counted.  The ring buffer is an abstract queue here (chan.ChanModel)."""
from terms import *
from core import *

RULES = {
    'value-in': 'a by-value send stores exactly the argument in the slot it claimed (once) when it succeeds and returns exactly the argument in the error when it fails',
    'value-out': 'a by-value receive returns the element found in the claimed slot and leaves a fresh element there',
    'refs': 'every slot reference obtained is released exactly once or returned',
    'refs-unwind': 'every slot reference obtained is released exactly once or returned, also when user code panics',
    'outcome': 'Full/Empty/Timeout/Closed/None/Ok is returned only when the last attempt, the wait or the clock showed exactly that',
    'accessor': 'an error accessor is true (returns the value) exactly for the variant it names',
    'rx-closed': "a receiver's is_closed is true exactly when the sender count read is zero",
    'txcount': 'the sender count changes by exactly the number of senders an operation adds or removes',
    'one-rx': 'a receiver is only handed out with a new channel or by the one successful atomic split, and cannot be duplicated',
    'close-tx': 'dropping the last sender closes the queue and the wait cell of the receiver; dropping another sender closes nothing',
    'close-rx': 'dropping the receiver closes the queue and, if it was open, the wait queue of the senders',
    'lock-user': 'no user code (waker clone, drop or wake, policies, element code) runs while an internal lock is held',
    'lock-block': 'no thread park happens while an internal lock is held',
    'lock-twice': 'no lock is taken while another internal lock is held',
    'lock-leak': 'no operation returns, suspends or unwinds with an internal lock held',
    'entry-end': 'no operation ends, suspends for good or unwinds while its wait-queue entry is linked',
    'entry-lock': 'links and stored wakers of entries that may be linked, and the list itself, are only accessed while the list is locked',
    'list-shape': 'every critical section leaves the list a well-formed doubly linked list of the old entries in their old order, less those it removes, plus at most its own at the arrival end',
    'deadline-park': 'every sleep of a timed operation is bounded by what remains until its deadline',
    'deadline-early': 'Timeout is returned only if the time elapsed since the start is known to be at least the timeout',
    'deadline-try': 'a timed operation tries to complete before it first sleeps or times out',
    'deadline-check': 'a timed operation looks at the clock between two sleeps',
}

TX = ('Sender', 'StaticSender')
RX = ('Receiver', 'StaticReceiver')


def last(t):
    return t.get('path', '').split('::')[-1]


class ChanMon:
    def __init__(self, ctx, closed=None):
        self.ctx = ctx
        self.closed = closed      # chan.Facts with only the values that mean "closed"

    def attach(self, e):
        self.e = e
        self.M = e.M
        T = e.T
        self.elem = set()
        self.slot_v = {}
        for n, t in enumerate(T):
            if t and t['k'] == 'adt' and t.get('local') and last(t) == 'Slot' and t['args']:
                self.elem.add(e.P.strip(t['args'][0]))
                for i, (f, _) in enumerate(t['variants'][0]['f']):
                    if f == 'value':
                        self.slot_v[n] = i

    def bad(self, st, rule, what):
        self.ctx.report(self.e, st, rule, what)

    # ------------------------------------------------------------ start
    def start(self, e, st, r):
        self.root = r
        st.mon.update({'o:push': 0, 'o:pop': 0, 'o:cl': 0, 'o:clpop': 0, 'o:try': 0,
                       'v:arg': (), 'v:rel': (), 'v:new': (), 'v:pop': (), 'v:a1': (),
                       'rf': (), 'l:h': (), 't:s': (), 't:n': (), 't:p': 0, 't:T': (),
                       'x:d': 0, 'x:mk': 0, 'x:sp': 0, 'x:ld': (), 'x:last': 0,
                       'c:core': 0, 'c:cell': 0, 'c:q': 0})
        self.by_value = self.timed = False
        self.ret_elem = False
        if r.kind == 'fn':
            pr = e.P.prep(r.inst)
            tys = [e.P.strip(t) for t in pr.locals[1:1 + pr.argc]]
            self.timed = any(e.T[t].get('np') == 'S::time::Duration' for t in tys)
        self.handles = self.takes(r)

    def takes(self, r):
        return None

    def on_start(self, e, st, ev):
        r = self.root
        if r.kind != 'fn':
            return
        pr = e.P.prep(r.inst)
        for t, a in zip(pr.locals[1:1 + pr.argc], ev.args):
            t = e.P.strip(t)
            if t in self.elem and not self.is_err_root():
                st.mon['v:arg'] = (a,)
            if e.T[t].get('np') == 'S::time::Duration':
                st.mon['t:T'] = (a,)
        if ev.args:
            st.mon['v:a1'] = (ev.args[0],)

    def is_err_root(self):
        return '::errors::' in self.root.name

    # ------------------------------------------------------------ slots and values
    def vpath(self, o):
        t = self.e.obj_type(o)
        t = self.e.P.strip(t) if isinstance(t, int) else None
        if t not in self.slot_v:
            return None
        p = (self.slot_v[t],)
        P = self.e.P
        c = P.strip(P.fields(t)[p[0]])
        while c not in self.elem:
            f = P.fields(c)
            if P.T[c]['k'] == 'adt' and P.T[c].get('ak') == 'struct' and f and len(f) == 1:
                p, c = p + (0,), P.strip(f[0])
            else:
                break
        return p

    def peel(self, v):
        while v[0] == 'a' and len(v[2]) == 1:
            v = v[2][0]
        return v

    def content(self, st, o):
        p = self.vpath(o)
        return None if p is None else self.peel(self.e.read(st, o, p))

    def orig(self, o):
        p = self.vpath(o)
        return None if p is None else self.peel(self.e.read(new_state(), o, p))

    def base(self, ptr):
        b = ptr[1]
        while b[0] == 'e':
            b = b[1]
        return b

    def on_core_op(self, e, st, ev):
        st.mon['o:' + ev.op] = ev.res
        st.mon['o:try'] = 1
        e.count('attempts to push or pop', (e.site(st), ev.op, ev.res))
        if ev.res == 'closed':
            st.mon['o:cl'] = 1
        if ev.op == 'pop' and ev.res != 'ok' and st.mon['o:cl']:
            st.mon['o:clpop'] = 1
        if ev.res == 'ok':
            st.mon['rf'] = st.mon['rf'] + ((ev.op, ('s', ev.ref)),)

    def on_slot_release(self, e, st, ev):
        b = self.base(ev.ptr)
        nm = b[1][:2]
        o = ev.ptr[1]
        e.count('slots released', (e.site(st), ev.kind_))
        mine = [x for x in st.mon['rf'] if nm in syms_all(x[1])]
        if not mine:
            self.bad(st, self.R('refs'), 'a slot is released twice')
            return
        st.mon['rf'] = tuple(x for x in st.mon['rf'] if nm not in syms_all(x[1]))
        c = self.content(st, o)
        if ev.kind_ == 'push':
            st.mon['v:rel'] = st.mon['v:rel'] + (c if c is not None else TOP,)
        else:
            st.mon['v:pop'] = st.mon['v:pop'] + ((self.orig(o) or TOP, c if c is not None else TOP),)

    def R(self, rule):
        return rule + '-unwind' if self.e.unwind else rule

    def on_foreign_ret(self, e, st, ev):
        if ev.what == 'Recycle::new_element':
            st.mon['v:new'] = (ev.val,)

    # ------------------------------------------------------------ closed evidence, counting, closing
    def on_atomic(self, e, st, ev):
        role, old, new = ev.role, ev.old, ev.new
        cl = self.closed
        if role == ('WaitCell', 'lock'):
            if old is not None and old[0] == 'i' and cl is not None and old[1] in cl.cell:
                st.mon['o:cl'] = 1
            if new is not None and new[0] == 'i' and cl is not None and new[1] in cl.cell and ev.ok is not False:
                st.mon['c:cell'] = 2 if st.mon['c:core'] else 1
        elif role == ('WaitQueue', 'state'):
            if old is not None and old[0] == 'i' and cl is not None and old[1] in cl.q:
                st.mon['o:cl'] = 1
            if new is not None and new[0] == 'i' and cl is not None and new[1] in cl.q and ev.ok is not False:
                st.mon['c:q'] = 2 if st.mon['c:core'] else 1
        elif role == ('Waiter', 'state'):
            if old is not None and old[0] == 'i' and cl is not None and old[1] in {a for a, _ in cl.nd}:
                st.mon['o:cl'] = 1
        elif role == ('Core', 'tail'):
            if new is not None and old is not None and ev.ok is not False and self.M.C is not None:
                d = sub(new, old)
                if d == self.M.C:
                    st.mon['c:core'] = 1
                elif d == I(0) and ev.op == 'fetch_or':
                    st.mon['c:core'] = st.mon['c:core'] or 3      # was closed already
        elif role == ('ChannelCore', 'tx_count'):
            e.count('accesses of the sender count', (e.site(st), ev.op))
            if new is None:
                st.mon['x:ld'] = (old,)
            elif ev.ok is not False:
                d = sub(new, old) if old is not None else TOP
                if d[0] == 'i':
                    k = d[1] if d[1] < M64 // 2 else d[1] - M64
                    st.mon['x:d'] = max(-3, min(3, st.mon['x:d'] + k))
                    if k == -1:
                        st.mon['x:last'] = 1 if old == I(1) else 2
                else:
                    st.mon['x:d'] = 9
        elif role[1] == 'is_split' and new is not None and ev.ok is not False:
            if old is None:
                st.mon['x:sp'] = 8 if new != I(0) else 9       # plain store
            elif new == I(0):
                st.mon['x:sp'] = 9
            else:
                o = old if old[0] == 'i' else None
                if o is None:
                    o = I(0) if e.truth(st, mk_cmp('eq', old)) is True else (I(1) if e.truth(st, mk_cmp('eq', old)) is False else None)
                if o is None:
                    st.mon['x:sp'] = ('maybe', old)
                else:
                    st.mon['x:sp'] = 1 if o == I(0) else st.mon['x:sp']

    # ------------------------------------------------------------ the wait queue's list
    def on_q_unlock(self, e, st, ev):
        e.count('critical sections of the wait queue', (e.site(st), len(ev.pre), len(ev.post)))
        if ev.stale:
            self.bad(st, 'entry-end', "an entry stays reachable from the wait queue although its owner is told that it was dequeued")
        if ev.bad is not None:
            self.bad(st, 'list-shape', 'the wait queue is left malformed: %s' % ev.bad)
            return
        keep = [i for i in ev.post if i in ev.pre]
        if keep != [i for i in ev.pre if i in keep]:
            self.bad(st, 'list-shape', 'the order of the waiting senders is changed')

    def on_list_access(self, e, st, ev):
        if st.mon.get('held'):
            return
        o, path = ev.obj, ev.path
        e.count('accesses of queue entries outside the lock', e.site(st))
        if o[0] == 'x' and e._tagname[o[1][0]][0] == 'W':
            self.bad(st, 'entry-lock', "another sender's queue entry is accessed without holding the lock")
        elif any(oo == o and path[:len(pp)] == pp for oo, pp in st.mon.get('own') or ()):
            self.bad(st, 'entry-lock', 'a queue entry that may be linked is accessed without holding the lock')

    def check_entry(self, st, how):
        if st.mon.get('own'):
            self.bad(st, 'entry-end', '%s while its entry is still in the wait queue' % how)

    # ------------------------------------------------------------ handles in values
    def count(self, v, ty, names, depth=0):
        P, T = self.e.P, self.e.T
        if not isinstance(ty, int) or depth > 6:
            return 0
        ty = P.strip(ty)
        t = T[ty]
        if t['k'] == 'adt' and t.get('local') and last(t) in names:
            return 0 if v is not None and v[0] in ('m', 'u') else 1
        if t['k'] == 'tuple' or (t['k'] == 'adt' and t.get('ak') == 'struct' and t.get('local')):
            fs = P.fields(ty) or ()
            return sum(self.count(v[2][i] if v is not None and v[0] == 'a' and i < len(v[2]) else None, f, names, depth + 1)
                       for i, f in enumerate(fs))
        if t['k'] == 'adt' and t.get('ak') == 'enum' and v is not None and v[0] == 'a':
            return sum(self.count(x, f, names, depth + 1) for x, f in zip(v[2], P.fields(ty, v[1]) or ()))
        return 0

    def on_heap_new(self, e, st, ev):
        if self.has_channel(ev.ty):
            st.mon['x:mk'] = min(2, st.mon['x:mk'] + 1)

    def has_channel(self, ty, depth=0):
        P = self.e.P
        if not isinstance(ty, int) or depth > 6:
            return False
        ty = P.strip(ty)
        t = P.T[ty]
        if t['k'] == 'adt' and t.get('local') and last(t) == 'ChannelCore':
            return True
        if t['k'] == 'adt' and (t.get('local') or P.pointee(ty) is not None) or t['k'] == 'tuple':
            if P.pointee(ty) is not None:
                return self.has_channel(P.pointee(ty), depth + 1)
            return any(self.has_channel(f, depth + 1) for f in (P.fields(ty) or ()))
        return False

    # ------------------------------------------------------------ locks
    def on_lock(self, e, st, ev):
        k = (ev.ptr[1], ev.ptr[2])
        e.count('locks taken', e.site(st))
        if st.mon['l:h']:
            self.bad(st, 'lock-twice', 'a lock is taken while %s is held' % ('the same lock' if k in st.mon['l:h'] else 'another lock'))
            return
        st.mon['l:h'] = st.mon['l:h'] + (k,)

    def on_unlock(self, e, st, ev):
        k = (ev.guard[1], ev.guard[2])
        st.mon['l:h'] = tuple(x for x in st.mon['l:h'] if x != k)

    def on_foreign(self, e, st, ev):
        if ev.what.startswith('panic') or ev.what.startswith('fmt'):
            return
        e.count('calls into user code', (e.site(st), ev.what))
        if st.mon['l:h']:
            self.bad(st, 'lock-user', 'user code (%s) runs while an internal lock is held' % ev.what)

    def on_wake(self, e, st, ev):
        if st.mon['l:h']:
            self.bad(st, 'lock-user', 'a waiter is woken while an internal lock is held')

    def park(self, e, st, what):
        e.count('parks', (e.site(st), what))
        if st.mon['l:h']:
            self.bad(st, 'lock-block', 'the thread parks while an internal lock is held')

    def check_locks(self, st, how):
        if st.mon['l:h']:
            self.bad(st, 'lock-leak', '%s with an internal lock held' % how)

    # ------------------------------------------------------------ time
    def on_now(self, e, st, ev):
        if not self.timed:
            return
        if len(st.mon['t:s']) < 2 and not st.mon['t:p']:
            st.mon['t:s'] = st.mon['t:s'] + (ev.val,)
        st.mon['t:n'] = (ev.val,)

    def on_park(self, e, st, ev):
        self.park(e, st, 'park')
        if self.timed and not st.dead:
            self.bad(st, 'deadline-park', 'a timed operation sleeps without a limit')

    def on_park_timeout(self, e, st, ev):
        self.park(e, st, 'park_timeout')
        if st.dead or not self.timed:
            return
        T = st.mon['t:T'][0]
        d = ev.args[0]
        if not st.mon['o:try']:
            self.bad(st, 'deadline-try', 'a timed operation sleeps before it tried to complete')
            return
        ok = False
        if not st.mon['t:p'] and (d == T or self.le(st, d, T)):
            ok = True
        n = st.mon['t:n']
        if not n and st.mon['t:p']:
            self.bad(st, 'deadline-check', 'a timed operation sleeps again without looking at the clock')
            return
        for s in st.mon['t:s']:
            for x in n:
                if self.le(st, d, sub(add(s, T), x)):
                    ok = True
        if not ok:
            if d == TOP:
                self.ctx.incomplete('length of a sleep not understood', e.site(st))
            else:
                self.bad(st, 'deadline-park', 'a timed operation may sleep past its deadline')
            if st.dead:
                return
        st.mon['t:p'] = 1
        st.mon['t:n'] = ()

    def le(self, st, a, b):
        if a == b:
            return True
        d = sub(a, b)
        if d == TOP:
            return False
        return self.e.truth(st, mk_cmp('ge', sub(b, a))) is True

    # ------------------------------------------------------------ results
    def outcome(self, v, ty):
        """Name of the outcome and the payload (value, type)."""
        e, T = self.e, self.e.T
        t = T[e.P.strip(ty)]
        if v[0] != 'a':
            return None, None
        if t.get('np') == 'S::task::Poll':
            if v[1] == 1:
                return 'pending', None
            return self.outcome(v[2][0], t['args'][0])
        if t.get('np') == 'S::option::Option':
            return ('none', None) if v[1] == 0 else ('some', (v[2][0], t['args'][0]))
        if t.get('np') == 'S::result::Result':
            if v[1] == 0:
                return 'ok', (v[2][0], t['args'][0])
            et = T[e.P.strip(t['args'][1])]
            x = v[2][0]
            if et.get('ak') == 'enum':
                if x[0] != 'a':
                    return None, None
                return et['variants'][x[1]]['n'].lower(), (x[2][0], None) if x[2] else None
            return last(et).lower(), (x[2][0], None) if x[0] == 'a' and x[2] else (x, None)
        return None, None

    def on_ret(self, e, st, ev):
        self.check_locks(st, 'an operation returns')
        if st.dead:
            return
        r = self.root
        if self.is_err_root():
            return self.check_accessor(e, st, ev)
        if not self.relevant(r):
            return
        name = r.rec['name']
        self.check_refs(e, st, ev)
        if st.dead:
            return
        self.check_handles(e, st, ev)
        if st.dead:
            return
        if name == 'is_closed' and r.rec.get('iself') is not None:
            return self.check_is_closed(e, st, ev)
        if 'send' not in name and 'recv' not in name and name not in ('next', 'poll'):
            return
        out, pay = self.outcome(ev.val, ev.ty)
        if out is None:
            return
        self.check_outcome(e, st, out, pay)
        if st.dead:
            return
        self.check_value(e, st, out, pay)

    def relevant(self, r):
        return '::mpsc::' in r.name

    def check_refs(self, e, st, ev):
        bs = syms_all(ev.val)
        for k, x in st.mon['rf']:
            if not (syms_all(x) & bs):
                self.bad(st, self.R('refs'), 'the operation returns with a %s slot that nobody will release' % ('claimed' if k == 'push' else 'popped'))
                return

    def check_outcome(self, e, st, out, pay):
        m = st.mon
        name = self.root.rec['name']
        push = 'send' in name or 'push' in name
        e.count('outcomes', (self.root.name, out))
        w = None
        if out == 'full' and m['o:push'] != 'full':
            w = 'Full is returned although the last attempt did not find the channel full'
        elif out == 'empty' and m['o:pop'] != 'empty':
            w = 'Empty is returned although the last attempt did not find the channel empty'
        elif out in ('closed', 'none'):
            if push and not m['o:cl']:
                w = '%s is returned without evidence that the channel is closed' % out.capitalize()
            elif not push and not m['o:cl']:
                w = '%s is returned without evidence that the channel is closed' % out.capitalize()
            elif not push and not m['o:clpop']:
                w = '%s is returned to a receiver that did not look for remaining messages after it saw the channel closed' % out.capitalize()
        elif out in ('ok', 'some'):
            if push and m['o:push'] != 'ok':
                w = 'success is returned although no slot was obtained'
            elif not push and m['o:pop'] != 'ok':
                w = 'success is returned although no message was obtained'
        elif out == 'timeout':
            if (m['o:push'] if push else m['o:pop']) == 'ok':
                w = 'Timeout is returned although the attempt succeeded'
            elif not m['o:try']:
                self.bad(st, 'deadline-try', 'a timed operation times out without having tried to complete')
                return
            elif self.timed:
                T = m['t:T'][0]
                n = m['t:n']
                ok = False
                for s in m['t:s']:
                    for x in n:
                        if self.le(st, T, sub(x, s)):
                            ok = True
                if not ok:
                    self.bad(st, 'deadline-early', 'Timeout is returned although the timeout is not known to have elapsed')
                    return
        if w is None and out in ('full', 'empty', 'timeout') and (m['o:push'] if push else m['o:pop']) == 'closed':
            w = '%s is returned although the last attempt found the channel closed' % out.capitalize()
        if w:
            self.bad(st, 'outcome', w)

    def check_value(self, e, st, out, pay):
        m = st.mon
        if m['v:arg']:
            a = m['v:arg'][0]
            if out == 'ok':
                e.count('values sent', self.root.name)
                if m['v:rel'] != (a,):
                    n = len(m['v:rel'])
                    self.bad(st, 'value-in', 'the send succeeds although ' + (
                        'nothing was published' if n == 0 else 'what was published is not exactly the value that was passed'))
            elif out != 'pending':
                e.count('values handed back', self.root.name)
                if m['v:rel']:
                    self.bad(st, 'value-in', 'the send fails although a slot was published')
                elif pay is None or self.peel1(pay[0]) != a:
                    self.bad(st, 'value-in', 'the failing send does not hand back the value that was passed')
        elif pay is not None and pay[1] is not None and e.P.strip(pay[1]) in self.elem and out in ('ok', 'some'):
            e.count('values received', self.root.name)
            if len(m['v:pop']) != 1:
                self.bad(st, 'value-out', 'a receive returns a value without having released exactly one slot')
                return
            orig, left = m['v:pop'][0]
            if pay[0] != orig:
                self.bad(st, 'value-out', 'the value returned is not the element that was in the slot')
            elif left in (orig, TOP, UNINIT, MOVED) or m['v:new'] != (left,):
                self.bad(st, 'value-out', 'the slot of a message received by value is not left with a new element')

    def peel1(self, v):
        return v

    def check_is_closed(self, e, st, ev):
        t = e.T[self.root.rec['iself']] if isinstance(self.root.rec.get('iself'), int) else None
        if t is None or last(t) not in RX or ev.val[0] == 'a':
            return
        ld = st.mon['x:ld']
        e.count('status queries', self.root.name)
        if not ld:
            self.ctx.incomplete("a receiver's is_closed does not read the sender count", self.root.name)
            return
        want = e.truth(st, mk_cmp('eq', ld[0]))
        got = e.truth(st, ev.val) if ev.val[0] != 'i' else bool(ev.val[1])
        if want is None or got is None:
            self.ctx.incomplete('is_closed not understood', self.root.name)
        elif want != got:
            self.bad(st, 'rx-closed', "a receiver's is_closed returns %s with %s sender(s) left" % (str(got).lower(), 'no' if want else 'some'))

    def check_accessor(self, e, st, ev):
        r = self.root
        name = r.rec['name']
        pr = e.P.prep(r.inst)
        if not st.mon['v:a1'] or r.rec.get('itrait'):
            return
        a = st.mon['v:a1'][0]
        t = e.P.strip(pr.locals[1])
        if e.T[t]['k'] == 'ref':
            t = e.P.strip(e.T[t]['to'])
            a = e.read(st, a[1], a[2]) if a[0] == 'p' else a
        ty = e.T[t]
        if ty['k'] != 'adt' or not ty.get('local'):
            return
        e.count('accessors', (r.name,))
        vs = [v['n'].lower() for v in ty['variants']]
        if name.startswith('is_') and name[3:] in vs:
            want = vs.index(name[3:])
            got = ev.val[1] if ev.val[0] == 'i' else None
            if got is None:
                self.ctx.incomplete('accessor not understood', r.name)
                return
            if a[0] != 'a':
                if len(vs) > 1:
                    self.bad(st, 'accessor', '%s is %s for every variant' % (r.name.split('::')[-1], bool(got)))
                return
            if (a[1] == want) != bool(got):
                self.bad(st, 'accessor', '%s returns %s for the variant %s' % (name, str(bool(got)).lower(), ty['variants'][a[1]]['n']))
        elif name == 'into_inner':
            if ty.get('ak') == 'struct':
                x = e.proj(a, 0)
            elif a[0] == 'a' and a[2]:
                x = a[2][0]
            else:
                return
            if x[0] in ('m', 'u', 't'):
                # moved out: compare with what the payload was at the start
                x = self.payload0(st, pr, a)
            if x is not None and ev.val != x:
                self.bad(st, 'accessor', 'into_inner does not return the value in the error')

    def payload0(self, st, pr, a):
        return None

    def check_handles(self, e, st, ev):
        tx = self.count(ev.val, ev.ty, TX)
        rx = self.count(ev.val, ev.ty, RX)
        d = st.mon['x:d']
        sp = st.mon['x:sp']
        if isinstance(sp, tuple):
            v = e.truth(st, mk_cmp('eq', sp[1]))
            sp = 1 if v is True else 0 if v is False else 7
        mk = st.mon['x:mk']
        if d:
            e.count('changes of the sender count', (self.root.name, d))
        if rx or tx:
            e.count('operations handing out handles', (self.root.name, tx, rx))
        if sp in (8, 9):
            self.bad(st, 'one-rx', 'whether the channel has been split is not decided by one atomic read-modify-write')
            return
        if sp == 7:
            self.ctx.incomplete('splitting not understood', self.root.name)
            sp = 1
        made = mk + sp
        if rx != made and (rx or sp):
            if rx:
                self.bad(st, 'one-rx', 'a receiver is handed out %s' % (
                    'without a new channel or a successful split' if made == 0 else 'in excess of the channels made'))
            elif tx == 0 and sp:
                self.ctx.incomplete('a split hands out nothing', self.root.name)
            return
        if tx != d + made:
            if tx > d + made:
                self.bad(st, 'txcount', 'a sender is handed out that is not counted')
            else:
                self.bad(st, 'txcount', 'the sender count grows by more than the senders handed out' if d > 0 else
                         'the sender count changes although no sender is created or dropped' if d else 'a channel is made without its sender')

    # ------------------------------------------------------------ other ends
    def on_pending(self, e, st, ev):
        self.check_locks(st, 'a future suspends')

    def on_end(self, e, st, ev):
        self.check_locks(st, 'an operation ends')
        if st.dead:
            return
        self.check_entry(st, 'an operation ends')
        if st.dead:
            return
        if st.mon['rf']:
            self.bad(st, self.R('refs'), 'a slot reference is dropped without releasing its slot')
            return
        if self.root.kind == 'drop':
            self.check_drop(e, st)

    def on_unwound(self, e, st, ev):
        self.check_locks(st, 'an operation unwinds')
        if not st.dead and not self.still_pending(e, st):
            self.check_entry(st, 'an operation unwinds')

    def still_pending(self, e, st):
        """A panic in poll leaves the future alive; its destructor runs later."""
        return any(f[0] == 'py' and f[1] in ('polled',) for f in st.stack) or ('h', ('result',)) in st.store

    def check_drop(self, e, st):
        t = e.T[self.root.ty]
        m = st.mon
        if not t.get('local'):
            return
        if last(t) in TX:
            e.count('ways a sender is dropped', (self.root.name, m['x:last']))
            if m['x:d'] != -1:
                self.bad(st, 'txcount', 'dropping a sender changes the sender count by %s' % (m['x:d'],))
                return
            if m['x:last'] == 1:
                if not m['c:core']:
                    self.bad(st, 'close-tx', 'the queue is not closed when the last sender is dropped')
                elif m['c:core'] == 1 and not m['c:cell']:
                    self.bad(st, 'close-tx', 'the waiting receiver is not told when the last sender is dropped')
            elif m['c:core'] or m['c:cell'] or m['c:q']:
                self.bad(st, 'close-tx', 'dropping a sender that is not the last one closes the channel')
        elif last(t) in RX:
            e.count('ways a receiver is dropped', (self.root.name, m['c:core']))
            if m['x:d']:
                self.bad(st, 'txcount', 'dropping a receiver changes the sender count')
            elif not m['c:core']:
                self.bad(st, 'close-rx', 'the queue is not closed when the receiver is dropped')
            elif m['c:core'] == 1 and not m['c:q']:
                self.bad(st, 'close-rx', 'waiting senders are not told when the receiver is dropped')
        elif m['x:d']:
            self.bad(st, 'txcount', 'dropping %s changes the sender count' % last(t))

