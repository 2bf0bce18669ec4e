"""Rules about the memory orderings of the waiting protocol (which the composition in compose.py takes as sequentially
consistent), and about giving the receiver's wait cell back on every exit."""
from models import acq, rel

RULES = {
    'cell-sync': "the receiver's wait cell is taken with Acquire and given back with Release; whoever wakes the receiver publishes (Release) what it "
                 'did before, and the receiver acquires that before its last look at the queue',
    'queue-sync': 'whoever wakes a sender publishes (Release) the room it made, and the woken sender acquires that before it tries again',
    'entry-sync': "an entry is marked as dequeued with Release after its last use, and its owner acquires that before it reuses or frees the entry",
    'cell-stuck': "an operation that has taken the receiver's wait cell gives it back on every exit, also when user code panics",
}


class Grants:
    """Learnt in a first pass: the changes of the cell's word after which its contents are used, and the values of the
    wait queue's word that let a sender try again."""

    def __init__(self):
        self.grant = set()
        self.consume = set()


class SyncMon:
    def __init__(self, ctx, facts, grants, learn=False):
        self.ctx, self.F, self.G, self.learn = ctx, facts, grants, learn

    def attach(self, e):
        self.e = e

    def start(self, e, st, r):
        self.root = r
        st.mon.update({'y:g': 0, 'y:t': 0, 'y:c': 0, 'y:pn': 0, 'y:r': 0, 'y:f': 0, 'y:q': 0, 'y:e': 0, 'y:qw': 0})

    def bad(self, st, rule, what):
        if not self.learn:
            self.ctx.report(self.e, st, rule, what)

    def on_fence(self, e, st, ev):
        if rel(ev.ord):
            st.mon['y:f'] = 1
        if acq(ev.ord):
            st.mon['y:c'] = st.mon['y:q'] = st.mon['y:e'] = 0

    def on_slot_release(self, e, st, ev):
        st.mon['y:r'] = 1
        st.mon['y:f'] = 0

    def on_core_op(self, e, st, ev):
        if ev.op == 'pop':
            st.mon['y:pn'] = st.mon['y:c']
        elif ev.op == 'push':
            if st.mon['y:qw']:
                self.G.consume.add(st.mon['y:qw'][0])
            if st.mon['y:q']:
                self.bad(st, 'queue-sync', 'a woken sender tries again without having acquired what the one that woke it released')
            st.mon['y:qw'] = st.mon['y:q'] = 0

    def on_cell_access(self, e, st, ev):
        if ev.obj[0] in ('l', 'h'):
            return
        if st.mon['y:g']:
            self.G.grant.add(st.mon['y:g'])
        if st.mon['y:c']:
            self.bad(st, 'cell-sync', "the contents of the wait cell are used after taking it without Acquire ordering")
        st.mon['y:t'] = 1
        st.mon['y:f'] = 0

    def on_atomic(self, e, st, ev):
        role, new = ev.role, ev.new
        if role not in (('WaitCell', 'lock'), ('WaitQueue', 'state'), ('Waiter', 'state')):
            return
        o = ev.ords
        ok = ev.ok is not False
        a = any(acq(x) for x in (o[:1] if ok else o[-1:])) if ev.op not in ('store',) else False
        r = ok and ev.op != 'load' and rel(o[0])
        m = st.mon
        e.count('orderings of atomic accesses in the waiting protocol', (role, ev.op, tuple(o), e.site(st)))
        if role == ('WaitCell', 'lock'):
            if a:
                m['y:c'] = 0
            if ev.op == 'load' or not ok:
                return
            mine = m['y:g'] in self.G.grant and m['y:g'] and ev.old is not None and ev.old == ('i', m['y:g'][1])
            if not a and not mine:      # reading back what it wrote itself, nobody else can have come between
                m['y:c'] = 1
            if m['y:t'] and not r and not m['y:f']:
                self.bad(st, 'cell-sync', 'the wait cell is given back without Release ordering after its contents were used')
            elif m['y:r'] and not r and not m['y:f']:
                self.bad(st, 'cell-sync', 'the receiver is woken without Release ordering, so it may not see what it is woken for')
            m['y:t'] = 0
            c = lambda v: v[1] if v is not None and v[0] == 'i' else None
            m['y:g'] = (c(ev.old), c(new))
            if None in m['y:g']:
                m['y:g'] = 0
        elif role == ('WaitQueue', 'state'):
            if a:
                m['y:q'] = 0
            if ev.op == 'load' or not ok:
                return
            if ev.op != 'store' and ev.old is not None and ev.old[0] == 'i' and new != ev.old:
                m['y:qw'] = (ev.old[1],)
                if not a:
                    m['y:q'] = 1
            if m['y:r'] and not r and not m['y:f'] and new is not None and new[0] == 'i' and new[1] in self.G.consume:
                self.bad(st, 'queue-sync', 'a sender is woken without Release ordering, so it may not see that there is room')
        else:
            other = ev.ptr[1][0] == 'x' and e._tagname[ev.ptr[1][1][0]][0] == 'W'
            nd = {v for v, _ in self.F.nd}
            if other:
                if ev.op != 'load' and ok and not r and new is not None and new[0] == 'i' and new[1] in nd:
                    self.bad(st, 'entry-sync', 'an entry is marked as dequeued without Release ordering')
            elif not m.get('held') and ev.old is not None and ev.old[0] == 'i':
                if a:
                    m['y:e'] = 0
                elif ev.old[1] in nd and ev.op != 'store':
                    m['y:e'] = 1

    def on_lock(self, e, st, ev):
        st.mon['y:e'] = 0

    def on_q_unlock(self, e, st, ev):
        if 'O' in ev.post:
            st.mon['y:qw'] = st.mon['y:q'] = 0

    def suspend(self, st):
        if st.mon['y:pn']:
            self.bad(st, 'cell-sync', 'the receiver goes to sleep although its last look at the queue may have missed what it was woken for')

    def on_pending(self, e, st, ev):
        self.suspend(st)

    def on_park(self, e, st, ev):
        self.suspend(st)

    def on_park_timeout(self, e, st, ev):
        self.suspend(st)

    def leave(self, st, how):
        if st.mon['y:g'] and st.mon['y:g'] in self.G.grant:
            self.bad(st, 'cell-stuck', "an operation %s without giving the receiver's wait cell back" % how)
        elif st.mon['y:e']:
            self.bad(st, 'entry-sync', 'an operation %s after seeing without Acquire ordering that its entry was dequeued' % how)

    def on_end(self, e, st, ev):
        self.leave(st, 'ends')

    def on_unwound(self, e, st, ev):
        self.leave(st, 'unwinds')
