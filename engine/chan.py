"""Model of the channel's shared structures for protocol extraction: the ring buffer's core as an abstract bounded
queue, the wait queue's list under its lock, the receiver's wait cell and the sender count.

Everything read from shared memory is an arbitrary value of a finite domain (collected over rounds to a fixpoint);
which of the recorded steps can follow each other in a real history is decided when the automata are composed.
"""
from terms import *
from core import *
from models import *


class Facts:
    """Finite domains learnt in earlier rounds; shared between engines."""

    def __init__(self):
        self.q = set()         # WaitQueue.state
        self.cell = set()      # WaitCell.lock
        self.nd = set()        # what a dequeued entry looks like: (state, waiter empty)
        self.lv = set()        # Waiter.state of linked entries

    def snap(self):
        return (frozenset(self.q), frozenset(self.cell), frozenset(self.nd), frozenset(self.lv))

    def merge(self, s):
        for a, b in zip((self.q, self.cell, self.nd, self.lv), s):
            a |= b


SHAPES = 2


class ChanModel(Model):
    def __init__(self, facts=None, absorb=True, shapes=SHAPES):
        super().__init__()
        self.facts = facts or Facts()
        self.absorb = absorb
        self.shapes = shapes

    def attach(self, eng):
        super().attach(eng)
        P = self.P
        self.list_ty = self.adt('List')
        self.waiter_ty = self.adt('Waiter')
        self.node_ty = self.adt('Node')
        self.lpath = {}
        if self.list_ty is not None:
            for i, (n, t) in enumerate(self.T[self.list_ty]['variants'][0]['f']):
                self.lpath[n] = (i,)
            if not ('head' in self.lpath and 'tail' in self.lpath):
                ks = sorted(self.lpath.values())
                self.lpath = {'head': ks[0], 'tail': ks[1]} if len(ks) >= 2 else {}
        self.npath = {}
        self.node_prefix = ()
        if self.node_ty is not None:
            for i, (n, t) in enumerate(self.T[self.node_ty]['variants'][0]['f']):
                self.npath[n] = i
        if not self.facts.q:
            self.initial()
        self.core_ops()

    def eval_new(self, name):
        """Value built by the constructor of a type (a local function without arguments)."""
        eng = self.eng
        for i in self.P.I:
            if not i or not i.get('blocks') or not i.get('local') or i['argc'] != 0 or i.get('closure'):
                continue
            t = i['locals'][0][0]
            if self.T[t].get('path', '').split('::')[-1] != name or not self.T[t].get('local'):
                continue
            out = []
            eng.py['newval'] = lambda e, s, d, v, u: (out.append(v), [])[1]
            s = new_state()
            s.stack = (('py', 'newval', ()),)
            mons, eng.mons = eng.mons, []
            eng.run([eng.push_call(s, i['id'], [], 'newval')])
            eng.mons = mons
            if out:
                return t, out[0]
        return None, None

    def initial(self):
        eng = self.eng
        for name, field, dom in (('WaitQueue', 'state', self.facts.q), ('WaitCell', 'lock', self.facts.cell)):
            t, v = self.eval_new(name)
            if v is None:
                continue
            for i, (n, f) in enumerate(self.T[self.P.strip(t)]['variants'][0]['f']):
                if n == field:
                    x = v[2][i]
                    while x[0] == 'a' and len(x[2]) == 1:
                        x = x[2][0]
                    if x[0] == 'i':
                        dom.add(x[1])
        self.facts.q0 = min(self.facts.q) if self.facts.q else None
        self.facts.c0 = min(self.facts.cell) if self.facts.cell else None

    def adt(self, name):
        for n, t in enumerate(self.T):
            if t and t['k'] == 'adt' and t.get('local') and t['path'].split('::')[-1] == name:
                return n
        return None

    # ------------------------------------------------------------ the ring buffer as an abstract queue
    def core_ops(self):
        if not self.absorb:
            return
        for i in self.P.I:
            if not i or not i.get('blocks') or not i.get('local') or i.get('closure') or i['argc'] < 2:
                continue
            a0 = self.T[i['locals'][1][0]]
            if a0['k'] != 'ref' or self.T[a0['to']].get('path', '').split('::')[-1] != 'Core':
                continue
            r = self.T[i['locals'][0][0]]
            if r.get('np') != 'S::result::Result':
                continue
            ok, er = r['args'][:2]
            if self.T[ok].get('path', '').split('::')[-1] != 'Ref':
                continue
            vs = [v['n'] for v in self.T[er].get('variants', [])]
            if 'Full' in vs:
                self.intercept[i['id']] = self.mk_core_op('push', 'Full')
            elif 'Empty' in vs:
                self.intercept[i['id']] = self.mk_core_op('pop', 'Empty')

    def mk_core_op(self, op, busy):
        def h(st, fn, args, rty):
            eng = self.eng
            ok, er = self.T[rty]['args'][:2]
            vs = [v['n'] for v in self.T[er]['variants']]
            out = []
            for res in (busy, 'Closed', 'ok', 'panic'):
                if res == 'panic' and not (eng.unwind and op == 'push'):
                    continue
                s = st.copy()
                eng.note(s, '%s -> %s' % (op, res))
                eng.label(s, op, res.lower())
                nm = None
                if res == 'ok':
                    nm = eng.fresh_name(s, eng.tag(op + 'ref'))
                    eng.symty[nm] = ok
                eng.emit(s, 'core_op', op=op, res=res.lower(), core=args[0], ref=nm)
                if s.dead:
                    continue
                if res == 'panic':
                    out += eng.cont_unwind(s)
                elif res == 'ok':
                    out += eng.deliver(s, ('a', 0, (self.build_ref(nm, ok, op),)))
                else:
                    vi = vs.index(res)
                    fs = self.P.fields(er, vi)
                    out += eng.deliver(s, ('a', 1, (('a', vi, tuple(UNIT for _ in fs)),)))
            return out
        return h

    def build_ref(self, nm, ty, op):
        """A reference into a slot: its pointers lead to the same slot."""
        P, T, eng = self.P, self.T, self.eng
        ty = P.strip(ty)
        fs = T[ty]['variants'][0]['f']
        slot = None

        def peel(t, n=0):
            t = P.strip(t)
            pt = P.pointee(t)
            if pt is not None:
                return P.strip(pt), n
            f = P.fields(t)
            if T[t]['k'] == 'adt' and T[t].get('ak') == 'struct' and f and len(f) == 1:
                return peel(f[0], n + 1)
            return None, n
        for i, (_, t) in enumerate(fs):
            pt, n = peel(t)
            if pt is not None and T[pt].get('path', '').split('::')[-1] == 'Slot':
                slot = (i, pt, n)
        if slot is None:
            return ('s', nm)
        o = ('x', nm + (slot[0],))
        eng.objty[o] = slot[1]

        def wrap(v, n):
            for _ in range(n):
                v = ('a', 0, (v,))
            return v
        vals = []
        for i, (name, t) in enumerate(fs):
            pt, n = peel(t)
            if i == slot[0]:
                vals.append(wrap(('p', o, (), None), n))
                continue
            v = None
            if pt is not None:
                for j, (_, ft) in enumerate(T[slot[1]]['variants'][0]['f']):
                    path, c = (j,), P.strip(ft)
                    while c != pt:
                        f = P.fields(c)
                        if T[c]['k'] == 'adt' and T[c].get('ak') == 'struct' and f and len(f) == 1:
                            path, c = path + (0,), P.strip(f[0])
                        else:
                            break
                    if c == pt:
                        v = wrap(('p', o, path, None), n)
            if v is None and T[P.strip(t)]['k'] == 'bool' and 'pop' in name:
                v = I(int(op == 'pop'))
            vals.append(v if v is not None else eng.mk_sym(nm + (i,), t))
        return ('a', 0, tuple(vals))

    def ref_kind(self, ptr):
        """'push' / 'pop' if the pointer leads into a slot obtained from the abstract queue."""
        b = ptr[1]
        while b[0] == 'e':
            b = b[1]
        if b[0] == 'x':
            k = self.eng._tagname[b[1][0]][0]
            if isinstance(k, str) and k.endswith('ref'):
                return k[:-3]
        return None

    def at_Slot_state(self, st, op, ptr, role, vals, ords, rty):
        k = self.ref_kind(ptr)
        if k is not None and op in ('store', 'swap'):
            self.eng.note(st, 'release %s slot' % k)
            self.eng.label(st, 'release', k)
            self.eng.emit(st, 'slot_release', kind_=k, ptr=ptr)
        return self.at_pos(st, op, ptr, role, vals, ords, rty)

    def at_Core_tail(self, st, op, ptr, role, vals, ords, rty):
        """Closing: decide right away whether it was open."""
        if op == 'fetch_or' and vals and self.C is not None:
            eng = self.eng
            sw = self.split_word(vals[0])
            if sw is not None and sw['cl'] != I(0):
                out = []
                for was in (0, 1):
                    s = st.copy()
                    w = self.word(s, False, 'tail')
                    if was:
                        w = add(w, self.C)
                    eng.note(s, 'close core (was %s)' % ('closed' if was else 'open'))
                    eng.label(s, 'close', was)
                    out += self.at_fin(s, op, ptr, role, ords, w, mk_op('or', w, vals[0]), None, w)
                return out
        return self.at_pos(st, op, ptr, role, vals, ords, rty)

    # ------------------------------------------------------------ finite shared words
    def fin_word(self, st, op, ptr, role, vals, ords, rty, dom, learn, lab):
        """An atomic word with a finite domain: fork over the value read."""
        eng = self.eng
        out = []
        dom = sorted(dom)

        def fin(s, old, new, ok, res):
            if new is not None:
                if new[0] == 'i':
                    learn(new[1])
                else:
                    eng.count('unknown value written to %s.%s' % role, eng.site(s))
            o = old[1] if old is not None and old[0] == 'i' else None
            n = new[1] if new is not None and new[0] == 'i' else None
            eng.note(s, '%s %s: %s -> %s' % (op, rn(role), o, n))
            eng.label(s, lab, op, o, n, ok)
            return self.at_fin(s, op, ptr, role, ords, old, new, ok, res)
        if op == 'store':
            return fin(st, None, vals[0], None, UNIT)
        for v in dom:
            s = st.copy()
            old = I(v)
            if op == 'load':
                out += fin(s, old, None, None, old)
            elif op in ('compare_exchange', 'compare_exchange_weak', 'compare_and_swap'):
                eq = eng.truth(s, mk_cmp('eq', sub(vals[0], old))) if vals[0][0] != 't' else None
                cas = op != 'compare_and_swap'
                if eq is not False:
                    s2 = s.copy()
                    if eq is True or eng.assume(s2, mk_cmp('eq', sub(vals[0], old)), True):
                        out += fin(s2, old, vals[1], True, ('a', 0, (old,)) if cas else old)
                if eq is not True or op.endswith('weak'):
                    out += fin(s, old, None, False, ('a', 1, (old,)) if cas else old)
            else:
                new = self.rmw(op, old, vals[0] if vals else TOP)
                out += fin(s, old, new, None, old)
        return out

    def at_WaitQueue_state(self, st, op, ptr, role, vals, ords, rty):
        return self.fin_word(st, op, ptr, role, vals, ords, rty, self.facts.q, self.facts.q.add, 'q')

    def at_WaitCell_lock(self, st, op, ptr, role, vals, ords, rty):
        self.flush_cell(st)
        out = self.fin_word(st, op, ptr, role, vals, ords, rty, self.facts.cell, self.facts.cell.add, 'c')
        return out

    def after_atomic(self, st, op, ptr, role, ords, old, new, ok):
        if role == ('WaitCell', 'lock'):
            # what is in the cell may have changed whenever others could own it
            if op != 'load' and ok is not False:
                self.purge_cell(st)

    # ------------------------------------------------------------ the cell's contents
    def flush_cell(self, st):
        """What the owner leaves in the cell when others may look at it again."""
        k = st.mon.get('cell')
        if k and self.eng.rec is not None:
            v = self.eng.read(st, *k)
            self.eng.label(st, 'cell', 'put', None if v[0] == 'a' and v[1] == 0 else self.who(v))
            self.purge_cell(st)

    def purge_cell(self, st):
        k = st.mon.get('cell')
        if k:
            o, path = k
            st.mon['cell'] = 0
            self.eng.write(st, o, path, TOP)

    def access(self, st, o, path, kind, roles):
        eng = self.eng
        for a, f, n in roles:
            if a == 'WaitCell' and f == 'waiter' and kind != 'ref':
                p = self.opt_path(o, path, n)
                if not self.fresh_local(o):
                    self.cell_touch(st, o, p, path, kind)
        super().access(st, o, path, kind, roles)

    def fresh_local(self, o):
        return o[0] == 'l' or o[0] == 'h'

    def opt_path(self, o, path, n):
        """Path of the Option inside the cell."""
        p = path[:n + 1]
        t = self.eng.path_ty(o, p)
        while isinstance(t, int):
            t = self.P.strip(t)
            if self.T[t].get('np') == 'S::option::Option':
                return p
            fs = self.P.fields(t)
            if not fs:
                return p
            p = p + (0,)
            t = fs[0]
        return p

    def cell_touch(self, st, o, p, path, kind):
        eng = self.eng
        if st.mon.get('cell') != (o, p):
            if kind == 'write' and path == p:
                st.mon['cell'] = (o, p)
                eng.label(st, 'cell', 'enter', None)
                return
            nm = (eng.tag('cellw'), 0)
            t = eng.path_ty(o, p)
            eng.symty.setdefault(nm, self.P.fields(self.P.strip(t), 1)[0] if isinstance(t, int) else None)
            a = ('write', o, p, ('a', 0, ()))
            b = ('write', o, p, ('a', 1, (('s', nm),)))
            raise Split([('mon', {'cell': (o, p)}, a, ('label', 'cell', 'enter', 0)),
                         ('mon', {'cell': (o, p)}, b, ('label', 'cell', 'enter', 1))])

    # ------------------------------------------------------------ senders
    def at_ChannelCore_tx_count(self, st, op, ptr, role, vals, ords, rty):
        eng = self.eng
        if op in ('fetch_sub', 'load', 'fetch_add', 'swap'):
            out = []
            cases = {'fetch_sub': (1, 2), 'load': (0, 1, 2), 'fetch_add': (1, 2), 'swap': (0, 1, 2)}[op]
            for c in cases:
                s = st.copy()
                if c == 2:
                    nm = eng.fresh_name(s, eng.tag('txcount', s.stack[-1][2:4]))
                    eng.symty[nm] = None
                    s.rel = s.rel | {('ge', sub(('s', nm), I(2)))}
                    old = ('s', nm)
                else:
                    old = I(c)
                eng.note(s, '%s tx_count: %s' % (op, '>=2' if c == 2 else c))
                new = None if op == 'load' else self.rmw(op, old, vals[0])
                eng.label(s, 'txc', op, c, vals[0][1] if vals and vals[0][0] == 'i' else None)
                out += self.at_fin(s, op, ptr, role, ords, old, new, None, old)
            return out
        return self.at_default(st, op, ptr, role, vals, ords, rty)

    # ------------------------------------------------------------ the wait queue's list
    def is_list(self, datap):
        t = self.eng.path_ty(datap[1], datap[2])
        return isinstance(t, int) and self.T[self.P.strip(t)].get('path', '').split('::')[-1] == 'List'

    def wnode(self, st, live, waiter_ty):
        """A new entry of somebody else: the smallest number not in use."""
        eng = self.eng
        n = 0
        tags = [eng.tag('W'), eng.tag('wk'), eng.tag('wst')]
        while any((t, n) in live for t in tags):
            n += 1
        live.update((t, n) for t in tags)
        o = ('x', (tags[0], n))
        eng.objty[o] = waiter_ty
        return o

    def node_at(self, o, path):
        """(object, path) of the Node inside a Waiter."""
        eng = self.eng
        t = eng.path_ty(o, path)
        p = path

        def find(t, p, d):
            if not isinstance(t, int) or d > 4:
                return None
            t = self.P.strip(t)
            ty = self.T[t]
            if ty.get('path', '').split('::')[-1] == 'Node' and ty.get('local'):
                return p
            if ty['k'] == 'adt' and ty.get('ak') == 'struct' and self.P.fields(t):
                for i, f in enumerate(self.P.fields(t)):
                    r = find(f, p + (i,), d + 1)
                    if r is not None:
                        return r
            return None
        return find(t, p, 0)

    def state_at(self, o, path):
        """Path of the entry's state word (the atomic's contents)."""
        eng = self.eng
        t = self.P.strip(eng.path_ty(o, path))
        for i, (n, f) in enumerate(self.T[t]['variants'][0]['f']):
            p = path + (i,)
            while True:
                f = self.P.strip(f)
                ty = self.T[f]
                if ty.get('np', '').startswith('S::sync::atomic::Atomic'):
                    return p + (0,)
                if ty['k'] == 'adt' and ty.get('ak') == 'struct' and ty.get('local') and len(self.P.fields(f) or ()) == 1:
                    p = p + (0,)
                    f = self.P.fields(f)[0]
                    continue
                break
        return None

    def waiter_type(self, datap):
        """Type of the entries of this list."""
        t = self.P.strip(self.eng.path_ty(datap[1], datap[2]))
        lt = self.T[t]['variants'][0]['f'][0][1]      # Option<NonNull<Waiter>>
        nn = self.P.fields(self.P.strip(lt), 1)[0]
        return self.P.pointee(nn)

    def some(self, o, path=()):
        return ('a', 1, (('p', o, path, None),))

    def on_lock(self, st, datap):
        if not self.is_list(datap) or self.fresh_local(datap[1]):
            return [st]
        eng = self.eng
        own = st.mon.get('own') or ()
        wt = self.waiter_type(datap)
        live0 = eng.live_bases(st)
        out = []
        cfgs = []
        n = self.shapes
        if not own:
            cfgs = [((), tuple(['W'] * k)) for k in range(n + 1)]
        else:
            for nd in sorted(self.facts.nd):
                cfgs += [((nd,), tuple(['W'] * k)) for k in range(n + 1)]
            for a in range(n + 1):
                for b in range(n + 1 - a):
                    cfgs.append(((), ('W',) * a + ('O',) + ('W',) * b))
        for nd, items in cfgs:
            s = st.copy()
            s.mon['held'] = (datap[1], datap[2])
            live = set(live0)
            nodes = []
            for it in items:
                if it == 'W':
                    nodes.append((self.wnode(s, live, wt), ()))
                else:
                    nodes.append(own[0])
            for i, (o, path) in enumerate(nodes):
                np_ = self.node_at(o, path)
                if np_ is None:
                    continue
                nxt = self.some(*nodes[i + 1]) if i + 1 < len(nodes) else ('a', 0, ())
                prv = self.some(*nodes[i - 1]) if i > 0 else ('a', 0, ())
                eng.write(s, o, np_ + (self.npath['next'],), nxt)
                eng.write(s, o, np_ + (self.npath['prev'],), prv)
                if o[0] == 'x' and items[i] == 'W':
                    nm = (eng.tag('wk'), o[1][1])
                    t = eng.path_ty(o, np_ + (self.npath['waiter'],))
                    eng.symty.setdefault(nm, self.P.fields(self.P.strip(t), 1)[0])
                    eng.write(s, o, np_ + (self.npath['waiter'],), ('a', 1, (('s', nm),)))
                    sp = self.state_at(o, path)
                    sn = (eng.tag('wst'), o[1][1])
                    if len(self.facts.lv) == 1:
                        eng.write(s, o, sp, I(min(self.facts.lv)))
                    else:
                        eng.write(s, o, sp, ('s', sn))
                        if self.facts.lv:
                            s.dom[sn] = frozenset(self.facts.lv)
            if own and nd:
                o, path = own[0]
                self.set_dequeued(s, o, path, nd[0])
                s.mon['own'] = ()
            head = self.some(*nodes[0]) if nodes else ('a', 0, ())
            tail = self.some(*nodes[-1]) if nodes else ('a', 0, ())
            f = [UNINIT] * len(self.T[self.P.strip(eng.path_ty(datap[1], datap[2]))]['variants'][0]['f'])
            f[self.lpath['head'][0]] = head
            f[self.lpath['tail'][0]] = tail
            eng.write(s, datap[1], datap[2], ('a', 0, tuple(f)))
            s.mon['qpre'] = tuple(nodes)
            eng.note(s, 'lock list [%s]%s' % (' '.join(items), ' (own entry was dequeued: %s)' % (nd[0][0],) if nd else ''))
            eng.label(s, 'lock', self.ids(s, nodes), nd[0] if nd else None, len(own))
            out.append(s)
        return out

    def set_dequeued(self, s, o, path, nd):
        eng = self.eng
        v, wnone = nd
        eng.write(s, o, self.state_at(o, path), I(v))
        np_ = self.node_at(o, path)
        if np_ is not None:
            if wnone:
                eng.write(s, o, np_ + (self.npath['waiter'],), ('a', 0, ()))
            eng.write(s, o, np_ + (self.npath['next'],), TOP)
            eng.write(s, o, np_ + (self.npath['prev'],), TOP)

    def ids(self, st, nodes):
        out = []
        for o, path in nodes:
            if o[0] == 'x' and self.eng._tagname[o[1][0]][0] == 'W':
                out.append('W%d' % o[1][1])
            else:
                out.append('O')
        return tuple(out)

    def follow(self, st, v):
        """Link value -> node, None (end) or 'bad'."""
        if v[0] == 'a' and v[1] == 0:
            return None
        if v[0] == 'a' and v[1] == 1 and v[2][0][0] == 'p':
            return (v[2][0][1], v[2][0][2])
        return 'bad'

    def links(self, st, n):
        np_ = self.node_at(*n)
        out = [self.follow(st, self.eng.read(st, n[0], np_ + (self.npath[f],))) for f in ('next', 'prev')]
        return [x for x in out if isinstance(x, tuple)]

    def on_unlock(self, st, g):
        k = (g[1], g[2])
        if st.mon.get('held') != k:
            return
        eng = self.eng
        st.mon['held'] = 0
        pre = st.mon.get('qpre') or ()
        st.mon['qpre'] = ()
        lv = eng.read(st, g[1], g[2])
        order = []
        bad = None
        prev = None
        cur = self.follow(st, eng.proj(lv, self.lpath['head'][0]))
        while cur is not None:
            if cur == 'bad':
                bad = 'a link is not a valid pointer'
                break
            if cur in order:
                bad = 'the list is cyclic'
                break
            if len(order) > 8:
                bad = 'the list does not end'
                break
            np_ = self.node_at(*cur)
            p = self.follow(st, eng.read(st, cur[0], np_ + (self.npath['prev'],)))
            if p != prev:
                bad = "an entry's back link does not match the list"
                break
            order.append(cur)
            prev = cur
            cur = self.follow(st, eng.read(st, cur[0], np_ + (self.npath['next'],)))
        if bad is None:
            t = self.follow(st, eng.proj(lv, self.lpath['tail'][0]))
            if t != prev:
                bad = "the list's tail is not its last entry"
        ids_pre, ids_post = self.ids(st, pre), self.ids(st, order)
        # everything that can still be reached from the list, also through links that are no part of a well-formed list
        reach, todo = list(order), [x for x in (self.follow(st, eng.proj(lv, self.lpath['head'][0])),
                                                 self.follow(st, eng.proj(lv, self.lpath['tail'][0]))) if isinstance(x, tuple)]
        if bad is not None:
            for n in order:
                todo += self.links(st, n)
        while todo and len(reach) < 16:
            n = todo.pop()
            if n not in reach:
                reach.append(n)
                todo += self.links(st, n)
        stale = []
        for n, i in zip(reach, self.ids(st, reach)):
            if i != 'O':
                sv = eng.read(st, n[0], self.state_at(*n))
                if sv[0] == 'i' and self.facts.lv and sv[1] not in self.facts.lv:
                    stale.append(i)
        own = [n for n, i in zip(order, ids_post) if i == 'O']
        own_any = [n for n, i in zip(reach, self.ids(st, reach)) if i == 'O']
        info = []
        for n in pre:
            i = self.ids(st, [n])[0]
            if i.startswith('W') and n not in order:
                sv = eng.read(st, n[0], self.state_at(*n))
                wv = eng.read(st, n[0], self.node_at(*n) + (self.npath['waiter'],))
                wn = wv[0] == 'a' and wv[1] == 0
                sv = sv[1] if sv[0] == 'i' else None
                if sv is not None:
                    self.facts.nd.add((sv, wn))
                info.append((i, sv, wn))
        for n in own:
            sv = eng.read(st, n[0], self.state_at(*n))
            wv = eng.read(st, n[0], self.node_at(*n) + (self.npath['waiter'],))
            if sv[0] == 'i':
                self.facts.lv.add(sv[1])
            info.append(('O', sv[1] if sv[0] == 'i' else None, wv))
        if st.dead:
            return
        eng.emit(st, 'q_unlock', pre=ids_pre, post=ids_post, bad=bad, info=tuple(info), stale=tuple(stale))
        eng.label(st, 'unlock', ids_pre, ids_post, tuple((a, b, self.who(c)) for a, b, c in info))
        if bad is not None:
            eng.label(st, 'bad', 'list', bad)
        st.mon['own'] = tuple(own_any)
        eng.write(st, g[1], g[2], TOP)
        for n in own:
            np_ = self.node_at(*n)
            eng.write(st, n[0], np_ + (self.npath['next'],), TOP)
            eng.write(st, n[0], np_ + (self.npath['prev'],), TOP)
        for o in [o for o in st.store if o[0] == 'x' and eng._tagname[o[1][0]][0] == 'W']:
            del st.store[o]

    def who(self, w):
        """Whose waker a value is."""
        if isinstance(w, bool):
            return w
        if w[0] == 'a' and len(w[2]) == 1:
            w = w[2][0]
        elif w[0] == 'a':
            return None
        if w[0] == 's':
            t = self.eng._tagname[w[1][0]]
            if t[0] == 'me':
                return ('me', 0)
            if t[0] == 'mywaker':
                return ('me', w[1][1])
            if t[0] == 'wk':
                return 'W%d' % w[1][1]
            if t[0] == 'cellw':
                return 'cell'
        return '?'

    # ---- an entry's state word
    def at_Waiter_state(self, st, op, ptr, role, vals, ords, rty):
        eng = self.eng
        o, path = ptr[1], ptr[2] + (0,)
        own = st.mon.get('own') or ()
        nd = None
        if own and not st.mon.get('held'):
            for (oo, op_) in own:
                if oo == o and ptr[2][:len(op_)] == op_:
                    # others may have dequeued it meanwhile
                    out = []
                    for d in sorted(self.facts.nd):
                        s = st.copy()
                        self.set_dequeued(s, oo, op_, d)
                        s.mon['own'] = ()
                        eng.note(s, 'own entry has been dequeued: %d' % d[0])
                        eng.label(s, 'deq', d)
                        out += self.mem_atomic(s, op, ptr, role, vals, ords, rty, 'O')
                    s = st.copy()
                    eng.label(s, 'linked')
                    out += self.mem_atomic(s, op, ptr, role, vals, ords, rty, 'O')
                    return out
        who = self.ids(st, [(o, ())])[0]
        return self.mem_atomic(st, op, ptr, role, vals, ords, rty, who)

    def mem_atomic(self, st, op, ptr, role, vals, ords, rty, who):
        """An atomic whose value is tracked in memory."""
        eng = self.eng
        o, path = ptr[1], ptr[2] + (0,)
        old = eng.read(st, o, path)
        if old[0] == 's' and old[1] in st.dom:
            eng.split_dom(st, old[1])
        if old[0] in ('t', 'u', 'm'):
            old = eng.fresh(st, None, 'atom')

        def fin(s, new, ok, res):
            if new is not None:
                eng.write(s, o, path, new)
            eng.note(s, '%s %s of %s: %s -> %s' % (op, rn(role), who, old[1] if old[0] == 'i' else '?', new[1] if new and new[0] == 'i' else '-'))
            eng.label(s, 'ns', who, old[1] if old[0] == 'i' else None, new[1] if new is not None and new[0] == 'i' else None)
            return self.at_fin(s, op, ptr, role, ords, old, new, ok, res)
        if op == 'load':
            return fin(st, None, None, old)
        if op == 'store':
            return fin(st, vals[0], None, UNIT)
        if op.startswith('compare'):
            out = []
            c = mk_cmp('eq', sub(old, vals[0]))
            tv = eng.truth(st, c)
            if tv is not False:
                out += fin(st.copy(), vals[1], True, ('a', 0, (old,)))
            if tv is not True or op.endswith('weak'):
                out += fin(st, None, False, ('a', 1, (old,)))
            return out
        return fin(st, self.rmw(op, old, vals[0] if vals else TOP), None, old)

    # ---- wakes, parks
    def h_wake(self, eng, st, fn, args, atys, rty):
        v = args[0]
        if v[0] == 'p':
            v = eng.read(st, v[1], v[2])
        eng.label(st, 'wake', self.who(v))
        return super().h_wake(eng, st, fn, args, atys, rty)

    def h_event(self, kind):
        f = super().h_event(kind)
        if kind not in ('park', 'park_timeout'):
            return f

        def h(eng, st, fn, args, atys, rty):
            eng.label(st, kind)
            return f(eng, st, fn, args, atys, rty)
        return h


class Recorder:
    """Protocol automaton of one root: nodes are states of the analysis, edges carry shared-state steps."""

    def __init__(self):
        self.edges = []
        self.ids = {}
        self.n = 0
        self.sites = {}

    def join(self, st, k):
        i = self.ids.get(k)
        if i is None:
            self.n += 1
            i = self.ids[k] = self.n
        if st.cur != i:
            self.edges.append((st.cur, None, i))
        st.cur = i

    def label(self, st, lab, where):
        self.n += 1
        self.edges.append((st.cur, lab, self.n))
        self.sites[self.n] = where
        st.cur = self.n


class ProtoMon:
    """Labels the steps of an operation that its caller sees."""

    def attach(self, e):
        self.e = e

    def start(self, e, st, r):
        st.mon['~wv'] = 0

    def on_pending(self, e, st, ev):
        e.M.flush_cell(st)
        e.label(st, 'pending')

    def on_poll(self, e, st, ev):
        if not ev.first:
            e.label(st, 'poll', st.mon.get('~wv', 0))

    def on_future_drop(self, e, st, ev):
        if ev.first:
            st.dead = True
        else:
            e.label(st, 'cancel')

    def on_ret(self, e, st, ev):
        t = e.T[e.P.strip(ev.ty)]
        k = ''
        if t.get('np') == 'S::task::Poll' and ev.val[0] == 'a' and ev.val[1] == 1:
            k = 'pending'
        st.mon['~ret'] = k
        if k != 'pending':
            e.label(st, 'ret', self.outcome(e, ev.val, ev.ty))

    def outcome(self, e, v, ty, d=0):
        """'closed', 'ok' or '' (anything else)."""
        P = e.P
        ty = P.strip(ty)
        t = e.T[ty]
        np = t.get('np', '')
        if v[0] != 'a' or t['k'] != 'adt' or d > 4:
            return ''
        if np == 'S::task::Poll':
            return self.outcome(e, v[2][0], t['args'][0], d + 1) if v[1] == 0 else ''
        if np == 'S::option::Option':
            return 'ok' if v[1] == 1 else 'closed'
        if np == 'S::result::Result':
            if v[1] == 0:
                return 'ok'
            er = e.T[P.strip(t['args'][1])]
            x = v[2][0]
            n = er.get('path', '').split('::')[-1]
            if er.get('ak') == 'enum' and x[0] == 'a':
                n = er['variants'][x[1]]['n']
            return 'closed' if n == 'Closed' else ''
        return ''

    def on_end(self, e, st, ev):
        e.M.flush_cell(st)
        e.label(st, 'end', st.mon.get('~ret') or '')

    def on_list_access(self, e, st, ev):
        o = ev.obj
        if ev.adt == 'Node' and o[0] == 'x' and e._tagname[o[1][0]][0] == 'W':
            e.label(st, 'wt', 'W%d' % o[1][1])
