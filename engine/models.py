"""Models of what is outside the crate (atomics, locks, threads, time, memory primitives) and of the words the ring
buffer packs a position into."""
import re
from terms import *
import terms
from core import *

ORD = ['Relaxed', 'Release', 'Acquire', 'AcqRel', 'SeqCst']


def acq(o):
    return o in ('Acquire', 'AcqRel', 'SeqCst')


def rel(o):
    return o in ('Release', 'AcqRel', 'SeqCst')


POS = {('Core', 'head'): False, ('Core', 'tail'): True, ('Slot', 'state'): False}


class Model:
    def __init__(self, own_mutex=False):
        self.handlers = []
        self.own_mutex = own_mutex      # analyse the crate's own lock instead of modelling it
        self._hc = {}
        self.intercept = {}
        self.reg_all()

    # ------------------------------------------------------------ set-up
    def attach(self, eng):
        self.eng = eng
        self.P = eng.P
        self.T = eng.T
        self.CAP = ('s', (eng.tag('capacity'), 0))
        self.CAPN = self.CAP[1]
        eng.symty[self.CAPN] = None
        self.C = None
        self._kind = {}
        eng.py['coro'] = self._py_coro
        eng.py['codrop'] = self._py_codrop
        eng.py['val'] = self._py_val
        eng.py['collect'] = self._py_collect
        terms.bit_hook = None
        terms._symcache.clear()
        self.find_types()
        self.eval_core()
        terms.bit_hook = self.bit_hook

    def find_types(self):
        self.ty = {}
        for a in self.P.adts:
            self.ty.setdefault(a['name'], []).append(a['ty'])

    def eval_core(self):
        """Evaluate the constructor of the ring buffer's core on a symbolic capacity: the masks it derives."""
        eng = self.eng
        self.core_new = None
        self.core_val = None
        cts = [t for n, t in enumerate(self.T) if t and t['k'] == 'adt' and t.get('local') and t['path'].split('::')[-1] == 'Core']
        if not cts:
            return
        for r in self.P.roots:
            i = self.P.I[r['inst']]
            if i and i['argc'] == 1 and r['name'] == 'new' and 'Core' == self.T[i['locals'][0][0]].get('path', '').split('::')[-1]:
                self.core_new = r['inst']
        if self.core_new is None:
            return
        cty = self.P.I[self.core_new]['locals'][0][0]
        self.core_ty = cty
        out = []
        C = ('o', 'npo2', add(self.CAP, I(1)))
        # the closed bit as the constructor computes it, if it is a power of two above every index
        self.mask_error = None
        x = self.core_field(self.run_new(), 'closed')
        if x is not None:
            w = self.mask_witness(x)
            if w is not None:
                self.mask_error = 'the closed bit is not a power of two above every index for capacity %d' % w
            elif x[0] == 'o':
                C = x
        self.C = C
        terms.bit_hook = self.bit_hook
        eng.py['corenew'] = lambda e, s, d, v, u: (out.append((v, s, u)), [])[1]
        s = new_state()
        s.stack = (('py', 'corenew', ()),)
        mons, eng.mons = eng.mons, []
        eng.run([eng.push_call(s, self.core_new, [self.CAP], 'corenew')])
        eng.mons = mons
        vals = [v for v, s, u in out if not u]
        if not vals:
            return
        self.core_val = vals[0]
        written = self.core_written = self.written_fields(cty)
        for i, v in enumerate(vals[0][2]):
            if v[0] in ('i', 's', 'L', 'o') and i not in written:
                eng.constfields[(cty, i)] = v

    def run_new(self):
        eng = self.eng
        out = []
        eng.py['corenew0'] = lambda e, s, d, v, u: (out.append((v, u)), [])[1]
        s = new_state()
        s.stack = (('py', 'corenew0', ()),)
        mons, eng.mons = eng.mons, []
        eng.run([eng.push_call(s, self.core_new, [self.CAP], 'corenew0')])
        eng.mons = mons
        vals = [v for v, u in out if not u]
        return vals[0] if vals else None

    def core_field(self, val, name):
        if val is None or val[0] != 'a':
            return None
        for i, (n, _) in enumerate(self.T[self.P.strip(self.core_ty)]['variants'][0]['f']):
            if n == name:
                return val[2][i]
        return None

    def mask_witness(self, x):
        for cap in range(1, 70):
            v = eval_at(x, {self.CAPN: cap})
            if v is None:
                return None
            if v == 0 or v & (v - 1) or v < cap:
                return cap
        return None

    def written_fields(self, cty):
        """Fields of a type that are assigned through a place anywhere."""
        out = set()
        for i in self.P.I:
            if not i or not i.get('blocks') or i['id'] == self.core_new:
                continue
            for b in i['blocks']:
                for s in b['s']:
                    if s['k'] == '=':
                        for p in ([s['p']] if s['p']['p'] else []) + ([s['r']['p']] if s['r']['k'] == 'ref' and ('Mut' in s['r']['bk'] or s['r']['bk'] == 'raw') else []):
                            out |= self.fields_on(i, p, cty)
                if b['t']['k'] == 'call' and b['t']['d']['p']:
                    out |= self.fields_on(i, b['t']['d'], cty)
        return out

    def fields_on(self, i, p, cty):
        t = i['locals'][p['l']][0]
        var = 0
        out = set()
        cp = self.T[cty]['path']
        for n, e in enumerate(p['p']):
            if t is None:
                break
            if e == '*':
                t = self.P.pointee(t)
            elif isinstance(e, int):
                ty = self.T[t]
                if ty.get('path') == cp and n == len(p['p']) - 1:
                    out.add(e)
                fs = self.P.fields(t, var)
                t = fs[e] if fs and e < len(fs) else None
                var = 0
            elif e == 'o':
                pass
            elif e[0] == 'v':
                var = e[1]
            else:
                t = self.T[t].get('elem')
        return out

    # ------------------------------------------------------------ position words
    def kind_of(self, a):
        """Which part of a position word an atom contributes to: 'idx', 'cl', 'gen', 'C', 'cap' or None."""
        if a[0] == 's':
            n = a[1]
            if n == self.CAPN:
                return 'cap'
            l = n[-1]
            if l == '@idx':
                return 'idx'
            if l == '@cl':
                return 'cl'
            if l == '@gen':
                return 'gen'
            return None
        if a == self.C:
            return 'C'
        return None

    def split_word(self, t):
        """Linear term -> {'idx': term, 'cl': term, 'gen': term} or None if something else occurs in it."""
        l = to_lin(t)
        if l is None or self.C is None:
            return None
        c, d = l
        idx, cl, gen = {}, {}, {}
        for a, k in d.items():
            kd = self.kind_of(a)
            if kd in ('idx', 'cap'):
                idx[a] = k
            elif kd == 'cl':
                cl[a] = k
            elif kd == 'gen':
                gen[a] = k
            elif kd == 'C':
                k = k - M64 if k >= M64 // 2 else k
                odd = k % 2
                if odd:
                    if k > 0 or True:
                        s = 1 if k > 0 else -1
                        cl[a] = s
                        k -= s
                if k:
                    gen[a] = k
            else:
                return None
        return {'idx': from_lin(c, idx), 'cl': from_lin(0, cl), 'gen': from_lin(0, gen)}

    def is_word(self, w):
        """A split word whose parts are plain (sums of distinct parts that fit)."""
        def ok(t, kinds):
            l = to_lin(t)
            return l is not None and all(k in (1, 2, -1) or abs(k) < 1 << 62 for k in l[1].values())
        return w is not None

    def bit_hook(self, op, a):
        if op not in ('and', 'or') or self.C is None:
            return None
        x, y = a
        if x[0] not in ('i', 's', 'L', 'o') or y[0] not in ('i', 's', 'L', 'o'):
            return None
        mx, my = self.mask(x), self.mask(y)
        if op == 'and':
            for m, w in ((mx, y), (my, x)):
                if m is None:
                    continue
                sw = self.split_word(w)
                if sw is None or not self.has_part(w):
                    mw = self.mask(w)
                    if mw is not None and w != I(0):
                        return self.mask_term(m & mw)
                    continue
                r = I(0)
                for n, p in enumerate(('idx', 'cl', 'gen')):
                    if m >> n & 1:
                        r = add(r, sw[p])
                return r
            return None
        # or
        if mx is not None and my is not None and not self.has_part(x) and not self.has_part(y):
            return self.mask_term(mx | my)
        sx, sy = self.split_word(x), self.split_word(y)
        if sx is None or sy is None:
            return None
        if not (self.has_part(x) or self.has_part(y)):
            return None
        r = I(0)
        for p in ('idx', 'cl', 'gen'):
            if sx[p] == I(0):
                r = add(r, sy[p])
            elif sy[p] == I(0) or sx[p] == sy[p]:
                r = add(r, sx[p])
            elif p == 'cl' and self.C in (sx[p], sy[p]):
                r = add(r, self.C)
            else:
                return None
        return r

    def has_part(self, t):
        l = to_lin(t)
        return l is not None and any(self.kind_of(a) in ('idx', 'cl', 'gen') for a in l[1])

    def mask(self, t):
        """Bit set (1: idx, 2: cl, 4: gen) of a mask built from C, or None."""
        l = to_lin(t)
        if l is None:
            return None
        c, d = l
        if any(a != self.C for a in d):
            return None
        k = d.get(self.C, 0)
        k = k - M64 if k >= M64 // 2 else k
        c = c - M64 if c >= M64 // 2 else c
        return {(0, 0): 0, (1, -1): 1, (1, 0): 2, (2, -1): 3, (-2, 0): 4, (-1, -1): 5, (-1, 0): 6, (0, -1): 7}.get((k, c))

    def mask_term(self, m):
        k, c = {0: (0, 0), 1: (1, -1), 2: (1, 0), 3: (2, -1), 4: (-2, 0), 5: (-1, -1), 6: (-1, 0), 7: (0, -1)}[m]
        return add(scale(self.C, k), I(c % M64))

    def word(self, st, cl, kind):
        eng = self.eng
        top = st.stack[-1]
        nm = eng.fresh_name(st, eng.tag(kind, top[2] if top[0] == 'fn' else top[:2], top[3] if top[0] == 'fn' else 0))
        v = add(('s', nm + ('@idx',)), ('s', nm + ('@gen',)))
        if cl:
            v = add(v, ('s', nm + ('@cl',)))
        return v

    def rem(self, st, a, b):
        """(idx + 1) % cap"""
        if b != self.CAP:
            return None
        sw = self.split_word(a)
        if sw is None or sw['cl'] != I(0) or sw['gen'] != I(0):
            return None
        lt = mk_cmp('lt', sub(a, self.CAP))
        if self.eng.decide(st, lt):
            return a
        if sub(a, self.CAP)[0] == 'i':
            return sub(a, self.CAP)
        return None

    def solvable(self, name):
        return name != self.CAPN

    def range(self, name):
        if name == self.CAPN:
            return 1, None
        return 0, None

    def truth(self, st, v):
        op, t = v[1], v[2]
        if op in ('eq', 'ne') and self.C is not None:
            l = to_lin(t)
            if l is not None and l[0] == 0 and len(l[1]) == 1 and self.C in l[1]:
                return op == 'ne'
        if not self.has_part(t) and self.CAP not in [x for x, _ in (t[2] if t[0] == 'L' else ((t, 1),))]:
            return None
        sw = self.split_word(t)
        if sw is None:
            return None
        if op in ('lt', 'ge') and sw['cl'] == I(0) and sw['gen'] == I(0):
            # idx + c - cap, c <= 0: below the capacity
            l = to_lin(t)
            c = l[0] - M64 if l[0] >= M64 // 2 else l[0]
            d = {a: (k - M64 if k >= M64 // 2 else k) for a, k in l[1].items()}
            pos = [a for a, k in d.items() if k > 0]
            neg = [a for a, k in d.items() if k < 0]
            if d.get(self.CAP) == -1 and len(pos) == 1 and d[pos[0]] == 1 and len(neg) == 1 and c <= 0 and self.bounded(pos[0], st):
                return op == 'lt'
            if d == {self.CAP: -1} and c < 1:
                return op == 'lt'
            if d == {self.CAP: -1} and c == 1 and False:
                return None
            if not neg and c >= 0:
                return op == 'ge'
        if op in ('eq', 'ne'):
            # differing parts that can never be equal
            for p in ('cl', 'gen'):
                x = sw[p]
                l = to_lin(x)
                if len(l[1]) == 1 and self.C in l[1] and l[0] == 0:
                    return op == 'ne'
            x = sw['idx']
            if x[0] == 'i' and x != I(0) and (x[1] < 1 << 32 or x[1] > M64 - (1 << 32)):
                return op == 'ne'
        return None

    def bounded(self, a, st):
        """idx parts of head/tail words are below the capacity (an invariant checked where they are written)."""
        n = a[1]
        return n[-1] == '@idx' and self.eng._tagname[n[0]][0] in ('head', 'tail')

    def assume(self, st, op, t):
        """Case knowledge about position words; None: not one."""
        eng = self.eng
        if not self.has_part(t):
            return None
        sw = self.split_word(t)
        if sw is None:
            return None
        if op == 'eq':
            for p in ('cl', 'gen', 'idx'):
                if not self.solve_part(st, sw[p], p):
                    return False
                if st.dead:
                    return False
                # later parts may have changed by the substitution: they have distinct symbols, so no
            return True
        if op == 'ne':
            nz = [p for p in ('idx', 'cl', 'gen') if sw[p] != I(0)]
            if nz == ['cl']:
                l = to_lin(sw['cl'])
                ss = [a for a in l[1] if self.kind_of(a) == 'cl']
                if len(ss) == 1 and len(l[1]) == 1:
                    eng.subst_state(st, {ss[0][1]: self.C})
                    return True
                if len(ss) == 1 and len(l[1]) == 2:
                    eng.subst_state(st, {ss[0][1]: I(0)})
                    return True
            if nz == ['idx']:
                op2 = self.idx_cap(t)
                if op2 is not None:
                    st.rel = st.rel | {('lt', op2)}
                    return True
            st.rel = st.rel | {(op, t)}
            return True
        if op in ('lt', 'ge') and sw['cl'] == I(0) and sw['gen'] == I(0):
            x = self.idx_cap(t)
            if x is not None:
                if op == 'lt':
                    st.rel = st.rel | {('lt', x)}
                    return True
                # idx + 1 >= cap and idx < cap
                l = to_lin(x)
                a = [a for a in l[1] if self.kind_of(a) == 'idx'][0]
                eng.subst_state(st, {a[1]: sub(self.CAP, I(1))})
                return True
        st.rel = st.rel | {(op, t)}
        return True

    def idx_cap(self, t):
        """t (or -t) as idx + 1 - cap, for a bounded idx."""
        for x in (t, scale(t, -1)):
            l = to_lin(x)
            c = l[0]
            if c == 1 and len(l[1]) == 2 and l[1].get(self.CAP, 0) % M64 == M64 - 1:
                a = [a for a in l[1] if a != self.CAP][0]
                if l[1][a] == 1 and self.kind_of(a) == 'idx' and self.bounded(a, None):
                    return x
        return None

    def solve_part(self, st, t, p):
        eng = self.eng
        if t == I(0):
            return True
        if t[0] == 'i':
            return False
        l = to_lin(t)
        cand = [(a, k) for a, k in l[1].items() if self.kind_of(a) == p]
        if not cand:
            if p in ('cl', 'gen'):
                return False
            st.rel = st.rel | {('eq', neg_canon(t))}
            return True
        # prefer solving for a slot's state
        cand.sort(key=lambda x: (eng._tagname[x[0][1][0]][0] != 'state', repr(x)))
        for a, k in cand:
            k = k - M64 if k >= M64 // 2 else k
            if abs(k) == 1:
                rest = sub(t, scale(a, k))
                eng.subst_state(st, {a[1]: scale(rest, -k)})
                return True
        st.rel = st.rel | {('eq', neg_canon(t))}
        return True

    # ------------------------------------------------------------ engine hooks
    def init_obj(self, st, o):
        return None

    def keep_obj(self, o):
        return False

    def extend_live(self, st, live):
        live.add(self.CAPN)

    def slice_len(self, name, pt):
        e = self.T[self.P.strip(pt)].get('elem')
        if e is not None and self.T[self.P.strip(e)].get('path', '').endswith('::Slot'):
            return self.CAP
        return ('s', name + ('len',))

    def array_len(self, v, pt, n):
        e = self.T[self.P.strip(pt)].get('elem')
        if e is not None and self.T[self.P.strip(e)].get('path', '').endswith('::Slot') and v[1][0] == 'x':
            return self.CAP
        return I(n) if isinstance(n, int) else ('s', (self.eng.tag('const', n), 0))

    def access(self, st, o, path, kind, roles):
        eng = self.eng
        for a, f, n in roles:
            if a == 'Slot' and f == 'value':
                if kind != 'ref':
                    eng.emit(st, 'slot_access', obj=o, path=path, how=kind)
            elif a == 'WaitCell' and f == 'waiter':
                if kind != 'ref':
                    eng.emit(st, 'cell_access', obj=o, path=path, how=kind)
            elif a in ('Node', 'List'):
                if kind != 'ref':
                    eng.emit(st, 'list_access', obj=o, path=path, how=kind, field=f, adt=a)

    # ------------------------------------------------------------ calls
    def handler(self, path, fn):
        if self.own_mutex and path.startswith(('thingbuf::util::mutex', '<thingbuf::util::mutex')):
            return None
        k = (path, fn.get('rk'))
        if k in self._hc:
            return self._hc[k]
        h = None
        for rx, f in self.handlers:
            if rx.search(path):
                h = f
                break
        self._hc[k] = h
        return h

    def on(self, rx, f):
        self.handlers.append((re.compile(rx), f))

    def reg_all(self):
        on = self.on
        on(r'^S::sync::atomic::Atomic(::<\w+>|\w+)::new$', lambda e, s, fn, a, at, r: e.deliver(s, ('a', 0, (a[0],))))
        for op in ('load', 'store', 'swap', 'compare_exchange', 'compare_exchange_weak', 'fetch_add', 'fetch_sub',
                   'fetch_and', 'fetch_or', 'fetch_xor', 'fetch_nand', 'fetch_max', 'fetch_min', 'fetch_update',
                   'compare_and_swap', 'fetch_not'):
            on(r'^S::sync::atomic::Atomic(::<[\w*]+>|\w+)::%s$' % op, self.h_atomic(op))
        on(r'^S::sync::atomic::Atomic(::<\w+>|\w+)::(get_mut|as_ptr)$', lambda e, s, fn, a, at, r: e.deliver(s, a[0]))
        on(r'^S::sync::atomic::Atomic(::<\w+>|\w+)::into_inner$', lambda e, s, fn, a, at, r: e.deliver(s, e.proj(a[0], 0)))
        on(r'^S::sync::atomic::(fence|compiler_fence)$', self.h_fence)
        on(r'^S::(sync::atomic|hint)::(spin_loop_hint|spin_loop)$', self.h_event('spin'))
        on(r'^S::thread::yield_now$', self.h_event('yield_now'))
        on(r'^S::thread::(functions::)?park$', self.h_event('park'))
        on(r'^S::thread::(functions::)?(park_timeout|park_timeout_ms|sleep)$', self.h_event('park_timeout'))
        on(r'^S::thread::(functions::)?panicking$', self.h_panicking)
        on(r'^S::thread::(functions::|current::)?current$', self.h_me)
        on(r'^<S::thread::(thread::)?Thread as S::clone::Clone>::clone$', self.h_clone_waker('Thread'))
        on(r'^S::thread::(thread::)?Thread::id$', lambda e, s, fn, a, at, r: e.deliver(s, e.read(s, a[0][1], a[0][2])))
        on(r'^S::thread::(thread::)?Thread::unpark$', self.h_wake)
        on(r'ThreadId as S::cmp::PartialEq>::(eq|ne)$', self.h_sameval)
        on(r'^<S::task::Waker as S::clone::Clone>::clone$', self.h_clone_waker('Waker'))
        on(r'^<S::task::Waker as S::clone::Clone>::clone_from$', self.h_clone_from)
        on(r'^S::task::Waker::wake$', self.h_wake)
        on(r'^S::task::Waker::wake_by_ref$', self.h_wake)
        on(r'^S::task::Waker::will_wake$', self.h_sameval)
        on(r'^S::task::Context::<.*>::waker$', self.h_ctx_waker)
        # locks
        on(r'lock_api::Mutex::<R, T>::lock$|^thingbuf::.*::Mutex::<T>::lock$', self.h_lock)
        on(r'lock_api::Mutex::<R, T>::try_lock$|^thingbuf::.*::Mutex::<T>::try_lock$', self.h_try_lock)
        on(r'lock_api::Mutex::<R, T>::get_mut$', lambda e, s, fn, a, at, r: e.deliver(s, ('p', a[0][1], a[0][2] + ('data',), None)))
        on(r'(lock_api|^<thingbuf::.*)::MutexGuard<.*> as S::ops::(Deref|DerefMut)>::deref(_mut)?$', self.h_guard_deref)
        on(r'^parking_lot::(const_mutex|Mutex::<.*>::new)$|lock_api::Mutex::<R, T>::(new|const_new|from_raw)$|^thingbuf::util::mutex::.*(const_mutex|Mutex::<.*>::new)$', lambda e, s, fn, a, at, r: e.deliver(s, ('a', 0, (a[0],))))
        # memory
        on(r'^S::mem::drop$', self.h_drop)
        on(r'^S::mem::needs_drop$', self.h_needs_drop)
        on(r'^S::mem::(size_of|align_of)$', self.h_size_of)
        on(r'^S::mem::forget$', lambda e, s, fn, a, at, r: e.deliver(s, UNIT))
        on(r'^S::mem::replace$', self.h_replace)
        on(r'^S::mem::swap$|^S::ptr::swap$', self.h_swap)
        on(r'^S::mem::take$', self.h_take)
        on(r'^S::ptr::drop_in_place$|MaybeUninit::<T>::assume_init_drop$|^S::ptr::mut_ptr::<impl \*mut T>::drop_in_place$', self.h_drop_in_place)
        on(r'^S::ptr::(mut_ptr::|const_ptr::)?(<impl \*(mut|const) T>::)?(read|read_volatile)$', self.h_ptr_read)
        on(r'^S::ptr::(mut_ptr::)?(<impl \*mut T>::)?(write|write_volatile)$', self.h_ptr_write)
        on(r'^S::ptr::(eq|addr_eq)$', lambda e, s, fn, a, at, r: e.deliver(s, e.eq(s, a[0], a[1])))
        on(r'^S::ptr::(mut_ptr|const_ptr)::<impl \*(mut|const) T>::(cast|cast_mut|cast_const)$', lambda e, s, fn, a, at, r: e.deliver(s, a[0]))
        on(r'^<S::ptr::NonNull<T> as S::cmp::PartialEq>::(eq|ne)$', self.h_ptr_pe)
        on(r'^S::sync::Arc::<T>::new$|^S::boxed::Box::<T>::(new|pin)$', self.h_heap_new)
        on(r'^<S::sync::Arc<T, A> as S::clone::Clone>::clone$', self.h_arc_clone)
        on(r'^<S::sync::Arc<T, A> as S::ops::Deref>::deref$|^<S::boxed::Box<T, A> as S::(convert::As(Ref|Mut)<T>|ops::Deref(Mut)?|borrow::Borrow(Mut)?<T>)>::\w+$|^<S::sync::Arc<T, A> as S::(convert::AsRef<T>|borrow::Borrow<T>)>::\w+$',
           lambda e, s, fn, a, at, r: e.deliver(s, e.read(s, a[0][1], a[0][2])))
        # slices
        on(r'^S::slice::<impl \[T\]>::len$', lambda e, s, fn, a, at, r: e.deliver(s, a[0][3] if a[0][0] == 'p' and a[0][3] is not None else TOP))
        on(r'^S::slice::<impl \[T\]>::is_empty$', lambda e, s, fn, a, at, r: e.deliver(s, mk_cmp('eq', a[0][3]) if a[0][0] == 'p' and a[0][3] is not None else TOP))
        on(r'^S::slice::<impl \[T\]>::(get_unchecked|get_unchecked_mut)$', self.h_index(False))
        on(r'^S::slice::<impl \[T\]>::(get|get_mut)$', self.h_get)
        on(r'^(S::slice::index::<impl S::ops::Index(Mut)?<I> for \[T\]>|<\[T\] as S::ops::Index(Mut)?<I>>|S::array::<impl S::ops::Index(Mut)?<I> for \[T; N\]>)::index(_mut)?$', self.h_index(True))
        on(r'^S::slice::<impl \[T\]>::(iter|iter_mut)$', self.h_iter)
        on(r'^S::iter::Iterator::enumerate$', lambda e, s, fn, a, at, r: e.deliver(s, ('a', 7, (a[0],))))
        on(r'^S::iter::Iterator::take$', self.h_iter_take)
        on(r'^S::iter::Iterator::map$', lambda e, s, fn, a, at, r: e.deliver(s, ('a', 0, (a[0], a[1]))))
        on(r'IntoIterator( for [^>]*)?>::into_iter$', self.h_into_iter)
        on(r'^<S::iter::(Enumerate|Take)<I> as S::iter::Iterator>::next$|^<S::slice::(Iter|IterMut)<.*> as S::iter::Iterator>::next$', self.h_iter_next)
        on(r'S::iter::Iterator for S::ops::Range<A>>::next$', self.h_range_next)
        on(r'^S::iter::Iterator::collect$', self.h_collect)
        # integers
        on(r'^S::num::<impl \w+>::(wrapping_add|unchecked_add|strict_add)$', lambda e, s, fn, a, at, r: e.deliver(s, e.binop(s, 'Add', a[0], a[1], at[0])))
        on(r'^S::num::<impl \w+>::(wrapping_sub|unchecked_sub)$', lambda e, s, fn, a, at, r: e.deliver(s, e.binop(s, 'Sub', a[0], a[1], at[0])))
        on(r'^S::num::<impl \w+>::(wrapping_mul)$', lambda e, s, fn, a, at, r: e.deliver(s, e.binop(s, 'Mul', a[0], a[1], at[0])))
        on(r'^S::num::<impl \w+>::(wrapping_neg)$', lambda e, s, fn, a, at, r: e.deliver(s, scale(a[0], -1)))
        on(r'^S::num::<impl \w+>::saturating_sub$', self.h_sat_sub)
        on(r'^S::num::<impl \w+>::saturating_add$', self.h_sat_add)
        on(r'^S::num::<impl \w+>::checked_sub$', self.h_checked_sub)
        on(r'^S::num::<impl \w+>::checked_add$', lambda e, s, fn, a, at, r: e.deliver(s, ('a', 1, (add(a[0], a[1]),))))
        on(r'^S::num::<impl \w+>::next_power_of_two$', lambda e, s, fn, a, at, r: e.deliver(s, mk_op('npo2', a[0])))
        on(r'^S::num::<impl \w+>::(is_power_of_two|abs_diff|pow|count_ones|leading_zeros|trailing_zeros)$', lambda e, s, fn, a, at, r: e.deliver(s, e.fresh(s, r)))
        # time
        on(r'^S::time::Instant::now$', self.h_now)
        on(r'^S::time::Instant::elapsed$', self.h_elapsed)
        on(r'^S::time::Instant::(duration_since|saturating_duration_since)$', lambda e, s, fn, a, at, r: e.deliver(s, sub(self.deref(a[0], s), self.deref(a[1], s))))
        on(r'^S::time::Instant::checked_(duration_since)$', lambda e, s, fn, a, at, r: e.deliver(s, ('a', 1, (sub(self.deref(a[0], s), self.deref(a[1], s)),))))
        on(r'^S::time::Instant::checked_add$', self.h_inst_checked_add)
        on(r'^<S::time::(Instant|Duration) as S::ops::Add<.*>>::add$|^<S::time::(Instant|Duration) as S::ops::Add>::add$', lambda e, s, fn, a, at, r: e.deliver(s, add(a[0], a[1])))
        on(r'^<S::time::(Instant|Duration) as S::ops::Sub<.*>>::sub$|^<S::time::(Instant|Duration) as S::ops::Sub>::sub$', lambda e, s, fn, a, at, r: e.deliver(s, sub(a[0], a[1])))
        on(r'^S::time::Duration::saturating_sub$', self.h_sat_sub)
        on(r'^S::time::Duration::checked_sub$', self.h_checked_sub)
        on(r'^S::time::Duration::is_zero$', lambda e, s, fn, a, at, r: e.deliver(s, mk_cmp('eq', self.deref(a[0], s))))
        on(r'^<S::time::(Duration|Instant) as S::clone::Clone>::clone$', lambda e, s, fn, a, at, r: e.deliver(s, self.deref(a[0], s)))
        on(r'(^S::cmp::impls::<impl S::cmp::(PartialOrd|Ord|PartialEq)(<.*>)? for .*>::|^S::cmp::PartialOrd::|as S::cmp::(PartialOrd|Ord|PartialEq)(<.*>)?>::|^S::cmp::Ord::|^S::cmp::PartialEq::)(lt|le|gt|ge|eq|ne|cmp|partial_cmp|min|max)$', self.h_cmp)
        # panics
        on(r'^S::panicking::|^S::rt::(begin_)?panic|::expect_failed$|::unwrap_failed$|panic_display|_fail(ed)?$', self.h_panic)
        on(r'^S::panic::resume_unwind$', self.h_resume)
        on(r'^S::panic::catch_unwind$', self.h_catch)
        on(r'^S::process::abort$|^S::intrinsics::abort$', self.h_abort)
        # intrinsics
        on(r'discriminant_value$', self.h_discr)
        on(r'^S::intrinsics::unreachable$|unreachable_unchecked$', lambda e, s, fn, a, at, r: [])
        on(r'^S::intrinsics::(assert_inhabited|assert_zero_valid|assert_mem_uninitialized_valid|cold_path|assume)$|^S::hint::assert_unchecked$', lambda e, s, fn, a, at, r: e.deliver(s, UNIT))
        on(r'integer_min$', lambda e, s, fn, a, at, r: e.deliver(s, e.fresh(s, r)))
        on(r'^S::hint::black_box$|^S::convert::identity$', lambda e, s, fn, a, at, r: e.deliver(s, a[0]))
        on(r'^S::mem::MaybeUninit::<T>::(uninit)$', lambda e, s, fn, a, at, r: e.deliver(s, UNINIT))
        # formatting
        on(r'^S::fmt::|^S::io::_(e)?print$|^S::fmt::rt::', lambda e, s, fn, a, at, r: e.deliver(s, e.fresh(s, r)))
        on(r'^S::any::type_name', lambda e, s, fn, a, at, r: e.deliver(s, e.fresh(s, r)))

    # ---- helpers
    def deref(self, v, st=None):
        if v[0] == 'p':
            return self.eng.read(st, v[1], v[2])
        return v

    def default_call(self, eng, st, fn, path, args, atys, rty):
        if fn.get('rk') == 'clone':
            t = fn.get('cty')
            return self.clone_value(st, t, args, rty, fn)
        if fn.get('rk') == 'unresolved' or fn.get('rk') == 'virtual':
            return self.trait_call(eng, st, fn, path, args, atys, rty)
        eng.unmodelled[path] = eng.unmodelled.get(path, 0) + 1
        eng.emit(st, 'ext_call', path=path, args=args, fn=fn)
        return eng.deliver(st, eng.fresh(st, rty, 'ext'))

    def clone_value(self, st, t, args, rty, fn):
        v = self.eng.read(st, args[0][1], args[0][2]) if args[0][0] == 'p' else TOP
        return self.eng.deliver(st, v)

    def trait_call(self, eng, st, fn, path, args, atys, rty):
        tr = np(fn.get('trait', '?')).split('::')[-1]
        m = fn.get('method', '?')
        what = '%s::%s' % (tr, m)
        if what == 'Clone::clone' and args and args[0][0] == 'p':
            v = eng.read(st, args[0][1], args[0][2])
            return eng.foreign(st, what, fn, args, rty, result=v)
        if tr == 'Notify' and m == 'notify':
            return self.h_wake(eng, st, fn, args, atys, rty)
        return eng.foreign(st, what, fn, args, rty)

    # ---- atomics
    def h_atomic(self, op):
        def h(eng, st, fn, args, atys, rty):
            ptr = args[0]
            ords = []
            vals = []
            for a, t in zip(args[1:], atys[1:]):
                if t is not None and self.T[t].get('np') == 'S::sync::atomic::Ordering':
                    ords.append(ORD_by(self.T[t], a))
                else:
                    vals.append(a)
            role = eng.role(ptr) if ptr[0] == 'p' else None
            return self.atomic(st, op, ptr, role, vals, ords, rty)
        return h

    def atomic(self, st, op, ptr, role, vals, ords, rty):
        """Returns successor states."""
        eng = self.eng
        h = getattr(self, 'at_%s_%s' % role, None) if role else None
        if h is None and role in POS:
            h = self.at_pos
        if h is None:
            h = self.at_default
        return h(st, op, ptr, role, vals, ords, rty)

    def rmw(self, op, old, v):
        if op == 'swap':
            return v
        if op == 'fetch_add':
            return add(old, v)
        if op == 'fetch_sub':
            return sub(old, v)
        if op in ('fetch_and', 'fetch_or', 'fetch_xor', 'fetch_max', 'fetch_min'):
            return mk_op(op[6:], old, v)
        return TOP

    def at_fin(self, st, op, ptr, role, ords, old, new, ok, res):
        """Emit the event and deliver the operation's result."""
        eng = self.eng
        eng.emit(st, 'atomic', op=op, ptr=ptr, role=role, ords=ords, old=old, new=new, ok=ok)
        if st.dead:
            return []
        self.after_atomic(st, op, ptr, role, ords, old, new, ok)
        return eng.deliver(st, res)

    def after_atomic(self, st, op, ptr, role, ords, old, new, ok):
        pass

    def at_generic(self, st, op, ptr, role, vals, ords, rty, mkold):
        """mkold(state) -> value read from memory."""
        eng = self.eng
        if op == 'load':
            v = mkold(st)
            eng.note(st, 'load %s' % rn(role))
            return self.at_fin(st, op, ptr, role, ords, v, None, None, v)
        if op == 'store':
            eng.note(st, 'store %s' % rn(role))
            return self.at_fin(st, op, ptr, role, ords, None, vals[0], None, UNIT)
        if op in ('compare_exchange', 'compare_exchange_weak', 'compare_and_swap'):
            out = []
            s = st.copy()
            # success: the old value is the expected one
            ok = True
            old = self.cas_old(s, role, ptr, vals[0])
            if old is not None:
                eng.note(s, '%s %s succeeds' % (op, rn(role)))
                out += self.at_fin(s, op, ptr, role, ords, old, vals[1], True,
                                   ('a', 0, (old,)) if op != 'compare_and_swap' else old)
            v = mkold(st)
            if not op.endswith('weak') and v[0] != 'i' or True:
                if not op.endswith('weak'):
                    c = mk_cmp('eq', sub(v, vals[0]))
                    if c != TOP and not eng.assume(st, c, False):
                        return out
                    # the value read may have been substituted away
                eng.note(st, '%s %s fails' % (op, rn(role)))
                v = self.reread(st, v)
                out += self.at_fin(st, op, ptr, role, ords, v, None, False, ('a', 1, (v,)) if op != 'compare_and_swap' else v)
            return out
        # read-modify-write
        v = mkold(st)
        eng.note(st, '%s %s' % (op, rn(role)))
        new = self.rmw(op, v, vals[0] if vals else TOP)
        return self.at_fin(st, op, ptr, role, ords, v, new, None, v)

    def reread(self, st, v):
        if v[0] == 's':
            d = st.dom.get(v[1])
            if d is not None and len(d) == 1:
                return I(list(d)[0])
        return v

    def cas_old(self, st, role, ptr, expected):
        return expected

    def at_default(self, st, op, ptr, role, vals, ords, rty):
        eng = self.eng
        isbool = False
        if ptr[0] == 'p':
            t = eng.path_ty(ptr[1], ptr[2])
            if isinstance(t, int):
                a = self.T[self.P.strip(t)].get('args')
                isbool = bool(a) and self.T[a[0]]['k'] == 'bool'

        def mk(s):
            nm = eng.fresh_name(s, eng.tag('atomic', role, s.stack[-1][2:4]))
            eng.symty[nm] = None
            if isbool:
                s.dom[nm] = frozenset((0, 1))
            return ('s', nm)
        return self.at_generic(st, op, ptr, role, vals, ords, rty, mk)

    def at_pos(self, st, op, ptr, role, vals, ords, rty):
        cl = POS[role]
        return self.at_generic(st, op, ptr, role, vals, ords, rty, lambda s: self.word(s, cl, role[1]))

    def h_fence(self, eng, st, fn, args, atys, rty):
        eng.emit(st, 'fence', ord=ORD_by(self.T[atys[0]], args[0]))
        return eng.deliver(st, UNIT)

    def h_event(self, kind):
        def h(eng, st, fn, args, atys, rty):
            if kind not in ('spin', 'yield_now'):
                eng.note(st, kind)
            eng.emit(st, kind, args=args)
            if st.dead:
                return []
            return eng.deliver(st, UNIT)
        return h

    def h_panicking(self, eng, st, fn, args, atys, rty):
        if 'panicking' in eng.opts:
            return eng.deliver(st, I(int(eng.opts['panicking'] or st.unw)))
        a, b = st.copy(), st
        out = eng.deliver(b, I(1)) if True else []
        if not st.unw:
            out = eng.deliver(a, I(0)) + out
        return out

    def h_me(self, eng, st, fn, args, atys, rty):
        nm = (eng.tag('me'), 0)
        eng.symty.setdefault(nm, rty)
        return eng.deliver(st, ('s', nm))

    def h_clone_waker(self, kind):
        def h(eng, st, fn, args, atys, rty):
            v = eng.read(st, args[0][1], args[0][2]) if args[0][0] == 'p' else TOP
            if kind == 'Waker':
                return eng.foreign(st, 'Waker::clone', fn, args, rty, result=v)
            return eng.deliver(st, v)
        return h

    def h_clone_from(self, eng, st, fn, args, atys, rty):
        v = eng.read(st, args[1][1], args[1][2])
        eng.store_to(st, args[0][1], args[0][2], v)
        return eng.foreign(st, 'Waker::clone', fn, args, rty, result=UNIT)

    def h_wake(self, eng, st, fn, args, atys, rty):
        v = args[0]
        if v[0] == 'p':
            v = eng.read(st, v[1], v[2])
        eng.note(st, 'wake')
        eng.emit(st, 'wake', val=v)
        if st.dead:
            return []
        user = 'Thread' not in (fn.get('rpath') or fn['path'])
        return eng.foreign(st, 'wake', fn, args, rty, result=UNIT, may_unwind=user, waker=v)

    def h_sameval(self, eng, st, fn, args, atys, rty):
        a, b = (eng.read(st, x[1], x[2]) if x[0] == 'p' else x for x in args)
        ne = (fn.get('rpath') or fn['path']).endswith('::ne')
        if a == b and a != TOP:
            return eng.deliver(st, I(int(not ne)))
        out = []
        mine = lambda x: x[0] == 's' and eng._tagname[x[1][0]][0] == 'mywaker'
        for r in (0, 1):
            if mine(a) and mine(b) and bool(r) != ne:
                continue        # wakers of two different tasks
            s = st.copy()
            eng.emit(s, 'same_waker', a=a, b=b, res=bool(r) != ne)
            out += eng.deliver(s, I(r))
        return out

    def h_ctx_waker(self, eng, st, fn, args, atys, rty):
        # one task per call context: the waker object hangs off the context object
        b = args[0]
        o = ('x', (eng.tag('waker', b[1]), 0))
        eng.objty[o] = self.P.pointee(rty)
        nm = (eng.tag('mywaker'), st.mon.get('~wv', 0))
        eng.symty.setdefault(nm, self.P.pointee(rty))
        st.store[o] = ('s', nm)
        return eng.deliver(st, ('p', o, (), None))

    # ---- locks
    def h_lock(self, eng, st, fn, args, atys, rty):
        p = args[0]
        eng.note(st, 'lock')
        return self.do_lock(st, ('p', p[1], p[2] + ('data',), None), rty)

    def do_lock(self, st, datap, rty, wrap=None):
        eng = self.eng
        eng.emit(st, 'lock', ptr=datap)
        if st.dead:
            return []
        out = []
        for s in self.on_lock(st, datap):
            g = ('g', datap[1], datap[2])
            out += eng.deliver(s, g)
        return out

    def on_lock(self, st, datap):
        return [st]

    def h_needs_drop(self, eng, st, fn, args, atys, rty):
        """Generic types may or may not need dropping: both are followed. Where they do not, there is nothing to drop ('nodrop')."""
        ty = (fn.get('rtargs') or fn['targs'])[0]
        t = eng.T[ty]
        if not t.get('nd'):
            return eng.deliver(st, FALSE)
        if t['k'] != 'param' or st.mon.get('nodrop') == 'no':
            return eng.deliver(st, TRUE)
        if st.mon.get('nodrop') == 'yes':
            return eng.deliver(st, FALSE)
        s2 = st.copy()
        s2.mon['nodrop'] = 'yes'
        st.mon['nodrop'] = 'no'
        eng.note(s2, 'the element type needs no drop')
        return eng.deliver(st, TRUE) + eng.deliver(s2, FALSE)

    def h_size_of(self, eng, st, fn, args, atys, rty):
        ty = (fn.get('rtargs') or fn['targs'])[0]
        return eng.deliver(st, eng.mk_sym((eng.tag('sizeof', fn['path'], ty),), rty))

    def h_try_lock(self, eng, st, fn, args, atys, rty):
        p = args[0]
        dp = ('p', p[1], p[2] + ('data',), None)
        out = eng.deliver(st.copy(), ('a', 0, ()))
        eng.emit(st, 'lock', ptr=dp)
        for s in self.on_lock(st, dp):
            out += eng.deliver(s, ('a', 1, (('g', dp[1], dp[2]),)))
        return out

    def h_guard_deref(self, eng, st, fn, args, atys, rty):
        g = eng.read(st, args[0][1], args[0][2])
        if g[0] == 'g':
            return eng.deliver(st, ('p', g[1], g[2], None))
        return eng.deliver(st, eng.fresh(st, rty))

    def unlock(self, st, g):
        eng = self.eng
        eng.note(st, 'unlock')
        self.on_unlock(st, g)
        if not st.dead:
            eng.emit(st, 'unlock', guard=g)

    def on_unlock(self, st, g):
        pass

    # ---- memory
    def tmp(self, st, ty, v, kind='tmp'):
        top = st.stack[-1] if st.stack else ('?', 0, 0, 0)
        o = ('h', (kind, top[2] if top[0] == 'fn' else len(st.stack), top[3] if top[0] == 'fn' else 0))
        self.eng.objty[o] = ty
        st.store[o] = v
        return o

    def h_drop(self, eng, st, fn, args, atys, rty):
        ty = atys[0] if atys and atys[0] is not None else (fn.get('rtargs') or fn['targs'])[0]
        o = self.tmp(st, ty, args[0])
        return eng.drop_tasks(st, [('val', o, (), ty), ('dead', o)], 'mem::drop')

    def h_replace(self, eng, st, fn, args, atys, rty):
        p = args[0]
        old = eng.load(st, p[1], p[2], None, 'move')
        eng.write(st, p[1], p[2], MOVED)
        eng.store_to(st, p[1], p[2], args[1])
        return eng.deliver(st, old)

    def h_swap(self, eng, st, fn, args, atys, rty):
        p, q = args[0], args[1]
        a = eng.load(st, p[1], p[2], None, 'move')
        b = eng.load(st, q[1], q[2], None, 'move')
        eng.write(st, p[1], p[2], MOVED)
        eng.write(st, q[1], q[2], MOVED)
        eng.store_to(st, p[1], p[2], b)
        eng.store_to(st, q[1], q[2], a)
        return eng.deliver(st, UNIT)

    def h_take(self, eng, st, fn, args, atys, rty):
        p = args[0]
        t = self.T[self.P.strip(rty)]
        old = eng.load(st, p[1], p[2], None, 'move')
        eng.write(st, p[1], p[2], MOVED)
        if t.get('np') == 'S::option::Option':
            new = ('a', 0, ())
        elif t['k'] in ('uint', 'int', 'bool'):
            new = I(0)
        else:
            new = eng.fresh(st, rty, 'default')
        eng.store_to(st, p[1], p[2], new)
        return eng.deliver(st, old)

    def h_drop_in_place(self, eng, st, fn, args, atys, rty):
        p = args[0]
        ty = (fn.get('rtargs') or fn['targs'])[0]
        eng.emit(st, 'raw_drop', ptr=p, ty=ty)
        if st.dead:
            return []
        return eng.drop_tasks(st, [('val', p[1], p[2], ty)], 'drop_in_place')

    def h_ptr_read(self, eng, st, fn, args, atys, rty):
        p = args[0]
        v = eng.load(st, p[1], p[2], None, 'move')
        if self.T[rty]['nd']:
            eng.write(st, p[1], p[2], MOVED)
        return eng.deliver(st, v)

    def h_ptr_write(self, eng, st, fn, args, atys, rty):
        p = args[0]
        eng.store_to(st, p[1], p[2], args[1])
        return eng.deliver(st, UNIT)

    def h_ptr_pe(self, eng, st, fn, args, atys, rty):
        a, b = (eng.read(st, x[1], x[2]) for x in args)
        return eng.deliver(st, eng.eq(st, a, b, (fn.get('rpath') or fn['path']).endswith('::ne')))

    def h_heap_new(self, eng, st, fn, args, atys, rty):
        ty = (fn.get('rtargs') or fn['targs'])[0]
        o = self.tmp(st, ty, args[0], 'heap')
        eng.emit(st, 'heap_new', obj=o, val=args[0], ty=ty)
        return eng.deliver(st, ('p', o, (), None))

    def h_arc_clone(self, eng, st, fn, args, atys, rty):
        v = eng.read(st, args[0][1], args[0][2])
        eng.emit(st, 'arc_clone', val=v)
        return eng.deliver(st, v)

    def drop_handler(self, t):
        p = t['np']
        if p.endswith('lock_api::MutexGuard') or (p.endswith('::MutexGuard') and t.get('local') and self.own_mutex is False):
            return self.drop_guard
        return None

    def drop_guard(self, eng, st, o, path, ty, v):
        eng.write(st, o, path, MOVED)
        if v[0] == 'g':
            self.unlock(st, v)
            if st.dead:
                return []
        return None

    def drop_arc(self, eng, st, o, path, ty, v):
        eng.write(st, o, path, MOVED)
        eng.emit(st, 'arc_drop', val=v, ty=ty)
        pt = self.T[ty]['args'][0]
        p = eng.as_ptr(st, v, pt, None)
        if eng.opts.get('arc_last') == 'never':
            return None
        s = st.copy()
        eng.note(s, 'last Arc dropped')
        eng.emit(s, 'arc_last', val=v, ty=ty)
        eng.more_tasks(s, [('val', p[1], p[2], pt), ('free', p[1])])
        return eng._glue_next(st) + eng._glue_next(s)

    def drop_is_user_code(self, ty):
        t = self.T[ty]
        if t['k'] in ('param', 'alias', 'dyn', 'other'):
            return True
        p = t.get('np', '')
        return p in ('S::task::Waker',) or p.startswith('S::boxed::Box') or t['k'] in ('slice', 'array')

    # ---- slices and iterators
    def elem_ptr(self, p, ix):
        return ('p', ('e', p[1], p[2], ix), (), None)

    def h_index(self, checked):
        def h(eng, st, fn, args, atys, rty):
            p, ix = args[0], args[1]
            if p[0] != 'p':
                return eng.deliver(st, eng.fresh(st, rty))
            if ix[0] == 'a':        # ranges
                t = self.T[atys[1]]['np'] if atys[1] is not None else ''
                lo, hi = I(0), p[3]
                if t.endswith('RangeTo'):
                    hi = ix[2][0]
                elif t.endswith('ops::Range'):
                    lo, hi = ix[2]
                elif t.endswith('RangeFrom'):
                    lo = ix[2][0]
                elif not t.endswith('RangeFull'):
                    hi = eng.fresh(st, None)
                if p[3] is None and self.T[self.P.strip(self.P.pointee(atys[0]) or rty)]['k'] == 'array':
                    full = self.array_len(p, self.P.pointee(atys[0]), self.T[self.P.strip(self.P.pointee(atys[0]))]['n'])
                else:
                    full = p[3]
                if hi is None:
                    hi = full
                eng.emit(st, 'slice_range', ptr=p, lo=lo, hi=hi, full=full, checked=checked)
                if lo == I(0):
                    return eng.deliver(st, ('p', p[1], p[2], hi))
                v = eng.fresh(st, rty)
                return eng.deliver(st, ('p', v[1], v[2], sub(hi, lo)) if v[0] == 'p' else v)
            eng.emit(st, 'index', ptr=p, ix=ix, checked=checked)
            if st.dead:
                return []
            return eng.deliver(st, self.elem_ptr(p, ix))
        return h

    def h_get(self, eng, st, fn, args, atys, rty):
        p, ix = args[0], args[1]
        if p[0] != 'p' or ix[0] == 'a' or p[3] is None:
            return eng.deliver(st, eng.fresh(st, rty))
        c = mk_cmp('lt', sub(ix, p[3]))
        if not eng.decide(st, c):
            return eng.deliver(st, ('a', 0, ()))
        eng.emit(st, 'index', ptr=p, ix=ix, checked=True)
        return eng.deliver(st, ('a', 1, (self.elem_ptr(p, ix),)))

    # iterator values: ('a', 7, ('a', 0, (ptr, len)))  7 = enumerate
    def h_iter(self, eng, st, fn, args, atys, rty):
        p = args[0]
        ln = p[3] if p[0] == 'p' and p[3] is not None else TOP
        return eng.deliver(st, ('a', 0, (p, ln, I(0))))

    def h_iter_take(self, eng, st, fn, args, atys, rty):
        v = args[0]
        # only the length changes
        if v[0] == 'a' and v[1] == 0 and len(v[2]) == 3:
            return eng.deliver(st, ('a', 0, (v[2][0], args[1], v[2][2])))
        return eng.deliver(st, v)

    def h_into_iter(self, eng, st, fn, args, atys, rty):
        v = args[0]
        if v[0] == 'p' and v[3] is not None:
            return eng.deliver(st, ('a', 0, (v, v[3], I(0))))
        return eng.deliver(st, v)

    def iter_core(self, v):
        """(enumerated?, slice iterator) or None."""
        en = False
        while v[0] == 'a' and v[1] == 7:
            en = True
            v = v[2][0]
        if v[0] == 'a' and len(v[2]) == 3 and v[2][0][0] == 'p':
            return en, v
        return None

    def h_iter_next(self, eng, st, fn, args, atys, rty):
        it = eng.read(st, args[0][1], args[0][2])
        c = self.iter_core(it)
        if c is None:
            return eng.deliver(st, eng.fresh(st, rty))
        en, v = c
        p, ln, _ = v[2]
        out = []
        s = st.copy()
        eng.emit(s, 'iter_end', ptr=p, len=ln)
        out += eng.deliver(s, ('a', 0, ()))
        nm = eng.fresh_name(st, eng.tag('iter', st.stack[-1][2:4]))
        ix = ('s', nm + ('@idx',))
        if eng.assume(st, mk_cmp('lt', sub(ix, ln)), True) or True:
            eng.emit(st, 'iter_next', ptr=p, ix=ix, len=ln)
            eng.emit(st, 'index', ptr=p, ix=ix, checked=True)
            e = self.elem_ptr(p, ix)
            out += eng.deliver(st, ('a', 1, ((('a', 0, (ix, e)) if en else e),)))
        return out

    def h_range_next(self, eng, st, fn, args, atys, rty):
        p = args[0]
        v = eng.read(st, p[1], p[2])
        out = []
        if v[0] != 'a':
            return eng.deliver(st, eng.fresh(st, rty))
        start, end = v[2]
        c = mk_cmp('lt', sub(start, end))
        first = start[0] == 'i'
        s = st.copy()
        if first:
            tv = eng.truth(st, c)
        else:
            tv = None
        if tv is not True or not first or True:
            eng.emit(s, 'range_end', start=start, end=end)
            out += eng.deliver(s, ('a', 0, ()))
        if tv is False:
            return out
        nm = eng.fresh_name(st, eng.tag('range', st.stack[-1][2:4]))
        ix = ('s', nm)
        eng.symty[nm] = None
        c = mk_cmp('lt', sub(ix, end))
        st.rel = st.rel | {(c[1], c[2])} if c[0] == 'b' else st.rel
        eng.write(st, p[1], p[2], ('a', 0, (add(ix, I(1)), end)))
        eng.emit(st, 'range_next', ix=ix, end=end)
        out += eng.deliver(st, ('a', 1, (ix,)))
        return out

    def h_collect(self, eng, st, fn, args, atys, rty):
        v = args[0]
        t = self.T[atys[0]]
        if not (t['np'] == 'S::iter::Map' and v[0] == 'a' and len(v[2]) == 2 and v[2][0][0] == 'a'):
            eng.unmodelled['collect'] = 1
            return eng.deliver(st, eng.fresh(st, rty))
        start, end = v[2][0][2][:2]
        nm = eng.fresh_name(st, eng.tag('collect', st.stack[-1][2:4]))
        ix = ('s', nm + ('@idx',))
        eng.symty[ix[1]] = None
        st.stack = st.stack + (('py', 'collect', (ix, start, end, rty)),)
        return self.call_value(st, t['args'][1], v[2][1], [ix], None)

    def _py_collect(self, eng, st, data, val, unw):
        if unw:
            return eng.cont_unwind(st)
        ix, start, end, rty = data
        pt = self.P.pointee(rty)
        o = self.tmp(st, pt, ('arr', val, ()), 'slots')
        eng.emit(st, 'collect', ix=ix, start=start, end=end, elem=val, obj=o)
        return eng.deliver(st, ('p', o, (), sub(end, start)))

    def call_value(self, st, fty, fv, args, rty):
        """Call a closure / fn item value with plain arguments."""
        eng = self.eng
        t = self.T[fty]
        if t['k'] == 'closure' and t.get('inst') is not None:
            fn = {'inst': t['inst'], 'closure': True, 'path': t['path']}
            return eng.call_closure(st, fn, [fv, ('a', 0, tuple(args))], ('cv', fty))
        if t['k'] == 'fndef':
            return eng.call_fn(st, t['callee'], list(args), [None] * len(args), rty, ('cv', fty))
        if t['k'] == 'ref':
            v = eng.read(st, fv[1], fv[2])
            return self.call_value(st, t['to'], v if self.T[t['to']]['k'] != 'closure' else fv, args, rty)
        return eng.foreign(st, 'closure', {'path': 'closure', 'targs': []}, [fv] + list(args), rty)

    # ---- integers / time / comparisons
    def h_sat_sub(self, eng, st, fn, args, atys, rty):
        if eng.decide_or(st, mk_cmp('lt', sub(args[0], args[1]))):
            return eng.deliver(st, I(0))
        return eng.deliver(st, sub(args[0], args[1]))

    def h_sat_add(self, eng, st, fn, args, atys, rty):
        r = eng.binop(st, 'Add', args[0], args[1], None)
        if r[0] == 'i' and atys[0] is not None:
            r = I(min(r[1], (1 << eng.bits(atys[0])) - 1))
        return eng.deliver(st, r)

    def h_checked_sub(self, eng, st, fn, args, atys, rty):
        if eng.decide_or(st, mk_cmp('lt', sub(args[0], args[1]))):
            return eng.deliver(st, ('a', 0, ()))
        return eng.deliver(st, ('a', 1, (sub(args[0], args[1]),)))

    def h_now(self, eng, st, fn, args, atys, rty):
        v = self.new_now(st)
        return eng.deliver(st, v)

    def new_now(self, st):
        eng = self.eng
        nm = eng.fresh_name(st, eng.tag('now', st.stack[-1][2:4]))
        eng.symty[nm] = None
        v = ('s', nm)
        eng.emit(st, 'now', val=v)
        return v

    def h_elapsed(self, eng, st, fn, args, atys, rty):
        a = eng.read(st, args[0][1], args[0][2]) if args[0][0] == 'p' else args[0]
        n = self.new_now(st)
        return eng.deliver(st, sub(n, a))

    def h_inst_checked_add(self, eng, st, fn, args, atys, rty):
        a = eng.read(st, args[0][1], args[0][2]) if args[0][0] == 'p' else args[0]
        out = eng.deliver(st.copy(), ('a', 1, (add(a, args[1]),)))
        return out + eng.deliver(st, ('a', 0, ()))

    def h_cmp(self, eng, st, fn, args, atys, rty):
        m = (fn.get('rpath') or fn['path']).split('::')[-1]
        vals = []
        ty = None
        for a, t in zip(args, atys):
            if t is not None and self.T[t]['k'] == 'ref':
                ty = self.P.strip(self.T[t]['to'])
                vals.append(eng.read(st, a[1], a[2]) if a[0] == 'p' else a)
            else:
                ty = self.P.strip(t) if t is not None else None
                vals.append(a)
        tt = self.T[ty] if ty is not None else {'k': '?'}
        if tt['k'] in ('uint', 'int', 'bool', 'char') or tt.get('np') in OPAQUE_SCALAR:
            a, b = vals
            if m in ('eq', 'ne'):
                return eng.deliver(st, eng.eq(st, a, b, m == 'ne'))
            if m in ('lt', 'le', 'gt', 'ge'):
                return eng.deliver(st, eng.binop(st, m.capitalize(), a, b, None))
            if m in ('cmp', 'partial_cmp'):
                r = eng.binop(st, 'Cmp', a, b, None)
                return eng.deliver(st, r if m == 'cmp' else ('a', 1, (r,)))
            lt = eng.decide_or(st, mk_cmp('lt', sub(a, b)))
            return eng.deliver(st, (a if lt else b) if m == 'min' else (b if lt else a))
        if fn.get('inst') is not None and self.P.I[fn['inst']].get('blocks'):
            return [eng.push_call(st, fn['inst'], args, st.stack[-1][3] if st.stack[-1][0] == 'fn' else 'cmp')]
        if tt['k'] in ('param', 'alias'):
            return self.trait_call(eng, st, fn, '', args, atys, rty)
        if tt['k'] in ('ref', 'ptr') or tt.get('np') == 'S::ptr::NonNull':
            return eng.deliver(st, eng.eq(st, vals[0], vals[1], m == 'ne'))
        return eng.deliver(st, eng.fresh(st, rty))

    # ---- panics
    def h_panic(self, eng, st, fn, args, atys, rty):
        eng.note(st, 'panic')
        eng.emit(st, 'panic', what=fn.get('rpath') or fn['path'])
        if st.dead or not eng.unwind:
            return []
        return eng.cont_unwind(st)

    def h_resume(self, eng, st, fn, args, atys, rty):
        eng.emit(st, 'resume_unwind')
        if st.dead or not eng.unwind:
            return []
        return eng.cont_unwind(st)

    def h_abort(self, eng, st, fn, args, atys, rty):
        eng.emit(st, 'abort')
        return []

    def h_catch(self, eng, st, fn, args, atys, rty):
        fty = (fn.get('rtargs') or fn['targs'])[0]
        fv = args[0]
        eng.catch(st, rty)
        while self.T[fty]['k'] == 'adt':
            fv = eng.proj(fv, 0)
            fty = self.P.fields(fty)[0]
        return self.call_value(st, fty, fv, [], self.P.fields(self.P.strip(rty), 0)[0])

    def h_discr(self, eng, st, fn, args, atys, rty):
        p = args[0]
        v = eng.load(st, p[1], p[2])
        t = self.P.pointee(atys[0])
        return eng.deliver(st, eng.discr(st, v, t, (p[1], p[2])))

    # ---- coroutines.  A started coroutine is ('co', fid, resume block, drop block).
    def poll_coroutine(self, eng, st, fn, args, rty):
        p = args[0]
        while p[0] == 'a':
            p = p[2][0]
        v = eng.read(st, p[1], p[2])
        n = fn['inst']
        cx = ('a', 0, (args[1],))
        if v[0] == 'a':
            f = st.stack[-1]
            fid = eng.fid('co', (p[1], p[2]), n)
            st.store[('l', fid, 1)] = v
            st.store[('l', fid, 2)] = cx
            bb = 0
        elif v[0] == 'co' and isinstance(v[2], int):
            fid, bb = v[1], v[2]
            ra = self.P.I[n]['blocks'][v[4]]['t']['ra']
            st.store[('l', fid, ra['l'])] = cx
        else:
            eng.emit(st, 'panic', what='polled after completion')
            return []
        eng.functions.add(n)
        eng.write(st, p[1], p[2], ('co', fid, 'running', None, None))
        st.stack = st.stack + (('py', 'coro', (p[1], p[2])), ('fn', n, fid, bb, None))
        return [st]

    def do_yield(self, eng, st, fr, t):
        pr = self.P.prep(fr[1])
        live = set(pr.live[t['b']])
        if t.get('drop') is not None:
            live |= pr.live[t['drop']]
        for n in range(len(pr.locals)):
            if n not in live and n not in pr.addr:
                st.store.pop(('l', fr[2], n), None)
        st.stack = st.stack[:-1]
        f = st.stack[-1]
        o, path = f[2]
        st.stack = st.stack[:-1]
        eng.write(st, o, path, ('co', fr[2], t['b'], t.get('drop'), fr[3]))
        return eng.deliver(st, ('a', 1, ()))

    def _py_coro(self, eng, st, data, val, unw):
        o, path = data
        eng.write(st, o, path, ('co', 0, 'poisoned' if unw else 'done', None, None))
        if unw:
            return eng.cont_unwind(st)
        return eng.deliver(st, ('a', 0, (val,)))

    def drop_coroutine(self, eng, st, o, path, ty, v):
        if v[0] == 'co':
            eng.write(st, o, path, MOVED)
            if isinstance(v[2], int) and v[3] is not None:
                n = self.T[ty]['inst']
                st.stack = st.stack + (('py', 'codrop', ()), ('fn', n, v[1], v[3], None))
                return [st]
            return None
        fs = self.T[ty]['fields']
        eng.more_tasks(st, [('val', o, path + (i,), f) for i, f in enumerate(fs) if self.T[f]['nd']])
        return None

    def _py_codrop(self, eng, st, data, val, unw):
        if unw:
            return eng.cont_unwind(st)
        return eng.deliver(st, UNIT)

    def _py_val(self, eng, st, data, val, unw):
        if unw:
            return eng.cont_unwind(st)
        return eng.deliver(st, data[0])


def ORD_by(t, a):
    if a[0] == 'a' and 'variants' in t:
        return t['variants'][a[1]]['n']
    return '?'


def rn(role):
    return '%s.%s' % role if role else '(unknown)'
