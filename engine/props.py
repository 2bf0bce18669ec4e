"""Which analyses and rules decide which property.

PROPS[id] = (rules, [(analysis class name, configs in the quick tier, configs in the thorough tier)], what is decided)
"""
from mon_core import RULES as CORE_RULES
from mon_chan import RULES as CHAN_RULES
from mon_sync import RULES as SYNC_RULES
from misc import RULES as MISC_RULES

RULES = dict(CORE_RULES)
RULES.update(CHAN_RULES)
RULES.update(MISC_RULES)
RULES.update(SYNC_RULES)
RULES.update({
    'acquire': 'the load that finds a slot ready to be claimed is at least Acquire',
    'publish': 'the store that releases a slot is at least Release',
    'leak-claim-unwind': 'a panic in user code after a claim leaves the slot released or never claimable again, not half-initialized',
    'leak': 'dropping the owner of the slots drops their elements',
    'empty-closed': 'a drained and closed queue is reported as closed, not as empty',
    'nb-park': 'no path of a non-blocking operation reaches a thread park',
    'nb-spin': 'with the rest of the world standing still, no loop of a non-blocking operation can repeat without end',
    'closed-spin': 'with the queue closed and nothing else changing, a push or pop ends (and so reports that it is closed)',
    'close-wake': 'once the receiver is gone, no sender keeps waiting',
    'close-wake-rx': 'once the last sender is gone, the receiver does not keep waiting',
    'false-closed': 'nothing is reported closed, and the queue is not closed, while the receiver and a sender are alive',
    'early-closed': 'the receiver is told that the channel is closed only when no message is left',
    'rx-wake': 'when nothing is bound to happen any more, no receiver is waiting although a message is ready',
    'tx-wake': 'when nothing is bound to happen any more, no sender is waiting although there is room',
    'rx-spin': 'a waiting receiver does not go round in circles while nothing changes',
    'tx-spin': 'a waiting sender does not go round in circles while nothing changes',
    'cell-two': "two threads never use the contents of the receiver's wait cell at the same time",
    'entry-linked': 'no operation ends while its entry is linked; no entry stays linked after its owner was told it was removed',
    'entry-freed': 'no entry is used by another thread once its owner may have ended',
    'entry-lost': 'entries leave the wait queue only by being woken or removed by their owner',
    'wake-order': 'a sender is never woken before one that has been waiting longer',
    'deadlock': "the wait queue's lock is always released again",
})

Q = ('std', 'nostd')
T = ('std', 'nostd', 'debug')

S = ('std',)
N = ('nostd',)
PR = ('ProtoAnalysis', Q, Q)
SY = ('ChanSync', Q, T)
# without std the crate assumes that nothing unwinds (util::panic): the wait cell's own unwinding is only judged with std
SU = ('ChanSyncUnwind', S, ('std', 'debug'))
CL, CU = ('ChanLocal', Q, T), ('ChanUnwind', Q, T)

PROPS = {
    'C01': ({'claim', 'acquire', 'publish', 'own', 'release', 'pos', 'outlive'}, [('CoreAnalysis', Q, T), ('WitnessAnalysis', S, Q)]),
    'C02': ({'claim', 'release', 'pos', 'leak-claim', 'ctor', 'refs'}, [('CoreAnalysis', Q, T), ('CtorAnalysis', Q, T), CL]),
    'C03': ({'index', 'ctor', 'pos'}, [('CoreAnalysis', Q, T), ('CtorAnalysis', Q, T), ('DropAnalysis', Q, T)]),
    'C04': ({'init', 'own', 'leak', 'dropslots'}, [('CoreAnalysis', Q, T), ('DropAnalysis', Q, T)]),
    'C05': ({'full', 'empty', 'closed', 'empty-closed', 'leak-claim', 'closed-spin'}, [('CoreAnalysis', Q, T), ('FrozenAnalysis', Q, Q)]),
    'C06': ({'close-tx', 'close-rx', 'close-wake', 'close-wake-rx', 'false-closed', 'early-closed', 'closed', 'empty-closed', 'closed-spin'}, [CL, CU, PR, ('CoreAnalysis', Q, T), ('FrozenAnalysis', Q, Q)]),
    'C07': ({'rx-wake', 'close-wake-rx', 'rx-spin', 'cell-two', 'cell-sync', 'cell-stuck'}, [PR, SY]),
    'C08': ({'tx-wake', 'tx-spin', 'deadlock', 'queue-sync'}, [PR, SY]),
    'C09': ({'entry-linked', 'entry-freed', 'entry-end', 'entry-lock', 'entry-sync'}, [CL, CU, SY, PR]),
    'C10': ({'wake-order', 'entry-lost', 'list-shape', 'close-wake', 'tx-wake'}, [CL, PR]),
    'C11': ({'value-in', 'value-out'}, [('CoreAnalysis', Q, T), CL]),
    'C12': ({'outcome', 'accessor', 'rx-closed'}, [CL]),
    'C13': ({'txcount', 'one-rx', 'no-dup'}, [CL, ('WitnessAnalysis', Q, Q)]),
    'C14': ({'send-sync'}, [('WitnessAnalysis', Q, Q)]),
    'C15': ({'recycle', 'policy-default', 'policy-capacity', 'policy-config', 'policy-forward'}, [('CoreAnalysis', Q, T), ('PolicyAnalysis', Q, T)]),
    'C16': ({'alloc'}, [('AllocAnalysis', Q, T)]),
    'C17': ({'lock-user', 'lock-block', 'lock-twice', 'lock-leak'}, [CL, CU]),
    'C18': ({'nb-park', 'nb-spin'}, [('FrozenAnalysis', Q, T)]),
    'C19': ({'deadline-park', 'deadline-early', 'deadline-try', 'deadline-check'}, [('ChanTimed', S, ('std', 'debug'))]),
    'C20': ({'init', 'leak-claim-unwind', 'dropslots', 'leak', 'refs-unwind', 'lock-leak', 'entry-end', 'cell-stuck'}, [('CoreUnwind', Q, T), ('DropUnwind', Q, T), CU, SU]),
    'C21': ({'mx-claim', 'mx-acquire', 'mx-release', 'mx-other'}, [('MutexAnalysis', N, N)]),
    'C22': ({'len'}, [('FrozenLen', Q, T), ('LenBoundAnalysis', Q, T)]),
    'C25': ({'len-snap'}, [('LenSnapAnalysis', Q, T)]),
}

# the smallest number of entry points each analysis is known to cover, per configuration: below, it decides nothing
FLOORS = {}

ASSUMPTIONS = {'': ['rustc (nightly) translates the source to MIR faithfully', 'the models of std, parking_lot and the atomics in engine/models.py',
                    'callers use the API safely (they are ordinary safe Rust)']}

AI = 'path-sensitive abstract interpretation of the MIR with typestate monitors'
NOTE = ('Static: every path of every analysed entry point is explored over abstract values (loops to a fixpoint), shared memory read as '
        'arbitrary values. Decides the necessary conditions listed in the evidence, not the whole behaviour; trusts rustc\'s MIR and the '
        'models of std in engine/models.py.')
PT = ('protocol automata extracted from the MIR by abstract interpretation (one per operation), composed over an abstraction of the shared '
      'state to a fixpoint')
PNOTE = ('Static: nothing is executed; the automaton of each operation is computed from its MIR with shared memory read as arbitrary values, and all '
         'interleavings of the composed automata are visited. Bounded by the number of threads and operations composed (one receiver, up to '
         'three senders, capacity 1 or 2) and by sequential consistency for the waiting protocol; the ring buffer is an abstract bounded queue '
         '(justified by C01-C05).')
TECH = {
    'C01': (AI + ' (slot claim/release typestate, memory orderings); compile-fail witnesses for lifetimes and aliasing', NOTE),
    'C02': (AI + ' (position arithmetic of head, tail and slot states on symbolic capacity; slot reference accounting)', NOTE),
    'C03': (AI + ' (index bounds on symbolic capacity; constructor evaluation)', NOTE),
    'C04': (AI + ' (initialization typestate of slot elements)', NOTE),
    'C05': (AI + ' (conditions implied at each Full/Empty/Closed return); detection of cycles that change nothing when nobody else runs', NOTE),
    'C06': (PT + '; ' + AI + ' for the destructors of the handles', PNOTE),
    'C07': (PT + '; ' + AI + ' (memory orderings of the hand-over)', PNOTE),
    'C08': (PT + '; ' + AI + ' (memory orderings of the hand-over)', PNOTE),
    'C09': (PT + '; ' + AI + ' (entry typestate, accesses under the lock)', PNOTE),
    'C10': (PT + '; ' + AI + ' (shape of the list at the end of every critical section)', PNOTE),
    'C11': (AI + ' (value flow from argument to slot to result)', NOTE),
    'C12': (AI + ' (evidence required for each reported outcome)', NOTE),
    'C13': (AI + ' (handle accounting); compile-time assertions that receivers cannot be duplicated', NOTE),
    'C14': ('compile-time assertions over a matrix of element and policy types; compile-fail witnesses', 'Static: rustc decides Send/Sync for every '
            'exported type over element types that are Send and/or Sync or neither, and rejects programs that would move futures of unsendable elements.'),
    'C15': (AI + ' (call protocol of the recycling policy; effects of the policies themselves)', NOTE),
    'C16': ('call-graph reachability over the resolved MIR', 'Static: every function reachable from each operation, including destructors, closures and '
            'coroutine bodies, is enumerated; functions of std that may allocate must not be among them. Trusts the list of allocating std functions.'),
    'C17': (AI + ' (lock typestate)', NOTE),
    'C18': ('abstract interpretation with frozen shared memory: cycle detection in the abstract state graph', NOTE),
    'C19': (AI + ' (linear arithmetic over clock readings and the timeout)', NOTE),
    'C20': (AI + ', unwind edges of every user-code call included', NOTE),
    'C21': (AI + ' (lock flag typestate and memory orderings)', NOTE),
    'C22': ('abstract interpretation of the status queries to symbolic terms, compared with their specification', NOTE),
    'C25': ('abstract interpretation of the status queries to symbolic terms over their reads, compared with every consistent history of the queue', NOTE),
}
