#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand when a property changes)."""
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],
        observe_at=list(observe),hook_needed=None)))
LIB='src/lib.rs'; MP='src/mpsc.rs'; AS='src/mpsc/async_impl.rs'; BL='src/mpsc/blocking.rs'; Q='src/wait/queue.rs'; CE='src/wait/cell.rs'; ER='src/mpsc/errors.rs'; RE='src/recycling.rs'; TB='src/thingbuf.rs'; ST='src/static_thingbuf.rs'; MU='src/util/mutex/spin_impl.rs'

prop('C01','A live element reference is exclusive, and what it wrote is published',
 'While a reference returned by a push, pop, send or receive operation is live, no other thread can obtain a reference to the same slot or access its element. When the reference is dropped, everything written through it (and everything that happened before) is visible to whoever next obtains that slot.',
 ['schedules','programs'],'every interleaving of any number of producers and consumers, on every memory model Rust supports, for every element type and capacity',
 'The loom models that exercise interleavings are not built here, and the remaining tests run on x86, which hides missing acquire/release edges.',
 [LIB,TB,ST,MP],
 [('claim: compare-exchange of the position after an Acquire load of the slot state that equals it','src/lib.rs Core::push_ref, Core::pop_ref'),('release: Release store of the slot state when the Ref is dropped','src/lib.rs Drop for Ref')],
 [('Slot.state','position at which the slot may be claimed next','src/lib.rs Slot'),('Core.head/tail','next pop / push position','src/lib.rs Core')],
 ['ThingBuf::push_ref','ThingBuf::pop_ref','mpsc::*::Sender','mpsc::*::Receiver'])
prop('C02','Elements come out in FIFO order, each exactly once',
 'Elements are popped (received) in the order in which their push (send) claimed its place in the queue; no element is skipped, lost, duplicated or delivered in another lap of the ring. This holds across any number of wrap-arounds, for every capacity.',
 ['schedules','histories','inputs'],'every history of pushes and pops, every capacity >= 1, every number of wrap-arounds, every interleaving',
 'Tests sample a few capacities and short histories and never run past a handful of laps under contention.',
 [LIB],
 [('successor of a position: index + 1, or index 0 of the next generation at the end of the lap','src/lib.rs Core::next'),('slot states written by a push (position + 1) and by a pop (position + one generation)','src/lib.rs Core::push_ref, Core::pop_ref'),('initial slot states 0..capacity','src/lib.rs Slot::make_boxed_array, Slot::make_static_array')],
 [('Core.gen/closed/idx_mask','bit layout of a position','src/lib.rs Core::new')],
 ['ThingBuf::push','ThingBuf::pop','Receiver::recv'])
prop('C03','Every slot access is in bounds, for every capacity that can be built',
 'No operation accesses memory outside the buffer\'s slots: a queue or channel can only be built with capacity of at least one and with exactly that many slots, and every slot index used is below that number.',
 ['inputs','histories','configurations'],'every capacity accepted by any constructor (dynamic or static), every position reached in any history',
 'An out-of-bounds access is unchecked in release builds; tests run with debug assertions and a few small capacities.',
 [LIB,TB,ST,AS,BL],
 [('index = position & idx_mask, positions advanced only by Core::next','src/lib.rs'),('capacity > 0 assertion and same capacity for core and slots','constructors of ThingBuf, StaticThingBuf, channels')],(),
 ['all constructors','push_ref','pop_ref'])
prop('C04','Elements are initialized before they are seen and dropped exactly once',
 'User code and destructors only ever see initialized elements: an element is constructed the first time its slot is used, reused (never overwritten or leaked) in later laps, and every constructed element is dropped exactly once when the queue or channel is dropped. Memory that was never initialized is never read, recycled or dropped.',
 ['histories','inputs','programs'],'every history (including queues dropped empty, partly filled, or after many laps), every capacity, every element type',
 'Reading or dropping uninitialized memory often goes unnoticed at run time; tests drop queues in few states and use element types without drop glue.',
 [LIB,TB,ST,AS,BL],
 [('generation 0 writes a new element, later generations recycle in place','src/lib.rs Core::push_ref'),('drop_slots drops the slots that were initialized, once','src/lib.rs Core::drop_slots and its callers in Drop impls')],
 [('Core.has_dropped_slots','slots already dropped','src/lib.rs')],['Drop of every queue/channel','Ref deref'])
prop('C05','Full, Empty and Closed are reported only when true',
 'A push or send fails as full only if the slot it would need is still in use; a pop or receive fails as empty only if no completed element is at the front; closed is reported only after the other side is gone, to receivers only once the queue has been drained, and is always reported to senders once the receiver is gone. A failing operation claims nothing.',
 ['schedules','histories','inputs'],'every history and interleaving of operations, including references held across operations',
 'Spurious errors need a particular interleaving or a full/empty/closed boundary at a lap end; tests sample a few.',
 [LIB,MP,TB,ST,AS,BL],
 [('full check: slot one lap behind and head one generation behind tail','src/lib.rs Core::push_ref'),('empty/closed check: tail (without closed bit) == head','src/lib.rs Core::pop_ref')],(),
 ['push_ref','pop_ref','try_send','try_recv','recv','send'])
prop('C06','Disconnection is always detected, also when a handle dies by panic',
 'When the last sender of a channel is dropped, the receiver gets every message already sent and then is told the channel is closed, and a waiting receiver is woken; when the receiver is dropped, every waiting sender is woken and every current and later send fails as closed. Dropping any other sender closes nothing; all this holds also for handles dropped while their thread unwinds from a panic.',
 ['schedules','histories','fault_sequences'],'every number of senders and clones, every order of drops, drops during unwinding, every interleaving with waiting peers; async, blocking, static and dynamic channels',
 'Tests drop handles in a few orders and never while panicking, and a missed wakeup shows only in specific interleavings.',
 [AS,BL,MP,LIB,CE,Q],
 [('sender count and close on last drop','Clone/Drop for Sender, StaticSender'),('close_rx: close the ring, then drain the wait queue','src/mpsc.rs ChannelCore::close_rx')],
 [('ChannelCore.tx_count','number of live senders','src/mpsc.rs')],['Drop for Sender/Receiver','recv','send'])
prop('C07','A waiting receiver never misses a message',
 'If a receiver is waiting (a pending future or a parked thread) and a message is sent completely, or the last sender goes away, the receiver is woken; this holds for any interleaving of sending, registering the wait and waking. A receiver only starts to wait after it has registered itself and then found the channel still empty.',
 ['schedules','histories'],'every interleaving of senders (any number) with the receiver\'s poll/park, repeated polls with changing wakers',
 'A lost wakeup needs a notification inside a window of a few instructions; the loom models are not built here.',
 [MP,CE,AS,BL],
 [('sent slot is released before the receiver is notified (field order)','src/mpsc.rs SendRefInner'),('register, then re-check, then wait','src/mpsc.rs ChannelCore::poll_recv_ref'),('WaitCell state machine','src/wait/cell.rs')],
 [('WaitCell.lock','PARKING / NOTIFYING / TX_CLOSED bits','src/wait/cell.rs')],['recv','recv_ref','poll_recv','Drop for SendRef'])
prop('C08','A waiting sender is never forgotten',
 'If senders are waiting for capacity and a received slot is released, one of them is woken; a wakeup is never lost because it arrives while a sender is about to wait, and a woken sender that is cancelled or times out without sending passes its wakeup on. A sender only waits after finding the channel full, and checks again after being woken.',
 ['schedules','histories','fault_sequences'],'every interleaving of receivers releasing slots with senders that start to wait, are cancelled, time out, or are woken spuriously',
 'A lost wakeup needs a notification, cancellation and registration to interleave in a specific way; tests never cancel a waiting send.',
 [Q,MP,AS,BL],
 [('received slot is released before a sender is notified (field order)','src/mpsc.rs RecvRefInner'),('WaitQueue state machine','src/wait/queue.rs'),('cancellation','src/mpsc/async_impl.rs PinnedDrop for SendRefFuture; src/mpsc/blocking.rs send_ref_timeout')],
 [('WaitQueue.state','EMPTY / WAITING / WAKING / CLOSED','src/wait/queue.rs'),('Waiter.state','whether the node is queued, woken or closed','src/wait/queue.rs')],['send','send_ref','send_timeout','Drop for RecvRef'])
prop('C09','A sender\'s queue entry never outlives it and is only touched under the lock',
 'No operation returns, unwinds or is cancelled while its wait-queue entry is still linked, and once an entry\'s owner can see that it was dequeued, nobody else touches the entry again. The queue\'s links and stored wakers are only accessed while the queue is locked.',
 ['schedules','histories','programs'],'every exit of every waiting operation (success, closed, timeout, cancellation at any await point, panic in user code), every interleaving with wakers',
 'A dangling link is a use-after-free that shows only when another thread walks the list later; tests never time out or cancel with other waiters around.',
 [Q,AS,BL],
 [('remove on drop / timeout','PinnedDrop for SendRefFuture, send_ref_timeout'),('state published last in dequeue','src/wait/queue.rs List::dequeue'),('Mutex<List>','src/wait/queue.rs')],(),['send','send_ref','send_timeout'])
prop('C10','The wait queue keeps every waiter, in arrival order',
 'Senders that wait for capacity are woken in the order in which they started waiting; cancelling one (at the front, in the middle or at the end) neither loses nor reorders the others, and closing wakes all of them.',
 ['histories','inputs'],'every sequence of enqueue, wake, cancel and close on a wait list of any length',
 'Unit tests cover one three-node removal; ends, single-node lists and re-queueing are not covered.',
 [Q],
 [('List::enqueue / dequeue / remove','src/wait/queue.rs')],[('List.head/tail, Node.next/prev','doubly linked list','src/wait/queue.rs')],['send','Drop of a pending send future','Drop for Receiver'])
prop('C11','A value passed by value is delivered or handed back, never lost or altered',
 'Every by-value send or push either stores exactly the caller\'s value in the claimed slot and succeeds, or returns exactly that value inside the error; every by-value receive or pop returns exactly the element that was in the claimed slot and leaves a fresh element behind. A message is delivered only if its send succeeded or its reference was handed out.',
 ['histories','inputs','programs'],'every by-value entry point (queue and channels; async, blocking, timed, static) on every outcome',
 'Tests check the happy path of a few entry points with Copy-like values; errors are seldom inspected.',
 [MP,AS,BL,TB,ST,ER,RE],
 [('with_value / Closed(val)','src/mpsc/errors.rs and send methods'),('recycling::take','src/recycling.rs')],(),['send','try_send','send_timeout','push','recv','try_recv','recv_timeout','poll_recv','pop'])
prop('C12','Outcomes and status queries name the true condition',
 'Each operation reports the condition that occurred under its own name: a closed channel is never reported as full, empty or timed out, nor the reverse, by any entry point; and the error and status accessors (is_full, is_closed, is_timeout, into_inner, and a receiver\'s is_closed, true exactly when no sender is left) agree with it.',
 ['inputs','programs','configurations'],'every error value and accessor, every entry point (dynamic/static, async/blocking), every number of live senders',
 'No test calls the accessors, and error kinds are checked only in a few cases.',
 [ER,AS,BL,MP,TB,ST],
 [('mapping of ring errors to public errors','send_ref, send_ref_timeout, recv_ref_timeout, poll_recv_ref, ThingBuf::push_ref'),('accessors','src/mpsc/errors.rs'),('Receiver::is_closed','src/mpsc/async_impl.rs, src/mpsc/blocking.rs')],(),['TrySendError','SendTimeoutError','Receiver::is_closed'])
prop('C13','A channel has one receiver and exact sender bookkeeping',
 'A channel never has two receivers: a static channel can be split at most once even by racing threads, and a receiver cannot be duplicated. Every way to obtain another sender is counted, and each sender is uncounted exactly once when dropped.',
 ['schedules','programs'],'every program using the public API; racing splits; every clone/drop order',
 'Racing splits are not tested, and absence of an API cannot be tested at run time.',
 [AS,BL,MP],
 [('is_split compare-exchange','StaticChannel::try_split'),('tx_count initial 1, +1 per clone, -1 per drop','src/mpsc.rs, Clone/Drop impls')],(),['split','try_split','Clone for Sender'])
prop('C14','Queues and handles cross threads only when the element type allows it',
 'Safe code can move or share queues, channels, handles, references and futures between threads only if the element type (and recycling policy) permit what that implies: sharing or sending a queue or handle requires sendable elements, sending an element reference requires sendable elements, sharing one requires shareable elements. For ordinary thread-safe elements all of them can be sent and shared.',
 ['programs'],'every safe program, every element type and recycling policy',
 'Tests only assert that some futures are Send/Sync for usize; nothing checks that the bounds are not too weak.',
 [LIB,CE,Q,AS,BL,TB,ST,MU],
 [('unsafe impl Send/Sync','src/lib.rs, src/wait/cell.rs, src/wait/queue.rs, src/util/mutex/spin_impl.rs')],(),['public types'])
prop('C15','Recycling policies are applied at the right moments and honour their contract',
 'A pushed slot holds a new element on its first use and a recycled one on every later use before the caller sees it, and popping by value replaces the element with a new one. The default policy resets the element to its default; capacity-based policies empty the collection, allocate at least the minimum and retain at most the maximum capacity, and wrappers forward to the policy they wrap.',
 ['histories','inputs','programs'],'every entry point, every lap, every provided policy and collection type',
 'Tests never look at recycled contents or capacities of most collection types.',
 [RE,LIB,MP,AS,BL,TB,ST],
 [('Recycle impls','src/recycling.rs'),('calls of new_element/recycle','src/lib.rs Core::push_ref, src/recycling.rs take')],(),['push_ref','send_ref','pop','recv'])
prop('C16','No allocation after construction',
 'After a queue or channel has been constructed, none of its operations allocates memory on its own: sending, receiving, waiting, waking, cloning and dropping handles work in place, so only user code (element policies, wakers) may allocate. The statically allocated variants never allocate.',
 ['programs','histories','configurations'],'every operation on every path, including slow paths; no_std and static configurations',
 'Tests do not count allocations, and slow paths are rarely taken.',
 [LIB,MP,AS,BL,Q,CE,TB,ST],
 [('intrusive wait queue, slots allocated by the constructor','src/wait/queue.rs, constructors')],(),['all operations'])
prop('C17','Internal locks are never held across user code, blocking or a second lock',
 'While an internal lock is held, the library never runs user code (wakers, policies, element code), never blocks or parks, never takes a lock again, and releases the lock on every exit. So no program can deadlock on the library\'s internal locks.',
 ['programs','schedules'],'every operation and path, every user-supplied waker, policy and element type',
 'Tests use well-behaved wakers; re-entrancy from a waker is never exercised.',
 [Q,MU,CE,AS,BL],
 [('guard scopes in WaitQueue and Waiter','src/wait/queue.rs')],(),['send','recv','drop of handles and futures'])
prop('C18','Non-blocking operations return without waiting for anyone',
 'The non-blocking operations (push, pop, try_send, try_recv, polling, dropping references) never park the thread and never spin until some other reference is dropped: whatever references are currently held, including by the calling thread, they return in a bounded number of steps once other threads stop interfering.',
 ['schedules','histories'],'every state of the ring, in particular with references held across wrap-around, by any thread',
 'Tests never hold a reference while wrapping around; a hang needs a specific ring state.',
 [LIB,MP,AS,BL,TB,ST],
 [('exits of the push_ref/pop_ref loops','src/lib.rs')],(),['push_ref','pop_ref','try_send','try_recv','poll_recv'])
prop('C19','Timed operations give up at the deadline and leave nothing behind',
 'A timed send or receive keeps checking its deadline on every turn of its wait, never sleeps past it, and reports a timeout only once the full timeout has elapsed. It tries to complete before it waits, and after a timeout the channel behaves as if the operation had not been attempted.',
 ['schedules','histories','inputs'],'every duration, any number of spurious wakeups and notifications, every interleaving',
 'Tests use one short timeout with no interference.',
 [BL],
 [('deadline checks','src/mpsc/blocking.rs send_ref_timeout, recv_ref_timeout')],(),['send_timeout','send_ref_timeout','recv_timeout','recv_ref_timeout'])
prop('C20','A panic in user code never corrupts memory or locks',
 'If a recycling policy, a waker, an element destructor or a user closure panics inside an operation, the library never exposes, reuses or drops uninitialized memory, never drops an element twice, never leaves an internal lock held or a wait-queue entry dangling, and releases any slot reference it had already obtained.',
 ['fault_sequences','programs'],'a panic at every call into user code, in every operation',
 'No test panics inside user code.',
 [LIB,MP,AS,BL,CE,Q,RE],
 [('catch_unwind around waiter registration','src/wait/cell.rs'),('skip of never-initialized slots','src/lib.rs drop_slots'),('guards released by drop','throughout')],(),['all operations that call user code'])
prop('C21','The built-in lock used without std provides mutual exclusion',
 'In builds without the standard library, at most one holder at a time is inside the library\'s own lock, the next holder sees everything the previous one wrote, and the lock is released whenever its guard goes away and not before.',
 ['schedules','configurations'],'every interleaving of lock and unlock by any number of threads, every memory model; no_std configurations',
 'The tests build with std, where another lock implementation is used.',
 [MU],
 [('compare-exchange acquire, Release store on guard drop','src/util/mutex/spin_impl.rs')],(),['send_ref without std'])
prop('C22','len, capacity, remaining and is_empty are exact when nothing moves',
 'capacity is the number of slots the queue was built with; len is the number of elements pushed and not yet popped (0 when empty, capacity when full, correct after any number of wrap-arounds), is_empty is len == 0 and remaining is capacity - len. Concurrent operations can make len stale but never larger than capacity.',
 ['histories','inputs'],'every pair of push/pop positions, every capacity',
 'Tests sample a few lengths without wrap-around.',
 [LIB,TB,ST],
 [('Core::len','src/lib.rs'),('remaining/is_empty/capacity','src/thingbuf.rs, src/static_thingbuf.rs')],(),['len','remaining','is_empty','capacity'])
prop('C23','Concurrent histories are linearizable',
 'Every concurrent history of queue operations is equivalent to some sequential history of a bounded FIFO queue that respects real-time order, under the C++11/Rust memory model.',
 ['schedules','histories'],'all concurrent histories under the weak memory model',
 'Requires all interleavings and reorderings.',
 [LIB],[('position protocol','src/lib.rs')],(),['push','pop'])
prop('C24','Waits end within bounded time of their cause',
 'A woken sender or receiver resumes, and a timed operation returns, within a bounded wall-clock delay of the event or deadline that ends its wait.',
 ['schedules'],'all schedules and loads',
 'Depends on the operating system scheduler and on clock behaviour.',
 [BL,AS],[('park/unpark, wakers','src/mpsc/blocking.rs')],(),['send_timeout','recv_timeout'])
prop('C25','What len, remaining and is_empty report was true at some moment of the call',
 'Whatever other threads push and pop meanwhile, the number len returns is a number of elements the queue held at some moment between the call and its return, and so for remaining and is_empty: the two ends of the queue are read as one consistent picture, never combined from different moments into a length the queue never had.',
 ['schedules'],'every interleaving of pushes and pops with the reads a status query makes, all positions',
 'A torn reading needs pushes or pops between two adjacent loads, and looks like an ordinary stale answer.',
 [LIB,TB,ST],
 [('tail read before and after head','src/lib.rs Core::len'),('remaining/is_empty','src/thingbuf.rs, src/static_thingbuf.rs')],(),['len','remaining','is_empty'])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
