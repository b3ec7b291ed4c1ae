import json
d={}
d['C01']="""*Under contract:* `mutex::lock/try_lock/unlock`, `timed_mutex::lock/try_lock/unlock/try_lock_until_/try_lock_until/try_lock_for`, and that the exceptions carry the error code they are made from (`fiber_error`, `lock_error`, `future_error`). The spinlock `wait_queue_splk_` is a monitor over `owner_` and the queue; ghost `own` says whether the calling fiber owns the mutex (rely: others change `owner_` only away from null to themselves or from themselves to null; never to or from the caller).
Postconditions: lock() returns iff `own`; try_lock returns true iff it made the caller owner; the error cases throw exactly the stated code with the state unchanged and *before* anything is queued; `wait_queue::suspend_and_wait*` is called only with the lock held, the caller not owner, somebody else owner (a wait with the mutex free would be a lost wake-up)."""
d['C02']="""*Under contract:* all functions of `recursive_mutex` and `recursive_timed_mutex`. As C01 with monitor invariant `owner_ == null <=> count_ == 0` and guarantee "a non-owner step leaves `owner_`, `count_` alone unless free; an owner step changes the depth by exactly ±1"; the depth is a mathematical ghost compared with the machine counter (wrap after 2^64 levels excluded)."""
d['C03']="""*Under contract:* the 14 lock/unlock functions of the four mutexes, `timed_mutex::try_lock_until_` in particular. Ghost event log per critical section: on each release that makes the mutex free, `notify_one` must have been called after `owner_=null` and before the lock is released. On a timed-out wait: the caller is out of the queue (contract of C16) and if the wait ended by a notification the function must either have become the owner or loop back to try again. Waiting never happens while the mutex is free."""
d['C04']="""*Under contract:* `condition_variable_any::wait/wait_until/notify_*`, `condition_variable` wrappers, with opaque lock and predicate types (`lock()`, `unlock()` and `pred()` may each throw). Ghost state `held` of the user lock and `queued` of the caller: `unlock()` is allowed only while `wait_queue_splk_` is held (so that a notifier, which takes it, cannot pass between unlock and queueing); every exit, normal or exceptional, has the lock held; predicate loops (all iterations, by invariant) return only on true / return the predicate's last value; notify_one / notify_all call exactly the wait queue's function under the lock."""
d['C05']="""*Under contract:* constructor and `wait()`. Monitor on the fiber mutex with invariant `1 <= current_ <= initial_`; guarantee: an arrival decrements `current_`, or (last) starts a new cycle, sets `current_ = initial_` and calls notify_all; a waiter leaves only if `cycle_` differs from the one it entered with (the predicate is verified, not assumed); result true iff last. `n==0` throws."""
d['C06']="""*Under contract:* constructor/destructor and all push/try_push/pop/try_pop/value_pop/timed variants (const&, &&). Monitor over `pidx_`, `cidx_`, `closed_`, `slots_` with a ghost sequence of the accepted and delivered values represented by two unbounded counters and a skolemised position K whose slot content is tracked: invariant `(pidx_-cidx_) mod cap == accepted-delivered < cap`, slot(i mod cap) holds the i-th accepted value for delivered <= i < accepted. Each success increments exactly one counter and moves exactly the value at that position; each failure leaves the argument unmoved and the slots untouched, including on a throwing element assignment."""
d['C07']="""*Under contract:* the same functions, monitor with wake-up accounting: every step that makes the channel non-empty notifies a consumer, non-full a producer, close() notifies all, under the lock and after the state change; a wait is entered only in the state in which it is allowed; the reported status is justified by the state at the linearisation point; timed operations which were notified re-check before timing out."""
d['C08']="""*Under contract:* push/pop/value_pop/timed variants, try_push_/try_pop_, close, is_closed. The slot pointer is lock-free: each atomic access to `slot_`/`closed_` is a step with rely ("others install their own slot only into null, remove any slot, clear only") and guarantee. Ghosts per slot object: offered / taken / withdrawn; success of push is only reported when its slot was taken and the value moved; a slot on the stack of a returning producer must not be reachable (taken or withdrawn by CAS); the consumer wakes the producer only after the move. Loops (CAS retry, wait) by invariant."""
d['C09']="""*Under contract:* iterator constructors, copy, move, assignment, swap, `operator++`, increment_, comparison, destructor, begin/end of both channels. Ghost: is the element storage constructed? An element is constructed only in raw storage, destroyed only if constructed, never left constructed on destruction; a throwing element operation leaves the iterator destructible; end state iff `pop` reported closed; assumes only the contract of `pop` (C06, C08)."""
d['C10']="""*Under contract:* `shared_state_base/_object/_object<R&>/<void>`: set_value, set_exception, owner_destroyed, get, wait, wait_for/until, mark_ready_and_notify_, get_exception_ptr. Monitor on the fiber mutex: ready_ goes 0→1 once; value storage constructed iff ready_ and no exception; after ready_ nothing changes (guarantee); the transition calls notify_all in the same critical section; get() reads only after ready was seen under the lock; timed waits' results equal the predicate."""
d['C11']="""*Under contract:* promise, future, shared_future, packaged_task handles for value, reference and void: constructors, moves, assignments, swap, get_future, valid, get, share, destructor; reference counts are ghosts (one per live handle; each function's net effect on the counts is a postcondition, so leak and double release both fail), the error category of futures (default conditions, equivalence) and make_error_code/make_error_condition of future_errc. Broken-promise duty: an owner let go with `obtained_` and not ready calls `owner_destroyed` first."""
d['C12']="""*Under contract:* `packaged_task::operator()`, reset, constructors, `task_object::run/reset/destroy_/deallocate_`, `async` (all overloads). The callable, the argument types and the allocator are opaque and may throw; ghost counter of calls and captured outcome; forced_unwind must propagate, everything else must end in the shared state; reset either installs a fresh task and abandons the old one, or throws with nothing changed and nothing leaked; async: one detached fiber with the given policy."""
d['C13']="""*Under contract:* `fiber::join/detach/~fiber/operator=/swap/joinable/get_id`, `context::join`, `context::terminate`. Monitor on the target's `splk_` with `terminated_` and the wait queue: join waits only if not terminated under the lock (no lost wake-up), returns only after it saw `terminated_`; terminate sets it and notifies all in the same critical section."""
d['C14']="""*Under contract:* fiber constructors, `fiber::start_`, `make_worker_context_with_properties`, worker_context constructor and `run_`, `fiber_entry`, terminate, `intrusive_ptr_add_ref/release`, attach/detach, `scheduler::release_terminated_`, ~context. Ghosts: number of references owed, "function called", "switched away". The deallocation happens only at count zero with the acquire fence, after the destructor, by the deallocator, once; release decrements by `release`; the terminated queue's reference is given up exactly once."""
d['C15']="""*Under contract:* `context::wake`, `create_waker`, `waker::wake`. Per atomic step on `waker_epoch_` (rely: it only grows): wake succeeds iff its epoch is current, and then exactly one `schedule`; on failure no effect at all. create_waker makes the epoch strictly greater, hence old wakers are dead."""
d['C16']="""*Under contract:* suspend_and_wait, suspend_and_wait_until, notify_one, notify_all, empty, ~wait_queue. Abstract sequence for the intrusive list: appended at the back; notify_one removes from the front up to and including the first for which wake() was true; notify_all all; nobody but the notifier removes an entry, except the timed waiter under the lock; on return the caller's hook is not linked (`is_linked` is checked under the lock)."""
d['C17']="""*Under contract:* scheduler constructor/destructor, schedule, schedule_from_remote, remote_ready2ready_, dispatch, pick_next/yield/suspend/terminate, attach/detach, `context::suspend/yield/resume` family. Ghost multiset view with a skolem fiber F: number of hand-overs of F to the algorithm equals number of ready events; remote queue push precedes notify in the same critical section as `shutdown` is excluded; the dispatch loop's invariant: before suspend_until the remote queue was drained and no ready fiber; leaves only with worker queue empty and shutdown requested."""
d['C18']="""*Under contract:* sleep2ready_, wait_until, schedule (unlinks the sleep hook), dispatch (deadline passed to suspend_until), sleep_for/until, try_lock_for/until of both timed mutexes and wait_for/until of condition_variable_any, with detail::convert, for four clock/duration combinations and two durations each (`specs/timed.py`). The sleep queue is an ordered sequence with skolem element; only elements with `tp <= now` are woken, in order, each unlinked exactly once; conversion never shortens a wait (arithmetic on 64 bit ticks, no overflow assumed below 2^61)."""
d['C19']="""*Under contract:* fiber_specific_ptr (constructor, destructor, get, reset, release), `context::get_fss_data/set_fss_data`, the clean-up at the end of a fiber, for worker and main contexts. Map abstraction with a skolem key: only the own key changes; cleanup is called iff the old value is not null and differs/was replaced, exactly once, outside locks; at fiber end loop invariant "each entry visited exactly once"."""
d['C20']="""*Under contract:* awakened, pick_next, has_ready_fibers, suspend_until, notify. FIFO by sequence contract; notify/suspend_until: monitor over `flag_` with the mutex, notify sets the flag under it and notifies; suspend_until waits only while the flag is false, consumes it, and the timed variant as well."""
d['C21']="""*Under contract:* the same functions of shared_work; global deque under its mutex as abstract sequence, membership of the worker queue by `attach`/`detach` contracts (a fiber is detached before it is published and attached to the picking scheduler)."""
d['C22']="""*Under contract:* context_spinlock_queue push/pop/steal/empty/resize_/constructor/destructor, `work_stealing::` and `numa::work_stealing::` constructors, init_, get_local_cpus, get_remote_cpus, numa::pin_thread (both; an arbitrary cpu K is in the set handed to the system exactly if it is the cpu asked for), awakened, pick_next, steal, notify, suspend_until, thread_barrier constructor and wait (`specs/wsinit.py`: an arbitrary cpu K at an arbitrary position of an arbitrary topology; registration before the barrier, index inside of the array, barrier for every thread, one arrival per call and no passage before the cycle ended). Ring buffer with skolem position as C06; growth copies every element (loop invariant); the victim selection loops end in a bounded number of draws if there is no victim (defect found here) and never choose the caller."""
d['C23']="""*Under contract:* constructor, lock, try_lock and unlock of spinlock_ttas, _adaptive, _futex, _adaptive_futex, and of spinlock_rtm<> over each of them (against the contract of the lock underneath; the RTM instructions, recognised by their encoding, have contracts: XBEGIN starts a transaction or yields any status, XABORT in a transaction continues as the other outcome of XBEGIN, the lock word cannot change once a transaction has read it). Owner protocol per atomic step with arbitrary interference; acquire on the successful RMW, release on the releasing store/RMW; futex protocol: value 2 if somebody may sleep; unlock from 2 wakes after the store; a wait is entered with the value that means "locked with waiters"."""
d['C24']="""*Under contract:* fiber_properties, algorithm_with_properties(_base) for an opaque property class; context's properties pointer ghost: owned, created iff absent, destroyed with the context; awakened(ctx, props) is called with that object and after installation; notify → property_change_ exactly once iff linked in the ready queue."""
d['C25']="""*Under contract:* make_worker_context(_with_properties), make_dispatcher_context, main/dispatcher contexts, fixedsize/pooled/protected stack allocators' allocate/deallocate, and all fiber constructor instances with over-aligned and odd-sized functions. Pure address arithmetic over 64 bit vectors: object inside [sp-size, sp), aligned, and stack_context handed to boost.context ends below it; deallocate gets the identical stack_context. `stack_allocator_wrapper` from make_stack_allocator_wrapper (arguments forwarded, one allocator, one destruction, its memory given back once, also when constructor or allocate() throw) over its move."""
d['C26']="""*Under contract:* use_scheduling_algorithm, scheduler::set_algo, context_initializer (constructor, destructor, per-thread set-up), initialize_thread, active(). set_algo's loop invariant with a skolem position: i-th pick of the old = i-th awakened of the new; old algorithm destroyed after it is drained; set-up creates one scheduler and its two contexts, tear-down in the order shutdown/join, dispatcher, main."""

d['C27']="""*Under contract:* constructor, destructor, push, pop, steal, empty of `context_spmc_queue` and of its slot arrays (growth included), and `awakened/pick_next/steal/has_ready_fibers` of the algorithms built on it.
Rely/guarantee per atomic step, owner and thief separately. Ghosts: T, B (top, bottom), W ("bottom was above T at some moment since top got that value", i.e. a thief may still be about to take T), and for an arbitrary fixed index K the word stored for it and the word in its slot of each array. The owner's rely is exactly what a thief's verified steps can do (T moves up by CAS, only over elements that were shown), the thief's rely what the owner's verified steps can do (while top = t and W, the array in use and the ones it replaced keep the element of t; bottom shows only stored indexes). Postconditions: a fiber is returned by exactly one of pop/steal, in LIFO/FIFO position, null only if nothing was there (or the race was lost); pinned fibers are never stolen; a thief does not dereference what it does not own; replaced arrays live until the destructor. The two proofs use interleaving semantics, so the orderings the argument of Le et al. needs on weak memory are obligations of their own: full fence between the owner's withdrawal and its look at top, full fence between the thief's reads of top and bottom, release publication of element and of the grown array, acquire/consume on the thief's side, a seq_cst CAS on top. Growth loop: all iterations by an invariant that is found among candidates (Houdini); `i mod c` injectivity within a window of c is the one trusted lemma."""
d['C29']="""*Under contract:* for each of cuda and hip: the constructors, `trampoline`/`notify` and `wait` of `single_stream_rendezvous` and `many_streams_rendezvous`, `waitfor_all(stream)` and `waitfor_all(streams...)` (instantiated for three). The headers are compiled against declarations of the run-times (fvc/tu/stubs), the run-time is the contract of `cudaStreamAddCallback`/`hipStreamAddCallback`: it fails, or the callback runs once, on any thread, from now on.
An arbitrary fixed stream K; `std::set` and `std::vector` are abstracted to what they say about K (member / number of entries / status). Invariant of the mutex: K is given => awaited xor reported once with its own status. Rely at each acquisition: a registered callback that is still due may have run. Obligations: a callback is registered once per given stream, with this rendezvous, after the results have room (so that the noexcept callback cannot fail); shared fields, sets, iterators only under the mutex from the first registration on; a set is not changed while it is iterated; the last callback notifies while it holds the mutex and touches nothing afterwards; the waiter waits only while something is awaited and returns the results under the mutex. The constructor loop carries "streams ahead are neither registered nor reported, streams behind are registered or reported". Native scenarios: a run-time made of threads, with late, immediate, failing and slow callbacks, and a rendezvous in a page that is unmapped when wait() returns."""
