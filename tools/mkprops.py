#!/usr/bin/env python3
"""Writes properties.jsonl (the single source for titles/statements)."""
import json,sys,os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    P.append(d)
I='include/boost/fiber/'
prop('C01','mutex / timed_mutex: exclusive ownership and ownership errors',
 "At most one fiber owns a mutex or timed_mutex at any time: lock() returns only as owner, try_lock()/try_lock_for()/try_lock_until() return true exactly when the caller became the owner, and unlock() by the owner frees it. A fiber that calls lock() or try_lock() on a mutex it already owns gets lock_error(resource_deadlock_would_occur), a fiber that unlocks a mutex it does not own gets lock_error(operation_not_permitted), and in both cases the mutex is unchanged. A blocked lock() gives up the internal lock only atomically with being queued and suspended.",
 ['schedules','histories'],'every interleaving of any number of fibers and threads calling lock/try_lock/try_lock_for/try_lock_until/unlock, any wake-up (genuine or stale), any deadline',
 'tests run a handful of fibers through a few schedules; an ownership hole needs a particular interleaving of the internal critical sections or a stale wake-up',
 ['src/mutex.cpp','src/timed_mutex.cpp',I+'mutex.hpp',I+'timed_mutex.hpp'],
 [('owner_ written only under wait_queue_splk_','src/mutex.cpp lock/try_lock/unlock'),('timed variant','src/timed_mutex.cpp try_lock_until_')])
prop('C02','recursive_mutex / recursive_timed_mutex: ownership and depth',
 "A recursive mutex is owned by at most one fiber; every successful lock or try_lock by the owner increases its depth by exactly one and every unlock decreases it by exactly one, and it becomes available to others exactly when the depth reaches zero. A fiber that is not the owner never changes owner or depth; its unlock() throws lock_error(operation_not_permitted). try_lock variants return true exactly when they acquired a level.",
 ['schedules','histories'],'every nesting depth, every interleaving of lock/try_lock/try_lock_for/try_lock_until/unlock by any number of fibers',
 'tests nest two or three levels on few fibers; wrong counts at other depths, on timed paths or under contention are not sampled',
 ['src/recursive_mutex.cpp','src/recursive_timed_mutex.cpp',I+'recursive_mutex.hpp',I+'recursive_timed_mutex.hpp'],
 [('owner_/count_','src/recursive_mutex.cpp'),('timed variant','src/recursive_timed_mutex.cpp')])
prop('C03','mutexes: releasing hands the lock on, no waiter is stranded',
 "Whenever a mutex of any kind is released while fibers wait for it, a waiter is woken and a woken waiter retries, so no fiber stays blocked while the mutex is free and nobody else is about to take it. A timed waiter whose deadline passes leaves the waiting queue and either takes the mutex or lets the wake-up it may have received reach another waiter: a wake-up is never swallowed by a failed timed lock.",
 ['schedules','histories'],'every mix of plain and timed waiters, every order of unlock, deadline expiry and resumption',
 'needs an unlock that races with an expiring deadline while a second waiter is queued; tests time out a single waiter only',
 ['src/mutex.cpp','src/timed_mutex.cpp','src/recursive_mutex.cpp','src/recursive_timed_mutex.cpp','src/waker.cpp'],
 [('unlock -> wait_queue_.notify_one()','src/*mutex.cpp'),('timed wait','src/waker.cpp suspend_and_wait_until')])
prop('C04','condition_variable: atomic wait, no lost notification, relocked on return',
 "wait() releases the user's lock only after the caller is queued, so a notification sent by anyone who then acquires that lock is never missed; on every return, normal or exceptional, the lock is held again by the caller. wait(lock,pred) returns only with pred true; wait_for/wait_until report timeout exactly when the wait timed out, and with a predicate return the predicate's value. notify_one wakes at most one live waiter in FIFO order and notify_all wakes every waiter queued at that time.",
 ['schedules','inputs'],'every interleaving of waiters and notifiers, every predicate behaviour including exceptions, every deadline',
 'a missed notification needs a notifier to run between release and enqueue; tests do not enumerate such interleavings',
 [I+'condition_variable.hpp','src/condition_variable.cpp','src/waker.cpp'],
 [('lk taken before lt.unlock()',I+'condition_variable.hpp wait'),('notify','src/condition_variable.cpp')])
prop('C05','barrier: releases exactly when all parties arrived, once per cycle',
 "A barrier of n parties blocks each arriving fiber until n fibers have arrived in the current cycle; the last arrival releases all of them and starts a new cycle with n expected arrivals, and exactly one of the n calls returns true. A fiber of the next cycle never releases or is released by the previous cycle. Constructing a barrier for 0 parties throws fiber_error(invalid_argument).",
 ['schedules','histories'],'every party count n, every number of cycles, every arrival order and wake-up order',
 'tests use one or two cycles with three fibers',
 ['src/barrier.cpp',I+'barrier.hpp'],[('current_/cycle_ under mtx_','src/barrier.cpp wait')])
prop('C06','buffered_channel: bounded FIFO, every value delivered exactly once',
 "A value accepted by push or try_push is delivered to exactly one pop, values are delivered in the order they were accepted, and nothing that was not pushed is ever delivered; a push that does not return success leaves the caller's value untouched. The buffer never holds more than capacity-1 values; capacities below 2 or not a power of two are rejected with fiber_error(invalid_argument).",
 ['schedules','histories','inputs'],'every capacity, every sequence of push/try_push/push_wait_*/pop/try_pop/pop_wait_*/value_pop, every interleaving of their critical sections, every index position including wrap-around',
 'tests use capacity 2..16 and mostly one producer and one consumer; index wrap and full/empty corner cases for other sizes and interleavings are not covered',
 [I+'buffered_channel.hpp'],[('pidx_/cidx_ ring','include/boost/fiber/buffered_channel.hpp'),('splk_','all members')])
prop('C07','buffered_channel: close, status codes and wake-ups',
 "After close() every push reports closed, and pops first drain the remaining values and then report closed; try_push reports full only when full, try_pop reports empty only when empty and open, timed operations report timeout only after their deadline. A blocking push waits only while the channel is full and open, a blocking pop only while it is empty and open; every accepted value wakes a waiting consumer, every removed value wakes a waiting producer, close() wakes all, and a wake-up is never swallowed by a timed operation that then reports timeout.",
 ['schedules','histories'],'every interleaving of producers, consumers, timed operations and close',
 'stranding a blocked fiber needs close, timeouts or removal to interleave with blocking in a specific order',
 [I+'buffered_channel.hpp',I+'channel_op_status.hpp'],[('waiting_producers_/waiting_consumers_','include/boost/fiber/buffered_channel.hpp')])
prop('C08','unbuffered_channel: rendezvous delivers each value exactly once',
 "push returns success exactly when its value was moved out by exactly one pop, and pop returns success exactly with a value some push offered; a push that reports closed or timeout is withdrawn: no pop ever yields its value. push blocks until its value is taken, pop until one is offered; close() wakes every blocked producer and consumer, a push that begins after close() has returned reports closed, so does a pop (unless it takes the value of a push that had begun before), and a producer or consumer that gives up at its deadline does not swallow a wake-up another one needs.",
 ['schedules','histories'],'every interleaving of producers, consumers, timed operations and close, on one or several threads',
 'tests close idle channels or ones with a single producer; they never pop after a blocked producer was released by close or a timeout',
 [I+'unbuffered_channel.hpp'],[('slot_ exchange','include/boost/fiber/unbuffered_channel.hpp try_push_/try_pop_')])
prop('C09','channel iterators: every fetched element destroyed exactly once',
 "Iterating a channel yields exactly the values a loop of pop() would yield and ends when the channel is closed and drained. Every element object an iteration constructs is destroyed exactly once, at whatever point the iteration stops: at its end, early, or because moving an element throws. A copied or moved iterator refers to an element equal to the original's, and iterators compare equal exactly when they refer to the same channel or both are at the end.",
 ['inputs','histories'],'every element type, every number of elements, every point at which iteration stops',
 'tests iterate trivially destructible ints, for which a double destruction is invisible',
 [I+'buffered_channel.hpp',I+'unbuffered_channel.hpp'],[('iterator::increment_/operator++','both channel headers')])
prop('C10','futures: a result is set at most once and delivered to every waiter',
 "A shared state becomes ready at most once, with exactly the value or exception given first; a second set_value/set_exception throws promise_already_satisfied and changes nothing. get()/wait() return only when ready, get() returns that value or rethrows that exception, and becoming ready wakes every waiter. wait_for/wait_until return ready if and only if the result was available, else timeout.",
 ['schedules','histories','inputs'],'every interleaving of setters and waiters, value/reference/void specialisations, throwing copies of the value',
 'tests set and get from a few fibers in fixed order',
 [I+'future/detail/shared_state.hpp',I+'future/detail/shared_state_object.hpp',I+'future/future.hpp'],
 [('ready_ under mtx_',I+'future/detail/shared_state.hpp')])
prop('C11','promise / future handles: validity, single retrieval, broken promise',
 "A promise hands out exactly one future (future_already_retrieved afterwards); every operation on an empty promise or future throws no_state/future_uninitialized; moves transfer the state and leave the source empty. Destroying or overwriting a promise or packaged task whose future was retrieved before a result was set makes the future ready with broken_promise; the shared state is released exactly when its last handle goes, and future::get() invalidates the future while shared_future::get() does not.",
 ['histories','inputs'],'every sequence of construct/move/swap/assign/get_future/set/get/share/destroy',
 'tests cover single operations, not histories; leak or double release needs particular sequences',
 [I+'future/promise.hpp',I+'future/future.hpp',I+'future/packaged_task.hpp',I+'future/detail/shared_state.hpp'],
 [('obtained_/future_',I+'future/promise.hpp'),('owner_destroyed',I+'future/detail/shared_state.hpp'),('use_count_',I+'future/detail/shared_state.hpp')])
prop('C12','packaged_task / async: the task runs once and its outcome is captured',
 "Invoking a packaged_task calls the stored function exactly once with the given arguments (passed as decayed copies) and stores its result, or the exception it or the passing of its arguments threw, in the future, before the invocation returns; only a forced unwind of the fiber passes through. Invoking it a second time throws promise_already_satisfied without losing the first result. reset() abandons the old state (broken_promise if its future was retrieved and no result set) and provides a fresh one with the same function, or fails and changes nothing; async() launches, with the given policy, allocators, function and arguments, one detached fiber that does the same, and returns its future.",
 ['inputs','histories'],'every callable, argument and outcome (value, reference, void, exception), every sequence of invoke/reset/move/swap',
 'tests use a few callables; the contract must hold for any outcome of user code',
 [I+'future/packaged_task.hpp',I+'future/detail/task_object.hpp',I+'future/detail/task_base.hpp',I+'future/async.hpp'],
 [('run',I+'future/detail/task_object.hpp'),('reset',I+'future/packaged_task.hpp')])
prop('C13','fiber handle: join waits for termination, detach, move, self-join',
 "join() returns only after the fiber's function has finished, for any number of joiners and from any thread, and makes the handle not joinable; detach() releases the handle without waiting. join() on itself throws fiber_error(resource_deadlock_would_occur), join()/detach() on a non-joinable handle throws fiber_error(invalid_argument); moving transfers the fiber and destroying or overwriting a joinable handle terminates the program.",
 ['schedules','histories'],'every interleaving of termination and joining, every sequence of handle operations',
 'a join that misses termination needs the fiber to end between the check and the enqueue',
 ['src/fiber.cpp',I+'fiber.hpp','src/context.cpp'],
 [('join/terminate under splk_','src/context.cpp join/terminate'),('impl_','src/fiber.cpp')])
prop('C14','fiber life cycle: function runs once, control block freed exactly once',
 "Launching a fiber runs its function exactly once, with the given arguments, either immediately (dispatch) or once scheduled (post); when it ends its function and arguments are destroyed, every joiner is woken and the fiber never runs again. The fiber's stack and control block are released exactly once, after it has terminated, has been switched away from, and no handle or other reference remains; termination is announced before release.",
 ['schedules','histories'],'every fiber function, launch policy, handle history and termination order',
 'use-after-free or leak of a control block depends on the order of terminate, join, detach and the dispatcher clean-up',
 [I+'fiber.hpp',I+'context.hpp','src/context.cpp','src/fiber.cpp','src/scheduler.cpp'],
 [('use_count_ / intrusive_ptr_release',I+'context.hpp'),('terminated_queue_','src/scheduler.cpp release_terminated_'),('worker_context::run_',I+'context.hpp')])
prop('C15','wakers: a suspension is ended by at most one wake-up',
 "Each suspension of a fiber is ended by at most one successful wake-up: of all wakers created for it only the first wake() succeeds and schedules the fiber exactly once, every later or concurrent one returns false and has no effect. A waker created for an earlier suspension never affects a later one.",
 ['schedules','histories'],'every interleaving of any number of wake() calls, timers and new suspensions',
 'double scheduling needs two wakers to race; tests never race them deliberately',
 [I+'context.hpp','src/context.cpp','src/waker.cpp'],[('waker_epoch_ compare_exchange','src/context.cpp wake'),('create_waker',I+'context.hpp')])
prop('C16','wait queues: FIFO, no stale entries, notify skips dead waiters',
 "Waiters are woken in the order in which they queued; notify_one wakes exactly the first waiter that is still waiting and skips those that already timed out, notify_all wakes all of them. A waiter is removed from the queue before it can run on, whether woken or timed out, so that the queue never refers to a frame that no longer exists.",
 ['schedules','histories'],'every queue content and every mix of live and timed-out waiters',
 'dangling queue entries only appear when time-outs and notifications interleave in specific ways',
 ['src/waker.cpp',I+'waker.hpp'],[('slist_','src/waker.cpp')])
prop('C17','scheduler: no ready fiber is lost, duplicated or run after termination',
 "Every fiber that becomes ready, by launch, yield, wake-up from the same or another thread or an expired timer, is handed to the scheduling algorithm exactly once, and no suspended or terminated fiber is. A wake-up from another thread is queued before the target thread is notified, and the dispatcher moves all such fibers to the ready queue before it goes idle; on thread exit the dispatcher runs until every worker fiber has ended.",
 ['schedules','histories'],'every interleaving of local and remote scheduling, timers, terminations and attach/detach',
 'losing or duplicating a fiber requires a specific order of remote wake-ups and dispatcher steps',
 ['src/scheduler.cpp',I+'scheduler.hpp','src/context.cpp'],
 [('remote_ready_queue_','src/scheduler.cpp schedule_from_remote/remote_ready2ready_'),('dispatch','src/scheduler.cpp')])
prop('C18','timed waits: wake no earlier than the deadline, no later wake-up lost',
 "A fiber sleeping or waiting with a deadline is made ready by the timer only when the deadline has passed, earliest deadline first, and each such fiber is woken exactly once and removed from the timer queue; when woken earlier it leaves the timer queue too. Deadlines given on any clock are converted so that no wait is cut short, and the idle thread sleeps no longer than the earliest deadline.",
 ['inputs','schedules'],'every set of deadlines (including equal and past ones), every clock reading, every interleaving with early wake-ups',
 'tests sleep a few fibers for a few fixed durations',
 ['src/scheduler.cpp','src/context.cpp',I+'operations.hpp',I+'detail/convert.hpp',I+'scheduler.hpp'],
 [('sleep_queue_ / sleep2ready_','src/scheduler.cpp'),('wait_until','src/scheduler.cpp')])
prop('C19','fiber-specific storage: per-fiber value, cleanup exactly once',
 "A fiber_specific_ptr yields for each fiber the pointer last set by that fiber and null before. Replacing or clearing the value by reset(), and the end of the fiber, invoke the cleanup function exactly once on each non-null pointer owned by that slot, release() returns it without cleanup, and no other fiber's or other pointer's value is affected.",
 ['histories','inputs'],'every sequence of set/reset/release/get over any number of pointers and fibers, including resetting to the same value',
 'tests use one pointer and a few fibers; cross-talk or double cleanup needs longer histories',
 [I+'fss.hpp',I+'detail/fss.hpp','src/context.cpp'],[('fss_data_','src/context.cpp get_fss_data/set_fss_data')])
prop('C20','round_robin: FIFO order, and a notification is never missed',
 "round_robin returns fibers in exactly the order in which they were made ready, each once, and reports no work exactly when its queue is empty. A notify() that happens before or during suspend_until() makes that suspend_until() return (no lost notification), after which the notification is consumed.",
 ['schedules','histories'],'every sequence of awakened/pick_next, every interleaving of notify and suspend_until',
 'the lost-notification window is a few instructions wide',
 ['src/algo/round_robin.cpp',I+'algo/round_robin.hpp','src/algo/shared_work.cpp','src/algo/work_stealing.cpp'],[('rqueue_/flag_','src/algo/round_robin.cpp')])
prop('C21','shared_work: shared fibers run once, pinned fibers stay on their thread',
 "Every worker fiber made ready under shared_work is resumed exactly once by one of the participating threads in FIFO order of the shared queue, and it belongs to the thread that resumes it; main and dispatcher fibers never leave their thread. has_ready_fibers() is true whenever the shared or the local queue is non-empty. With suspension enabled, a notify() before or during suspend_until() makes that suspend_until() return.",
 ['schedules','histories'],'every interleaving of any number of threads awakening and picking fibers',
 'double pick or foreign resume of a pinned fiber needs thread interleavings tests do not force',
 ['src/algo/shared_work.cpp',I+'algo/shared_work.hpp'],[('rqueue_/lqueue_','src/algo/shared_work.cpp')])
prop('C22','work_stealing queues: no fiber lost or run twice, pinned fibers not stolen',
 "The per-thread ready queues used by the work-stealing algorithms return every fiber pushed exactly once, whether popped by the owner or stolen by another thread, across growth of the queue; a steal never takes a pinned fiber. Owner and thief critical sections leave the remaining order intact, and a picked or stolen fiber is attached to the thread that runs it. No thread starts to steal before every participating thread has registered its scheduler, under an index of its own that is inside of the array of schedulers; on NUMA systems the victims are exactly the cpus of the same node and of the other nodes, and the thread is pinned to exactly the cpu asked for or std::system_error with the error of the system is thrown. With suspension enabled, a notify() before or during suspend_until() makes that suspend_until() return.",
 ['histories','schedules'],'every sequence of push/pop/steal, every fill level and index position including growth after wrap-around, every position of pinned fibers',
 'growth after wrap-around or a pinned fiber at the steal end is not sampled by tests',
 [I+'detail/context_spinlock_queue.hpp',I+'detail/context_spmc_queue.hpp','src/algo/work_stealing.cpp','src/numa/algo/work_stealing.cpp','src/numa/linux/pin_thread.cpp',I+'detail/thread_barrier.hpp'],
 [('resize_',I+'detail/context_spinlock_queue.hpp'),('steal','src/algo/work_stealing.cpp pick_next')])
prop('C23','spinlocks: mutual exclusion with acquire/release ordering',
 "For each spinlock implementation, lock() and a successful try_lock() return only after atomically changing the lock from unlocked to locked with acquire ordering, try_lock() never reports success on a lock that is held, and unlock() makes it unlocked with release ordering. For the futex-based variants unlock() wakes a sleeping waiter whenever one may be asleep. With hardware transactions (BOOST_USE_TSX) the lock may instead be elided: lock() or a successful try_lock() then return inside exactly one transaction that has read the lock as unlocked, and unlock() ends that transaction and leaves the lock alone.",
 ['schedules','configurations'],'every interleaving and every build-time spinlock configuration',
 'tests use the default spinlock on x86, where a missing ordering is invisible',
 [I+'detail/spinlock_ttas.hpp',I+'detail/spinlock_ttas_adaptive.hpp',I+'detail/spinlock_ttas_futex.hpp',I+'detail/spinlock_ttas_adaptive_futex.hpp',I+'detail/spinlock.hpp',I+'detail/spinlock_rtm.hpp',I+'detail/rtm.hpp'],
 [('state_ exchange',I+'detail/spinlock_ttas*.hpp')])
prop('C24','fiber_properties / algorithm_with_properties: properties reach the scheduler',
 "Under an algorithm with properties every fiber has exactly one properties object, created on first use and destroyed exactly once with the fiber; the algorithm is told of every ready fiber together with that object, and a notify() on it reaches property_change() of the algorithm currently responsible for that fiber, exactly once per call and only for fibers that are ready.",
 ['histories'],'every sequence of wake-ups, property accesses and changes',
 'tests exercise one algorithm with a few fibers',
 [I+'algo/algorithm.hpp',I+'properties.hpp','src/algo/algorithm.cpp','src/properties.cpp'],
 [('awakened/property_change_',I+'algo/algorithm.hpp'),('notify','src/properties.cpp')])
prop('C25','fiber stacks: control block and record placed inside, no overlap',
 "For every stack obtained from an allocator the fiber's control block is placed inside the allocated area, correctly aligned and above the region used as the fiber's stack, so that the two never overlap; the allocator gets back exactly the stack it handed out.",
 ['inputs','configurations'],'every stack size and address an allocator may return, every control block size and alignment',
 'tests use one stack size and one alignment',
 [I+'context.hpp',I+'fiber.hpp'],[('make_worker_context placement',I+'context.hpp')])
prop('C26','replacing the scheduling algorithm keeps every ready fiber',
 "use_scheduling_algorithm installs exactly the given algorithm for the calling thread; every fiber that was ready under the old algorithm is ready under the new one exactly once and in the same order, and the thread's main and dispatcher fibers survive. Setting up a thread creates one scheduler with its main and dispatcher fiber, and the thread's exit tears it down once, after its fibers have ended.",
 ['histories'],'every content of the ready queue at replacement, every thread history',
 'tests install algorithms on empty ready queues',
 ['src/scheduler.cpp','src/context.cpp',I+'operations.hpp'],[('set_algo','src/scheduler.cpp'),('context_initializer','src/context.cpp')])
prop('C27','lock-free work-stealing queue: every fiber handed out exactly once',
 "Under any concurrent mix of one owner pushing and popping and any number of thieves stealing, also while the queue grows, the lock-free ready queue (BOOST_FIBERS_USE_SPMC_QUEUE) hands out every fiber pushed to it exactly once. pop() returns the fiber pushed last among those left and null only if the queue was empty, also if nothing was ever pushed; steal() returns the fiber at the other end or null, never a pinned fiber, and touches no fiber before it owns it. An array that was replaced stays intact until the queue is destroyed, which frees every array once.",
 ['schedules'],'every interleaving of the atomic steps of push/pop/steal with any number of thieves, indexes and capacities',
 'the queue is not compiled by the tests at all; its defects need a race on the last element or a steal during growth',
 [I+'detail/context_spmc_queue.hpp','src/algo/work_stealing.cpp'],[('push/pop/steal',I+'detail/context_spmc_queue.hpp')])
prop('C28','a ready fiber is eventually run (fairness)',
 "Under round_robin every ready fiber is eventually resumed as long as the other fibers of its thread keep yielding or blocking, and join, lock and pop complete once their condition is met.",
 ['schedules'],'every infinite schedule','tests only see finite runs',
 ['src/scheduler.cpp','src/algo/round_robin.cpp'],[('dispatch loop','src/scheduler.cpp')])
prop('C29','waitfor_all(): a fiber waits for CUDA or HIP streams, other fibers run meanwhile',
 "waitfor_all( streams ...), in namespaces cuda and hip, returns only after the run-time reported the completion of every given stream, and returns each distinct stream exactly once with the status the run-time reported for it; a stream whose callback cannot be registered counts as complete, with the error of the registration. The call suspends the fiber, not the thread. Callbacks may run on any thread, at any moment from their registration on, also before the registration of the other streams; no completion is lost, and no callback touches the rendezvous object once the waiting fiber may have destroyed it.",
 ['schedules','inputs'],'every number of streams, duplicates, registration errors, every order and moment of the callbacks',
 'the tests do not compile this code (no GPU tool kit); its defects need a callback that runs during registration or at the return of the waiter',
 [I+'cuda/waitfor.hpp',I+'hip/waitfor.hpp'],[('single_stream_rendezvous / many_streams_rendezvous',I+'cuda/waitfor.hpp'),('single_stream_rendezvous / many_streams_rendezvous',I+'hip/waitfor.hpp')])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,'properties.jsonl'),'w') as f:
    for p in P:
        assert len(p['title'])<=80,p['id']
        f.write(json.dumps(p)+'\n')
