"""The properties, in one place; gen.py writes properties.jsonl and MANIFEST.json from it."""
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, note=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe or [], hook_needed=None), _note=note))


def na(id, title, statement, over, text, why, files, mech, reason):
    prop(id, title, statement, over, text, why, files, mech)
    P[-1]['_na'] = reason


INC = 'sdk/include/teiacare/sdk/'
# ---------------------------------------------------------------- thread pool
TPF = [INC + 'thread_pool.hpp', 'sdk/src/thread_pool.cpp', INC + 'task.hpp']
prop('T01', 'Thread pool: an accepted job runs exactly once, in submission order',
     'Every job submitted to a thread pool is kept until a worker takes it or the pool is stopped; no job is dropped, duplicated, or executed twice. '
     'Jobs are taken strictly in the order in which they were submitted, and nothing other than stopping discards a job.',
     'schedules histories', 'all interleavings of any number of submitters, workers, and start/stop calls',
     'The tests run a few jobs on an idle machine; a job lost or run twice only under a particular interleaving of two workers and a submitter would not show.',
     TPF, [('append under the queue mutex', 'thread_pool::enqueue_task'), ('take front and pop in one critical section', 'thread_pool::worker')])
prop('T02', 'Thread pool: no internal lock is held while user code runs',
     'While a submitted job is executing, the pool holds none of its internal locks. A job may therefore submit further jobs, query the pool, or block for as long as it likes without blocking other submitters or workers.',
     'schedules programs', 'every job body, including jobs that call back into the pool',
     'Tests use jobs that return quickly and do not call back into the pool, so a lock held during execution only shows as lost parallelism or a rare deadlock.',
     TPF, [('lock released before invoking the task', 'thread_pool::worker')])
prop('T03', 'Thread pool: the returned future carries that job\'s own result',
     'The future returned by a submission becomes ready with the value returned, or the exception thrown, by the submitted callable invoked once with the submitted arguments in the submitted order. '
     'Callable and arguments are captured by value, so the job never refers to objects of the submitting call that may have gone.',
     'inputs schedules', 'every callable and argument list; execution arbitrarily long after the submitting call returned',
     'Tests use literals that are still alive, so dangling captures and swapped equal arguments are not noticed; executing late is not something a test controls.',
     TPF, [('bind by value into a packaged_task', 'thread_pool::run')])
prop('T04', 'Thread pool: start and stop change the state exactly once, leak no thread',
     'start() succeeds exactly when the pool is stopped and then runs max(1, min(requested, hardware threads)) workers, which is also what the pool reports; stop() succeeds exactly when it is running. '
     'When stop() or the destructor returns, every worker has been joined and no queued job remains; a call that reports failure has no effect. The pool can be started again afterwards.',
     'histories schedules inputs', 'every sequence and interleaving of start/stop/destruction, every requested thread count and every hardware concurrency including unknown (0)',
     'Tests call start and stop in one thread with a couple of counts on a machine whose hardware concurrency is fixed; concurrent starts and a zero hardware concurrency are never exercised.',
     TPF, [('check-and-set of the running state under one mutex', 'thread_pool::start / thread_pool::stop'), ('clamp of the number of threads', 'thread_pool::start'), ('join loop', 'thread_pool::stop')])
prop('T05', 'Thread pool: no worker sleeps through a submission or a stop',
     'A worker goes to sleep only when there is no job and the pool is running, and each submission and each stop wakes the workers that must react to it. '
     'In particular no interleaving leaves an accepted job waiting while all workers sleep, nor makes stop() wait forever for a sleeping worker.',
     'schedules', 'all interleavings of the worker\'s test-and-sleep with submissions and stop',
     'A lost wake-up needs the notification to fall between the test of the condition and the sleep, a window of nanoseconds.',
     TPF, [('state changed before/under the mutex, then notify', 'thread_pool::enqueue_task, thread_pool::stop'), ('predicate wait', 'thread_pool::worker')])
prop('T06', 'Thread pool: jobs still queued when the pool stops never start',
     'Once stop() has discarded the queued jobs, none of them is executed, neither during the stop nor after a restart: a worker takes a job only after checking, in the same critical section, that the pool is still running.',
     'schedules', 'all interleavings of a stop with workers taking jobs',
     'Tests stop an idle or fully drained pool; the window between waking a worker and stop is not reproducible.',
     TPF, [('running state re-checked after the wait', 'thread_pool::worker'), ('state lowered before the queue is discarded', 'thread_pool::stop')])
prop('T07', 'Thread pool: public operations are free of data races and deadlocks',
     'Any two public operations of one pool may be called concurrently from different threads, together with the pool\'s workers, without a data race. Locks are never acquired recursively or in conflicting orders, and no thread is joined while a lock it needs is held.',
     'schedules', 'all pairs of concurrent public calls and worker steps',
     'Race-freedom is a statement about all interleavings; the tests exercise a handful and do not run under a race detector.',
     TPF, [('one mutex per shared member', 'thread_pool')])
# ---------------------------------------------------------------- blocking queue
BQF = [INC + 'blocking_queue.hpp']
prop('Q01', 'Blocking queue: first in, first out, nothing lost or duplicated',
     'Items leave the queue in exactly the order in which they were inserted; each inserted item is returned by exactly one removal and is the very item that was inserted. '
     'An insertion or removal that reports failure leaves the queue as it was, and observers never change it.',
     'histories schedules', 'every interleaving of any number of producers and consumers using the blocking and non-blocking operations',
     'Tests push and pop a few integers; reading the front and removing it non-atomically only fails with two concurrent consumers.',
     BQF, [('append at the back', 'blocking_queue::push / try_push'), ('front and pop in one critical section', 'blocking_queue::pop / try_pop')])
prop('Q02', 'Blocking queue: size never exceeds the fixed capacity',
     'The number of stored items never exceeds the capacity, which is max(1, the requested capacity) and never changes. The non-blocking insertion refuses exactly when the queue is full and the non-blocking removal exactly when it is empty; the blocking ones wait only in those situations.',
     'inputs schedules histories', 'every requested capacity including 0 and the maximum, every history of operations',
     'Capacities in tests are small constants; overfilling needs two producers that both observe the last free slot.',
     BQF, [('capacity clamp', 'blocking_queue::blocking_queue'), ('full test under the mutex', 'blocking_queue::push / try_push')])
prop('Q03', 'Blocking queue: no lost wake-ups between producers and consumers',
     'Whenever the queue stops being full, waiting producers are woken, and whenever it stops being empty, waiting consumers are woken, whatever mix of blocking and non-blocking operations caused it and however many threads wait. A woken thread re-tests its condition before proceeding.',
     'schedules', 'all interleavings of any number of waiting producers and consumers, all capacities',
     'A missed notification needs several waiters on the same side or a non-blocking operation making the transition, and then shows as a hang only in some schedules.',
     BQF, [('notify on the transition away from empty/full', 'blocking_queue::push_impl / pop_impl')])
prop('Q04', 'Blocking queue: race-free, deadlock-free, try-operations never wait',
     'Any operations of one queue may run concurrently without a data race or lock-order deadlock. The non-blocking insertion and removal and the size and capacity queries contain no wait for a condition.',
     'schedules', 'all pairs of concurrent public calls',
     'Race-freedom quantifies over interleavings the tests never see.',
     BQF, [('single mutex', 'blocking_queue')])
prop('Q05', 'Blocking queue: a throwing item copy never loses an item',
     'If copying an item throws while it is inserted or removed, the queue is unchanged (the item to be removed is still in the queue, the item to be inserted was not added) and no lock stays held.',
     'fault_sequences inputs', 'an exception from any item copy at any point of any operation',
     'Tests only use integers, whose copy never throws.',
     BQF, [('copy made before the container changes, move afterwards', 'blocking_queue::pop / try_pop')])
# ---------------------------------------------------------------- task scheduler
TSF = [INC + 'task_scheduler.hpp', 'sdk/src/task_scheduler.cpp']
prop('S01', 'Task scheduler: task ids stay unique, additions are refused for a reason',
     'At no time do two scheduled tasks carry the same task id. An addition is refused only if the scheduler is not running, the interval is not positive, or a task with this very id is scheduled; otherwise exactly the given task is added. '
     'A refused addition changes nothing. (Ids are identified with their hash values.)',
     'histories schedules inputs', 'every sequence and interleaving of additions, removals and executions, every id',
     'Two callers adding the same id must interleave between the look-up and the insertion; tests add from one thread.',
     TSF, [('look-up and insertion in one critical section', 'task_scheduler::add_task'), ('look-up by id', 'task_scheduler::already_exists')])
prop('S02', 'Task scheduler: each due enabled task is handed to the pool exactly once',
     'Whenever the scheduler processes due tasks, every due task that is enabled is handed to the thread pool exactly once and no disabled task ever is. What the pool gets invokes that very task\'s callable, '
     'and user callables run nowhere but on the pool, never on the scheduler thread or inside a scheduler lock.',
     'histories schedules', 'every set of scheduled tasks, enabled or not, with or without interval',
     'Tests schedule one or two tasks at a time; that one task in a batch of due tasks is skipped, run twice or run while disabled depends on the neighbours.',
     TSF, [('loop over due tasks', 'task_scheduler::update_tasks')])
prop('S03', 'Task scheduler: one-shot tasks run once, recurring tasks keep their grid',
     'A processed one-shot task is no longer scheduled. A processed recurring task stays scheduled with the same callable, id, enabled flag and interval, disabled or not; its next start time is its previous one plus a whole positive number of intervals '
     'and does not lie before the time of processing. No other thread can see the tasks in between.',
     'histories inputs schedules', 'every start time, interval and delay of the scheduler thread',
     'Only runs delayed by several intervals tell a fixed grid from a drifting one; a task with the same id could be added in the window between removal and re-insertion.',
     TSF, [('re-insertion at start + k * interval', 'task_scheduler::update_tasks'), ('erase and merge in one critical section', 'task_scheduler::update_tasks')])
prop('S04', 'Task scheduler: no task starts before its time, none is removed unprocessed',
     'A task is handed to the pool only if its start time is not later than a clock reading made in the same round of processing. Each round visits every task that is due, and removes exactly the tasks it visited.',
     'histories schedules inputs', 'every set of start times, equal or not, in the past or in the future',
     'Tests use well separated start times; an off-by-one in the due range or an erased neighbour needs tasks at equal or adjacent times.',
     TSF, [('due range', 'task_scheduler::update_tasks'), ('erase of the processed range', 'task_scheduler::update_tasks')])
prop('S05', 'Task scheduler: start and stop switch once; nothing runs or stays after stop',
     'start() succeeds exactly when the scheduler was stopped, stop() exactly when it was running, and a call that reports failure has no effect. Tasks are accepted and handed to the pool only while the scheduler is running. '
     'When stop() or the destructor returns, no task is scheduled, the scheduler thread has been joined and the pool has been stopped.',
     'histories schedules', 'every sequence and interleaving of start, stop, additions, destruction and the scheduler thread',
     'Tests stop an idle scheduler from one thread; a task that slips in during stop, or two concurrent stops, need a particular interleaving.',
     TSF, [('running state changed under the mutex', 'task_scheduler::start / stop'), ('join, then pool stop', 'task_scheduler::stop')])
prop('S06', 'Task scheduler: the scheduler thread never oversleeps a task or a stop',
     'The scheduler thread sleeps at most until the start time of the earliest task then scheduled, without limit only if none is; adding a task, changing an interval and stopping wake it up without a window in which the wake-up is lost; '
     'and after a sleep that timed out the due tasks are processed before the next sleep.',
     'schedules histories', 'all interleavings of the scheduler thread with additions, updates and stop',
     'A lost wake-up falls into a window of nanoseconds; an addition earlier than the current deadline is the only history that shows a stale deadline.',
     TSF, [('deadline from the first element', 'task_scheduler::start (scheduler thread)'), ('notify after a change', 'task_scheduler::add_task / update_interval / stop')])
prop('S07', 'Task scheduler: operations on an id affect exactly the task with that id',
     'is_scheduled, is_enabled, set_enabled, remove_task, get_interval and update_interval report on, change or remove exactly the task that carries the given id, leaving all other tasks and all other properties of this task as they were; '
     'if no scheduled task carries the id (or an interval operation meets a one-shot task) they change nothing and report failure. An updated recurring task keeps its callable, id and enabled flag.',
     'histories inputs schedules', 'every set of scheduled tasks, with and without ids, every id asked for',
     'Tests schedule one task, so acting on a neighbour, on the first task or on a task without id is indistinguishable from acting on the right one.',
     TSF, [('look-up by id', 'task_scheduler::get_task_iterator'), ('change of interval', 'task_scheduler::update_interval')])
prop('S08', 'Task scheduler: at, in and every store what was asked for',
     'For every overload, the stored task has the requested start time (the time point; a clock reading of the call plus the delay; a clock reading of the call for periodic tasks), id and interval, is enabled, and its callable invokes the submitted callable with the submitted arguments in order, '
     'all captured by value. The future of a one-shot task belongs to that very execution; no future is handed out for a refused task.',
     'inputs schedules', 'every overload, callable, argument list, delay and interval; execution long after the call',
     'Tests cover some overloads with one argument; exchanged arguments or a reference to a dead local only shows with particular types and late execution.',
     TSF, [('construction of the task', 'task_scheduler::at / in / every')])
prop('S09', 'Task scheduler: every interval is positive, so catching up terminates',
     'Every stored interval is positive, whatever the caller passes. Hence the loops that advance a recurring task to its next start time always terminate, and neither the scheduler thread nor a caller can hang in them while holding the lock.',
     'inputs histories', 'every interval passed to every() or update_interval(), including zero and negative ones, and every delay of the scheduler thread',
     'Tests use positive intervals only; a hang for a zero or negative one is a loop bound no sample shows.',
     TSF, [('validation of intervals', 'task_scheduler::add_task / update_interval'), ('catch-up loops', 'task_scheduler::update_tasks / update_interval')])
prop('S10', 'Task scheduler: public operations are free of data races and deadlocks',
     'Any two public operations of one scheduler may be called concurrently, together with its scheduler thread and with tasks running on the pool that themselves call the scheduler (except stop), without a data race; '
     'locks are not acquired recursively or in conflicting orders, and no thread is joined while a lock it needs is held.',
     'schedules', 'all pairs of concurrent public calls, scheduler thread and running tasks',
     'Race-freedom is a statement about all interleavings; tests use one thread and no race detector.',
     TSF, [('one mutex for the tasks, one for the life cycle', 'task_scheduler')])
# ---------------------------------------------------------------- event dispatcher
EDF = [INC + 'event_dispatcher.hpp', 'sdk/src/event_dispatcher.cpp']
prop('E01', 'Event dispatcher: emit runs every handler of the event exactly once',
     'emit() hands the pool exactly one job for every handler registered under the event at one moment of the call, in registration order, and each job calls its handler once with copies of the emitted arguments in order. '
     'A job owns what it needs: removing the handler or returning from emit() cannot invalidate it. emit() returns true exactly if a handler was registered.',
     'histories schedules inputs', 'every set of handlers and argument list; handlers removed and added while the jobs are pending',
     'Tests register one or two handlers, wait for them and pass one argument; a dangling argument or a handler removed while its job is pending needs late execution.',
     EDF, [('snapshot of the handlers under the mutex', 'event_dispatcher::emit'), ('job owning handler and arguments', 'event_dispatcher::emit')])
prop('E02', 'Event dispatcher: an event is identified by its name and argument types',
     'A handler is called by exactly those emissions whose event name equals the one it was registered for and whose argument types, up to references and const, equal its own; no two different combinations of name and types are ever confused, whatever the names contain. '
     'A handler is never invoked through a type other than the one it was stored with.',
     'inputs', 'every pair of event names and argument type lists',
     'Confusion needs particular names or types (a name that contains the separator, types in another order), with undefined behaviour as result; tests use a handful of names and types.',
     EDF, [('routing key', 'event_dispatcher::get_event_handler_id'), ('cast of the stored handler', 'event_dispatcher::emit')])
prop('E03', 'Event dispatcher: registration adds one handler under a unique id',
     'add_handler() appends exactly one handler to those of the event, after the earlier ones, and changes no other. The returned id is the id of that handler and of no other handler the dispatcher ever has, also under concurrent registrations and after stop(). '
     'Calling the handler calls the given callable once, with the arguments in order.',
     'histories schedules', 'every sequence and interleaving of registrations, removals and stops',
     'Two registrations must interleave inside add_handler, or several dispatchers must live at once, for ids to collide; tests register from one thread.',
     EDF, [('id counter and insertion in one critical section', 'event_dispatcher::add_handler')])
prop('E04', 'Event dispatcher: removal affects exactly the given handler or event',
     'remove_handler() removes exactly the handler with the given id, remove_event() exactly the handlers registered under the given name, for all argument types; everything else stays registered in the same order. '
     'They return true exactly if something was removed, and an event whose last handler was removed no longer counts as having a handler.',
     'histories inputs', 'every set of events and handlers, every id and name',
     'Tests have one event with one or two handlers, so removing too much (neighbours, other events) or giving up the search too early is not visible.',
     EDF, [('search over all events', 'event_dispatcher::remove_handler'), ('removal by name', 'event_dispatcher::remove_event')])
prop('E05', 'Event dispatcher: start and stop control the pool, stop forgets all handlers',
     'start() starts the pool with the requested number of threads, stop() and the destructor stop it and unregister every handler; both return the pool\'s answer and nothing else starts or stops it. Handlers are executed by the pool\'s threads only, never by the thread that emits.',
     'histories schedules', 'every sequence and interleaving of start, stop, emissions and registrations',
     'Tests stop idle dispatchers and never look at handlers left behind or at the thread a handler runs on.',
     EDF, [('clear, then stop the pool', 'event_dispatcher::stop')])
prop('E06', 'Event dispatcher: public operations are free of data races and deadlocks',
     'Any two public operations of one dispatcher may be called concurrently, also from handlers running on the pool (except stop), without a data race; locks are not acquired recursively or in conflicting orders, and no user code runs while an internal lock is held.',
     'schedules', 'all pairs of concurrent public calls and running handlers',
     'Race-freedom is a statement about all interleavings; tests register and remove from one thread.',
     EDF, [('one mutex for the handlers', 'event_dispatcher')])
# ---------------------------------------------------------------- high precision timer
HTF = [INC + 'high_precision_timer.hpp', 'sdk/src/high_precision_timer.cpp']
prop('H01', 'Timer: the callback runs on its thread, when due, once per deadline',
     'The callback is invoked by the timer\'s own thread only, only while the timer is running, never before the current deadline, and exactly once per deadline: after start() has returned no deadline passes without an invocation until stop() is called, and nothing is invoked once stop() has returned.',
     'schedules histories', 'all interleavings of the timer thread with start and stop, every interval, every spurious wake-up',
     'A spurious wake-up or a stop() in the instant of a deadline cannot be produced by a test.',
     HTF, [('predicate wait until the deadline', 'high_precision_timer::worker')])
prop('H02', 'Timer: deadlines keep their grid and the counters add up',
     'The first deadline is one interval after start(); each following one is the previous plus a whole positive number k of intervals, does not lie before the end of the callback, and k is the smallest such number. After every callback the invoked counter has grown by one and the missed counter by k-1. '
     'start() resets both counters; nothing else changes them.',
     'inputs histories', 'every interval and every duration of the callback, including one that ends exactly on a deadline',
     'Tests compare counters within ranges for a few durations; a drifting grid or a counter off by one in rare situations stays inside the range.',
     HTF, [('catch-up loop', 'high_precision_timer::update_next_start_time'), ('reset of counters and deadline', 'high_precision_timer::start')])
prop('H03', 'Timer: start and stop switch exactly once and own one thread',
     'start() returns false, without any effect, exactly if no callback is set or the interval is not positive; otherwise the previous thread has ended, exactly one new thread runs, and the running state is raised before start() returns, so that no stop() can be overtaken by it. '
     'stop() and the destructor return only after the thread has ended, and the thread ends only because of them.',
     'histories schedules inputs', 'every sequence of start, stop, set_callback and destruction (not concurrent with each other), every interleaving with the thread, every interval',
     'A stop() between the start of the thread and the raising of the state needs an exact interleaving; it then hangs for ever.',
     HTF, [('hand-shake with the new thread', 'high_precision_timer::start'), ('lower, notify, join', 'high_precision_timer::stop')])
prop('H04', 'Timer: the thread never sleeps through a stop',
     'The timer thread sleeps only while the timer is running and never past the current deadline; no interleaving of stop() with the thread\'s test-and-sleep loses the wake-up, so stop() does not wait for the deadline.',
     'schedules', 'all interleavings of stop with the thread\'s test-and-sleep',
     'The window between test and sleep is nanoseconds wide.',
     HTF, [('predicate wait', 'high_precision_timer::worker'), ('state lowered under the mutex, then notify', 'high_precision_timer::stop')])
prop('H05', 'Timer: free of data races and deadlocks, also from the callback',
     'set_callback() and the counter queries may be called at any time from any thread, including from the running callback, concurrently with the timer thread and with start or stop, without a data race, deadlock, or destruction of the callback that is being executed.',
     'schedules', 'all interleavings of public calls with the timer thread (start, stop and destruction not concurrent with each other)',
     'Race-freedom is a statement about all interleavings; the test that replaces the callback is disabled because of the race it used to have.',
     HTF, [('one mutex for state and callback', 'high_precision_timer'), ('callback owned and lock released during the call', 'high_precision_timer::worker')])
prop('H06', 'Timer: the invoked callback is the one set, with its arguments copied',
     'Each invocation calls the callable most recently given to set_callback() before the deadline was reached, once, with the arguments given there, in order; callable and arguments were copied, so nothing of the calling scope is referred to.',
     'inputs histories', 'every callable and argument list; invocations long after set_callback() returned; callbacks replaced while running',
     'Tests keep the arguments alive and use one or two of distinct types.',
     HTF, [('capture by value', 'high_precision_timer::set_callback'), ('fetched after the wait', 'high_precision_timer::worker')])
# ---------------------------------------------------------------- observable
OBF = [INC + 'observable.hpp']
prop('O01', 'Observable: every change of the value is reported exactly once',
     'Assigning a value that differs from the current one stores it and then, if the callback is enabled, invokes the callback exactly once with the new value; assigning an equal value, construction, reading, and enabling or disabling the callback invoke nothing. '
     'value() and the conversions return the last value stored, callback_enabled() the last state set; a new observable holds the given value and has its callback enabled.',
     'inputs histories', 'every value type and sequence of assignments and enablings',
     'Tests use a few values of one or two types; a change that is reported twice, with the old value, or before it is stored shows only in callbacks that look.',
     OBF, [('compare, store, report', 'observable::set'), ('state of the callback', 'observable::callback_enabled')])
prop('O02', 'Observable: changes are atomic and free of data races',
     'All operations of one observable may be called concurrently without a data race. Comparing, storing and reporting a value is one atomic step, so the callback sees the changes one at a time and in the order in which they were stored, and is not invoked after callback_enabled(false) has returned. '
     'A callback that throws leaves the new value stored and the observable usable.',
     'schedules', 'all interleavings of the public operations (the callback does not use the observable that is calling it)',
     'The tests assign from one thread, where atomicity cannot be observed.',
     OBF, [('one critical section', 'observable::set')])
# ---------------------------------------------------------------- service locator
LOF = [INC + 'service_locator.hpp', 'sdk/src/service_locator.cpp']
prop('L01', 'Service locator: registration, removal and queries agree per type',
     'There is one locator. Registering a service or an instance under a type succeeds exactly if nothing is registered under that type, and unregister() exactly if something is; is_registered() and get() are consistent with this, and no operation on one type has an effect on another, whatever their names, their inheritance or the services behind them.',
     'histories inputs', 'every set of distinct types and every sequence of operations (not concurrent with each other)',
     'Tests use one or two types; types that collide in the key of the table (equal hash) or are related by inheritance cannot be enumerated by tests.',
     LOF, [('key of the table', 'service_locator::get_id'), ('registration', 'service_locator::register_service'), ('removal', 'service_locator::unregister')])
prop('L02', 'Service locator: get() returns exactly the service that was registered',
     'get<T>() returns the very object registered under T, or created for it with the given arguments in order, as a valid pointer to its T part, wherever T lies in the inheritance of the service; null if there is none. A refused registration does not replace the service; removing it leaves owners of the pointer unaffected.',
     'inputs histories', 'every inheritance relation of interface and service, every sequence of operations',
     'The pointer is wrong only for interfaces that are not the first base of the service; tests have interfaces with one base.',
     LOF, [('conversion before the type is erased', 'service_locator::register_service'), ('conversion back', 'service_locator::get')])
# ---------------------------------------------------------------- math and geometry
GEO = INC + 'geometry/'
prop('M01', 'Math: min and max of two, three and four values',
     'min() and max() of two, three or four values return one of the values, and no value is smaller (greater) than the result.',
     'inputs', 'every order of the arguments, equal ones included',
     'Tests try a few permutations of distinct values; with ties or other orders a wrong branch stays unseen.',
     [INC + 'math.hpp'], [('nested comparisons', 'tc::sdk::max'), ('nested comparisons', 'tc::sdk::min')])
prop('R01', 'Range: bounds, membership, clamping and mapping are consistent',
     'A range holds the bounds it is given. It contains v exactly if min <= v < max; clamp(v) is v within the bounds and else the nearest bound; map() takes 0 to min, 1 to max and is linear. '
     'set_min() and set_max() set their bound and keep min <= max by moving the other bound no more than needed. length, is_null and equality follow from the bounds.',
     'inputs', 'every pair of bounds with min <= max and every value (exact arithmetic)',
     'Tests use a few ranges around zero; wrong results at a bound, for negative bounds, or when one bound passes the other are easily missed.',
     [GEO + 'range.hpp'], [('order restored', 'range::set_min, range::set_max'), ('half-open interval', 'range::contains'), ('clamp', 'range::clamp')])
prop('R02', 'Range: containment, overlap, intersection and union agree',
     'A value is in the intersection of two ranges exactly if it is in both; intersects() is symmetric and true exactly if the ranges have a common value (for ranges that are not null); the intersection of disjoint ranges is null. The union is the smallest range containing both. '
     'Containment of ranges is reflexive, transitive and antisymmetric, and both operations do not depend on the order.',
     'inputs', 'every pair of ranges with min <= max: disjoint, touching, nested, equal, null',
     'The relation between two ranges has over a dozen cases, tests cover some of them with fixed numbers.',
     [GEO + 'range.hpp'], [('intersection', 'range::get_intersection'), ('union', 'range::get_union'), ('overlap', 'range::intersects')])
prop('R03', 'Point and size: accessors, equality and arithmetic by coordinates',
     'Points and sizes hold the values they are given; each setter changes its value only; equality compares all. Sum, difference, scaling and division act on both coordinates alike, the compound operators have the effect of the binary ones and return the object, also with itself as operand. '
     'The distance is the Euclidean one, symmetric, and that to the origin is distance_from_origin().',
     'inputs', 'all coordinates (exact arithmetic); integer and floating-point scalars',
     'Tests check sums of a few points; an exchanged coordinate that is equal in the test, or an operand used after it was changed, is not seen.',
     [GEO + 'point.hpp', GEO + 'size.hpp'], [('operators', 'point'), ('distance', 'point::distance')])
prop('R04', 'Line: ends, orientation and equality',
     'A line holds the ends it is given and each setter changes its end only. Two lines are equal exactly if they have the same ends in either order; a line is null, vertical or horizontal exactly if its ends are equal, have the same x, or the same y.',
     'inputs', 'all pairs of lines, with any number of equal coordinates',
     'Equality of undirected lines has many coincidences of coordinates; tests use lines with distinct ones.',
     [GEO + 'line.hpp'], [('equality', 'line::operator==')])
prop('R05', 'Line: intersection is the common point of two segments, if there is one',
     'get_intersection() yields a point exactly if the lines are not parallel and have a common point, their ends included, and it is that point; otherwise nothing. intersects() says whether it does; it is symmetric and does not depend on the direction of the lines. No division by zero reaches the result.',
     'inputs', 'all pairs of lines: crossing, touching at an end, parallel, collinear, null (exact arithmetic)',
     'Tests check a few crossing lines; touching ends, steep slopes, negative parameters and degenerate lines form a continuum.',
     [GEO + 'line.hpp'], [('parameters of the common point', 'line::get_intersection')])
prop('R06', 'Rectangle: accessors, corners, equality, translation, inner points',
     'A rectangle holds the position and sides it is given, each setter changes its value only, and corners, centre, size and area follow from them. translate() and translated() move the position only. contains(point) holds exactly for the points strictly between the sides; is_null() exactly if no side is positive.',
     'inputs', 'all positions and sides (exact arithmetic)',
     'Tests use a few rectangles, often squares or at the origin, where exchanged sides or coordinates are not visible.',
     [GEO + 'rectangle.hpp'], [('corners', 'rectangle::top_right, bottom_left, bottom_right'), ('translation', 'rectangle::translated'), ('strict interior', 'rectangle::contains')])
prop('R07', 'Rectangle: containment, overlap, intersection and union agree',
     'A point lies inside the intersection of two rectangles exactly if it lies inside both; intersects() is symmetric and true exactly if they overlap in both directions, which is when the intersection has an area. The union is the smallest rectangle that covers both; null rectangles overlap nothing and do not count in a union. '
     'A rectangle contains another strictly, i.e. exactly if it contains all of its corners.',
     'inputs', 'all pairs of rectangles whose sides are both positive, or null (exact arithmetic)',
     'Two rectangles can lie to each other in over a hundred ways; tests cover a few, with fixed numbers.',
     [GEO + 'rectangle.hpp'], [('intersection', 'rectangle::get_intersection'), ('union', 'rectangle::get_union'), ('containment', 'rectangle::contains')])
prop('R08', 'Rectangle: a line intersects it if it ends inside or crosses a side',
     'intersects(line) is true exactly if an end of the line lies strictly inside the rectangle or the line has a point in common with one of its four sides (in the sense of line::intersects).',
     'inputs', 'all lines and rectangles',
     'Of the four sides and two ends tests hit some; a line that touches only one of them distinguishes the cases.',
     [GEO + 'rectangle.hpp'], [('four sides', 'rectangle::intersects')])

prop('R09', 'Geometry texts show every value in its place',
     'to_string() of a point is "(x, y)", of a size "(widthxheight)", of a range "(min:max)", of a line "(start : end)" with the texts of its ends, of a rectangle "position : (widthxheight)"; each number is rendered like std::to_string does. operator<< writes exactly that text into the stream and can be chained.',
     'inputs', 'all values of int, long, float and double',
     'Tests compare a few texts, mostly of values that are equal or have the same number of digits, and none of a rectangle.',
     [GEO + 'point.hpp', GEO + 'size.hpp', GEO + 'range.hpp', GEO + 'line.hpp', GEO + 'rectangle.hpp'], [('text', 'to_string, operator<<')])

# ---------------------------------------------------------------- date and time
DT = INC + 'datetime/'
prop('D01', 'Timedelta: components, totals, arithmetic and comparison agree',
     'A timedelta holds exactly the sum of the durations it is given. hours() to nanoseconds() add up to it, hours are the whole ones (rounded down) and each smaller component lies within its range, also for negative durations; total_x() is the duration truncated to the unit. Addition, subtraction, multiplication, division and comparison are those of the durations; is_null() is true exactly for zero. Division by zero throws std::domain_error, and no other division throws.',
     'inputs', 'all durations and factors (exact arithmetic)',
     'Tests use a few positive durations; rounding of negative ones and of values next to unit boundaries is different.',
     [DT + 'timedelta.hpp', 'sdk/src/datetime/timedelta.cpp'], [('components', 'timedelta::hours .. nanoseconds'), ('division', 'timedelta::operator/')])
prop('D02', 'Date: calendar fields, order, difference and shifts agree with the days',
     'A date made from a time point is the day that time point lies in, also before the epoch; its fields, weekday and validity are those of its calendar day, and a default date is not valid. Dates compare like their days (total, strict, transitive). The difference of two dates is that of the days, and adding it to one gives the other; a sum or difference with a timedelta is the day it lies in, whole days can be added and subtracted again.',
     'inputs', 'all days and durations (exact arithmetic; calendar conversion of std::chrono trusted)',
     'Tests use a few dates after 1970 and whole days; time points before the epoch and partial days round differently.',
     [DT + 'date.hpp', 'sdk/src/datetime/date.cpp'], [('day of a time point', 'date::date'), ('order', 'date::operator<'), ('shifts', 'date::operator+, operator-')])
prop('D03', 'Time: a duration within a day; components, order and arithmetic agree',
     'A time is the given duration (or sum of durations) modulo 24 hours. For non-negative times the components add up to it and lie within their ranges. Times compare like their durations; the difference and sum of times are those of the durations; a sum or difference with a timedelta is taken modulo a day. A given time is valid, a default one is not.',
     'inputs', 'all durations (exact arithmetic)',
     'Tests use a few times; overflow past midnight and boundaries between units form a continuum.',
     [DT + 'time.hpp', 'sdk/src/datetime/time.cpp'], [('modulo a day', 'time::time'), ('components', 'time::hours .. nanoseconds')])
prop('D04', 'Datetime: composition and decomposition are inverse; order and arithmetic agree',
     'A datetime holds the time point it is given, or the one composed of date, time or components. date() and time() decompose it into the day it lies in and a time within that day, also before the epoch, and date and time compose it again. Comparison, sums with timedelta and differences are those of the time points. It is valid exactly if it is not one of the extreme time points.',
     'inputs', 'all time points, dates, times and durations (exact arithmetic)',
     'Tests decompose a few time points after 1970; rounding before the epoch and around midnight differs.',
     [DT + 'datetime.hpp', 'sdk/src/datetime/datetime.cpp'], [('decomposition', 'datetime::date, datetime::time'), ('composition', 'datetime::datetime'), ('validity', 'datetime::is_valid')])
prop('D05', 'today() and utc_now() are the clock reading, cut to the precision',
     'date::today() is the day of the current system time; time::utc_now<D>() is the time of day and datetime::utc_now<D>() the time point of the current system time, cut down to whole D, for every precision D.',
     'inputs schedules', 'all clock readings after 1970, all precisions',
     'Tests compare with the clock they run on, with tolerance, and only for few precisions; what happens near midnight is not reached.',
     [DT + 'date.hpp', DT + 'time.hpp', DT + 'datetime.hpp', 'sdk/src/datetime/date.cpp', 'sdk/src/datetime/time.cpp', 'sdk/src/datetime/datetime.cpp'], [('clock', 'utc_now, today')])
prop('D06', 'Text that cannot be parsed is rejected; parsed and formatted values are right',
     'from_string() of date, time and datetime throws std::runtime_error exactly if the stream reports that the text does not fit the format; otherwise it returns exactly the parsed value. to_string() formats exactly the value, cut to the requested precision, with the given format.',
     'inputs faults', 'all texts, formats, values after the epoch and precisions; relative to the bundled date library',
     'Tests parse a few texts per type and precision.',
     ['sdk/src/datetime/date.cpp', 'sdk/src/datetime/time.cpp', 'sdk/src/datetime/datetime.cpp'], [('failure', 'from_string'), ('precision', 'to_string')])

prop('D07', 'Timedelta text is [-]HH:MM:SS[.fraction], filled with zeros',
     'to_string<D>() of a timedelta is the duration truncated to D: a minus sign exactly if that is negative, the whole hours in at least two digits, minutes and seconds in two digits each, and for milliseconds, microseconds and nanoseconds a dot and the fraction in three, six or nine digits. The default is milliseconds; operator<< writes exactly that text and can be chained.',
     'inputs', 'all durations and the four precisions (exact arithmetic)',
     'Tests compare the texts of a few durations; the sign of durations around zero and fractions with few digits are decided by values they do not use.',
     [DT + 'timedelta.hpp', 'sdk/src/datetime/timedelta.cpp'], [('text', 'timedelta::to_string'), ('stream', 'operator<<')])

# ---------------------------------------------------------------- stopwatch, rate limiter, signals
prop('K01', 'Stopwatch: elapsed time is that since construction or the last reset',
     'A stopwatch reads the steady clock when it is constructed and when it is reset; start_time() is that reading. elapsed() reads the clock when asked and returns the difference to the start time, without changing it; elapsed<D>() is the same duration converted to D.',
     'inputs histories', 'all clock readings; every unit from hours to nanoseconds',
     'Tests sleep for some milliseconds and compare with a tolerance; an elapsed time of another reset, or a unit mixed up, can hide in it.',
     [INC + 'stopwatch.hpp', INC + 'clock.hpp'], [('readings', 'stopwatch::stopwatch, elapsed, reset')])
prop('K02', 'Rate limiter: the k-th sync() waits until start + k / rate, without drift',
     'A rate limiter for n calls per second lets the k-th sync() return no earlier than k/n seconds after construction: each sync() sleeps until a deadline that depends only on the construction time, the rate and the number of calls, so delays do not add up.',
     'inputs histories', 'all rates greater than zero; construction and three calls in sequence (exact arithmetic)',
     'Tests measure a few rates with tolerance; a drift of some nanoseconds per call, or a deadline relative to the call, is not visible in them.',
     [INC + 'rate_limiter.hpp', 'sdk/src/rate_limiter.cpp'], [('deadline', 'rate_limiter::sync')])
prop('G01', 'Signals: each handled signal reaches the callback, then releases the waiter',
     'After install_signal_handlers(f), SIGINT, SIGABRT and SIGTERM each call f once with the name and the number of the signal, and then let one wait_for_quit() return; quit(message, number) does the same with its arguments. Without a callback the waiter is released all the same. wait_for_quit() returns only after such a release; any number of releases may precede it.',
     'schedules histories', 'every order of installation, signals, quit() and wait_for_quit(); each signal',
     'Tests raise signals one at a time, after installation; a signal during installation, without callback or twice before the wait is not tried.',
     [INC + 'signal_handler.hpp', 'sdk/src/signal_handler.cpp'], [('callback then release', 'quit'), ('registration', 'install_signal_handlers'), ('names', 'signal_handler')])

# ---------------------------------------------------------------- type level
prop('C01', 'Objects that stand for one thing can be neither copied nor moved',
     'A class derived from non_copyable cannot be copied but can be moved; one derived from non_moveable can be neither copied nor moved; neither base can be created or destroyed on its own, and neither costs space. Thread pool, scheduler, dispatcher, timer, queue, rate limiter, stopwatch and service locator can be neither copied nor moved; a task cannot be copied.',
     'programs', 'every program that uses the types (decided at type level)',
     'A test cannot contain code that must not compile.',
     [INC + 'non_copyable.hpp', INC + 'non_moveable.hpp', INC + 'thread_pool.hpp', INC + 'task_scheduler.hpp', INC + 'event_dispatcher.hpp', INC + 'high_precision_timer.hpp', INC + 'blocking_queue.hpp', INC + 'rate_limiter.hpp', INC + 'stopwatch.hpp', INC + 'service_locator.hpp', INC + 'task.hpp'],
     [('deleted members', 'non_copyable, non_moveable'), ('private bases', 'class definitions')])
prop('C02', 'A singleton has one instance, shared by all threads, and no second can be made',
     'instance() of a singleton (and of the uuid generator and the service locator) returns a reference to the same static object in every call and thread. The constructor of a singleton may be private; no singleton can be copied, moved or, for the library\'s own, constructed by others.',
     'programs schedules', 'every derived class, every thread',
     'Tests compare two calls in one thread; thread-local instances and copies are not noticed.',
     [INC + 'singleton.hpp', INC + 'uuid_generator.hpp', 'sdk/src/uuid_generator.cpp', INC + 'service_locator.hpp'], [('static object', 'singleton::instance')])
prop('C03', 'Function traits name the result and the decayed parameters of any callable',
     'For functions, pointers and references to functions, member functions, lambdas (also mutable) and function objects, function_traits gives the result type, the function type with decayed parameters in their order, and a std::function of that type.',
     'programs', 'every kind of callable',
     'Tests instantiate a few; a wrong type often converts silently.',
     [INC + 'function_traits.hpp'], [('specialisations', 'function_traits')])
prop('C04', 'Clock types are steady and chrono types are told apart; nothing converts unasked',
     'tc::sdk::clock is a steady clock; time_point and time_duration belong to it and sys_time_point to the system clock in nanoseconds. is_duration, is_time_point and is_std_chrono are true exactly for such types. No duration, calendar day, time point, date or time converts implicitly into a timedelta, date, time or datetime.',
     'programs', 'every program that uses the types (decided at type level)',
     'Whether a clock may jump or a conversion happens silently does not show in a test.',
     [INC + 'clock.hpp', DT + 'timedelta.hpp', DT + 'date.hpp', DT + 'time.hpp', DT + 'datetime.hpp'], [('clock', 'clock.hpp'), ('explicit constructors', 'datetime/*.hpp')])
prop('C05', 'Geometry types and uuids are values; a uuid is made by the generator only',
     'Points, sizes, lines, rectangles, ranges and uuids can be copied, moved and assigned; dates, times and datetimes can be assigned. A uuid is trivially copyable and consists of its 16 bytes; it cannot be made from raw bytes by others.',
     'programs', 'every program that uses the types (decided at type level)',
     'A test that copies one value says nothing about the others, nor about code that must not compile.',
     [GEO + 'point.hpp', GEO + 'size.hpp', GEO + 'line.hpp', GEO + 'rectangle.hpp', GEO + 'range.hpp', INC + 'uuid.hpp', DT + 'date.hpp', DT + 'time.hpp', DT + 'datetime.hpp'], [('special members', 'class definitions')])
prop('C06', 'Each public header can be included alone, repeatedly and in several units',
     'Every public header compiles when it is the only one included, when it is included twice, and together with all others in any of two orders. No header defines anything that two translation units could not both contain.',
     'programs', 'every public header; every definition in them',
     'The tests include headers in one order, each once, and never link two units with the same header where it matters.',
     [INC + 'argparse/flag_argument.hpp', INC + 'argparse/optional_argument.hpp', INC + 'argparse/positional_argument.hpp', INC + 'thread_pool.hpp'], [('include guards, inline definitions', 'all of sdk/include')])

# ---------------------------------------------------------------- command line
ARG = [INC + 'argparse/argument_parser.hpp', INC + 'argparse/argument_base.hpp', INC + 'argparse/optional_argument.hpp', INC + 'argparse/positional_argument.hpp', INC + 'argparse/flag_argument.hpp', 'sdk/src/argparse/argument_parser.cpp']
prop('A01', 'Options: each gets its own last value; an option without value is an error',
     'An option may be given as --name=value, -n=value, --name value or -n value, in any order and repeatedly, with any non-empty value (also one that starts with a dash or contains =). parse() then sets exactly the variables of the given options, each to its last value; the others keep their defaults. A name at the end without value is an error.',
     'inputs', 'all values; the forms and orders of the laws (up to three options)',
     'Tests use a few fixed command lines; a value confused with a name, or the variable of another option, shows only for particular texts.',
     ARG, [('dispatch', 'argument_parser::parse'), ('name and value', 'split_key_value'), ('lookup', 'find_argument')])
prop('A02', 'Flags and positional arguments: set in order, none missing, none too many',
     'A flag sets its variable to true and consumes nothing; flags not given keep their values. Tokens that do not start with a dash go to the positional arguments in the order of declaration, wherever they stand among flags and options. A missing or surplus positional argument is an error.',
     'inputs', 'all texts; the mixtures of the laws',
     'Tests use a few fixed command lines and texts.',
     ARG, [('positional arguments', 'argument_parser::parse'), ('completeness', 'check_parsed_arguments')])
prop('A03', 'A token that names no argument is an error and changes nothing',
     'A name that belongs to no option or flag, with or without value, a token without name (a dash or dashes alone, -=v, --=v), three dashes and a text that no positional argument takes make parse() return error; no variable is changed by it, in particular none of an argument without short name.',
     'inputs', 'all texts as unknown names and values',
     'Tests try one or two unknown names; the empty name, a prefix or a case variant of a known one are not among them.',
     ARG, [('lookup', 'find_argument'), ('classification', 'is_option, is_long_option, is_short_option')])
prop('A04', 'Help and version requests end the parsing with quit',
     '--help, -h, --version and -v make parse() return quit, before or after other arguments and whether or not required arguments are present; as the value of an option they are values.',
     'inputs', 'all texts around the request',
     'Tests give the request alone.',
     ARG, [('requests', 'argument_parser::parse')])
prop('A05', 'Missing required options are errors',
     'parse() succeeds only if each required option was given; options that are not required may be missing.',
     'inputs', 'all values; the subsets of the laws',
     'Tests try one missing option.',
     ARG, [('completeness', 'check_parsed_arguments')])
prop('A06', 'A value is accepted exactly if it converts, and the converted value is stored',
     'For options and positional arguments of type int, float, double, text, path, other streamable types and lists of them: parse() succeeds exactly if the text (each item of the list) converts to the type, and then stores the converted value (the items in order); otherwise it returns error and leaves an option\'s variable alone. No exception leaves parse().',
     'inputs faults', 'all texts, relative to the conversions of the standard library; lists of one and three items',
     'Tests convert a few texts per type; an exception of another type than expected leaves parse() or ends the program only for particular texts.',
     ARG, [('conversion', 'argument_base::convert'), ('error mapping', 'argument_parser::parse')])
prop('A07', 'Validators decide: asked once about each converted value',
     'The validator of an option is called exactly once per converted value, with that value; parse() succeeds exactly if it accepts. A rejected value leaves the variable alone.',
     'inputs', 'all texts and verdicts',
     'Tests use one validator with few values; the order of storing and validating is not visible in them.',
     ARG, [('validation', 'optional_argument::parse')])
prop('A08', 'Environment variables act like arguments, and the command line prevails',
     'An option or flag with an environment variable takes its value from there if it is set (a required option is then present), under the same conversion and error rules as on the command line: an invalid value makes parse() return error. The command line prevails. Without the variable nothing changes.',
     'inputs faults', 'all contents of the environment variable, set and unset',
     'Tests set valid values; an invalid one ended the program.',
     ARG, [('environment', 'argument_base::parse_from_env')])
prop('A09', 'Texts stored as const char* outlive the parsing',
     'For options, positional arguments and lists of type const char*, the stored pointer points to the given text in an object that lives as long as the argument.',
     'inputs histories', 'all texts, from tokens, name=value and the environment',
     'Reading freed memory often yields the expected text.',
     ARG, [('conversion', 'argument_base::convert<const char*>')])
prop('A10', 'Help shows every argument; errors name what is wrong; success is silent',
     'The help text contains the program\'s name, version and description and, for each option, flag and positional argument, its names, description and environment variable. A request for the version shows program name and version. For each error, the text on std::cerr names the offending token, or the argument and the text, or all missing required arguments and no other. A successful parsing writes nothing.',
     'inputs', 'all names, descriptions and values; the declarations of the laws',
     'Tests do not look at the output.',
     ARG, [('help', 'print_help, print_usage, print_arguments'), ('errors', 'argument_parser::parse')])
prop('A11', 'Argument objects know their properties and whether they have been parsed',
     'Optional, flag and positional arguments return the name, short name, description, environment variable and required state they were made with (an option is not required unless stated, a positional argument always is); options set their variable to the default when made, positional arguments to the empty value, flags leave it alone. is_parsed() is false until parse() or parse_from_env() has taken a value, and a value that is refused changes neither it nor the variable.',
     'inputs histories', 'all names, texts and values',
     'Tests use one name and a few values per type; a refused value that marks the argument as parsed is not tried.',
     ARG, [('construction', 'argument_base, optional_argument, flag_argument, positional_argument'), ('parse', 'parse')])
# ---------------------------------------------------------------- uuid
UU = [INC + 'uuid.hpp', INC + 'uuid_generator.hpp', 'sdk/src/uuid.cpp', 'sdk/src/uuid_generator.cpp']
prop('U01', 'UUID: a created uuid is version 4 with 122 random bits, drawn anew',
     'create() returns a uuid whose version digit is 4 and whose variant bits are 10, whatever the random numbers; the remaining 122 bits each come from their own bit of random words of the full range, drawn anew for each uuid '
     'from an engine seeded by std::random_device.',
     'inputs', 'all values of the random words, byte by byte (the other bytes all zeros or all ones); two uuids in a row',
     'Tests create a few random uuids: a version or variant wrong for some values, bytes that never vary, or a fixed seed go unnoticed.',
     UU, [('fill, then version and variant', 'uuid_generator::create'), ('seeding', 'uuid_generator::uuid_generator')])
prop('U02', 'UUID: the text is the canonical form and stands for the same uuid',
     'to_string() and operator<< give 36 characters: the 16 bytes in order as lower case hexadecimal digits, grouped 8-4-4-4-12 by dashes; the default uuid is all zeros; from_string() of the text returns an equal uuid.',
     'inputs', 'all values of each byte, the others fixed',
     'Tests compare a handful of uuids; a wrong digit for one nibble value or two exchanged bytes need the right constant.',
     UU, [('digits and dashes', 'uuid::to_string')])
prop('U03', 'UUID: all accepted spellings of a uuid give the same uuid',
     'Upper and lower case digits, with or without dashes, with or without surrounding braces, from_string() returns the same uuid, with each digit in its place.',
     'inputs', 'all pairs of digits in either case at each byte, the other digits fixed; four spellings',
     'Tests parse a few texts and do not combine braces, case and dashes for each position.',
     UU, [('digits', 'uuid_generator::from_string, is_hex, hex_to_uint8')])
prop('U04', 'UUID: is_valid() and from_string() agree on what is a uuid',
     'A text is a uuid if, apart from dashes and from one pair of braces around it, it consists of exactly 32 hexadecimal digits. is_valid() returns true exactly for these texts; from_string() throws std::runtime_error for all others, and nothing else. '
     'Neither reads outside the text or writes outside the sixteen bytes.',
     'inputs faults', 'all characters at every position, inserted and missing characters, 0 to 72 digits, all pairs of first and last character',
     'Tests try a dozen invalid texts; a buffer overrun by one digit or a bad character class boundary ("g", "/", ":") is not among them.',
     UU, [('validation', 'uuid_generator::is_valid, uuid_generator::from_string')])
prop('U05', 'UUID: comparisons are a total order by the bytes',
     'Two uuids are equal exactly if all bytes are; < orders them by the first byte that differs, as unsigned numbers; >, <=, >=, != agree with it; a copy is equal to its original.',
     'inputs', 'all values of each byte against a fixed uuid, pairs of positions for precedence',
     'Tests compare two or three uuids; bytes above 0x7f or differences in the last byte are not covered.',
     UU, [('comparison', 'uuid::operator==, operator<, operator>, operator<=, operator>=')])
