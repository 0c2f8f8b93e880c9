#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run to regenerate)."""
import json, os
D = "boost/asynchronous/"
S = D + "scheduler/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

POOLS = [S+f for f in ("threadpool_scheduler.hpp","single_thread_scheduler.hpp","multiqueue_threadpool_scheduler.hpp",
  "stealing_threadpool_scheduler.hpp","stealing_multiqueue_threadpool_scheduler.hpp","multiple_thread_scheduler.hpp","io_threadpool_scheduler.hpp")]
ASIO = D+"extensions/asio/asio_scheduler.hpp"
TCPS = S+"tcp/tcp_server_scheduler.hpp"

prop("C01","A job taken from a queue is executed exactly once",
 "Whenever a worker thread of any scheduler takes a job out of a queue (its own, or one it steals from), it executes that very job exactly once before taking another one, whichever way the step ends. A worker never executes a job it did not obtain, and the step reports having done work exactly when it obtained a job.",
 ["schedules","histories"],"every worker step of every scheduler kind, over every outcome of the queue operations and of the job",
 "the tests run a few jobs on lightly loaded pools; losing or duplicating a job needs a particular outcome of pop and steal in one step",
 POOLS+[ASIO,TCPS],
 [("worker step",S+"threadpool_scheduler.hpp: execute_one_job"),("steal path",S+"stealing_threadpool_scheduler.hpp: execute_one_job"),("private task dispatch",S+"threadpool_scheduler.hpp: run"),("slot dispatch",S+"multiple_thread_scheduler.hpp: execute_one_job"),("forwarding to remote clients",TCPS+": execute_one_job")])

prop("C02","Exceptions thrown by jobs never terminate a worker",
 "A standard exception or a thread interruption leaving a user job or a continuation never leaves the worker's loop: the worker goes on serving its queues. Only the termination task ends a worker loop, and internal tasks sent to a worker that fail do not end it either.",
 ["fault_sequences","schedules"],"every job that throws, at every point of the worker loop of every scheduler kind, including jobs run while shutting down",
 "tests throw from a handful of jobs on two pool kinds and never while draining",
 POOLS+[ASIO,TCPS],
 [("handlers of the worker step",S+"threadpool_scheduler.hpp: execute_one_job"),("handlers of the loop",S+"threadpool_scheduler.hpp: run"),("io services",ASIO+": execute_one_job, run")])

prop("C03","Every executed job leaves one complete diagnostics record",
 "For every job a worker executes, start time and executing thread are recorded before it runs, the job is shown as current exactly while it runs, and once it has ended its finish time is set and one record is stored, whether it returned or threw. A record is marked failed exactly when the job threw.",
 ["schedules","fault_sequences"],"every worker step of every scheduler kind and every way a job can end",
 "diagnostics tests look at successful jobs on two pools; exceptional ends of jobs on the other pools are never looked at",
 POOLS+[D+"job_traits.hpp",D+"diagnostics/diagnostics_table.hpp",D+"diagnostics/default_loggable_job.hpp"],
 [("logging calls around the job",S+"threadpool_scheduler.hpp: execute_one_job"),("traits",D+"job_traits.hpp: set_started_time, set_finished_time, add_diagnostic"),("table",D+"diagnostics/diagnostics_table.hpp: add, set_current, reset_current")])

prop("C04","Shutdown executes queued work and ends every worker",
 "Destroying a scheduler hands exactly one termination task to each of its workers, through the queue that only this worker reads. On receiving it a worker first executes the jobs still queued, then releases its thread handle and leaves its loop; nothing else makes it leave.",
 ["schedules","histories"],"every scheduler kind, every number of workers, and every backlog at destruction",
 "tests destroy almost idle pools; a skipped drain, a missing or a doubled termination task only shows with backlog or odd worker counts",
 POOLS+[ASIO,TCPS,S+"detail/scheduler_helpers.hpp"],
 [("termination tasks",S+"threadpool_scheduler.hpp: ~threadpool_scheduler"),("drain",S+"threadpool_scheduler.hpp: run"),("termination task",S+"detail/scheduler_helpers.hpp: default_termination_task")])

prop("C05","The last proxy stops the scheduler and joins all of its workers",
 "When the last proxy of a scheduler is destroyed, it first releases the scheduler, which queues the termination tasks, and then joins every worker thread before destruction returns; the wait cannot be cut short by an interruption. Schedulers promoted from a weak reference, as used in worker threads, never join.",
 ["schedules","configurations"],"every proxy kind, and destruction from any thread",
 "self-destruction of a pool from its own worker depends on which thread drops the last reference",
 [D+"scheduler_shared_proxy.hpp",S+"detail/scheduler_helpers.hpp",D+"detail/any_joinable.hpp"],
 [("proxy destructors",D+"scheduler_shared_proxy.hpp: ~scheduler_shared_proxy, ~io_scheduler_shared_proxy"),("joining",D+"scheduler_shared_proxy.hpp: join")])

prop("C06","Workers know their scheduler before any job runs",
 "Before executing anything, each worker registers itself as a thread of its scheduler: a job can always get the scheduler it runs in, the worker's own thread handle, and the list of pending continuations of its thread. The ids a scheduler reports are those of all its worker threads, one each.",
 ["schedules","configurations"],"every worker thread of every scheduler kind and every size",
 "tests query one or two pool kinds; a worker set up late is only seen if a job arrives first",
 POOLS+[ASIO,TCPS,S+"tss_scheduler.hpp"],
 [("thread start",S+"threadpool_scheduler.hpp: run"),("ids",S+"threadpool_scheduler.hpp: init, thread_ids"),("tss",S+"tss_scheduler.hpp: get_thread_scheduler")])

prop("C07","Requests to all worker threads reach each of them exactly once",
 "A request addressed to all worker threads (execute in all threads, set thread names, bind to processors) is handed to every worker exactly once, through that worker's own queue (io service with asio). For execution requests the returned futures number one per worker and each becomes ready with success or with the exception the callable threw.",
 ["configurations","fault_sequences"],"every scheduler kind including composites, every worker count, and callables that throw",
 "tests use small pools and callables that do not throw",
 POOLS+[ASIO,S+"composite_threadpool_scheduler.hpp",S+"detail/execute_in_all_threads.hpp"],
 [("fan-out",S+"threadpool_scheduler.hpp: execute_in_all_threads, set_name, processor_bind"),("task",S+"detail/execute_in_all_threads.hpp"),("composite",S+"composite_threadpool_scheduler.hpp: execute_in_all_threads")])

prop("C08","Stealing only takes what cannot be served locally and never blocks",
 "A stealing worker looks at other queues only after its own queue had nothing, takes at most one job per step from them, and only through the queues' stealing operation. Pools which do not steal never touch queues of others.",
 ["schedules"],"every step of every stealing worker and every queue arrangement",
 "which queue a job comes from is not observable in the tests, which only check that all jobs ran",
 [S+"stealing_threadpool_scheduler.hpp",S+"stealing_multiqueue_threadpool_scheduler.hpp",S+"multiqueue_threadpool_scheduler.hpp",ASIO,TCPS],
 [("steal",S+"stealing_threadpool_scheduler.hpp: execute_one_job"),("steal across own queues",S+"stealing_multiqueue_threadpool_scheduler.hpp: execute_one_job")])

prop("C09","Jobs posted to one slot of a multiple-thread scheduler never overlap",
 "In a scheduler whose threads share client slots, at most one thread executes jobs of a given slot at any time, and the slot is released again on every way out, including a throwing job. Within a slot jobs are taken from that slot's queue only.",
 ["schedules","fault_sequences"],"all interleavings of the pool's threads over the slots and all endings of a job",
 "overlap or a stuck slot needs a specific interleaving or a throwing job, tests only count results",
 [S+"multiple_thread_scheduler.hpp"],
 [("slot ownership flag",S+"multiple_thread_scheduler.hpp: execute_one_job")],
 [("m_taken","slot is being served",S+"multiple_thread_scheduler.hpp")])

prop("C10","Job queues neither lose, duplicate nor invent elements",
 "Each queue stores every element pushed into it once, and a successful pop or steal hands out exactly one stored element and removes it; an unsuccessful one leaves queue and output alone and says so. The size a queue reports is incremented once per stored and decremented once per removed element.",
 ["schedules","histories"],"every operation sequence on every queue kind, concurrent or not",
 "queue tests push and pop a few elements from two threads",
 [D+"queue/"+f for f in ("lockfree_queue.hpp","lockfree_stack.hpp","lockfree_spsc_queue.hpp","guarded_deque.hpp","circular_queue.hpp","threadsafe_list.hpp","any_queue_container.hpp","queue_converter.hpp","detail/lockfree_size.hpp")],
 [("push/try_pop/try_steal","every queue class"),("size accounting",D+"queue/detail/lockfree_size.hpp")])

prop("C11","Shared queue state is only accessed under its lock",
 "Every access to the element storage of a lock-based queue, list, diagnostics table or interruption state happens while the lock protecting it is held, and the lock is released on every exit. A consumer that has to wait re-checks its condition while holding that lock.",
 ["schedules"],"all interleavings of producers, consumers and observers",
 "data races show rarely and the tests run without a race detector",
 [D+"queue/guarded_deque.hpp",D+"queue/circular_queue.hpp",D+"queue/threadsafe_list.hpp",D+"diagnostics/diagnostics_table.hpp",S+"detail/interrupt_state.hpp",D+"queue/any_queue_container.hpp"],
 [("mutexes",D+"queue/guarded_deque.hpp, circular_queue.hpp, threadsafe_list.hpp"),("mutex",D+"diagnostics/diagnostics_table.hpp"),("mutex",S+"detail/interrupt_state.hpp")])

prop("C12","Queues keep their documented order",
 "Queues documented as first-in first-out hand out the oldest element when popped, the stack hands out the newest; containers of several queues serve higher-priority queues before lower ones when popping and put a job into the queue its priority designates, whatever the number of queues.",
 ["histories","inputs"],"every push/pop history and every priority value including out-of-range ones",
 "tests check one order on one queue arrangement",
 [D+"queue/"+f for f in ("guarded_deque.hpp","circular_queue.hpp","threadsafe_list.hpp","lockfree_queue.hpp","lockfree_stack.hpp","lockfree_spsc_queue.hpp","any_queue_container.hpp","find_queue_position.hpp")],
 [("ends used by push/pop","queue classes"),("priority to queue",D+"queue/any_queue_container.hpp: push, try_pop"),("position",D+"queue/find_queue_position.hpp")])

prop("C13","Priority, name and job reach the queue unchanged",
 "The job, its priority and its log name given to any posting call (future, callback, self-post, continuation, proxy, weak scheduler, servant, composite) are the ones the job is finally queued with, exactly once. Interruptible posting behaves like plain posting in this respect.",
 ["programs","inputs"],"every posting entry point and layer, with every priority and name",
 "tests mostly post with default priority and do not look at the name or the queue chosen",
 [D+"post.hpp",D+"scheduler_shared_proxy.hpp",D+"any_shared_scheduler_proxy.hpp",D+"any_scheduler.hpp",S+"detail/single_queue_scheduler_policy.hpp",S+"detail/multi_queue_scheduler_policy.hpp",S+"multiple_thread_scheduler.hpp",S+"composite_threadpool_scheduler.hpp",D+"trackable_servant.hpp",D+"servant_proxy.hpp"],
 [("forwarding layers",D+"scheduler_shared_proxy.hpp: post, interruptible_post"),("posting functions",D+"post.hpp"),("servant",D+"trackable_servant.hpp: post_callback, post_future, post_self")])

prop("C14","A posted task's future always becomes ready with its outcome",
 "A future obtained by posting a task becomes ready exactly once: with the value the task returned (or its continuation produced), or with the exception that left it. No outcome of the task, its continuation or its interruption leaves the future without result or turns a failure into a success.",
 ["fault_sequences","programs"],"every posting flavour that returns a future, every task outcome",
 "tests cover value and exception of the main flavours, not continuations that fail with void results or serialized ones",
 [D+"post.hpp"],
 [("post_future_helper_base and continuation variants",D+"post.hpp")])

prop("C15","A posted callback runs exactly once, with the task's outcome, in its poster",
 "When a task is posted with a callback, the callback is posted back to the scheduler of the caller exactly once with the value the task produced or the exception that left it; it is never called directly in the executing thread. If the caller's scheduler is gone the callback is dropped, not run elsewhere.",
 ["fault_sequences","schedules"],"every callback-posting flavour, every task outcome, every time the caller's scheduler may disappear",
 "tests use living schedulers and simple tasks",
 [D+"post.hpp",D+"trackable_servant.hpp"],
 [("post_callback helpers",D+"post.hpp: post_callback_helper_base, callback_fct")])

prop("C16","Dead schedulers are never dereferenced",
 "A weak reference to a scheduler is promoted before use and the result is checked: when the scheduler is gone the operation is skipped or reported, never executed on an invalid handle.",
 ["schedules","histories"],"every use of a weak scheduler at any time relative to the scheduler's end",
 "needs a scheduler dying in a small window; tests keep schedulers alive",
 [D+"post.hpp",D+"trackable_servant.hpp",D+"detail/continuation_impl.hpp",D+"notification/local_subscription.hpp",S+"tss_scheduler.hpp",D+"any_scheduler.hpp",D+"extensions/asio/asio_deadline_timer.hpp"],
 [("lock()",D+"any_scheduler.hpp: any_weak_scheduler"),("validity checks","all callers of lock()")])

prop("C17","An interruption reaches the task it is meant for and nothing else",
 "Interrupting a task which has not started makes it end without running; interrupting a running one interrupts the thread executing it, whichever scheduler that thread belongs to; interrupting one which is over never reaches the thread, which may be executing another task. An interruption a task does not notice is not seen by the next task of that thread, and however a task ends, nothing of its interruption state stays behind in the thread or is put into the thread of its poster. A task counts as interrupted only if it did not run to its end.",
 ["schedules","fault_sequences"],"every point at which the interruption can arrive and every way the task can end",
 "the interruption tests rely on sleeps and sample one arrival time each",
 [S+"detail/interruptible_job.hpp",S+"detail/interrupt_state.hpp",S+"detail/single_queue_scheduler_policy.hpp",S+"detail/multi_queue_scheduler_policy.hpp",D+"extensions/asio/asio_scheduler.hpp"],
 [("job wrapper",S+"detail/interruptible_job.hpp: operator()"),("state machine",S+"detail/interrupt_state.hpp: interrupt, run, complete"),("posting","all interruptible_post")],
 [("m_state","not started / running / completed / interrupted",S+"detail/interrupt_state.hpp")])

prop("C18","Nothing of a destroyed servant is executed",
 "Tasks and callbacks which a servant posts through its tracking interface check, right before running, that the servant is still alive; when it is not, neither the user's task (where tracked) nor the callback is invoked. Tasks that find the servant dead report cancellation instead of a value.",
 ["schedules","histories"],"every posting call of a servant and every moment of its destruction",
 "destruction between posting and execution is timing dependent, tests sample a few moments",
 [D+"trackable_servant.hpp",D+"checks.hpp",D+"extensions/asio/asio_deadline_timer.hpp"],
 [("check_alive",D+"checks.hpp"),("posting api",D+"trackable_servant.hpp")],
 [("m_tracking","lives exactly as long as its servant",D+"trackable_servant.hpp")])

prop("C19","Callbacks of a servant only ever run in the servant's thread",
 "A callback made safe by a servant, and every callback a servant passes to its posting calls, executes user code only in the servant's own scheduler: it is posted there unless the caller already runs in that single thread. If servant or scheduler are gone it does nothing.",
 ["schedules","programs"],"every thread calling a safe callback, at any time",
 "tests call safe callbacks from one pool only",
 [D+"trackable_servant.hpp",D+"checks.hpp"],
 [("make_safe_callback",D+"trackable_servant.hpp: make_safe_callback, make_safe_callback_helper"),("callbacks",D+"trackable_servant.hpp: post_callback")])

prop("C20","Copying a servant gives it an identity of its own",
 "A copied servant is tracked independently: the end of the original does not cancel the copy's callbacks, and the end of the copy does not cancel the original's. A moved-to servant takes over tracking.",
 ["histories"],"every copy, move and assignment of servants",
 "no test destroys an original and then uses the copy",
 [D+"trackable_servant.hpp"],
 [("special members",D+"trackable_servant.hpp: trackable_servant(const&), operator=")])

prop("C21","Calls through a servant proxy execute only in the servant's scheduler",
 "Every call of a proxy member is posted to the servant's scheduler with the arguments given, and never runs in the calling thread; construction (unless the servant declares simple_ctor) and destruction of the servant happen there as well, at the priority and slot the proxy was given. The servant stays alive until every call already posted has run.",
 ["schedules","programs"],"every proxy member flavour and every thread using or dropping a proxy",
 "tests assert thread ids for some flavours, and never for slots or destruction of proxies with offset",
 [D+"servant_proxy.hpp"],
 [("posting macros",D+"servant_proxy.hpp: BOOST_ASYNC_FUTURE_MEMBER, BOOST_ASYNC_POST_MEMBER"),("servant creation",D+"servant_proxy.hpp: servant_proxy"),("servant destruction",D+"servant_proxy.hpp: ~servant_proxy, servant_deleter")])

prop("C22","A continuation fires exactly once, when its last task is done",
 "A continuation over several tasks calls its completion exactly once, when the last of its tasks has delivered; one which waits for futures is also completed when it was interrupted or its time limit has passed (a callback continuation whose task was interrupted is not completed: documented as unsupported). Each task delivers into its own place, results of all tasks are handed over in the order the tasks were given, and a failed task is seen as its exception.",
 ["schedules","fault_sequences"],"all completion orders of the tasks, failures, and empty task lists",
 "tests complete tasks in the order the pool happens to produce",
 [D+"detail/continuation_impl.hpp",D+"continuation_task.hpp",D+"callable_any.hpp"],
 [("countdown",D+"detail/continuation_impl.hpp: subtask_finished"),("creation",D+"detail/continuation_impl.hpp: callback_continuation")],
 [("m_ready","number of tasks outstanding",D+"detail/continuation_impl.hpp")])

prop("C23","Every top-level continuation task delivers a value or an exception",
 "A continuation task which is started delivers exactly one result to whoever waits for it: a value, or the exception that prevented it; this includes exceptions thrown by user functions, by iterators and by sub-tasks, at any depth of the algorithm, and of any type. No algorithm leaves its caller waiting, and none answers twice, all_of and any_of included. A function given to make_top_level_lambda_continuation receives the result object and answers itself.",
 ["fault_sequences","programs"],"every task of every parallel algorithm and combinator, every point at which user code or a sub-task can fail",
 "tests inject a failure into a few algorithms at one point each",
 [D+"algorithm/"+f for f in ("parallel_for.hpp","parallel_reduce.hpp","parallel_transform.hpp","parallel_sort.hpp","parallel_scan.hpp","then.hpp","if_else.hpp","if_then_else.hpp","all_of.hpp","any_of.hpp")]+[D+"continuation_task.hpp",D+"container/algorithms.hpp"],
 [("task operator()","every *_helper in "+D+"algorithm"),("done handlers","every on_done / create_callback_continuation in "+D+"algorithm")])

prop("C24","A failing sub-task fails the whole algorithm",
 "When a sub-task of a parallel algorithm ends with an exception, the algorithm as a whole ends with an exception: no sub-result is ignored, and success is only reported after every sub-task which takes part in the result has been found successful; sub-tasks on the right may be skipped when those on the left decide the result (mismatch, adjacent_find), and any_of fails when all its continuations failed.",
 ["fault_sequences","inputs"],"every algorithm, every sub-task that may fail, every split of the range",
 "tests throw in one element of a few algorithms",
 [D+"algorithm/"+f for f in ("parallel_for.hpp","parallel_reduce.hpp","parallel_copy.hpp","parallel_sort.hpp","parallel_partition.hpp","parallel_count.hpp","invoke.hpp")],
 [("done handlers reading all results","every create_callback_continuation in "+D+"algorithm")])

prop("C25","Splitting a range covers every element exactly once",
 "When a parallel algorithm splits its range, the sub-ranges are adjacent, start at the beginning and end at the end of the range, second inputs and outputs are split at the same distance, so that each element is processed by exactly one sub-task and goes to its own place; selection algorithms go on in the part containing the wanted position. Splitting stops at the cutoff, where the rest (which may be empty) is processed sequentially.",
 ["inputs","configurations"],"every algorithm, range length and cutoff",
 "tests use one length and cutoff each",
 [D+"algorithm/"+f for f in ("parallel_for.hpp","parallel_reduce.hpp","parallel_transform.hpp","parallel_copy.hpp","parallel_sort.hpp","parallel_count.hpp")]+[D+"algorithm/detail/safe_advance.hpp"],
 [("fork","operator() of every *_helper"),("cutoff",D+"algorithm/detail/safe_advance.hpp: find_cutoff")])

prop("C26","Sub-tasks inherit function, cutoff and name",
 "Every sub-task of a split range works with the user's functions and with the cutoff and the task name the algorithm was started with; algorithms used inside another one may add a suffix to the name.",
 ["programs","inputs"],"every algorithm and overload at every recursion level",
 "no test looks at the name or cutoff below the first level",
 [D+"algorithm/"+f for f in ("parallel_for.hpp","parallel_reduce.hpp","parallel_transform.hpp","parallel_copy.hpp","parallel_sort.hpp","parallel_count.hpp")],
 [("recursion","operator() of every *_helper"),("entry points","every parallel_* function")])

prop("C27","Partial results are combined in range order",
 "Partial results of a split range are combined left part first, right part second, so that combining functions which are associative but not commutative give the sequential result. Searches deliver the first (or last) match also if it lies across the cut, and stable sorts and merges keep the order of equal elements.",
 ["inputs","schedules"],"every reducing, searching and sorting algorithm and every split",
 "tests use commutative functions such as addition",
 [D+"algorithm/"+f for f in ("parallel_reduce.hpp","parallel_inner_product.hpp","parallel_find_all.hpp","parallel_extremum.hpp","parallel_mismatch.hpp","parallel_find_first_of.hpp","parallel_search.hpp","parallel_merge.hpp","parallel_sort.hpp")],
 [("combination","done handlers of the reducing algorithms")])

prop("C28","An outcome holds either its value or its exception, faithfully",
 "A task outcome reports an exception exactly when it was given one and a value otherwise; getting it rethrows that exception or returns the value it was given, and copying, moving or assigning an outcome carries it over completely, for every result type including void and types which cannot be default-constructed.",
 ["inputs","histories"],"every outcome type and every sequence of special member operations",
 "tests use a few result types and hardly copy failed outcomes",
 [D+"expected.hpp"],
 [("expected<T> specialisations",D+"expected.hpp")])

prop("C29","Copying or moving a library object transfers all of its state",
 "User-written copy and move operations of tasks, jobs, continuations, proxies and containers transfer every data member and every base with state of its own, and assignments return the assigned object; nothing is silently reset or left behind. By design only these start afresh: the diagnostics record which a task not yet run inherits from its job type, the identity of a copied servant, and the storage of a copied container (whose elements are copied).",
 ["programs","histories"],"every class with hand-written special member functions",
 "tests seldom copy or assign tasks in states where a lost member shows",
 [D+"job_traits.hpp",D+"post.hpp",D+"continuation_task.hpp",D+"detail/continuation_impl.hpp",D+"container/vector.hpp",D+"servant_proxy.hpp",D+"algorithm/parallel_for.hpp",S+"detail/scheduler_helpers.hpp"],
 [("hand-written special members","whole library")])

prop("C30","What is serialized is what is deserialized",
 "For every serializable task and message, reading restores the same fields in the same order and through the same types as writing produced them, so that a job sent to a remote worker and its result arrive as they were.",
 ["programs","inputs"],"every serializable class of the library",
 "only a few tasks are sent in the tests and with one archive",
 [S+"tcp/detail/client_request.hpp",S+"tcp/detail/server_response.hpp",S+"tcp/detail/transport_exception.hpp",D+"any_serializable.hpp",D+"algorithm/parallel_for.hpp",D+"algorithm/parallel_reduce.hpp",D+"container/vector.hpp"],
 [("save/load pairs","all serializable classes")])

prop("C31","Publishing survives subscriptions changing underneath",
 "While events are being delivered, subscribing and unsubscribing are safe: entries are not removed from the containers being walked until delivery is over, delivery depth is tracked exactly even when a subscriber throws, and a cancelled subscription is not called any more. The end of one subscriber silences no other one, and a subscription made after a cancellation stays. Subscription tables belong to one thread and are never touched from another one.",
 ["histories","fault_sequences"],"every nesting of publish, subscribe and unsubscribe, and throwing subscribers",
 "tests subscribe and unsubscribe in a few fixed orders without failures",
 [D+"notification/local_subscription.hpp",D+"notification/notification_proxy.hpp",D+"notification/topics.hpp"],
 [("publish counter",D+"notification/local_subscription.hpp: publish_internal"),("deferred cleanup",D+"notification/local_subscription.hpp")])

prop("C32","Remote jobs are neither lost nor reported twice",
 "A job handed to the job server is kept waiting until a worker asks for it, is put back when sending it fails, and stays registered until its result arrives, at which point its callback gets that result once. Requests, responses and failures carry the id of the job they belong to, and a worker answers every job it received once, whatever the job throws.",
 ["histories","fault_sequences"],"every interleaving of clients asking, disconnecting and answering",
 "tests run one local client that never fails",
 [S+"tcp/detail/job_server.hpp",S+"tcp/detail/server_connection.hpp",S+"tcp/simple_tcp_client.hpp",S+"tcp/detail/client_request.hpp",TCPS],
 [("job server",S+"tcp/detail/job_server.hpp"),("client",S+"tcp/simple_tcp_client.hpp")])

prop("C33","No user code runs while a library lock is held",
 "No job, callback, continuation or other user-supplied function is invoked while a lock of the library is held, nothing is waited for under a lock which needs that lock to happen, and no two library locks are ever acquired in opposite orders.",
 ["schedules","programs"],"every path from every lock acquisition in the library",
 "deadlocks need a specific combination of user code and interleaving",
 [D+"queue/guarded_deque.hpp",D+"queue/circular_queue.hpp",D+"queue/threadsafe_list.hpp",D+"diagnostics/diagnostics_table.hpp",S+"detail/interrupt_state.hpp",S+"io_threadpool_scheduler.hpp"],
 [("lock scopes","all mutex uses")])

prop("C34","A composite scheduler delegates to the right pool",
 "A composite scheduler passes each request to the sub-pool the caller's queue number designates and reports on all of its sub-pools: every sub-pool contributes its threads, queue sizes and diagnostics. Each sub-pool may steal from the queues of all other schedulers of the composite and is never given its own.",
 ["configurations","inputs"],"every composition and queue number",
 "tests use two sub-pools and look at few of the operations",
 [S+"composite_threadpool_scheduler.hpp"],
 [("dispatch",S+"composite_threadpool_scheduler.hpp: post, get_queue_size, thread_ids, get_diagnostics")])

prop("C35","Timers report expiry or cancellation to their servant exactly once",
 "Waiting on a timer ends with exactly one call of the callback in the waiting servant's thread, telling apart expiry and cancellation. The timer object itself is only touched in the io threads owning it.",
 ["schedules","histories"],"every cancel or reset relative to expiry",
 "depends on timing, tests sample it",
 [D+"extensions/asio/asio_deadline_timer.hpp",D+"extensions/asio/asio_scheduler.hpp"],
 [("timer",D+"extensions/asio/asio_deadline_timer.hpp")])

prop("C36","Parallel algorithms compute what their sequential versions compute",
 "For deterministic user functions every parallel algorithm yields the value its sequential counterpart yields on the same range, for every range length and cutoff.",
 ["inputs"],"all ranges, functions, cutoffs",
 "tests sample some ranges",
 [D+"algorithm/parallel_sort.hpp",D+"algorithm/parallel_scan.hpp",D+"algorithm/parallel_partition.hpp"],
 [("the algorithms",D+"algorithm")])

prop("C37","Timed waits end on time",
 "Continuations with a timeout and interruptions take effect within the requested time, and pools put idle threads to sleep only for the configured time.",
 ["schedules"],"all loads","timing is sampled",
 [D+"detail/continuation_impl.hpp",S+"cpu_load_policies.hpp"],
 [("timeouts",D+"detail/continuation_impl.hpp"),("sleep",S+"cpu_load_policies.hpp")])

prop("C38","Load is balanced fairly over queues and workers",
 "Jobs posted without an explicit queue are spread evenly over the queues, and no queued job waits forever while a worker is idle.",
 ["schedules","histories"],"all posting patterns","liveness and fairness over unbounded histories cannot be sampled",
 [D+"queue/find_queue_position.hpp",D+"queue/any_queue_container.hpp",S+"detail/multi_queue_scheduler_policy.hpp"],
 [("queue choice",D+"queue/find_queue_position.hpp")])

if __name__ == "__main__":
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    ids = [p["id"] for p in P]; assert len(ids) == len(set(ids))
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        n = p["statement"].count(". ") + 1
        assert n <= 3, (p["id"], n)
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for p in P: f.write(json.dumps(p) + "\n")
    print(len(P))
