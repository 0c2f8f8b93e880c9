"""property -> (rule module, function, technique, what the check gives and assumes)"""
W = "Every worker loop of the seven pools, the asio scheduler and the tcp server scheduler is analysed on all paths, loops to a fixpoint; "
CHECKS = {
 "C01": ("rules_sched", "c01", "path-sensitive typestate analysis of job objects in worker loops", W + "a job obtained by a queue operation must be run exactly once on every path before the next queue access. Assumes jobs throw only std::exception or boost::thread_interrupted."),
 "C02": ("rules_sched", "c02", "exception-flow (effect) analysis of worker loops", W + "no standard exception or interruption from a job, continuation or internal task reaches the end of the loop. Exceptions of other types are outside the property."),
 "C03": ("rules_sched", "c03", "path-sensitive typestate analysis of diagnostics calls around job execution", W + "the order and completeness of the job_traits calls around each execution is an automaton checked on every way a job can end."),
 "C06": ("rules_sched", "c06", "must-precede dataflow in worker loops and provenance of thread ids", W + "registration of thread handle, scheduler and continuation list must dominate every job execution."),
 "C08": ("rules_sched", "c08", "path-sensitive typestate of queue accesses in worker loops", W + "stealing is only reached when the own queue delivered nothing in the same step, and only in stealing pools."),
 "C09": ("rules_sched", "c09", "ownership typestate of slot flags", W + "pop and execution of a slot's job need the slot flag owned by this thread, and every exit gives it back."),
 "C04": ("rules_pool", "c04", "typestate of worker loops and loop-segment analysis of destructors", W + "after its termination task a worker drains its queue before leaving; every destructor queues exactly one termination task to the private queue of each worker it created (index ranges compared symbolically). asio and tcp have no drain and are only checked for termination tasks."),
 "C05": ("rules_pool", "c05", "ordering analysis of proxy destructors and coverage of joined handles", "Decides that the proxy destructor releases the scheduler before joining, joins unconditionally with interruption disabled, that every created worker handle is in what get_worker returns, and that joining reaches each thread. Relies on boost::thread::join."),
 "C07": ("rules_pool", "c07", "loop-segment analysis of fan-outs, compared with the creation of workers", "Every fan-out loop is compared symbolically with the loop creating the workers; the request task fulfils its promise once."),
 "C10": ("rules_queue", "c10", "conservation automaton over queue operations (path-sensitive dataflow)", "Every operation of every queue and container is analysed on all paths. Relies on the containers of the standard library and boost::lockfree doing what they document."),
 "C11": ("rules_locks", "c11", "static lockset analysis and condition-variable typestate", "Every access to fields of classes with mutexes, from every entry point, helpers inlined. Lock-free members and atomics are outside; which mutex protects a field is inferred from its accesses."),
 "C12": ("rules_queue", "c12", "loop-segment analysis and symbolic comparison of queue positions", "Ends used by insertion and removal, loops over the queues of a container, position arithmetic and its callers are compared with the documented order on all paths. The order inside boost::lockfree containers is trusted."),
 "C28": ("rules_state", "c28", "symbolic summaries of all members of all outcome specialisations", "Every member of the three specialisations, in instantiations, on all paths. The value type's own copy operations are trusted."),
 "C29": ("rules_state", "c29", "field-transfer dataflow over all user-written special members", "Every user-written copy/move constructor and assignment in the library's headers (Boost.Geometry and Qt parts do not parse here and are excluded)."),
 "C34": ("rules_pool", "c34", "loop-segment analysis of fan-outs, provenance of the chosen sub-pool, replay of construction", "All operations of the composite scheduler, its promoted weak form and its constructor instantiations (2 to 4 schedulers, mixed job types). Diagnostics functors and processor binding are not implemented by the composite and not claimed."),
 "C33": ("rules_locks", "c33", "effect analysis of code under locks and lock-order graph", "All functions of the files using locks, helpers and local lambdas inlined; calls whose target is user code must not happen with a lock held; the acquired-while-held graph is acyclic. Copying, moving and destroying stored jobs under a queue's lock is not an invocation."),
 "C13": ("rules_fwd", "c13", "interprocedural value provenance through all posting layers", "Each layer and posting function is analysed in every instantiation on all paths. Posting interfaces of servants are covered by C18 and C21."),
 "C14": ("rules_post", "c14", "exactly-once delivery automaton (path- and exception-sensitive)", "All task types of post_future are analysed with user code ending in four ways. Assumes library plumbing (continuation registration, archives, allocation) does not throw."),
 "C15": ("rules_post", "c15", "exactly-once delivery automaton (path- and exception-sensitive)", "All task types of post_callback, their done handlers and the posted callbacks. Assumes library plumbing does not throw."),
 "C16": ("rules_weak", "c16", "promotion typestate of weak handles (path-sensitive dataflow)", "Every function and closure of the library which promotes a weak scheduler, all paths. Handles promoted by user code and raw pointers passed on are not judged."),
 "C17": ("rules_intr", "c17", "finite-state analysis of the interruption state machine with locksets; path- and exception-sensitive typestate of the task wrapper; write/read agreement on the thread's variable", "Every method for each state, the wrapper with a task ending in every way, every interruptible_post and every worker entry. Assumes a task ends with thread_interrupted only when it was interrupted."),
 "C18": ("rules_servant", "c18", "guard dominance over the functors of servants (path-sensitive, closures executed symbolically)", "Every member of trackable_servant which takes a functor and the wrappers of checks.hpp, all paths. Assumes a servant is destroyed in its own thread, as documented."),
 "C19": ("rules_servant", "c19", "value provenance of posting calls and symbolic execution of the closures handed out", "Every posting member and every safe callback of trackable_servant, all paths."),
 "C20": ("rules_servant", "c20", "field transfer of special members with ownership of the tracking object", "Every constructor, copy, move and assignment of trackable_servant and every other member."),
 "C21": ("rules_servant", "c21", "effect and linear-term analysis of the expanded proxy macros; closures executed symbolically without the proxy", "Every macro flavour instantiated with two job types; construction, destruction, assignment, cast. Servants declaring simple_ctor are constructed in the caller by design."),
 "C31": ("rules_notify", "c31", "effect analysis of the subscription tables per delivery depth (path- and exception-sensitive), provenance of cross-thread hand-overs", "Every function of local_subscription and the free functions changing tables, for delivery depths 0, 1 and 2. Assumes std::map keeps iterators to other elements and schedulers deliver what they are handed."),
 "C32": ("rules_tcp", "c32", "conservation automaton over the job server's containers and exactly-once use of completion functions (path- and exception-sensitive)", "Every function of the job server, its connections and the tcp client, and every closure they register, on all paths. Jobs whose connection dies silently after they were sent are outside (there is no detection of it); Boost.Asio is assumed to call each completion handler once."),
 "C22": ("rules_cont", "c22", "counting automaton and slot provenance over the continuation templates (path- and exception-sensitive)", "Every constructor, registration helper, counter, readiness test and creating function of the continuations, and every worker loop over waiting continuations, on all paths. Completion handlers are assumed not to throw; callback continuations of interrupted tasks are excluded (documented as unsupported)."),
 "C23": ("rules_algo", "c23", "exactly-once delivery automaton over the templates of all algorithms (path- and exception-sensitive)", "Every continuation task of the library and every done handler registered by it, at any depth, is analysed on all paths as a template, so for every instantiation; user code may throw anything at every use. Assumes library plumbing (allocation, registration of continuations) does not throw; the geometry algorithms do not compile with this Boost and are not covered."),
 "C24": ("rules_algo", "c24", "must-read dataflow of sub-task results over the templates of all algorithms", "Every path of every done handler which reports a value must have read every sub-task result before, or be decided by the parts to the left."),
 "C25": ("rules_split", "c25", "symbolic summaries of iterator positions at every fork of the algorithm templates", "Every path of every task template which splits a range, and the cutting functions themselves; positions are terms over the task's own fields. The parallel_partition workers share a list of pieces instead of splitting and are not covered; cutoff of at least 1 is assumed."),
 "C26": ("rules_split", "c26", "interprocedural value provenance (sub-task constructors and entry points)", "Every construction of a sub-task, every call of another algorithm and every entry point, in the templates. The priority is not looked at: the schedulers the algorithms post to decide it."),
 "C27": ("rules_split", "c27", "value-provenance analysis of done handlers with path conditions", "Every done handler of every splitting task, at any depth, on all paths. User functions are assumed to be associative, comparisons to be orders."),
}
NA = {
 "C30": "boost.serialization derives the order and the types read from the archive and user-written serialize members at run time; the pairs of writers and readers in the library go through type-erased tasks, and no static rule of ours bounds what arrives",
 "C35": "whether expiry or a cancellation comes first, and so what a callback is told, is decided inside Boost.Asio's timer queue at run time; the library only forwards, which C19 covers for the servant's side",
 "C36": "the value an algorithm computes quantifies over run-time ranges and functions; no sound static rule bounds that without executing or solving",
 "C37": "elapsed time is a run-time quantity; nothing in the source bounds it",
 "C38": "fairness and liveness over unbounded schedules and histories is not decided by the shape of any path",
}
