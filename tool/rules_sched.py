"""Entry points of the worker-loop checks."""
import rules_worker as W
BASE = "Worker loops: every function whose address is handed to a new thread by a scheduler, analysed in each logging instantiation (calls inlined, loops to a fixpoint, all branch and exception outcomes). "
def c01(ctx):
    W.analyse(ctx, {"C01"})
    return BASE + "A job token is created where try_pop/try_steal deliver; it must be invoked exactly once (or handed to the job server exactly once) before the next queue access or exit; nothing else may be invoked as a job."
def c02(ctx):
    W.analyse(ctx, {"C02"})
    return BASE + "Every job, continuation and internal task may throw std::exception or thread_interrupted, termination tasks shutdown_exception; no such exception may leave the worker and the worker may only return after shutdown_exception was caught (temporary io workers: when told not to continue)."
def c03(ctx):
    W.analyse(ctx, {"C03"})
    import rules_diag
    rules_diag.c03_rest(ctx)
    return (BASE + "set_started_time, set_executing_thread_id and add_current_diagnostic precede the invocation of each logged job; set_finished_time, then exactly one add_diagnostic, and reset_current_diagnostic follow on every outcome; set_failed iff it threw std::exception. "
            "Value summaries of job_traits, default_loggable_job, diagnostic_item and diagnostics_table show that each of these marks reaches the getter of the reported record, under the job's name, in the entry of the worker given, and that reports cover every bucket and worker.")
def c06(ctx):
    import rules_pool
    W.analyse(ctx, {"C06"}); rules_pool.ids(ctx, rules_pool.Pools(ctx))
    return BASE + "Before the first invocation of a job the thread handle, get_thread_scheduler(...,true) and get_continuations(...,true) registrations have been made. Loops creating workers record one id per worker, and thread_ids reports exactly these."
def c08(ctx):
    W.analyse(ctx, {"C08"})
    return BASE + "try_steal is only reached when try_pop of the own queue returned false earlier in the step, at most one job is obtained per step, and no other pool calls try_steal."
def c09(ctx):
    W.analyse(ctx, {"C09"})
    return BASE + "In multiple_thread_scheduler the slot flag is acquired by compare_exchange(false->true) on the same slot before popping, is owned during the invocation and is released exactly once on every outcome."
