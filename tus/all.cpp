// Every header (templates as written); Boost.Geometry internals of another Boost version and Qt do not parse here.
#include <algorithm>
#include <map>
#include <condition_variable>
#include "common.hpp"
#include <boost/asynchronous/expected.hpp>
#include <boost/asynchronous/continuation_task.hpp>
#include <boost/asynchronous/post.hpp>
#include <boost/asynchronous/algorithm/all_of.hpp>
#include <boost/asynchronous/algorithm/any_of.hpp>
#include <boost/asynchronous/algorithm/detail/helpers.hpp>
#include <boost/asynchronous/algorithm/detail/parallel_all_of_helper.hpp>
#include <boost/asynchronous/algorithm/detail/parallel_sort_helper.hpp>
#include <boost/asynchronous/algorithm/detail/safe_advance.hpp>
#include <boost/asynchronous/algorithm/if_else.hpp>
#include <boost/asynchronous/algorithm/if_then_else.hpp>
#include <boost/asynchronous/algorithm/invoke.hpp>
#include <boost/asynchronous/algorithm/parallel_adjacent_find.hpp>
#include <boost/asynchronous/algorithm/parallel_all_of.hpp>
#include <boost/asynchronous/algorithm/parallel_any_of.hpp>
#include <boost/asynchronous/algorithm/parallel_copy.hpp>
#include <boost/asynchronous/algorithm/parallel_copy_if.hpp>
#include <boost/asynchronous/algorithm/parallel_count.hpp>
#include <boost/asynchronous/algorithm/parallel_equal.hpp>
#include <boost/asynchronous/algorithm/parallel_exclusive_scan.hpp>
#include <boost/asynchronous/algorithm/parallel_extremum.hpp>
#include <boost/asynchronous/algorithm/parallel_fill.hpp>
#include <boost/asynchronous/algorithm/parallel_find_all.hpp>
#include <boost/asynchronous/algorithm/parallel_find_end.hpp>
#include <boost/asynchronous/algorithm/parallel_find_first_of.hpp>
#include <boost/asynchronous/algorithm/parallel_flatten.hpp>
#include <boost/asynchronous/algorithm/parallel_for.hpp>
#include <boost/asynchronous/algorithm/parallel_for_each.hpp>
#include <boost/asynchronous/algorithm/parallel_generate.hpp>
#include <boost/asynchronous/algorithm/parallel_group_by.hpp>
#include <boost/asynchronous/algorithm/parallel_grouped_for.hpp>
#include <boost/asynchronous/algorithm/parallel_grouped_transform.hpp>
#include <boost/asynchronous/algorithm/parallel_inclusive_scan.hpp>
#include <boost/asynchronous/algorithm/parallel_inner_product.hpp>
#include <boost/asynchronous/algorithm/parallel_invoke.hpp>
#include <boost/asynchronous/algorithm/parallel_iota.hpp>
#include <boost/asynchronous/algorithm/parallel_is_partitioned.hpp>
#include <boost/asynchronous/algorithm/parallel_is_sorted.hpp>
#include <boost/asynchronous/algorithm/parallel_kmp.hpp>
#include <boost/asynchronous/algorithm/parallel_lexicographical_compare.hpp>
#include <boost/asynchronous/algorithm/parallel_merge.hpp>
#include <boost/asynchronous/algorithm/parallel_mismatch.hpp>
#include <boost/asynchronous/algorithm/parallel_move.hpp>
#include <boost/asynchronous/algorithm/parallel_move_if_noexcept.hpp>
#include <boost/asynchronous/algorithm/parallel_none_of.hpp>
#include <boost/asynchronous/algorithm/parallel_nth_element.hpp>
#include <boost/asynchronous/algorithm/parallel_partial_sort.hpp>
#include <boost/asynchronous/algorithm/parallel_partial_sum.hpp>
#include <boost/asynchronous/algorithm/parallel_partition.hpp>
#include <boost/asynchronous/algorithm/parallel_partition_copy.hpp>
#include <boost/asynchronous/algorithm/parallel_placement.hpp>
#include <boost/asynchronous/algorithm/parallel_quicksort.hpp>
#include <boost/asynchronous/algorithm/parallel_reduce.hpp>
#include <boost/asynchronous/algorithm/parallel_remove_copy.hpp>
#include <boost/asynchronous/algorithm/parallel_replace.hpp>
#include <boost/asynchronous/algorithm/parallel_replace_copy.hpp>
#include <boost/asynchronous/algorithm/parallel_reverse.hpp>
#include <boost/asynchronous/algorithm/parallel_scan.hpp>
#include <boost/asynchronous/algorithm/parallel_search.hpp>
#include <boost/asynchronous/algorithm/parallel_search_n.hpp>
#include <boost/asynchronous/algorithm/parallel_sort.hpp>
#include <boost/asynchronous/algorithm/parallel_sort_inplace.hpp>
#include <boost/asynchronous/algorithm/parallel_stable_partition.hpp>
#include <boost/asynchronous/algorithm/parallel_swap_ranges.hpp>
#include <boost/asynchronous/algorithm/parallel_transform.hpp>
#include <boost/asynchronous/algorithm/parallel_transform_exclusive_scan.hpp>
#include <boost/asynchronous/algorithm/parallel_transform_inclusive_scan.hpp>
#include <boost/asynchronous/algorithm/parallel_unique.hpp>
#include <boost/asynchronous/algorithm/then.hpp>
#include <boost/asynchronous/any_continuation_task.hpp>
#include <boost/asynchronous/any_scheduler.hpp>
#include <boost/asynchronous/any_serializable.hpp>
#include <boost/asynchronous/any_shared_scheduler_proxy.hpp>
#include <boost/asynchronous/callable_any.hpp>
#include <boost/asynchronous/checks.hpp>
#include <boost/asynchronous/container/algorithms.hpp>
#include <boost/asynchronous/container/vector.hpp>
#include <boost/asynchronous/continuation_task.hpp>
#include <boost/asynchronous/detail/any_interruptible.hpp>
#include <boost/asynchronous/detail/any_joinable.hpp>
#include <boost/asynchronous/detail/any_pointer.hpp>
#include <boost/asynchronous/detail/concept_members.hpp>
#include <boost/asynchronous/detail/container_traits.hpp>
#include <boost/asynchronous/detail/continuation_impl.hpp>
#include <boost/asynchronous/detail/function_traits.hpp>
#include <boost/asynchronous/detail/job_type_from.hpp>
#include <boost/asynchronous/detail/metafunctions.hpp>
#include <boost/asynchronous/detail/move_bind.hpp>
#include <boost/asynchronous/diagnostics/any_loggable.hpp>
#include <boost/asynchronous/diagnostics/any_loggable_serializable.hpp>
#include <boost/asynchronous/diagnostics/basic_formatter.hpp>
#include <boost/asynchronous/diagnostics/default_loggable_job.hpp>
#include <boost/asynchronous/diagnostics/diagnostic_item.hpp>
#include <boost/asynchronous/diagnostics/diagnostics_table.hpp>
#include <boost/asynchronous/diagnostics/formatter.hpp>
#include <boost/asynchronous/diagnostics/html_formatter.hpp>
#include <boost/asynchronous/diagnostics/scheduler_interface.hpp>
#include <boost/asynchronous/exceptions.hpp>
#include <boost/asynchronous/expected.hpp>
#include <boost/asynchronous/extensions/asio/asio_deadline_timer.hpp>
#include <boost/asynchronous/extensions/asio/asio_scheduler.hpp>
#include <boost/asynchronous/extensions/asio/asio_tcp_resolver.hpp>
#include <boost/asynchronous/extensions/asio/asio_tcp_servant.hpp>
#include <boost/asynchronous/extensions/asio/tss_asio.hpp>
#include <boost/asynchronous/extensions/http/http_server.hpp>
#include <boost/asynchronous/extensions/tbb/tbb_concurrent_queue.hpp>
#include <boost/asynchronous/helpers.hpp>
#include <boost/asynchronous/helpers/lazy_irange.hpp>
#include <boost/asynchronous/helpers/random_provider.hpp>
#include <boost/asynchronous/helpers/recursive_future_get.hpp>
#include <boost/asynchronous/helpers/type_traits.hpp>
#include <boost/asynchronous/job_traits.hpp>
#include <boost/asynchronous/notification/local_subscription.hpp>
#include <boost/asynchronous/notification/notification_proxy.hpp>
#include <boost/asynchronous/notification/topics.hpp>
#include <boost/asynchronous/post.hpp>
#include <boost/asynchronous/queue/any_queue.hpp>
#include <boost/asynchronous/queue/any_queue_container.hpp>
#include <boost/asynchronous/queue/circular_queue.hpp>
#include <boost/asynchronous/queue/detail/lockfree_size.hpp>
#include <boost/asynchronous/queue/find_queue_position.hpp>
#include <boost/asynchronous/queue/guarded_deque.hpp>
#include <boost/asynchronous/queue/lockfree_queue.hpp>
#include <boost/asynchronous/queue/lockfree_spsc_queue.hpp>
#include <boost/asynchronous/queue/lockfree_stack.hpp>
#include <boost/asynchronous/queue/queue_base.hpp>
#include <boost/asynchronous/queue/queue_converter.hpp>
#include <boost/asynchronous/queue/threadsafe_list.hpp>
#include <boost/asynchronous/scheduler/composite_threadpool_scheduler.hpp>
#include <boost/asynchronous/scheduler/cpu_load_policies.hpp>
#include <boost/asynchronous/scheduler/detail/any_continuation.hpp>
#include <boost/asynchronous/scheduler/detail/exceptions.hpp>
#include <boost/asynchronous/scheduler/detail/execute_in_all_threads.hpp>
#include <boost/asynchronous/scheduler/detail/interrupt_state.hpp>
#include <boost/asynchronous/scheduler/detail/interruptible_job.hpp>
#include <boost/asynchronous/scheduler/detail/job_diagnostic_closer.hpp>
#include <boost/asynchronous/scheduler/detail/lockable_weak_scheduler.hpp>
#include <boost/asynchronous/scheduler/detail/multi_queue_scheduler_policy.hpp>
#include <boost/asynchronous/scheduler/detail/processor_bind.hpp>
#include <boost/asynchronous/scheduler/detail/scheduler_helpers.hpp>
#include <boost/asynchronous/scheduler/detail/serialization_helper.hpp>
#include <boost/asynchronous/scheduler/detail/single_queue_scheduler_policy.hpp>
#include <boost/asynchronous/scheduler/io_threadpool_scheduler.hpp>
#include <boost/asynchronous/scheduler/multiple_thread_scheduler.hpp>
#include <boost/asynchronous/scheduler/multiqueue_threadpool_scheduler.hpp>
#include <boost/asynchronous/scheduler/serializable_task.hpp>
#include <boost/asynchronous/scheduler/single_thread_scheduler.hpp>
#include <boost/asynchronous/scheduler/stealing_multiqueue_threadpool_scheduler.hpp>
#include <boost/asynchronous/scheduler/stealing_threadpool_scheduler.hpp>
#include <boost/asynchronous/scheduler/tcp/detail/asio_comm_server.hpp>
#include <boost/asynchronous/scheduler/tcp/detail/client_request.hpp>
#include <boost/asynchronous/scheduler/tcp/detail/job_server.hpp>
#include <boost/asynchronous/scheduler/tcp/detail/server_connection.hpp>
#include <boost/asynchronous/scheduler/tcp/detail/server_response.hpp>
#include <boost/asynchronous/scheduler/tcp/detail/transport_exception.hpp>
#include <boost/asynchronous/scheduler/tcp/simple_tcp_client.hpp>
#include <boost/asynchronous/scheduler/tcp/tcp_server_scheduler.hpp>
#include <boost/asynchronous/scheduler/threadpool_scheduler.hpp>
#include <boost/asynchronous/scheduler/tss_scheduler.hpp>
#include <boost/asynchronous/scheduler_diagnostics.hpp>
#include <boost/asynchronous/scheduler_shared_proxy.hpp>
#include <boost/asynchronous/servant_proxy.hpp>
#include <boost/asynchronous/trackable_servant.hpp>
