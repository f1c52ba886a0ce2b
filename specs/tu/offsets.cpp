// Field offsets of the classes under verification, computed by the compiler from the repository headers.
#include "cocpp/cocpp.h"
#include "cocpp/core/co_ctx.h"
#include "cocpp/core/co_env.h"
#include "cocpp/core/co_manager.h"
#include "cocpp/core/co_timer.h"
#include "cocpp/core/co_stack.h"
#include "cocpp/core/co_ctx_config.h"
#include "cocpp/sync/co_mutex.h"
#include "cocpp/sync/co_recursive_mutex.h"
#include "cocpp/sync/co_shared_mutex.h"
#include "cocpp/sync/co_condition_variable.h"
#include "cocpp/sync/co_counting_semaphore.h"
#include "cocpp/sync/co_latch.h"
#include "cocpp/sync/co_wait_group.h"
#include "cocpp/sync/co_barrier.h"
#include "cocpp/sync/co_call_once.h"
#include "off.h"

using namespace cocpp;
SIZE(mutex, co_mutex)
OFF(mutex_owner, co_mutex, owner__)
OFF(mutex_spin, co_mutex, spinlock__)
OFF(mutex_q, co_mutex, wait_deque__)
SIZE(rmutex, co_recursive_mutex)
OFF(rmutex_owner, co_recursive_mutex, owner__)
OFF(rmutex_spin, co_recursive_mutex, spinlock__)
OFF(rmutex_q, co_recursive_mutex, wait_deque__)
OFF(rmutex_count, co_recursive_mutex, lock_count__)
SIZE(smutex, co_shared_mutex)
OFF(smutex_spin, co_shared_mutex, spinlock__)
OFF(smutex_type, co_shared_mutex, lock_type__)
OFF(smutex_q, co_shared_mutex, wait_deque__)
OFF(smutex_owners, co_shared_mutex, owners__)
OFF(slc_type, co_shared_mutex::shared_lock_context, type)
OFF(slc_ctx, co_shared_mutex::shared_lock_context, ctx)
SIZE(latch, co_latch)
OFF(latch_expect, co_latch, expect__)
OFF(latch_mutex, co_latch, mutex__)
OFF(latch_cond, co_latch, cond__)
SIZE(wg, co_wait_group)
OFF(wg_count, co_wait_group, count__)
OFF(wg_done, co_wait_group, done__)
OFF(wg_mutex, co_wait_group, mutex__)
OFF(wg_cond, co_wait_group, cond__)
SIZE(barrier, co_barrier)
OFF(barrier_expected, co_barrier, expected__)
OFF(barrier_generation, co_barrier, generation__)
OFF(barrier_max, co_barrier, max__)
OFF(barrier_mutex, co_barrier, mutex__)
OFF(barrier_cond, co_barrier, cond__)
SIZE(token, co_arrival_token)
OFF(token_generation, co_arrival_token, generation__)
OFF(token_barrier, co_arrival_token, barrier__)
SIZE(once, co_once_flag)
OFF(once_flag, co_once_flag, flag__)
OFF(once_mutex, co_once_flag, mutex__)
SIZE(sem, co_counting_semaphore<1>)
OFF(sem_mu, co_counting_semaphore<1>, mu__)
OFF(sem_desired, co_counting_semaphore<1>, desired__)
OFF(sem_empty, co_counting_semaphore<1>, cv_empty__)
OFF(sem_full, co_counting_semaphore<1>, cv_full__)
SIZE(cv, co_condition_variable_impl)
OFF(cv_lock, co_condition_variable_impl, cv_lock__)
OFF(cv_waiters, co_condition_variable_impl, waiters__)
