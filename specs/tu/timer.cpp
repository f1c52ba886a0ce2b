// Layout of timers and of the timer queue.
#include "cocpp/core/co_manager.h"
#include "cocpp/core/co_timer.h"
#include "off.h"
using namespace cocpp;
SIZE(timer, co_timer)
SIZE(tm_mgr, co_manager)
OFF(tm_handle, co_timer, handle__)
OFF(tm_cb, co_timer, callback__)
OFF(tm_etype, co_timer, expire_type__)
OFF(tm_ttype, co_timer, timer_type__)
OFF(tm_interval, co_timer, interval__)
OFF(tm_expire, co_timer, expire_time__)
OFF(tm_status, co_timer, status__)
OFF(tm_mu, co_timer, mutex__)
OFF(tm_queue, co_manager, timer_queue__)
OFF(tm_qmu, co_manager, mu_timer_queue__)
OFF(tm_qcv, co_manager, cv_timer_queue__)
OFF(tm_clean, co_manager, clean_up__)
VAL(tm_once, (long)co_expire_type::once)
VAL(tm_loop, (long)co_expire_type::loop)
VAL(tm_abs, (long)co_timer_type::absolute)
VAL(tm_rel, (long)co_timer_type::relative)
VAL(tm_stopped, (long)co_timer_status::stopped)
VAL(tm_running, (long)co_timer_status::running)
// the order of the queue
bool timer_order(std::set<std::shared_ptr<co_timer>>::key_compare *c, std::shared_ptr<co_timer> *a, std::shared_ptr<co_timer> *b)
{
    typedef decltype(co_manager::timer_queue__)::key_compare C;
    return (*reinterpret_cast<C *>(c))(*a, *b);
}
