// Instances of the condition variable templates under contract: a lock and a predicate the verifier knows nothing about.
#include "cocpp/cocpp.h"

struct user_lock
{
    void lock();
    void unlock();
};

struct user_pred
{
    bool operator()();
};

using steady_point = std::chrono::time_point<std::chrono::steady_clock, std::chrono::nanoseconds>;
template void cocpp::co_condition_variable_impl::wait(user_lock &);
template void cocpp::co_condition_variable_impl::wait(user_lock &, user_pred);
template bool cocpp::co_condition_variable_impl::wait_until(user_lock &, const steady_point &);
template bool cocpp::co_condition_variable_impl::wait_for(user_lock &, const std::chrono::nanoseconds &);
template bool cocpp::co_condition_variable_impl::wait_until(user_lock &, const steady_point &, user_pred);
template bool cocpp::co_condition_variable_impl::wait_for(user_lock &, const std::chrono::nanoseconds &, user_pred);
