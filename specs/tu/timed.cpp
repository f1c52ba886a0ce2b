// Instances of the timed lock operations under contract.
#include "cocpp/cocpp.h"
#include "cocpp/sync/co_recursive_timed_mutex.h"
#include "cocpp/sync/co_shared_timed_mutex.h"
#include "cocpp/sync/co_timed_mutex.h"

using steady_point = std::chrono::time_point<std::chrono::steady_clock, std::chrono::nanoseconds>;
template class cocpp::co_timed_addition<cocpp::co_mutex>;
template class cocpp::co_timed_addition<cocpp::co_recursive_mutex>;
template class cocpp::co_timed_addition<cocpp::co_shared_mutex>;
template bool cocpp::co_timed_addition<cocpp::co_mutex>::try_lock_until(const steady_point &);
template bool cocpp::co_timed_addition<cocpp::co_recursive_mutex>::try_lock_until(const steady_point &);
template bool cocpp::co_timed_addition<cocpp::co_shared_mutex>::try_lock_until(const steady_point &);
template bool cocpp::co_shared_timed_mutex::try_lock_shared_until(const steady_point &);
template bool cocpp::co_timed_addition<cocpp::co_mutex>::try_lock_for(const std::chrono::nanoseconds &);
template bool cocpp::co_timed_addition<cocpp::co_recursive_mutex>::try_lock_for(const std::chrono::nanoseconds &);
template bool cocpp::co_timed_addition<cocpp::co_shared_mutex>::try_lock_for(const std::chrono::nanoseconds &);
template bool cocpp::co_shared_timed_mutex::try_lock_shared_for(const std::chrono::nanoseconds &);
