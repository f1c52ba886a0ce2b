// Instances of the semaphore template under contract: the smallest maximum and a large one.
#include "cocpp/cocpp.h"

template class cocpp::co_counting_semaphore<1>;
template class cocpp::co_counting_semaphore<1000003>;
using steady_point = std::chrono::time_point<std::chrono::steady_clock, std::chrono::nanoseconds>;
template bool cocpp::co_counting_semaphore<1>::try_acquire_until(const steady_point &);
template bool cocpp::co_counting_semaphore<1000003>::try_acquire_until(const steady_point &);
template bool cocpp::co_counting_semaphore<1>::try_acquire_for(const std::chrono::nanoseconds &);
template bool cocpp::co_counting_semaphore<1000003>::try_acquire_for(const std::chrono::nanoseconds &);
