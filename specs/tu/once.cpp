// An instance of call_once with a callable the verifier knows nothing about.
#include "cocpp/cocpp.h"
#include "cocpp/sync/co_call_once.h"

struct once_callable
{
    void operator()(long a, long b);
};

void once_call(cocpp::co_once_flag &flag, once_callable &f, long a, long b)
{
    cocpp::co_call_once(flag, f, a, b);
}
