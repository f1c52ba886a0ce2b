// Instances of the channel templates under contract.
#include "cocpp/cocpp.h"
#include "cocpp/event/co_chan.h"
#include "off.h"

using namespace cocpp;
template class cocpp::co_chan<long>;

bool use_send_op(co_chan<long> &ch, long x)
{
    return ch < x;
}

bool use_receive_op(co_chan<long> &ch, long &x)
{
    return ch > x;
}

co_chan<long> &use_send_chain(co_chan<long> &ch, long x)
{
    return ch << x;
}

co_chan<long> &use_receive_chain(co_chan<long> &ch, long &x)
{
    return ch >> x;
}

SIZE(chan, co_chan<long>)
OFF(chan_impl, co_chan<long>, impl__)
OFF(chan_data, co_chan<long>::chan_base, data__)
OFF(chan_closed, co_chan<long>::chan_base, closed__)
OFF(chan_mu, co_chan<long>::chan_base, mu__)
OFF(chan_full, co_chan<long>::chan_base, cv_full__)
OFF(chan_empty, co_chan<long>::chan_base, cv_empty__)
OFF(chan_taken, co_chan<long>::chan_base, cv_taken__)
OFF(chan_count, co_chan<long>::chan_base, taken_count__)
OFF(chan_max, co_chan<long>::fixed_chan, max_size__)
SIZE(iter, co_chan<long>::iterator)
OFF(iter_ch, co_chan<long>::iterator, ch__)
OFF(iter_value, co_chan<long>::iterator, value__)
