// Instances of the event template under contract.
#include "cocpp/event/co_event.h"
#include "off.h"

using namespace cocpp;
template class cocpp::co_event<>;
template class cocpp::co_event<int, int>;
SIZE(event, co_event<>)
OFF(ev_list, co_event<>, cb_list__)
OFF(ev_mu, co_event<>, mu_cb_list__)
OFF(ev_next, co_event<>, current_handler__)

using E0 = co_event<>;
using E2 = co_event<int, int>;
extern "C"
{
    co_event_handle vf_sub0(E0 *e, std::function<void()> f)
    {
        return e->sub(f);
    }
    co_event_handle vf_sub2(E2 *e, std::function<void(int, int)> f)
    {
        return e->sub(f);
    }
    void vf_unsub0(E0 *e, co_event_handle h)
    {
        e->unsub(h);
    }
    void vf_unsub2(E2 *e, co_event_handle h)
    {
        e->unsub(h);
    }
    void vf_pub0(E0 *e)
    {
        e->pub();
    }
    void vf_pub2(E2 *e, int a, int b)
    {
        e->pub(a, b);
    }
}
