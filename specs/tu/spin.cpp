// Layout and construction of the spin lock.
#include "cocpp/sync/co_spinlock.h"
#include <new>
#include "off.h"

using namespace cocpp;
SIZE(spin, co_spinlock)
OFF(spin_flag, co_spinlock, locked__)
co_spinlock *spin_make(void *p)
{
    return new (p) co_spinlock;
}
