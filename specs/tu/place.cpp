// The set of environments.
#include "cocpp/core/co_manager.h"
#include "cocpp/core/co_env.h"
#include "off.h"
using namespace cocpp;
SIZE(pl_mgr, co_manager)
OFF(pl_lock, co_manager, env_set__.normal_lock)
OFF(pl_set, co_manager, env_set__.normal_set)
OFF(pl_base, co_manager, env_set__.base_env_count)
OFF(pl_max, co_manager, env_set__.max_env_count)
OFF(pl_cv, co_manager, env_set__.cv_expired_env)
VAL(est_idle, (long)co_env_state::idle)
VAL(est_busy, (long)co_env_state::busy)
VAL(est_blocked, (long)co_env_state::blocked)
VAL(est_destroying, (long)co_env_state::destroying)
VAL(est_created, (long)co_env_state::created)
VAL(ef_nothread, CO_ENV_FLAG_NO_SCHE_THREAD)
VAL(ef_exclusive, CO_ENV_FLAG_EXCLUSIVE)
VAL(ef_keep, CO_ENV_FLAG_DONT_AUTO_DESTROY)
VAL(ef_converted, CO_ENV_FLAG_CONVERTED)
