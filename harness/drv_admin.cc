// Replays behaviours of spec/Admin.tla: requests to a real AdminServer over TCP, mixed with the
// operations of drv_publish.
#define WITH_ADMIN
#include "admin_ops.h"
#include "drv_publish.cc"
