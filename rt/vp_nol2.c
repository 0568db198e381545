#include "vp_bus.h"
const struct diag_l2_proto *l2proto_list[] = { NULL };
#include "diag_l3.h"
const struct diag_l3_proto *diag_l3_protocols[] = { NULL };
