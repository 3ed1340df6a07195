#include "common.hpp"
// C12, C13
OP(to_oklab) { put(o, XYZ_to_OKLAB(tri(a, 0))); }
OP(from_oklab) { put(o, OKLAB_to_XYZ(tri(a, 0))); }
OP(oklab_round) { put(o, OKLAB_to_XYZ(XYZ_to_OKLAB(tri(a, 0)))); }
OP(oklab_dnuor) { put(o, XYZ_to_OKLAB(OKLAB_to_XYZ(tri(a, 0)))); }
OP(to_ictcp) { put(o, XYZ_to_ICtCp(tri(a, 0))); }
OP(ictcp_neutral) { put(o, XYZ_to_ICtCp(tri(a, 0))); }
OP(from_ictcp) { put(o, ICtCp_to_XYZ(tri(a, 0))); }
OP(ictcp_round) { put(o, ICtCp_to_XYZ(XYZ_to_ICtCp(tri(a, 0)))); }
OP(ictcp_dnuor) { put(o, XYZ_to_ICtCp(ICtCp_to_XYZ(tri(a, 0)))); }
