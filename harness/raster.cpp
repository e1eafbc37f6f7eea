// Monitors of the rendering context: P23 (containment), P24 (coverage), P25 (compositing), P26 (patterns),
// P27 (gradients), P29 (state), P30 (async = sync), P34 (scaling).
#include <climits>
#include "vh.h"
#include "scene.inc"
using namespace vh;
using namespace scene;

#include "raster_p30.inc"
#include "raster_p23.inc"
#include "raster_p25.inc"
#include "raster_p24.inc"
#include "raster_p26.inc"
#include "raster_p27.inc"
#include "raster_p29.inc"
#include "raster_p34.inc"
#include "raster_p28.inc"

void vh_init() {}
void vh_finish() {}
void vh_case(uint64_t id, Rng& r) { g_case = id;
  (void)id; const std::string& m = st().mode;
  if (m == "P30") case_p30(r); else if (m == "P23") case_p23(r); else if (m == "P25") case_p25(r); else if (m == "P24") case_p24(r); else if (m == "P26") case_p26(r); else if (m == "P27") case_p27(r); else if (m == "P29") case_p29(r); else if (m == "P34") case_p34(r); else if (m == "P28") case_p28(r); else VH_ASSUME(!"unknown mode");
}
