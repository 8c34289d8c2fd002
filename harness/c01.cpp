#include "c01.h"
static int r0 = cc::RegPairs<SixVectors, SixVectors>::go();
PBT_MAIN
