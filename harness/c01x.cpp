#include "c01.h"
#if defined Vc_IMPL_Scalar
static int r0 = cc::RegPairs<SixVectors, SixVectors>::go();
#else
static int r0 = cc::RegPairs<SixVectors, SixOf<SAbi>>::go() + cc::RegPairs<SixOf<SAbi>, AllVectors>::go();
#endif
PBT_MAIN
