// the second translation unit
#define VH_NS unit2
#include "config_ops.hpp"
KindOps kind_of_unit2(int i) { return unit2::kind(i); }
void statics_of_unit2() { unit2::early.look(); unit2::statics().look(); }
