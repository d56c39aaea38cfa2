// Results depend on the arguments alone (pure.cpp, linked in by this include).
#ifndef VERIF_PURE_H
#define VERIF_PURE_H
#include "engine.h"
namespace pure {
// One case of calls to the operations of the given properties (all when empty).
void independent(pbt::Gen &g, pbt::Ctx &c, const std::string &tags);
} // namespace pure
#endif
