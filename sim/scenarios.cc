#include "tidy.h"
static std::vector<PropScenario> All() {
  std::vector<PropScenario> v;
  AddTidyScenarios(&v);
#ifndef NO_BANT
  AddBantScenarios(&v);
#endif
  return v;
}
const std::vector<PropScenario> kScenarios = All();
