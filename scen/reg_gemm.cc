#include "../sim/scenario.h"
extern const Scenario kScenGemm;
const Scenario* const g_scenarios[] = {&kScenGemm, nullptr};
