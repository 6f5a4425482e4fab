#include "../sim/scenario.h"
extern const Scenario kScenPool;
const Scenario* const g_scenarios[] = {&kScenPool, nullptr};
