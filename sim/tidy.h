#pragma once
#include "harness.h"
void AddTidyScenarios(std::vector<PropScenario> *v);
void AddBantScenarios(std::vector<PropScenario> *v);
