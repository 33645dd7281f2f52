#pragma once
#include "absl/strings/sim_strings.h"
