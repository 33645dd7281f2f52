#pragma once
#include "absl/container/sim_hash_table.h"
