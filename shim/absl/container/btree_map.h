#pragma once
#include "absl/container/sim_btree.h"
