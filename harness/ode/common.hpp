#pragma once
#include "common/isolated.hpp"

namespace ode {
using iso::Bytes;
using iso::in_isolation;
using iso::isolated;

/// The allocation with this number, counted from now on, fails; -1: none.
void fail_allocation(long which);

void run_c12();
void run_c13();

} // namespace ode
