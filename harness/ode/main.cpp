// The stiff integrator (C12) and the chemical reactors (C13) under simulated
// threads, histories and misbehaving callbacks.
#include "ode/common.hpp"

void scenario_init() {}

void scenario_run(const std::string& prop) {
  if (prop == "C12") {
    ode::run_c12();
  } else if (prop == "C13") {
    ode::run_c13();
  } else {
    sim::harness_error("no such property here: %s", prop.c_str());
  }
}
