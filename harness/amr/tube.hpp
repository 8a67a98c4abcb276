// C23: a combustion tube between the plena of a compressor and a turbine,
// modelled on examples/AMReX/SEC_Arrhenius_SEC_C_Val.cpp.
#pragma once
#include "world.hpp"

#include "fub/equations/PerfectGasMix.hpp"
#include "fub/equations/perfect_gas_mix/PlenaControl.hpp"

#include <array>
#include <map>
#include <optional>

namespace amr {
namespace gt = fub::perfect_gas_mix::gt;
struct Tube {
  Config grid;
  int valve = 0;  // 0: deflagration, 1: deflagration to SEC, 2: Klein, 3: reduced model
  int outlet = 0; // 0: turbine plenum, 1: fixed pressure
  bool axial = false, diffusion = false, reaction = false, user_dt = false, lumped = true;
  double pressure = 1.0; // in the tube, over that of the compressor
  double step = 0.0;     // pressure jump near the inlet
  int step_at = 2;       // in coarse cells
  double velocity = 0.0;
  double filled = 0.3; // part of the tube with fuel
  double delay = 0.0;  // of the fuel after the valve has opened
  double temperature = 2.0;
  double turbine_pressure = 1.0; // over that of the compressor
  double target = 1.1;           // over the pressure of the compressor
  double inertia = 0.1, mu = 10.0, mdot = 0.24;
  double reynolds = 300.0;
  double spin = 0.0; // initial speed of the compressor between its bounds
  bool sec = false;  // initial mode
  bool stateless() const { return valve == 0; }
  std::string text() const;
};
Tube draw_tube();
gt::ControlOptions control_options(const Tube& t);

/// The fluxes of mass, fuel and energy through the ends of the tube.
struct Ends {
  std::array<double, 3> in{}, out{};
};

/// What one rank of a tube shows.
struct TubeHooks {
  Hooks hooks;
  std::function<void(const Grid&, const gt::ControlState&, std::optional<fub::Duration> t_opened)> output;
  std::function<void(fub::Duration dt, const gt::ControlState& before, const gt::ControlState& after, const Ends& ends)> feedback;
  std::string control_file;  // where the ControlOutput writes, or empty
  std::string checkpoints;   // directory, or empty
  std::string restart_from;  // directory of a checkpoint, or empty
};
fub::PerfectGasMix<1> tube_equation();
void program_tube(const Tube& t, const TubeHooks& h);
void check_c23();
/// The control after one step, computed from the equations in its documentation.
gt::ControlState control_model(const Tube& t, gt::ControlState s, double rho_in, double fuel_in, double rho_out, double energy_out, double dt);
std::map<std::string, double> fields(const gt::ControlState& s);
} // namespace amr
