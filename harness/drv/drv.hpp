#pragma once
#include "solvers.hpp"

Scenario draw_scenario(const std::string& prop);
/// Runs the program on nranks simulated ranks; returns their records.
std::vector<RankRecord> run_phase(const Scenario& sc, int nranks, RunMode mode, bool faults,
                                  const std::vector<double>& dts = {});

double total_output_count(const RankRecord& rec);
void check_driver(const Scenario& sc, const RankRecord& rec);                       // C01
void check_rollback(const Scenario& sc, const std::vector<RankRecord>& recs);       // C02
void check_outputs(const Scenario& sc, const RankRecord& rec);                      // C03
void check_lock_step(const Scenario& sc, const RankRecord& rec);                    // C04
void check_conservation(const Scenario& sc, const std::vector<RankRecord>& recs);   // C05
void check_rejections(const Scenario& sc, const std::vector<RankRecord>& recs);     // C06
void check_splitting_direct();                                                      // C07
void check_splitting_run(const Scenario& sc, const RankRecord& rec);                // C07
void check_ranks(const Scenario& sc, const std::vector<RankRecord>& recs);          // C08
bool is_progress_line(const std::string& s);
