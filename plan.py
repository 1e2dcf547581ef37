"""What each check runs: build variants, numbers of cases, time caps, minimum observations, and the text of the evidence."""
ALL = [f"C{i:02d}" for i in range(1, 32)]
N = 9000           # cases of a quick run (about 15 s of 8 cores)
PLAN = {p: dict(quick=dict(jobs=[("plain", N, 25)], cap=420), thorough=dict(jobs=[("plain", 60000, 50)], cap=3000)) for p in ALL}
for p, n in (("C02", 7000), ("C26", 2500), ("C22", 8000), ("C10", 8000), ("C24", 8000), ("C28", 6000), ("C15", 6000), ("C27", 4000), ("C21", 6000), ("C23", 6000), ("C17", 7000)):
    PLAN[p]["quick"]["jobs"] = [("plain", n, 25)]
PLAN["C18"] = dict(quick=dict(jobs=[("plain", 2000, 10), ("tsan", 240, 6)], cap=420), thorough=dict(jobs=[("plain", 20000, 25), ("tsan", 3000, 10)], cap=3000))
PLAN["C30"] = dict(quick=dict(jobs=[("plain", 8000, 100), ("asan", 2000, 50)], cap=420), thorough=dict(jobs=[("plain", 100000, 200), ("asan", 20000, 50)], cap=3000))
PLAN["C19"] = dict(quick=dict(jobs=[("asan", 2500, 10)], cap=420), thorough=dict(jobs=[("asan", 20000, 10)], cap=3000))
PLAN["C20"] = dict(quick=dict(jobs=[("vg", 40, 1), ("pattern", 2500, 25), ("zero", 2500, 25), ("plain", 2500, 25), ("perturb", 2500, 25)], cap=420),
                   thorough=dict(jobs=[("vg", 400, 2), ("pattern", 20000, 50), ("zero", 20000, 50), ("plain", 20000, 50), ("perturb", 20000, 50)], cap=3000))

# what a run must have seen to count as an answer
MINIMA = {p: {"updates": 1000, "eventful_updates": 200} for p in ALL}
MINIMA.update({
    "C02": {"summaries": 200, "with_runoff": 50, "with_percolation": 20, "ending_ponded": 5, "with_calibration": 5},
    "C03": {"routing_checks_wet": 1000, "delayed_only": 100, "ordinates_subhourly": 20, "ordinates_superhourly": 20},
    "C05": {"updates": 1000, "same_layer_pairs": 1000, "front_births": 100, "front_losses": 100},
    "C06": {"updates": 1000, "runoff_updates": 100, "ponded_updates": 100},
    "C07": {"law_checks": 1000, "capacity_limited": 100, "storage_limited": 20, "with_ponding": 50},
    "C08": {"births": 500, "births_saturated": 50, "births_unsaturated": 200},
    "C09": {"speed_checks": 2000, "speed_layer1": 500, "speed_layer2": 200, "speed_layer3": 50},
    "C10": {"steps_checked": 2000, "steps_with_merge": 50, "steps_with_crossing": 50, "steps_with_exit": 10},
    "C11": {"law_checks": 1000, "stressed_checks": 50},
    "C12": {"retention_checks": 2000, "conductivity_checks": 500, "interface_checks": 500},
    "C13": {"steps_checked": 1000, "percolations": 20},
    "C15": {"variable_checks": 2000, "round_trips": 1000, "unknown_names": 100, "hostile_round_trips": 1000},
    "C16": {"updates": 1000, "update_until_calls": 100, "truncated_updates": 50},
    "C17": {"bridged_runs": 100, "uneven_steps": 50, "adaptive_runs_checked": 50, "fine_steps": 100, "medium_steps": 100, "coarse_steps": 100},
    "C18": {"interleaved_updates": 1000, "concurrent_updates": 1000, "schedules": 100},
    "C19": {"lifecycles": 100, "eventful_updates": 1000, "leak_cycles": 100},
    "C20": {"runs_compared_across_fillings": 100, "digested_states": 1000, "memcheck_processes": 5},
    "C21": {"config_files": 100, "parameter_checks": 1000, "behaviour_checks": 1000, "fractional_second_steps": 50, "deep_pond_limits": 50},
    "C22": {"broken_inputs": 200, "controls": 200},
    "C23": {"calibrated_runs": 100, "compared_states": 1000, "shared_soil_runs": 10, "unflagged_runs": 20, "negative_pond_limits": 50},
    "C24": {"warm_runs": 50, "factor_checks": 1000, "frozen_layers": 50, "partly_frozen_layers": 50},
    "C25": {"updates": 1000, "wet_updates": 100},
    "C26": {"rows": 1000, "eventful_rows": 100, "too_short_forcings": 20, "broken_forcings": 20, "crlf_files": 50, "forcings_with_blank_lines": 50},
    "C27": {"compared_states": 1000},
    "C28": {"compared_updates": 1000, "past_end_runs": 20, "updates_past_end": 100},
    "C29": {"rest_checks": 1000},
    "C30": {"list_operations": 10000, "insert_middle": 500, "deletions": 1000, "copies": 500, "storage_checks": 1000},
    "C31": {"retention_checks": 10000, "inverse_checks": 10000, "conductivity_checks": 10000, "numerical_drives": 1000, "closed_drives": 1000, "saturated_drives": 1000},
})

GEN = ("Each case draws a column (1-10 layers of 28 published soils, jittered soils or soils from the documented calibration ranges, "
       "freeze-thaw and calibration options, defaults written out or omitted), time step, forcing interval, ponding limit and a forcing history (showers, pulses, storms, "
       "drizzle, drought, saturating rain, single events, mixed seasons, traces and cloudbursts) from VERIF_SEED and the case number; some cases steer the forcing "
       "to exact ties (a pond filled exactly to its limit, a front exactly on a layer bottom, equal moistures). ")
STEP = "distinct_nontrivial counts distinct signatures (layers, front count and layer pattern, births/losses, rain/runoff/percolation/pond/options) of Updates in which fronts or surface water changed. "
RULES = {p: GEN + STEP for p in ALL}
RULES.update({
    "C15": GEN + "distinct_nontrivial counts distinct (variable, grid, size) combinations whose contract was checked. ",
    "C18": GEN + "distinct_nontrivial counts distinct interleavings of Updates and Finalizes of the instances and distinct eventful step signatures. ",
    "C21": "Each case writes a random valid column in random notation. distinct_nontrivial counts distinct configuration texts and eventful step signatures. ",
    "C22": "Each case injects one defect into a valid configuration or forcing. distinct_nontrivial counts distinct defects. ",
    "C25": GEN + "distinct_nontrivial counts distinct (kind of invalid soil type, layers, wet/dry demand) combinations. ",
    "C30": "Each case draws a sequence of list operations and a random layered profile from VERIF_SEED and the case number. distinct_nontrivial counts distinct (operation, list length, phase) combinations. ",
    "C31": "Each case draws a soil (published, jittered or from the calibration ranges) and heads, saturations and moisture pairs. distinct_nontrivial counts distinct (soil, moisture pair class, form of the capillary drive) combinations. ",
    "C29": GEN + "All forcing is zero. distinct_nontrivial counts distinct (layers, initial head, top thickness) combinations. ",
})
ASSUME = ["soil parameters within the ranges of the repository's tables and calibration documentation; layers between 5 and 450 cm",
          "forcing is non-negative and finite; with freeze-thaw coupling every layer has a temperature node",
          "the state handle of the model exposes the real wetting fronts (read-only)"]
