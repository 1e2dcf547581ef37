#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from one table (run by hand; the outputs are committed)"""
import json
L="src/lgar.cxx"; B="src/bmi_lgar.cxx"; SF="src/soil_funcs.cxx"; LL="src/linked_list.cxx"; A="src/aet.cxx"; G="giuh/giuh.c"; U="src/util_funcs.cxx"; MF="src/mem_funcs.cxx"; D="src/bmi_main_lgar.cxx"; H="include/all.hxx"; BH="include/bmi_lgar.hxx"
IC=["inputs","configurations","histories"]
UT="Tests run one unit-test configuration and five fixed configurations, and compare at most a few numbers of one step (the model runs only have to finish)"
P=[]
def prop(i,title,st,over,q,why,files,mech,tech,note,observe=("BMI getters","state handle of the model after every Update")):
    assert len(title)<=80,(i,len(title)); assert not st.rstrip().count("\n")
    P.append((dict(id=i,title=title,statement=st,quantifier=dict(over=list(over),text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=list(observe),hook_needed=None)),tech,note))

prop("C01","Every Update conserves water",
 "Over every Update, soil storage plus ponded water changes by exactly the precipitation volume minus surface runoff, actual evapotranspiration and percolation through the column bottom (to 3e-6 cm; 1e-3 cm for extreme soils), both for the water held by the wetting-front profile and for the published storage. The published mass-balance error of the Update is likewise negligible. No outgoing flux is negative beyond the numerical closure of the balance (1e-6 cm; for extreme soils 1.5e-4 cm per internal step).",
 IC,"every soil column (1-10 layers, any documented soil), every forcing sequence, time step and option combination; every Update of every history, thousands of Updates long",
 UT+"; conservation has to hold for every profile, merge, layer crossing, ponding and drying event.",
 [L,B,SF,LL],[("sub-step mass balance","src/bmi_lgar.cxx Update"),("front movement with mass-conserving redistribution",L),("lgar_global_mass_balance",L)],
 "online water-balance monitor on every Update of generated runs","residual recomputed from the observed profile, independent of the model's own bookkeeping")
prop("C02","Run totals and the final report equal the sum of what was published",
 "At any point of a run, the water that entered equals the water that left plus the change in storage since the start (cumulatively over all Updates), with calibration changes of storage accounted for. The mass-balance report printed at the end of a run states, for precipitation, infiltration, evapotranspiration (actual and potential), runoff, routed discharge, percolation, initial, final and ponded water, exactly the sums and states published during the run. Its global balance is the difference of those terms and is negligible.",
 IC,"every run: any length including no Update at all, ending ponded, ending with water still in routing, calibrated or not",
 "Tests only look for the word 'Global balance' in the output.",[B,L],[("cumulative mass_balance record",B),("lgar_global_mass_balance",L)],
 "offline comparison of the printed report with sums over the recorded event log","sums are computed by the monitor from the published values of every Update")
prop("C03","Runoff routing is the unit-hydrograph convolution of past runoff",
 "The routed runoff of every Update equals the convolution of the surface runoff of this and all previous Updates with the configured hourly unit-hydrograph ordinates resampled to the forcing interval (uniform within each hour), for any forcing interval and any number of ordinates. Total discharge equals routed runoff (there is no groundwater contribution). Routing never creates water, and water that ran off leaves completely once the hydrograph length has passed.",
 IC,"every ordinate set, every forcing interval (shorter, equal or longer than an hour), every runoff history",
 "Tests use one ordinate set at 1 h and 5 min and check no routed value.",[G,B],[("giuh_convolution_integral",G),("ordinate resampling at initialisation",B)],
 "online convolution reference over the recorded runoff history","reference convolution in double precision, tolerance 1e-10 m")
prop("C04","States and outputs stay finite and within physical bounds",
 "After every Update each wetting front has moisture between its layer's residual and saturated moisture, non-negative capillary head and conductivity, and a speed between 0 and 1e4 cm/h. Storage lies between the column's residual and saturated storage; routed discharge is not negative. No state or output is ever NaN or infinite.",
 IC,"every documented column, forcing and option; storms, droughts, saturation, long histories",
 UT+"; nothing checks bounds.",[L,SF,B],[("clamping of moisture and speed",L),("van Genuchten functions",SF)],"online bounds monitor on every front after every Update","bounds from the configured soil of each layer")
prop("C05","The wetting-front profile is always well formed",
 "After every Update the fronts are numbered 1..n from the surface down, their layers run consecutively from 1 to the number of layers, and each layer has exactly one front that reaches its bottom (lying exactly there and last in its layer). Within a layer every front is wetter than the one below it. Fronts lie inside their layer in increasing depth, except that an overtaking or layer crossing may be left pending for at most one further Update.",
 IC,"every front birth, merge, crossing, deletion and their combinations in 1-10 layers",
 UT+".",[L,LL],[("merge / cross / dry-over-wet passes",L),("linked list operations",LL)],"online structural invariant monitor over the front list","checks the list after every Update, one or several internal steps each")
prop("C06","Rain and ponded water split exactly into infiltration, runoff and pond",
 "Over every Update, precipitation plus the water ponded before equals infiltration plus surface runoff plus the water ponded after (to 1e-9 cm). Ponded depth stays between zero and the configured maximum; runoff and infiltration are never negative, and neither occurs without surface water. Within one time step, runoff is produced only if the pond ends at its maximum depth, and infiltration never exceeds the free pore space plus the water that left the soil.",
 IC,"every rain sequence, maximum ponded depth (including zero) and soil state (including saturated columns)",
 UT+".",[B,L],[("surface partition in Update",B),("lgar_insert_water",L)],"online surface water-balance monitor","single-step clauses are judged on Updates of one internal step")
prop("C07","Infiltration follows the layered Green-Ampt capacity",
 "When rain or ponded water meets a profile in which no new surface front is created, the infiltrated volume of a time step is the minimum of the available water, the capacity and the free pore space. The capacity is that of the uppermost mobile front at its start-of-step depth: in the top layer Ks(1+(G+h)/z); in deeper layers z divided by the sum of layer resistances (thickness over saturated conductivity, the front's own layer counted to its depth) plus Ks(G+h)/z, with Ks of the front's layer reduced by its freezing factor, G the capillary drive from the moisture below to saturation (zero when there is no front below), and h the ponded depth at the start of the step.",
 IC,"every profile, layer of the front, ponded depth, freezing state, and choice of numerical or closed-form capillary drive",
 UT+"; the capacity binds in few steps.",[L,SF],[("lgar_insert_water",L),("calc_Geff",SF)],"online comparison with an independent infiltration law","numerical G judged against an independent re-implementation of the documented quadrature or the exact integral")
prop("C08","A new surface front is created exactly when it should, as the theory says",
 "A new front appears exactly when rain starts (the previous forcing interval was dry) on an unsaturated surface without ponded water. Its depth is the dry depth 0.5(tau+sqrt(tau^2+4 tau G)), with tau the time step times (frozen-factor reduced) saturated conductivity over the moisture deficit, limited to the top layer; its moisture is the one that holds the infiltrated water, at most saturation. Its infiltration is the rain or the water that fills the dry depth, whichever is less, and the fronts below are those that moving without infiltration would give.",
 IC,"every dry-to-wet transition on every profile",
 UT+".",[L,B],[("lgar_create_surficial_front, lgar_calc_dry_depth",L),("creation condition in Update",B)],"online comparison with a reference step","ties (within 1e-9 of a branch point) are skipped and counted")
prop("C09","Wetting fronts move at the LGAR speed",
 "After every Update the stored speed of each front equals the LGAR speed for the present profile: in the top layer (Ks(G+h)/z + K)/(theta - theta below); in deeper layers (z divided by the sum of layer resistances at the front's head, plus Ks(G+h)/z)/(theta - theta below), with conductivities reduced by the freezing factors and h the ponded depth. Fronts resting on a layer bottom have speed zero, and speeds never exceed 1e4 cm/h.",
 IC,"every profile in 1-10 layers, ponded or not, frozen or not, numerical or closed-form capillary drive",
 UT+"; the unit test compares depths after one step.",[L,SF],[("lgar_dzdt_calc",L),("calc_Geff, calc_K_from_Se",SF)],"online comparison with an independent speed law","relative tolerance 1e-4 (5e-3 where the moisture contrast is below 0.01)")
prop("C10","Movement, redistribution, merging and layer crossing follow the model",
 "In one time step every mobile front advances by its speed, keeps its water (plus infiltration minus evapotranspiration for the uppermost mobile front) at a single capillary head through all layers above it, and fronts resting on a layer bottom take the head of the front below. Fronts that overtake one another in a layer merge conserving water; fronts passing a layer bottom continue in the next layer at the same head with their water conserved; fronts no wetter than the one below vanish. The observed profile after a step equals the one these rules give.",
 IC,"every profile and sequence of merges, crossings, deepening of saturated fronts and deletions in 1-10 layers",
 UT+".",[L,LL,SF],[("lgar_move_wetting_fronts",L),("lgar_merge_wetting_fronts, lgar_wetting_fronts_cross_layer_boundary, lgar_fix_dry_over_wet_fronts",L),("lgar_theta_mass_balance",L)],
 "online whole-step reference model compared with the observed profile","reference solved by bisection; ambiguous ties skipped and counted")
prop("C11","Actual evapotranspiration obeys the S-shaped reduction law",
 "Actual evapotranspiration of every Update lies between zero and the potential volume, and is zero when potential is zero (up to numerical closure of the water balance, 1e-5 cm, 1e-3 cm for extreme soils). In one time step it equals potential/(1+(h/h50)^3), with h the capillary head of the surface front before the step and h50 the head at the mean of field-capacity and wilting-point moisture of the top layer's soil, except for the documented corrections when a saturated profile or a vanishing dry front cannot supply it.",
 IC,"every surface state, soil, field capacity, wilting point and demand",
 UT+"; the unit test compares one AET value.",[A,L,B],[("calc_aet",A),("AET accounting in Update",B)],"online comparison with an independent evapotranspiration law","corrections are predicted by the reference step")
prop("C12","Moisture, capillary head and conductivity of every front are consistent",
 "After every Update each front's moisture is the van Genuchten moisture of its capillary head in its layer's soil, and each mobile front's conductivity is the Mualem-van Genuchten conductivity of its moisture times the layer's freezing factor. Across each layer interface the head is continuous: the front resting on the interface has the head of the first front below it.",
 IC,"every front after every Update of every history",UT+".",[L,SF],[("calc_theta_from_h, calc_h_from_Se, calc_K_from_Se",SF),("state refresh at the end of movement",L)],"online constitutive-consistency monitor","retention and conductivity functions re-implemented by the monitor")
prop("C13","Water leaves the bottom only with fronts that pass it, in the right amount",
 "Percolation of a time step is zero unless a wetting front passes the bottom of the column, and is then exactly the water of that front lying below the bottom: its moisture excess over the deepest front times the overshoot. It is never negative (beyond numerical closure), and the deepest front then takes the moisture of the front that left.",
 IC,"every profile whose fronts reach the column bottom, including one-layer and fully saturated columns",
 "The test runs never look at percolation.",[L,B],[("lgar_wetting_front_cross_domain_boundary",L),("bottom flux accounting",B)],"online comparison with a reference step","judged on Updates of one internal step and, through step equivalence, of several")
prop("C14","Published outputs mirror the model state in the documented units",
 "After Initialize and after every Update, the published number, moistures and depths (m) of wetting fronts are those of the profile, soil storage (m) is the water the profile holds, precipitation and potential evapotranspiration (m) are the forcing volumes of the interval, and flux outputs are zero before the first Update. Published infiltration minus evapotranspiration minus percolation equals the change of published storage, and the published mass-balance error is negligible. Total discharge equals routed runoff and the groundwater flux is zero.",
 IC,"every variable after every Update of every history, including Updates that change the number of fronts",
 "The unit test checks a few values after one step.",[B,BH],[("publication at the end of Update",B),("GetValuePtr",B)],"online comparison of BMI outputs with the observed state","tolerances of a few ulp")
prop("C15","BMI getters and setters honour their contract for every variable",
 "For every variable, grid, type, units, item size, byte count, grid size and shape agree with one another and with what getting its value writes (never more); values by copy, by pointer and by index agree, and a value set (whole or by index) reads back unchanged without altering others. Reading, and setting to the same value, never changes the simulation. Unknown variables and unimplemented functions are refused with an error and never accepted.",
 ["inputs","histories","configurations"],"every variable, index set, order of calls and moment of the run, for 1-10 layers and changing front counts",
 "The unit test covers one configuration with 3 layers at one moment.",[B,BH],[("Get*/Set* functions",B)],"online contract monitor with guard zones around buffers","bit-exact comparison with an undisturbed run")
prop("C16","Time and forcing volumes advance exactly",
 "Every Update advances the clock by the forcing interval and consumes exactly rate times interval of precipitation and potential evapotranspiration, whatever the internal step; time step, start and end time are reported in seconds. Updating until a time performs exactly the Updates needed to reach it, and none if it is already reached. If the end time falls inside an interval, the last Update stops with the internal step that reaches it and accounts for just that part of the forcing.",
 IC,"every combination of internal step, forcing interval, end time and call sequence",
 "Tests use two step/interval pairs, divisible, and never read the clock.",[B],[("Update, UpdateUntil, GetCurrentTime",B)],"online clock and volume monitor","1 ms, 1e-9 cm")
prop("C17","Results depend only on the internal step, not on how it is grouped",
 "An Update of n internal steps leads to the same state and the same summed fluxes as n Updates of one step each under the same forcing. A step that does not divide the interval is shortened to the next one that does. With the adaptive option the step is the configured minimum when rain exceeds 10 mm/h or water was ponded, twice that when it rains at most 10 mm/h, and the whole interval when it is dry, never more than the interval, and the result equals that of the fixed step.",
 IC,"every step/interval ratio, forcing, ponding and option","Tests never compare two step groupings.",[B],[("sub-step loop and adaptive rule in Update",B)],"differential monitor between runs that must agree","tolerance 1e-7 relative")
prop("C18","Runs are deterministic and model instances are isolated",
 "Repeating a run gives bit-identical results. Several model instances in one process, initialised, updated and finalised in any interleaving or updated concurrently from different threads, each give exactly the results they give alone. Concurrent Updates of distinct instances have no data race.",
 ["schedules","histories","configurations"],"every interleaving of Initialize, Update and Finalize of 2-4 different instances; concurrent Updates",
 "Tests only ever hold one instance at a time.",[B,L,U,H],[("per-instance model_state",H)],"trace comparison over random schedules plus ThreadSanitizer","races are those ThreadSanitizer observes in the executed schedules")
prop("C19","No memory error, undefined behaviour or leak",
 "No life cycle of the model (initialise, calibrate, any Updates with any reads, finalise) performs an invalid, out-of-bounds or use-after-free memory access, a double free, or other undefined behaviour. It neither crashes nor aborts for valid inputs, and for soil types outside the table it passes through instead. Refusing a broken configuration or forcing does not misuse memory either. After Finalize and destruction no memory remains allocated, so repeated life cycles do not grow.",
 IC,"every configuration, forcing and history, including invalid soil types, verbose output, freeze-thaw and calibration",
 "Tests run without sanitizers on a few configurations.",[L,B,LL,MF,U,SF],[("linked-list ownership",LL),("array ownership and Finalize",B)],"AddressSanitizer + UndefinedBehaviorSanitizer + allocation accounting over generated life cycles","detects what the sanitizers can observe on the executed paths")
prop("C20","Results never depend on uninitialised memory",
 "The states, outputs and printed report of a run are the same whatever fresh stack and heap memory happens to contain. No branch or output depends on a value that was never written.",
 IC,"every configuration, forcing and history","Tests cannot see it: fresh memory is usually zero.",[B,L,MF,H],[("initialisation of state and outputs",B)],"differential runs with differently filled fresh memory (pattern/zero stack, perturbed heap) plus memcheck","bit-exact digests of whole trajectories")
prop("C21","The configuration file means what it says",
 "Whatever the order and notation of the configuration lines (units of time and length, number formats, quoting and spacing of the soil table, comments, unknown keys, blank lines, CRLF line ends), the model starts with exactly the configured layers, soil of each layer, initial head, moistures and storage, time step, interval, end time and options. Omitted optional keys have their documented defaults. The run equals that of the same column in canonical notation.",
 ["inputs","configurations"],"every valid configuration file and soil table","Tests read six fixed files.",[L,B,U],[("InitFromConfigFile",L),("lgar_read_vG_param_file",L),("unit parsing",L)],"metamorphic monitor: generated notations against the canonical run and direct reads of every parameter","")
prop("C22","Invalid configurations and forcings are refused, never simulated",
 "A configuration that lacks a mandatory entry, names a missing file, has fewer soil types than layers, malformed soil rows or numbers, non-positive times, unknown time units, an invalid on/off option, or couples freeze-thaw without temperature depths (or without one in some layer) is refused (error or termination) before any result is produced. Negative or never-set precipitation or potential evapotranspiration is refused by Update. The same configuration without the defect is accepted.",
 ["inputs","configurations","fault_sequences"],"every single defect of the listed kinds in every valid configuration","Tests contain no invalid input.",[L,B],[("validation in InitFromConfigFile",L),("forcing assertions in Update",B)],"fault injection into valid configurations, refusal observed in a child process","")
prop("C23","Calibrating through the interface equals configuring the same values",
 "With the calibration option on, setting soil parameters per layer, field capacity and maximum ponded depth before the first Update gives the same run as a configuration file with those values, also when layers share a soil type in the table, and the reported storage change by calibration is the difference of the initial water contents. Values set after the first Update, or without the option, have no effect.",
 IC,"every parameter set within the documented calibration ranges, any subset of parameters, any column","The unit test calibrates one column to one set and checks one step.",[B,L],[("calibration update in Update",B)],"differential monitor: calibrated run against configured run","tolerance 1e-7")
prop("C24","Freezing reduces conductivity per layer as documented; warm soil is unaffected",
 "With freeze-thaw coupling each layer's conductivity factor is exp(-10(273.15-T)), T being the mean temperature of the profile nodes in that layer, limited to 0.05..1. Infiltration, front speed, new fronts and front conductivity use saturated conductivities multiplied once by the factor of the layer concerned. If all layers are at or above 273.15 K the run equals the uncoupled run.",
 IC,"every temperature profile, node placement (several, at layer bottoms, below the column) and layer structure","No test couples soil temperature.",[L,B],[("frozen_factor_hydraulic_conductivity",L)],"online law monitors fed with the expected factors, differential warm run","every layer has at least one temperature node")
prop("C25","Columns with invalid soil types pass all rain through as runoff",
 "If any layer's soil type is outside the soil table or above the configured maximum, every Update publishes precipitation, surface runoff and total discharge equal to the rain volume of the interval, zero infiltration, evapotranspiration, percolation, storage and mass-balance error, and advances the clock. The final report shows the same totals.",
 IC,"every such configuration (type zero, negative, beyond the table, above the maximum, in any layer) and forcing","No test has an invalid soil type.",[B,L],[("is_invalid_soil_type handling",B)],"online pass-through monitor","")
prop("C26","The standalone driver writes exactly the simulated values",
 "For any configuration and forcing file the standalone program writes one row per forcing interval of the simulated period, in order and with the forcing's time stamps: every output variable in meters with full precision in one file, and the complete wetting-front profile (depth and head in mm, moisture, layer, number) in the other. The values are those of the same run through the programming interface, and its final report matches them. Forcing that is missing, malformed, negative or shorter than the simulated period is refused.",
 IC,"every configuration, verbosity, forcing length, end time within the forcing, extra columns or missing final newline","Tests only check that it finishes.",[D,B,U],[("main loop and CSV writing",D)],"differential monitor: driver output files against an in-process run","driver built from the tree")
prop("C27","Verbosity never changes results",
 "Whatever the verbosity (none, low, high), every state and output of a run is bit-identical.",
 IC,"every configuration, forcing and history","Tests use one verbosity and compare nothing.",[L,B,U],[("verbosity-guarded output",L)],"differential monitor across verbosity levels","")
prop("C28","The framework library gives the same model, also beyond the end time",
 "The shared library built for the framework exports the functions that create and destroy a model, and a model created through it behaves exactly as the same model used directly, including several instances and calibration. Updates beyond the configured end time continue the simulation with full forcing intervals.",
 IC,"every configuration, forcing, number of Updates before and after the end time","The test suite never loads the framework library.",[B,BH],[("bmi_model_create/destroy, NGEN build",BH),("end time handling",B)],"differential monitor: dynamically loaded library against an in-process run","library built from the tree with the framework definition")
prop("C29","A column without forcing stays at rest",
 "Starting from the initial uniform-head profile, as long as there is neither rain nor potential evapotranspiration every flux is zero, no front appears or disappears, and moistures and depths do not drift, however long the run and whatever the layers, options and step.",
 IC,"every column, initial head, option and number of Updates","Tests have no run without forcing.",[L,B],[("lgar_theta_mass_balance fixed point",L)],"online equilibrium monitor","drift tolerance 1e-8 in moisture (1e-6 for extreme soils), 1e-9 cm in depth")

prop("C30","The wetting-front list is a faithful sequence and accounts its water exactly",
 "Whatever sequence of insertions (first, in between, last), deletions, searches and copies is applied, the wetting-front list holds exactly the fronts a plain sequence would, numbered consecutively from the surface, each with its own depth, moisture, head, conductivity, speed, layer and bottom flag; new fronts start at speed zero. A search finds exactly the front of that number, in the copy if one is given; a copy is complete and independent. No operation hangs, leaks or touches freed memory. The water of any layered profile is the sum over fronts of moisture excess over the next front in its layer times depth below the layer's top, and the uppermost mobile front is the first one that does not rest on a layer bottom (the last front if all do).",
 ["inputs","histories"],"every sequence of list operations on lists of any length, every layered profile","Tests never call list operations directly and see few profiles.",[LL,L],[("listInsertFirst, listInsertFront, listDeleteFront, listFindFront, listCopy, listLength",LL),("lgar_calc_mass_bal, wetting_front_free_drainage",L)],
 "sequence-model monitor over random operation histories, under AddressSanitizer as well","calls the list functions directly",("return values of the list functions","contents of the list"))
prop("C31","Soil-hydraulic functions are mutually consistent for every soil",
 "For every documented soil: moisture falls monotonically with capillary head between saturated and residual and equals the van Genuchten curve; head from effective saturation inverts it (zero at saturation); conductivity is the Mualem-van Genuchten one, zero at residual, the saturated one at saturation and monotone between; Brooks-Corey parameters are the documented transforms of the van Genuchten ones. The capillary drive between two moistures is non-negative, independent of the saturated conductivity, and equals the integral of relative conductivity over head (within the documented quadrature) or the documented closed form.",
 ["inputs"],"every documented soil, head from 0 to 1e7 cm, saturation from residual to saturated, moisture pair","Tests evaluate the functions for a few soils and states only.",[SF,L],[("calc_theta_from_h, calc_Se_from_h, calc_h_from_Se, calc_K_from_Se, calc_Geff",SF),("lgar_calc_brooks_corey_params",L)],
 "online law monitor on direct function evaluations over generated soils","calls the functions directly",("return values of the functions",))

NOTE="Bounded by the generated workloads: no violation in the executions observed, not a proof. Trusts the compiler, the monitor's reference laws and the generator's domain (DESIGN.md)."
if __name__=="__main__":
    with open("properties.jsonl","w") as f:
        for p,_,_ in P: f.write(json.dumps(p)+"\n")
    checks=[dict(property=p["id"],quick_cmd=f"python3 check.py {p['id']} quick",thorough_cmd=f"python3 check.py {p['id']} thorough",evidence_file=f"evidence/{p['id']}.json",
        technique="runtime monitoring: "+t,level="exploration",level_note=((n[0].upper()+n[1:]+". ") if n else "")+NOTE) for p,t,n in P]
    json.dump(dict(version=1,setup_cmd="python3 setup.py",checks=checks,not_applicable=[],
      notes="No hooks are added to /repo: the monitors drive the model through its BMI and read the public state handle. /repo carries 'fix:' commits only; see known_findings.json."),open("MANIFEST.json","w"),indent=1)
