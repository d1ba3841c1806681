import json
P=[]
def p(id,title,st,over,qt,why,files,mech,obs=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs or ["BMI getters after every Update","state of the wetting-front profile"],hook_needed=None)))
B="src/bmi_lgar.cxx"; L="src/lgar.cxx"; A="src/aet.cxx"; G="giuh/giuh.c"; LL="src/linked_list.cxx"; S="src/soil_funcs.cxx"; M="src/bmi_main_lgar.cxx"; H="include/all.hxx"
T="The tests run a handful of fixed catchments with fixed forcing and compare a few totals; "
p("C01","Water is conserved in every step and over the whole run",
 "In every forcing interval the water that entered (rain plus what was ponded and stored before, plus the storage change that a calibration of the soil parameters causes) equals the water that left (runoff, evapotranspiration, percolation) plus what is ponded and stored afterwards, to within rounding and the iteration tolerance of the mass solver. The same holds cumulatively from initialisation to any later instant, and in the final summary. Within the same tolerance percolation and storage are never negative.",
 ["inputs","histories","configurations","fault_sequences"],"every admissible soil column, configuration, rain/PET history, delivery fault and calibration instant; every step of it",
 T+"the balance has to close on every one of the unbounded histories of front creation, merging, layer crossing, drying and saturation, of which the tests visit a few dozen states.",
 [B,L,A],[("sub-stepping loop and local mass balance",B+" Update"),("theta mass balance, merging, crossing, dry-over-wet correction",L+" lgar_move_wetting_fronts, lgar_theta_mass_balance, lgar_merge_wetting_fronts")])
p("C02","Surface water is split exactly into infiltration, runoff and ponding",
 "In every interval the water previously ponded plus rain equals infiltration plus surface runoff plus the water ponded afterwards; all three are non-negative. Ponded water never exceeds the configured maximum ponding depth, no runoff occurs while rain plus ponded water fit into it, runoff of an interval that is one sub-step leaves it exactly full, and a dry surface without rain produces none of the three.",
 ["inputs","histories","configurations","fault_sequences"],"every rain history (including lost, repeated and reordered deliveries), soil column, sub-step length and maximum ponding depth",
 T+"none checks the partition per step, nor maxima of ponding, across sub-stepping modes.",
 [B,L],[("infiltration and ponding rule",L+" lgar_insert_water"),("creation of surficial fronts",L+" lgar_create_surficial_front"),("sub-step accounting",B+" Update")])
p("C03","Runoff is routed by the unit hydrograph, every unit delivered exactly once",
 "The routed runoff of every interval is the convolution of the whole history of surface runoff with the configured hourly unit-hydrograph ordinates, spread evenly over the forcing intervals of each hour: nothing is lost, duplicated or delivered early or late, at any forcing resolution and across restarts. Total discharge is routed runoff plus groundwater recharge to the stream.",
 ["inputs","histories","configurations"],"every runoff history, ordinate list, forcing resolution and restart point",
 T+"routing is compared only through totals at one or two resolutions; the queue's order and timing are not observed.",
 [G,B,L],[("runoff queue convolution",G+" giuh_convolution_integral"),("ordinates resampled to the forcing resolution",B+" Initialize")])
p("C04","Actual evapotranspiration never exceeds demand and follows the stress law",
 "In every interval actual ET lies between zero and potential ET and is zero when potential ET is zero. It never exceeds what the documented soil-moisture stress law yields for the wetness of the topmost front, and where neither rain, merging of fronts nor exhaustion of the soil interferes it equals that value.",
 ["inputs","histories","configurations"],"every PET history, wetness state, field-capacity and wilting-point setting, also after calibration and under freezing",
 T+"only totals on a few histories are compared, so a demand exceeded or a law mis-evaluated in rare wetness states is invisible.",
 [A,B,L],[("stress law","src/aet.cxx calc_aet"),("extraction from the profile and limitation at residual water",L+" lgar_move_wetting_fronts")])
p("C05","The soil-moisture profile is well formed at every instant",
 "At every observable instant the wetting fronts are ordered by depth and numbered consecutively, every layer ends exactly at its bottom with one front, no front lies outside its layer or the column, wetter fronts lie above drier ones within a layer, and capillary head is continuous across layer boundaries. Every front's moisture lies between residual and saturated content and is consistent with its capillary head under its layer's soil curves, and so is the conductivity of every front that can move.",
 ["inputs","histories","configurations","fault_sequences"],"every reachable profile under every forcing history, soil column and schedule",
 T+"they look at final numbers of a few runs; well-formedness has to survive every sequence of creations, merges, crossings and corrections.",
 [L,LL,S],[("merge, cross, dry-over-wet fix-up loops",L+" lgar_merge_wetting_fronts, lgar_wetting_fronts_cross_layer_boundary, lgar_fix_dry_over_wet_wetting_fronts"),("list surgery",LL)])
p("C06","Published outputs always describe the actual state",
 "After every initialisation and step the published number of fronts, their moisture and depth arrays, soil storage and the balance error equal what the model's profile and fluxes amount to, in the announced units, and all published values are finite. The totals printed when the run is finalised equal the sums of what was published step by step.",
 ["histories","configurations","inputs"],"every history, including restarts, calibration and changing numbers of fronts",
 T+"the tests read the arrays at a few fixed steps and never compare them or the summary with the profile itself.",
 [B,L],[("reallocation and copy of published arrays",B+" Update"),("unit conversion of outputs",B+" update_states / bmi_unit_conv"),("final summary",L+" lgar_global_mass_balance")])
p("C07","The clock and the forcing advance together, one interval per step",
 "Every step advances the clock by exactly one forcing interval and consumes exactly the rain and PET amounts that the most recently delivered rates prescribe for it, whatever the relation between sub-step, adaptive sub-step and interval, and without drift. Lost, repeated, reordered, garbled-then-corrected or partial deliveries lead to exactly the amounts of the last delivered rates. Stepping before any forcing was delivered is refused, and running until a time advances in whole intervals to the first interval end at or after it.",
 ["inputs","schedules","fault_sequences","configurations"],"every sub-step/interval combination, delivery route and delivery fault sequence",
 T+"one resolution with one dividing timestep is exercised; delivery faults are not.",
 [B,L],[("sub-step count and adaptive sub-step",B+" Update"),("forcing conversion",B+" Update"),("time bookkeeping",B+" GetCurrentTime, UpdateUntil")])
p("C08","Model instances in one process do not influence each other",
 "The results of a catchment are bit-for-bit the same whether it runs alone or interleaved, in any order and with any stalls and restarts, with other catchments in the same process, including catchments whose initialisation is refused.",
 ["schedules","configurations","histories"],"every interleaving of the operations of several instances with arbitrary configurations",
 "No test runs two instances; shared state only shows under particular interleavings.",
 [B,L,G,H],[("per-instance state, no mutable globals besides verbosity",H+" model_state; "+B)])
p("C09","Results depend only on the inputs, never on memory contents or history",
 "The same configuration, forcing and schedule always give bit-for-bit the same history, whatever freshly allocated memory, freed memory or the stack happen to contain and whatever the process did before, including earlier instances that ran and were destroyed and earlier simulations of the same object, finalised and initialised again.",
 ["schedules","fault_sequences","configurations"],"every content of uninitialised memory and every process history",
 "A test runs in one fresh process whose memory is mostly zero; values read before they are written look right there.",
 [B,L,"src/mem_funcs.cxx",LL],[("initialisation of every field before use",B+" Initialize; "+L+" lgar_initialize; include/bmi_lgar.hxx")])
p("C10","Observing a run does not change it",
 "Reading any variable, metadata or mass balance at any point and any number of times, and any verbosity level, leave the simulated results bit-for-bit unchanged.",
 ["schedules","configurations"],"every placement and sequence of read-only calls and every verbosity",
 "Tests read a fixed list of variables at fixed points and never compare against an unobserved run.",
 [B,L],[("getters copy, printing has no side effects",B+" GetValue...; verbosity guards")])
p("C11","The model interface keeps its announced contract",
 "For every announced variable the announced type, item size, byte count, grid, grid size, shape, units and location agree with each other and with the data; by-value, by-pointer and by-index access return the same data and write nothing beyond it. A value set by any route reads back bit-for-bit and changes no other variable; pointers to fixed-size variables stay valid for the instance's life; parameters and inputs read as configured or last set; unknown names are refused without effect.",
 ["histories","inputs","configurations"],"every variable, access route and instant in every history",
 "The unit test reads metadata once on one configuration, right after initialisation and a few steps.",
 [B,"include/bmi_lgar.hxx","bmi/bmi.hxx"],[("variable tables and pointer map",B+" GetVarGrid, GetVarNbytes, GetValuePtr, SetValue, GetValueAtIndices")])
p("C12","Calibration through the interface equals configuring the values",
 "Setting the calibratable parameters of a calibratable instance before its first step gives the same run as an instance whose soils, field capacity and ponding depth were configured with those values, with initial heads kept and initial moisture taken from the new curves. Values set later, or on an instance not marked calibratable, have no effect on the results; setting the values already in force changes nothing.",
 ["configurations","schedules","inputs"],"every parameter set, subset and order of settings, and every instant of setting",
 "No test compares a calibrated run with an equivalently configured one, nor sets values late.",
 [B,L],[("update of soil properties from calibration values",B+" update_calibratable_parameters")])
p("C13","Frozen soil acts exactly through its layer's conductivity",
 "With freezing coupled, each layer's conductivity is multiplied by the documented factor of the mean of the temperatures delivered last for that layer, kept within its bounds. A run with a fixed warm/cold pattern equals the uncoupled run with correspondingly scaled conductivities; only the last temperature profile delivered before a step matters, by whichever route it came.",
 ["inputs","schedules","fault_sequences","configurations"],"every temperature history, cell layout, and loss, repetition or supersession of temperature deliveries",
 "One fixed temperature profile on one column is tested.",
 [L,B],[("frozen factor",L+" frozen_factor_hydraulic_conductivity"),("its use in velocities, infiltration capacity and conductivities",L+" lgar_dzdt_calc, lgar_insert_water")])
p("C14","Initialisation reproduces its files faithfully or fails loudly",
 "After a successful initialisation the model holds exactly the values its configuration and soil files state, whatever order, units, spacing, comments or partial file reads they come with. A missing or unreadable file, a missing or incomplete required entry, an incomplete or malformed soil row, a switch that is neither on nor off, an unknown time unit, or a read, open or allocation failure at any point makes initialisation fail visibly; it never yields a silently different model.",
 ["inputs","fault_sequences","configurations"],"every equivalent way of writing a configuration, every omitted entry, every byte position of a read error and every failing allocation",
 "The tests read well-formed files from a healthy disk.",
 [L,B,"src/mem_funcs.cxx"],[("configuration parser",L+" InitFromConfigFile"),("soil file reader",L+" lgar_read_vG_param_file")])
p("C15","Every instance is memory-safe and gives back everything it takes",
 "No sequence of lifecycle, input, stepping and reading calls reads or writes memory outside or after the life of its objects or executes undefined arithmetic. What an instance holds is bounded by its number of fronts and does not grow with the number of steps, and after finalising and destroying every instance nothing remains allocated.",
 ["histories","schedules","configurations"],"every lifecycle and every history of front creation, merging and deletion",
 "The tests run without sanitizers on a few histories and never finalise repeatedly.",
 [B,L,LL,"src/mem_funcs.cxx",G],[("list surgery and copies",LL),("release in Finalize",B+" Finalize")])
p("C16","Every step ends: bounded work, and the host process is never killed",
 "For every admissible configuration and forcing each step completes within a bounded amount of work and returns to the caller: no endless iteration, no assertion, abort, exit or crash of the host process.",
 ["inputs","histories","configurations","fault_sequences"],"every admissible soil, layering, option set and forcing history, including extreme soils, deluges, droughts and saturation",
 "The iterative corrections converge quickly on the tested columns; the rare states that stall them are not visited.",
 [L,B],[("iteration caps",L+" lgar_theta_mass_balance, saturated-depth loop, merge loops"),("assertions","throughout")])
p("C17","The standalone program's result files are complete, correct, or declared bad",
 "A standalone run writes one row per forcing interval of the simulation period, in forcing order and under the forcing's time labels, holding exactly the values a library-driven run on the same input yields, with a matching record of the profile. Killed at any instant it leaves a prefix of those files and a rerun reproduces them; unreadable, short or incomplete forcing and output that cannot be opened or written are reported as failure, never as success.",
 ["crash_points","fault_sequences","inputs","configurations"],"every crash instant, torn or failing write, full disk, failing open or close, partial transfers, stdio buffer size and malformed forcing",
 "The tests run the program on healthy files to completion and look at the end values only.",
 [M,B],[("forcing reader",M+" ReadForcingData"),("result writers",M+" main, write_state")],["data_variables.csv","data_layers.csv","process exit status"])
p("C18","Columns with an invalid soil pass rain straight to discharge",
 "When a layer's soil type is beyond the valid types, every step reports the rain of its interval as precipitation, runoff and total discharge, no water enters or leaves the soil, the clock advances by one interval, and stepping without forcing is refused; valid columns in the same process are unaffected.",
 ["inputs","configurations","histories","schedules"],"every position and number of the invalid type, forcing history and resolution",
 "No test has an invalid soil type.",
 [B,L],[("invalid soil branch",B+" Update"),("validity flag",L+" InitFromConfigFile")])
p("C19","Infiltration and front movement follow the layered Green-Ampt law",
 "Between structural changes every wetting front moves at the velocity that the layered Green-Ampt law with capillary drive prescribes for its depth, moisture step, layer conductivities and ponding, and in every step the infiltration equals the lesser of the water available and the infiltration capacity the same law gives for the profile at its start.",
 ["inputs","histories","configurations"],"every reachable profile, layering, capillary-drive option, frozen factor and ponding state",
 "A wrong velocity or capacity still conserves water and passes every end-of-run total within its tolerance; it needs the law recomputed in every reachable state.",
 [L,"src/soil_funcs.cxx"],[("front velocity",L+" lgar_dzdt_calc"),("infiltration capacity",L+" lgar_insert_water"),("capillary drive","src/soil_funcs.cxx calc_Geff")])
p("C22","Every wetting front keeps its own water",
 "Between creation, merging and layer crossing, a wetting front's water (its moisture step times its depth, extended to the surface at its capillary head) changes only by what the law assigns to it: the active front, the one nearest the surface that does not rest on a layer bottom, receives all infiltration and gives all evapotranspiration; every other front keeps its water exactly while it moves down and thins.",
 ["inputs","histories","configurations"],"every reachable profile, layering, forcing history and frozen or calibrated state",
 "Water moved from one front to another, or taken from the wrong one, leaves every total untouched; only following each front through its history shows it.",
 [L],[("per-front mass balance",L+" lgar_move_wetting_fronts, lgar_theta_mass_balance"),("choice of the active front",L+" wetting_front_free_drainage")])
p("C23","An interval of many sub-steps equals as many intervals of one sub-step",
 "Holding the delivered rates, a run whose forcing intervals are divided into sub-steps passes through the same profiles, ponding, fluxes and storage as a run in which every sub-step is a forcing interval of its own: nothing is dropped, restarted or carried over wrongly between sub-steps or between intervals.",
 ["inputs","histories","configurations","schedules"],"every fixed sub-step that is itself an admissible forcing resolution, soil column, forcing history, calibration and temperature delivery",
 "The tests never compare two resolutions of the same history; each alone looks plausible and conserves water.",
 [B,L],[("sub-stepping loop and what it carries over",B+" Update"),("previous state and previous rain",L+" lgar_move_wetting_fronts")])
p("C24","Fronts that meet, fill up or reach a boundary follow the handover rules exactly",
 "A front that overtakes the next one of its layer merges with it into one front of the overtaking front's moisture holding their joint water; one that passes its layer's bottom enters the next layer at its capillary head, as deep as its overshooting water reaches there; one that passes the column's bottom drains exactly its overshooting water, which is all the percolation there is, and leaves its moisture behind; an active front that fills up deepens by the water it cannot hold; a front left drier than the one below it in its layer is given up, and the water this adds to the column is taken off ET; a front is created exactly when rain begins on an unsaturated surface without ponding. After an interval of one sub-step the number, layers, depths and moistures of all fronts and the percolation are what these rules make of the state before it.",
 ["inputs","histories","configurations","fault_sequences"],"every profile a history can reach, every combination of simultaneous events, every layering and soil contrast",
 "A handover that conserves water but places it wrongly changes no total the tests look at, and each kind of event arises only in particular profiles.",
 [L,B],[("merging",L+" lgar_merge_wetting_fronts"),("layer crossing",L+" lgar_wetting_fronts_cross_layer_boundary"),("drainage",L+" lgar_wetting_front_cross_domain_boundary"),("filling up",L+" lgar_move_wetting_fronts, depth adjustment"),("creation",B+" Update; "+L+" lgar_create_surficial_front")])
p("C25","Every forcing interval is what the model's laws make of the state before it",
 "From the state before a forcing interval and the delivered rates, its infiltration, runoff, ET, percolation, final ponding and final profile follow uniquely. Sub-steps are equal and fill the interval: the configured one, or with the adaptive option the configured one when rain exceeds 10 mm/h or water was ponded before, twice that in lighter rain, the whole interval otherwise, never longer than the interval. In each sub-step in turn the top front's head limits ET; rain starting on a dry unsaturated surface makes a new front, otherwise the surface water infiltrates up to the Green-Ampt capacity and the free storage; what is left ponds up to its maximum and the rest is runoff; then the fronts move and get new velocities.",
 ["inputs","histories","configurations","schedules"],"every reachable state, number of sub-steps, option set and delivered rate",
 "The tests compare end totals of a few runs with loose tolerance; an order, a rule or a carried-over value that is wrong inside an interval shows only against a complete independent model in the states where it matters.",
 [B,L,"src/aet.cxx","src/soil_funcs.cxx"],[("sub-step choice and loop",B+" Update"),("infiltration",L+" lgar_insert_water, lgar_create_surficial_front"),("movement",L+" lgar_move_wetting_fronts, lgar_dzdt_calc"),("evapotranspiration","src/aet.cxx calc_aet")])
p("C20","The soil-physics functions are mutually consistent pure functions",
 "Moisture-from-head and head-from-moisture are inverse and monotone, conductivity is monotone and equals the saturated value at saturation, and the capillary drive between two moistures is non-negative.",
 ["inputs"],"every admissible parameter set and argument",
 "A few arguments are sampled.",
 ["src/soil_funcs.cxx"],[("van Genuchten-Mualem relations","src/soil_funcs.cxx")],["return values"])
p("C21","Run time stays within the needs of operational coupling",
 "A simulated year of hourly steps on an ordinary column completes within the time budget of an operational forecast cycle.",
 ["inputs","configurations"],"every ordinary column and forcing year",
 "Wall-clock time is not asserted anywhere.",
 [B,L],[("adaptive time step",B+" Update")],["elapsed wall-clock time"])
with open("/verif/properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,x["title"]
        f.write(json.dumps(x)+"\n")
