#!/usr/bin/env python3
"""Writes campaigns.json (what each check runs) and MANIFEST.json from one table."""
import json, os
V=os.path.dirname(os.path.abspath(__file__))
REAL="real: every source file of the model library (BMI layer, infiltration/redistribution, soil functions, front list, ET, GIUH) compiled from /repo"
REALS="real: every source file of the model and the standalone program's own main(), compiled from /repo"
STUB="simulated: host program and its schedule, forcing and temperature delivery, heap and stack contents and allocation failures, storage (file reads, writes, opens, closes), process end, process clock; stubbed: none of the model"
EX="exploration"; FE="fault_enumeration"
T="deterministic simulation with fault injection: "
CFG={}; CH=[]
def add(p,q,t,how,note,level=EX,fl="ngen",more=(),**k):
    CFG[p]=dict(level=level,flavours=[dict(name=fl,quick=q,thorough=t)]+[dict(m) for m in more],components=[REALS if fl=="std" else REAL,STUB],**k)
    CH.append(dict(property=p,quick_cmd="python3 check.py "+p,thorough_cmd="VERIF_TIER=thorough python3 check.py "+p,evidence_file="evidence/%s.json"%p,
                   technique=T+how,level=level,level_note=note+" Search, not proof: it covers the seeded plans it ran; every violation is confirmed by two executions and a fresh-process replay of the minimised plan."))
S="Seeded catchments, weather, delivery faults, restarts and calibration messages."
add("C01",9000,135000,"water-balance invariant after every simulated step and over every history",S+" The balance is computed by the harness from the front list and published fluxes, not from the model's own error figure; tolerance 1e-6 cm + 1e-7 per sub-step (1e-4 + 1e-5 for deliberately extreme soils).")
add("C02",9000,135000,"surface-partition invariant against a reference of the ponding rule",S+" Weather biased to ponding; partition must close to 1e-7.")
add("C03",10000,150000,"executable reference convolution fed with the recorded runoff history",S+" All forcing resolutions the model accepts, across restarts.")
add("C04",10000,150000,"reference ET stress law checked at every step",S+" Equality only where the law alone determines the value; the bounds everywhere.")
add("C05",10000,150000,"structural invariant of the profile after every step",S+" Checks the live front list after every call.")
add("C06",10000,150000,"published outputs against the live state and the recorded history",S)
add("C07",20000,200000,"seeded loss, duplication, reordering and corruption of forcing deliveries; clock and amounts against the delivery history",S+" Sub-steps that do not divide the interval, adaptive sub-steps, UpdateUntil over several intervals.")
add("C08",5000,75000,"seeded interleaving of several instances, bit-for-bit against each instance alone","2-4 instances, seeded bursts, stalls and restarts; each instance's history is compared with a solo execution.")
add("C09",5000,75000,"seeded heap, freed-memory, stack and process-history contents, bit-for-bit against a clean process","Every fresh, freed and stack byte the model could read is controlled by the simulator.")
add("C10",6000,90000,"seeded observation calls and verbosity, bit-for-bit against the unobserved run","Getter calls, metadata and balance queries inserted at arbitrary points.")
add("C11",9000,135000,"seeded interface sessions against the announced metadata and a shadow of what was set","Every variable by every access route, guard bytes around every buffer, unknown names.")
add("C12",12000,150000,"seeded calibration messages, against a run configured with the same values","Early, late, disabled and no-op calibrations; equality to 1e-7, bit-for-bit where nothing may change.")
add("C13",12000,150000,"seeded temperature deliveries (lost, superseded, by any route), against the factor law and uncoupled scaled runs","Layer factor, conductivity carried by every front and whole-run equivalence.")
add("C14",40000,400000,"seeded storage and allocator faults while initialising, against the configuration text's meaning","Short reads, EINTR, EIO at a seeded byte, failing open, failing n-th allocation, missing entries, damaged soil rows.",FE)
add("C15",4000,60000,"seeded lifecycles under a simulated allocator and, separately, under AddressSanitizer/UBSan","Block ledger for leaks and growth; sanitizers for access errors and undefined arithmetic.",FE,more=[dict(name="asan",quick=1200,thorough=20000,offset=500000),dict(name="asanstd",quick=1500,thorough=20000,offset=700000)])
add("C16",6000,90000,"step budget counted in executed basic blocks and interception of every process ending","Includes deliberately extreme admissible soils and weather; work is counted, not timed.")
add("C17",9000,135000,"standalone program in a simulated process: crash points, torn and failing writes, forcing-file faults, against a library run","Kill at a seeded instant, ENOSPC/EIO/short writes/close errors, EIO/short/EINTR reads, damaged or short forcing.",FE,fl="std")
add("C18",30000,300000,"seeded sessions of columns with invalid soils against the pass-through rule","Invalid and valid columns, all forcing resolutions, missing forcing.")
add("C19",10000,150000,"executable reference of the Green-Ampt velocity and infiltration capacity checked in every reached state",S+" Velocity checked after every step; movement, infiltration and new-front depth where an interval is one sub-step.")
add("C22",10000,150000,"each front followed through the simulated history against its own water balance",S+" Where an interval is one sub-step and no merge, crossing or saturation intervenes; tolerance 1e-7 cm.")
add("C24",20000,150000,"executable reference of a whole sub-step, with its merging, crossing, filling, drainage and creation events, run from every reached state",S+" Where an interval is one sub-step and the rules determine the outcome (about five in six such intervals); agreement to 1e-6, observed 1e-7.")
add("C25",15000,150000,"complete executable reference of the model run over every simulated interval from the state before it",S+" Any number of sub-steps, adaptive or fixed; about four in five intervals are determined by the laws alone and compared, with tolerance 5e-6 (observed 1e-7) where rounding does not decide.")
add("C23",9000,135000,"paired simulated runs at two forcing resolutions, state against state","Fixed sub-steps; the two runs must agree to 1e-9.")
NA=[dict(property="C20",reason="The soil functions are pure functions of their arguments: no schedule, time, I/O, memory or fault enters them, so deterministic simulation has nothing to vary; their use in the running model is decided under C05, C13, C14 and C19."),
    dict(property="C21",reason="Wall-clock performance of real executions: the simulator replaces the clock and measures work in executed basic blocks (bounded work per step is decided under C16); real run time is not a deterministic quantity it can decide.")]
try:
    exec(open(os.path.join(V,"mk_more.py")).read())
except FileNotFoundError: pass
json.dump(CFG,open(os.path.join(V,"campaigns.json"),"w"),indent=1)
json.dump(dict(version=1,setup_cmd="python3 check.py --build",
  hooks=dict(guard="none",enable="No hooks: the seams are link-time wraps of libc calls, compiler coverage callbacks and the BMI itself, all outside /repo.",source_commits=[]),
  checks=CH,not_applicable=NA,notes="Replay a violation with: python3 check.py --replay <file>. Known and fixed findings: KNOWN_FINDINGS.txt."),open(os.path.join(V,"MANIFEST.json"),"w"),indent=1)
