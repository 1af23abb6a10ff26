"""Which models, drivers and trace specifications decide which property."""
import os

from kit import SPEC, Check, cfg_text

CHECKS = {}


DCORR = dict(name="pairs", module="DCorr", cfg=open(os.path.join(SPEC, "DCorr.cfg")).read(),
             what="filing of symbolic frame pairs under delays: every pair once, real = folded complex, swap, shift")
DMULTI = dict(name="streaming", module="DMulti", cfg=open(os.path.join(SPEC, "DMulti.cfg")).read(),
              what="ring-buffer streaming of symbolic frames = in-memory definition after every chunk")
DRING = dict(name="streaming-broken", module="DMulti", expect="StreamIsDefinition",
             cfg=open(os.path.join(SPEC, "DMulti.cfg")).read().replace("BreakRing = FALSE", "BreakRing = TRUE"),
             what="sensitivity: a wrong previous slice must be rejected")

DNORM = dict(name="normalisation", module="DNorm", cfg=open(os.path.join(SPEC, "DNorm.cfg")).read(),
             cfg_thorough=open(os.path.join(SPEC, "DNorm.cfg")).read().replace("{0, 3}", "{0, 1, 3}"),
             what="normalisation formulas over sums = definitions over the frame pairs; shift invariance; difference = correlation")


def add(pid, runs, design=(), **kw):
    CHECKS[pid] = Check(pid, runs, design, **kw)


add("C01", [dict(driver="drv_linear", args=["cor"], module="TLinear", consts={"Want": '{"cor"}'})], design=[DCORR])
add("C02", [dict(driver="drv_linear", args=["count"], module="TLinear", consts={"Want": '{"count"}'})], design=[DCORR])
add("C03", [dict(driver="drv_linear", args=["sums"], module="TLinear", consts={"Want": '{"sums"}'})], design=[DCORR])
add("C04", [dict(driver="drv_linear", args=["aout"], module="TLinear", consts={"Want": '{"cor", "count", "sums"}'})], design=[DCORR])
add("C05", [dict(driver="drv_multi", args=["inmem"], module="TMulti", consts={"Parts": '{"fast", "slow"}'})], design=[DMULTI])
add("C06", [dict(driver="drv_multi", args=["linear"], module="TMulti", consts={"Parts": '{"fast"}'})], design=[DMULTI, DRING])
add("C07", [dict(driver="drv_multi", args=["multi"], module="TMulti", consts={"Parts": '{"fast", "slow"}'})], design=[DMULTI, DRING])
add("C08", [dict(driver="drv_multi", args=["stats"], module="TMulti", consts={"Parts": '{"stats"}'})], design=[DMULTI])
add("C09", [dict(driver="drv_multi", args=["mask"], module="TMulti", consts={"Parts": '{"fast", "slow", "stats", "mask"}'})], design=[DMULTI])
add("C10", [dict(driver="drv_norm", args=["values"], module="TNorm")], design=[DNORM])
add("C11", [dict(driver="drv_norm", args=["flags"], module="TNorm")], design=[DNORM])

DAVG = dict(name="averaging", module="DAvg", cfg=open(os.path.join(SPEC, "DAvg.cfg")).read(),
            cfg_thorough=open(os.path.join(SPEC, "DAvg.cfg")).read().replace("MaxN = 22", "MaxN = 70"),
            what="symbolic weights of level averages: weights sum to one, centred at the reported delay, triangular inside; merged delays")
add("C12", [dict(driver="drv_avg", args=[], module="TAvg")], design=[DAVG])

DVIDEO = dict(name="pipeline", module="DVideo", cfg=open(os.path.join(SPEC, "DVideo.cfg")).read(),
              what="demand-driven operator chain with side sources: alignment, no lookahead, ends with the shortest source")
add("C13", [dict(driver="drv_video", args=[], module="TVideo")], design=[DVIDEO])

DTHREAD = dict(name="threads", module="DThreaded", cfg=open(os.path.join(SPEC, "DThreaded.cfg")).read(),
               cfg_thorough=open(os.path.join(SPEC, "DThreaded.cfg")).read().replace("MaxN = 4", "MaxN = 7").replace("MaxQ = 3", "MaxQ = 4"),
               what="worker, consumer and display in every interleaving: exactly once in order, bounded lookahead, display order, the end is reached")
DTHREADB = dict(name="threads-broken", module="DThreaded", expect="Ends",
                cfg=open(os.path.join(SPEC, "DThreaded.cfg")).read().replace("NoMark = FALSE", "NoMark = TRUE"),
                what="sensitivity: without the end mark the consumer waits for ever")
add("C14", [dict(driver="drv_thread", args=[], module="TThread")], design=[DTHREAD, DTHREADB])

DFFT = dict(name="fourier", module="DFft", cfg=open(os.path.join(SPEC, "DFft.cfg")).read(),
            cfg_thorough=open(os.path.join(SPEC, "DFft.cfg")).read().replace("{0, 1, 3}", "{0, 1, 2, 5}").replace("MaxSize = 9", "MaxSize = 16"),
            what="exact transforms invert, half transforms determine whole ones, crops keep the wavenumbers, crops compose")
add("C15", [dict(driver="drv_fft", args=[], module="TFft")], design=[DFFT])

DMAP = dict(name="wavevectors", module="DMap", cfg=open(os.path.join(SPEC, "DMap.cfg")).read(),
            cfg_thorough=open(os.path.join(SPEC, "DMap.cfg")).read().replace("MaxSize = 5", "MaxSize = 7"),
            what="half and full planes determine each other; rings and sectors cover the plane; half-plane averages = plane averages")
add("C16", [dict(driver="drv_map", args=["half"], module="TMap")], design=[DMAP])
add("C17", [dict(driver="drv_map", args=["k"], module="TMap")], design=[DMAP])

# Compile-time configurations: the traces of the other checks' drivers, recorded
# under other settings, against the same specifications.
SINGLE, PARALLEL, FASTMATH = {"CDDM_DOUBLE_PRECISION": "0"}, {"CDDM_TARGET_PARALLEL": "1"}, {"CDDM_FASTMATH": "1"}
CONFIGS = [SINGLE, PARALLEL, FASTMATH]


def under(env, pids, sample, name):
    out = []
    for pid in pids:
        for r in CHECKS[pid].runs:
            out.append(dict(r, env=env, sample=sample, name=name + "/" + pid, max_canaries=10))
    return out


add("C19", under(SINGLE, ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10"], 5, "single")
    + under(PARALLEL, ["C01", "C02", "C03", "C05", "C06", "C07", "C08", "C10", "C12"], 5, "parallel")
    + under(FASTMATH, ["C01", "C03", "C04", "C06", "C07", "C12"], 6, "fastmath"), design=[])

DCONF = dict(name="settings", module="DConfig", cfg=open(os.path.join(SPEC, "DConfig.cfg")).read(),
             what="every history of settings requests and nested brackets of silence: brackets restore, refusals keep, libraries exist")
DCONFB = dict(name="settings-leaky", module="DConfig", expect="Restored",
              cfg=open(os.path.join(SPEC, "DConfig.cfg")).read().replace("Leaky = FALSE", "Leaky = TRUE").replace("PROPERTY Brackets\n", ""),
              what="sensitivity: a failing computation that does not restore the level")
add("C18", [dict(driver="drv_conf", args=["history"], module="TConfig"), dict(driver="drv_conf", args=["startup"], module="TConfig"),
            dict(driver="drv_conf", args=["history"], module="TConfig", env=PARALLEL, sample=3)], design=[DCONF, DCONFB])

DSIM = dict(name="cameras", module="DSim", cfg=open(os.path.join(SPEC, "DSim.cfg")).read(),
            what="two cameras taking frames of one stream at times of their own: every frame is delivered once, matched by number, as early as possible")
DSIMB = dict(name="cameras-lossy", module="DSim", expect="Matched",
             cfg=open(os.path.join(SPEC, "DSim.cfg")).read().replace("Lossy = FALSE", "Lossy = TRUE"),
             what="sensitivity: a camera that keeps only its last frame")
add("C20", [dict(driver="drv_sim", args=["walk"], module="TSim"), dict(driver="drv_sim", args=["video"], module="TSim"),
            dict(driver="drv_sim", args=["noise"], module="TSim"),
            dict(driver="drv_sim", args=["draw"], module="TSim", env=PARALLEL, name="parallel")], design=[DSIM, DSIMB])

DWINDOW = dict(name="window-arithmetic", module="DWindow", cfg=open(os.path.join(SPEC, "DWindow.cfg")).read(),
               what="the integer arithmetic behind the windows satisfies the identities of the functions it stands for")
add("C21", [dict(driver="drv_win", args=[], module="TWindow"), dict(driver="drv_win", args=[], module="TWindow", env=SINGLE, sample=3, name="single")], design=[DWINDOW])

DVIEW = dict(name="viewer", module="DView", cfg=open(os.path.join(SPEC, "DView.cfg")).read(),
             what="requests of the program and of the widgets in every order: each changes only what it names, widgets and plot follow, videos move forward")
DVIEWB = dict(name="viewer-stale", module="DView", expect="Asked",
              cfg=open(os.path.join(SPEC, "DView.cfg")).read().replace("Stale = FALSE", "Stale = TRUE").replace("INVARIANT InStep\n", "").replace("PROPERTY Forward\n", ""),
              what="sensitivity: a widget event takes over the positions of the other widgets")
add("C22", [dict(driver="drv_view", args=[a], module="TView") for a in ("map", "array", "video")], design=[DVIEW, DVIEWB])

DWEIGHT = dict(name="noise-model", module="DWeight", cfg=open(os.path.join(SPEC, "DWeight.cfg")).read(),
               what="weights and errors as published follow from the second moments of Gaussian fields, and the weight is best, on a grid of fields")
DWEIGHTB = dict(name="noise-model-blind", module="DWeight", expect="Published",
                cfg=open(os.path.join(SPEC, "DWeight.cfg")).read().replace("Blind = FALSE", "Blind = TRUE"),
                what="sensitivity: a term of the means left out")
add("C23", [dict(driver="drv_weight", args=[], module="TWeight")], design=[DWEIGHT, DWEIGHTB])

DHEAP = dict(name="writing-discipline", module="DHeap", cfg=open(os.path.join(SPEC, "DHeap.cfg")).read(),
             what="histories of up to three calls over four arrays: what a program keeps (inputs and earlier results) stays as it is")
DHEAPB = dict(name="shared-workspace", module="DHeap", expect="Kept",
              cfg=open(os.path.join(SPEC, "DHeap.cfg")).read().replace("Workspace = FALSE", "Workspace = TRUE").replace("PROPERTY InputsKept", ""),
              what="sensitivity: results returned in a workspace that later calls use again")
add("C24", [dict(driver="drv_heap", args=[g], module="THeap", name=g) for g in ("compute", "process", "media")], design=[DHEAP, DHEAPB])

DREQUEST = dict(name="requests", module="DRequest", cfg=open(os.path.join(SPEC, "DRequest.cfg")).read(),
                what="streams worked off without asking: well-formed requests get to the end with all pairs seen, refused ones do not")
DREQUESTB = dict(name="requests-trusting", module="DRequest", expect="Sound",
                 cfg=open(os.path.join(SPEC, "DRequest.cfg")).read().replace("Trusting = FALSE", "Trusting = TRUE").replace("INVARIANT Tight\n", ""),
                 what="sensitivity: requests are served whatever the supply of frames")
add("C25", [dict(driver="drv_req", args=[g], module="TRequest", name=g) for g in ("linear", "multi", "stream", "reshape")], design=[DREQUEST, DREQUESTB])

DPIPE = dict(name="pipeline", module="DPipe", cfg=open(os.path.join(SPEC, "DPipe.cfg")).read(),
             what="stages that hand on blocks of memory: in every order of threads the consumer has the transformed video so far")
DPIPEB = dict(name="pipeline-reuse", module="DPipe", expect="Kept",
              cfg=open(os.path.join(SPEC, "DPipe.cfg")).read().replace("Reuse = FALSE", "Reuse = TRUE").replace("PROPERTY Finished\n", ""),
              what="sensitivity: a stage that uses one block for all its results")
add("C26", [dict(driver="drv_pipe", args=[], module="TPipe")], design=[DPIPE, DPIPEB])

DMESSAGES = dict(name="messages", module="DMessages", cfg=open(os.path.join(SPEC, "DMessages.cfg")).read(),
                 cfg_thorough=open(os.path.join(SPEC, "DMessages.cfg")).read().replace("NFrames = 4", "NFrames = 5"),
                 what="a streamed computation with program code between frames that prints and sets the level: the log is as specified")
DMESSAGESB = dict(name="messages-careless", module="DMessages", expect="Steps",
                  cfg="SPECIFICATION Spec\nCONSTANTS NFrames = 4\n Careless = TRUE\nINVARIANT Steps\nCHECK_DEADLOCK FALSE\n",
                  what="sensitivity: an inner operation switches printing on without looking")
add("C27", [dict(driver="drv_msg", args=[], module="TMessages")], design=[DMESSAGES, DMESSAGESB])
