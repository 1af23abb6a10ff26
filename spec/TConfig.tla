------------------------------- MODULE TConfig ------------------------------
(***************************************************************************)
(* Trace validation of settings, messages and computations in between.     *)
(* The specified settings are carried along the history; the result of a   *)
(* computation is fixed by its first run, whatever the settings are later. *)
(***************************************************************************)
EXTENDS Config, TLC, Json
CONSTANT TraceFile
Cases == ndJsonDeserialize(TraceFile)
VARIABLES tr, l, bad, st, ref
vars == <<tr, l, bad, st, ref>>
Clause(name, ok) == IF ok THEN {} ELSE {name}
\* equal up to rounding to hundredths
Near(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : AbsI(a[i] - b[i]) <= 1
Elems(q) == {q[i] : i \in DOMAIN q}

Request(e, inst, most) ==
    CASE e.what = "verbose" -> SetVerbose(st, e.n)
      [] e.what \in {"fftlib", "rfft2lib", "showlib"} -> SetLib(st, e.what, e.name, inst)
      [] e.what = "fft_threads" -> SetFftThreads(st, e.n)
      [] e.what = "numba_threads" -> SetNumbaThreads(st, e.n, most)
      [] e.what = "disable" -> Disable(st)
      [] e.what = "enable" -> Enable(st, e.n)

Asked(e, r) ==
    Clause("outcome", e.out = r.out)
    \cup Clause("settings", e.st = r.st)
    \cup (IF r.out = "raise" THEN {}
          ELSE IF e.what \in {"fftlib", "rfft2lib", "showlib"} THEN Clause("previous", e.prevs = r.prev)
          ELSE Clause("previous", e.previ = r.prev))
    \cup Clause("threads", e.nb = r.st.nbn /\ (e.fw = -1 \/ e.fw = r.st.fftn))

Message(e) ==
    LET p == Printed(st, e.level) IN
    IF ~p THEN Clause("not-silent", e.len = 0) \cup Clause("settings", e.st = st)
    ELSE CASE e.what = "text" -> Clause("text", e.got = e.want)
           [] e.what = "progress" -> Clause("bar", e.fill = Fill(e.i, e.total, e.length) /\ e.fill + e.dash = e.length)
                \cup Clause("percent", IsRounded(e.pct, 100 * e.i * e.p10, e.total))
                \cup Clause("text", e.ok = 1)
                \cup Clause("newline", (e.nl = 1) = (e.i = e.total))
           [] e.what = "rate" -> Clause("rate", e.n = e.frames /\ IsRounded(e.rate, 100 * e.frames, e.dt)) \cup Clause("text", e.ok = 1)
         \cup Clause("settings", e.st = st)

Compute(e) ==
    Clause("settings", e.st = st)
    \cup Clause("outcome", e.raised = e.wantraise)
    \cup (IF e.wantraise = 1 THEN {}
          ELSE Clause("result-depends-on-settings", e.name \in DOMAIN ref => Near(ref[e.name], e.res)))
    \cup (IF st.verbose <= 0 THEN Clause("not-silent", e.len = 0) ELSE {})

Load(e) ==
    LET inst == Elems(e.inst)
        dbl == Flag(e.env.double, e.ini.double, TRUE)
        par == Flag(e.env.parallel, e.ini.parallel, FALSE)
        fst == Flag(e.env.fastmath, e.ini.fastmath, FALSE)
        cac == Flag(e.env.cache, e.ini.cache, TRUE)
        fl == StartLib(e.ini.fftlib, FftNames, inst, "numpy")
        rl == StartLib(e.ini.rfft2lib, FftNames, inst, "numpy")
        sl == StartLib(e.ini.showlib, ShowNames, inst, "matplotlib")
    IN  IF "fails" \in {fl, rl, sl} THEN Clause("accepted", e.raised = 1)
        ELSE IF e.raised = 1 THEN {"refused"}
        ELSE Clause("precision", e.bits = IF dbl THEN <<64, 128, 64, 64, 1>> ELSE <<32, 64, 32, 32, 1>>)
             \cup Clause("parallel", e.parallel = IF par THEN 1 ELSE 0)
             \cup Clause("fastmath", e.fastmath = IF fst THEN 1 ELSE 0)
             \cup Clause("cache", e.cache = IF cac THEN 1 ELSE 0)
             \cup Clause("libraries", <<e.st.fftlib, e.st.rfft2lib, e.st.showlib>> = <<fl, rl, sl>>)
             \cup Clause("verbose", e.st.verbose = StartVerbose(e.ini.verbose))
             \cup Clause("threads", e.st.nbn = StartThreads(e.ini.nbn, e.most) /\ e.st.fftn = Number(e.ini.fftn, e.cores)
                                    /\ e.nb = e.st.nbn /\ e.fw = e.st.fftn)
             \cup Clause("file", e.kept = 1)

Event(e) ==
    CASE e.k = "exc" -> {"exception"}
      [] e.k = "start" -> {}
      [] e.k = "set" -> Asked(e, Request(e, Elems(Cases[tr].inst), Cases[tr].most))
      [] e.k = "print" -> Message(e)
      [] e.k = "config" -> Clause("shown", e.shown = st) \cup Clause("settings", e.st = st)
      [] e.k = "compute" -> Compute(e)
      [] e.k = "load" -> Load(e)

NoState == [verbose |-> 0, showlib |-> "", fftlib |-> "", rfft2lib |-> "", fftn |-> 0, nbn |-> 0]
TraceInit == tr \in DOMAIN Cases /\ l = 0 /\ bad = {} /\ st = NoState /\ ref = <<>>
TraceNext == /\ l < Len(Cases[tr].ev)
             /\ l' = l + 1 /\ UNCHANGED tr
             /\ LET e == Cases[tr].ev[l + 1] IN
                /\ bad' = Event(e)
                /\ st' = CASE e.k = "start" -> e.st
                           [] e.k = "set" -> Request(e, Elems(Cases[tr].inst), Cases[tr].most).st
                           [] OTHER -> st
                /\ ref' = IF e.k = "compute" /\ e.wantraise = 0 /\ e.name \notin DOMAIN ref THEN (e.name :> e.res) @@ ref ELSE ref
Verdict == /\ (bad = {} \/ PrintT(<<"BAD", tr, l, bad>>))
           /\ (l < Len(Cases[tr].ev) \/ PrintT(<<"END", tr, l>>))
=============================================================================
