------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* Run-time settings: a record of six settings, changed only by the        *)
(* setters; message printing with levels, switched off and on again in     *)
(* brackets; and the settings a process starts with, given configuration   *)
(* file and environment.                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences

Max2(a, b) == IF a > b THEN a ELSE b
AbsI(n) == IF n < 0 THEN -n ELSE n

FftNames == {"numpy", "numpy.fft", "scipy", "scipy.fftpack", "pyfftw", "mkl_fft"}
ShowNames == {"matplotlib", "pyqtgraph", "cv2"}
Canon(name) == CASE name = "numpy.fft" -> "numpy" [] name = "scipy.fftpack" -> "scipy" [] OTHER -> name

\* the outcome of a request: what it answers with, and the settings after it
OK(s, t, prev) == [out |-> "ok", prev |-> prev, st |-> t]
Warned(s, prev) == [out |-> "warn", prev |-> prev, st |-> s]
Refused(s) == [out |-> "raise", prev |-> "", st |-> s]

SetVerbose(s, n) == OK(s, [s EXCEPT !.verbose = Max2(0, n)], s.verbose)
SetLib(s, f, name, inst) ==
    IF name \notin (IF f = "showlib" THEN ShowNames ELSE FftNames) THEN Refused(s)
    ELSE IF Canon(name) \notin inst THEN Warned(s, s[f])
    ELSE OK(s, [s EXCEPT ![f] = Canon(name)], s[f])
SetFftThreads(s, n) == OK(s, [s EXCEPT !.fftn = n], s.fftn)
SetNumbaThreads(s, n, most) == IF n < 1 \/ n > most THEN Refused(s) ELSE OK(s, [s EXCEPT !.nbn = n], s.nbn)
Disable(s) == OK(s, [s EXCEPT !.verbose = -AbsI(s.verbose)], s.verbose)
None == -1000
Enable(s, n) == OK(s, [s EXCEPT !.verbose = IF n = None THEN AbsI(s.verbose) ELSE n], s.verbose)

\* messages
Printed(s, level) == s.verbose >= level
Fill(i, total, length) == (length * i) \div total
\* x is n/d rounded to an integer
IsRounded(x, n, d) == 2 * AbsI(x * d - n) <= d

(* ------------------------------------------------------------- start-up *)
\* env: "none", "bad" or "0"/"1"/"2"; ini: "none", "bad", "yes", "no"
Flag(env, ini, dflt) ==
    LET i == CASE ini = "yes" -> TRUE [] ini = "no" -> FALSE [] OTHER -> dflt IN
    CASE env \in {"none", "bad"} -> i [] OTHER -> env # "0"
\* an absent or unreadable number is the default
Number(ini, dflt) == IF ini = None THEN dflt ELSE ini
StartVerbose(ini) == Max2(0, Number(ini, 0))
\* the library a process starts with; "fails" when the name is not known
StartLib(ini, names, inst, dflt) == IF ini = "none" THEN dflt
                                    ELSE IF ini \notin names THEN "fails"
                                    ELSE IF Canon(ini) \in inst THEN Canon(ini) ELSE dflt
StartThreads(ini, most) == IF ini = None \/ ini < 1 \/ ini > most THEN most ELSE ini
=============================================================================
