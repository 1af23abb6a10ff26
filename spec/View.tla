-------------------------------- MODULE View --------------------------------
(***************************************************************************)
(* Viewers: what is selected, and what the widgets and the plot show.      *)
(* Requests come from the program and from the widgets; each changes only  *)
(* what it names.                                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Bit(n, b) == (n \div b) % 2
\* check boxes: structured, subtracted, weighted, compensated
BoxesOf(n) == <<Bit(n, 2), Bit(n, 4), Bit(n, 1) * Bit(n, 2), Bit(n, 8)>>
NormOf(b) == (IF b[3] = 1 THEN 3 ELSE IF b[1] = 1 THEN 2 ELSE 1) + 4 * b[2] + 8 * b[4]
Toggled(b, i) == [b EXCEPT ![i] = 1 - b[i]]

\* the state of a viewer: data set, norm, selection, representation; has a
\* selection been made, is there a figure
Nothing == [data |-> 0, norm |-> 0, sel |-> <<0, 0, 0, 0>>, has |-> FALSE, mode |-> "real", fig |-> FALSE]
\* a selection is <<ring, angle, sector, ring width>>, angle and sector as
\* numbers of entries in a list, or one index per axis
SetData(s, d) == [s EXCEPT !.data = d]
SetNorm(s, n, valid) == IF n \in valid THEN [s EXCEPT !.norm = n] ELSE s
SetSel(s, sel) == [s EXCEPT !.sel = sel, !.has = TRUE]
SetMode(s, m) == [s EXCEPT !.mode = m]
Slide(s, i, v) == [s EXCEPT !.sel[i] = v, !.has = TRUE]
Tick(s, i, valid) == SetNorm(s, NormOf(Toggled(BoxesOf(s.norm), i)), valid)
Plotted(s) == [s EXCEPT !.fig = TRUE, !.has = TRUE]

(* video viewer: the frame on display, frames taken from an iterator *)
Clamp(i, n) == IF i < 0 THEN 0 ELSE IF i >= n THEN n - 1 ELSE i
\* at: slider position; taken: frames taken so far (the first one is); n: slider length; have: frames there are
Moved(v, to, n, have, list) ==
    LET i == Clamp(to, n) IN
    IF list THEN [at |-> i, shown |-> i, taken |-> 0]
    ELSE IF i >= v.taken THEN LET t == IF i + 1 < have THEN i + 1 ELSE have IN [at |-> i, shown |-> t - 1, taken |-> t]
    ELSE [v EXCEPT !.at = i]
=============================================================================
