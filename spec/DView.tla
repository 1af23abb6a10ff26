------------------------------- MODULE DView --------------------------------
(* A viewer with sliders and check boxes, in every history of requests of  *)
(* the program and of the user.  The widgets keep positions of their own;  *)
(* Stale: a widget request also takes over the positions of the others.    *)
EXTENDS View
CONSTANTS K, A, Norms, Stale, Video
VARIABLES s, slider, boxes, shown, asked, v
vars == <<s, slider, boxes, shown, asked, v>>
N == 4
Now(t) == <<t.sel, t.norm, t.mode>>
Init == /\ s = [Nothing EXCEPT !.data = 1, !.norm = 1]
        /\ slider = <<0, 0>> /\ boxes = BoxesOf(1) /\ shown = <<>> /\ asked = <<0, 0, 1, "real">>
        /\ v = [at |-> 0, shown |-> 0, taken |-> 1]
\* program
Program == \/ \E k \in K, a \in A : /\ s' = SetSel(s, <<k, a, 0, 0>>) /\ asked' = <<k, a, asked[3], asked[4]>>
                                    /\ slider' = IF s.fig /\ ~Stale THEN <<k, a>> ELSE slider
                                    /\ UNCHANGED <<boxes, shown, v>>
           \/ \E n \in Norms : /\ s' = SetNorm(s, n, Norms) /\ asked' = [asked EXCEPT ![3] = n]
                               /\ boxes' = IF s.fig /\ ~Stale THEN BoxesOf(n) ELSE boxes
                               /\ UNCHANGED <<slider, shown, v>>
           \/ /\ s' = Plotted(s) /\ shown' = Now(s')
              /\ IF s.fig THEN UNCHANGED <<slider, boxes>> ELSE slider' = <<s.sel[1], s.sel[2]>> /\ boxes' = BoxesOf(s.norm)
              /\ UNCHANGED <<asked, v>>
\* user
User == /\ s.fig
        /\ \/ \E i \in 1..2 : \E x \in (IF i = 1 THEN K ELSE A) :
                /\ slider' = [slider EXCEPT ![i] = x]
                /\ s' = IF Stale THEN SetSel(s, <<slider'[1], slider'[2], 0, 0>>) ELSE Slide(s, i, x)
                /\ asked' = [asked EXCEPT ![i] = x]
                /\ UNCHANGED <<boxes, v>>
           \/ \E i \in 1..4 :
                /\ LET n == NormOf(Toggled(boxes, i)) IN
                   IF n \in Norms THEN s' = SetNorm(s, n, Norms) /\ boxes' = BoxesOf(n) /\ asked' = [asked EXCEPT ![3] = n]
                   ELSE UNCHANGED <<s, boxes, asked>>
                /\ UNCHANGED <<slider, v>>
           \/ \E m \in {"real", "abs"} : s' = SetMode(s, m) /\ asked' = [asked EXCEPT ![4] = m] /\ UNCHANGED <<slider, boxes, v>>
        /\ shown' = Now(s')
Browse == /\ Video /\ \E to \in -1..(N + 1) : v' = Moved(v, to, N, 3, FALSE)
          /\ UNCHANGED <<s, slider, boxes, shown, asked>>
Next == Program \/ User \/ Browse
Spec == Init /\ [][Next]_vars
\* what was asked for last, for each parameter, is what is selected
Asked == <<s.sel[1], s.sel[2], s.norm, s.mode>> = asked
\* the widgets say what is selected
InStep == s.fig => slider = <<s.sel[1], s.sel[2]>> /\ boxes = BoxesOf(s.norm)
\* an iterator is never read further than the furthest position, and shows the last frame read
Iterated == v.shown = v.taken - 1 /\ v.taken <= 3 /\ v.at < N
Forward == [][v'.taken >= v.taken]_vars
=============================================================================
