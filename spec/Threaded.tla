------------------------------ MODULE Threaded ------------------------------
(***************************************************************************)
(* Moving a video iterator to a background thread (threaded,               *)
(* play_threaded), playing it in the foreground (play), and the viewers    *)
(* fed by it (show_video, show_diff, show_fft).                            *)
(*                                                                         *)
(* An instance g has: N multi-frames in the source, fail = 1 when the      *)
(* source raises after them instead of ending, q = queue capacity (0: no   *)
(* limit), V viewers, kind in {"threaded", "playt", "play"} and, for       *)
(* play, disp in {"always", "never", "any"} (can the display keep up).     *)
(*                                                                         *)
(* A state s has                                                           *)
(*   o, p, n, r  multi-frames obtained from the source, put on the queue,  *)
(*               taken from the queue, delivered to the consumer           *)
(*   w           worker: "new", "pull", "show" (offer the frame to the     *)
(*               viewers), "put", "fin" (put the end mark), "off"          *)
(*   sv          viewers that were offered the frame                       *)
(*   c           consumer: "idle", "ask", "have", "over", "end", "closed"  *)
(*   e           end mark is on the queue                                  *)
(*   vq, vv      frame waiting in the viewer's queue of one element, frame *)
(*               taken from it and about to be shown (0: none)             *)
(*   ds          display passes made for the current frame ("play")        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

S0(g) == [o |-> 0, p |-> 0, n |-> 0, r |-> 0, w |-> "new", sv |-> 0, c |-> "idle", e |-> 0,
          vq |-> [v \in 1..g.V |-> 0], vv |-> [v \in 1..g.V |-> 0], ds |-> 0]

Room(s, g) == g.q = 0 \/ (s.p - s.n) + s.e < g.q
One(b, s) == IF b THEN {s} ELSE {}
Background(g) == g.kind # "play"

---------------------------------------------------------------------------
\* steps that cannot be seen from outside
Offer(s, g) ==     \* the next viewer takes the frame if its queue is empty
    One(s.w = "show" /\ s.sv < g.V,
        [s EXCEPT !.sv = s.sv + 1, !.vq[s.sv + 1] = IF @ = 0 THEN s.o ELSE @])
Offered(s, g) == One(s.w = "show" /\ s.sv = g.V, [s EXCEPT !.w = "put"])
Put(s, g) == One(s.w = "put" /\ Background(g) /\ Room(s, g), [s EXCEPT !.p = s.p + 1, !.w = "pull"])
Fin(s, g) == One(s.w = "fin" /\ Background(g) /\ Room(s, g), [s EXCEPT !.e = 1, !.w = "off"])
Get(s, g) == One(s.c = "ask" /\ s.p > s.n, [s EXCEPT !.n = s.n + 1, !.c = "have"])
GetEnd(s, g) == One(s.c = "ask" /\ s.p = s.n /\ s.e = 1, [s EXCEPT !.c = "over"])
\* the consumer's thread takes a frame from a viewer's queue in order to show it
MayShow(s, g) == \/ g.kind = "playt" /\ s.c = "ask"
                 \/ g.kind = "play" /\ s.c = "ask" /\ s.w = "put" /\ g.disp # "never"
Take(s, g) == UNION {One(MayShow(s, g) /\ s.vq[v] # 0 /\ \A u \in 1..g.V : s.vv[u] = 0,
                         [s EXCEPT !.vv[v] = s.vq[v], !.vq[v] = 0]) : v \in 1..g.V}
\* in the foreground the frame is handed over directly, after the display
Hand(s, g) == One(g.kind = "play" /\ s.c = "ask" /\ s.w = "put" /\ (\A v \in 1..g.V : s.vv[v] = 0)
                    /\ (g.disp = "always" => \A v \in 1..g.V : s.vq[v] = 0),
                  [s EXCEPT !.p = s.p + 1, !.n = s.n + 1, !.c = "have", !.w = "pull"])
HandEnd(s, g) == One(g.kind = "play" /\ s.c = "ask" /\ s.w = "fin", [s EXCEPT !.c = "over", !.w = "off"])
Showing(s, g) == \E v \in 1..g.V : s.vv[v] # 0
Hidden(s, g) == Offer(s, g) \cup Offered(s, g) \cup Put(s, g) \cup Fin(s, g) \cup Take(s, g)
                \cup (IF Showing(s, g) THEN {} ELSE Get(s, g) \cup GetEnd(s, g) \cup Hand(s, g) \cup HandEnd(s, g))

---------------------------------------------------------------------------
\* steps that are seen: source and consumer side
CanPull(s, g) == s.w = "pull" /\ (Background(g) \/ s.c = "ask")
Obtain(s, g, k) == One(CanPull(s, g) /\ s.o < g.N /\ k = s.o + 1, [s EXCEPT !.o = k, !.w = "show", !.sv = 0])
SourceEnd(s, g) == One(CanPull(s, g) /\ s.o = g.N, [s EXCEPT !.w = "fin"])
Next_(s, g) == One(s.c = "idle", [s EXCEPT !.c = "ask", !.w = IF @ = "new" THEN "pull" ELSE @])
Recv(s, g, k) == One(s.c = "have" /\ k = s.n, [s EXCEPT !.r = k, !.c = "idle"])
End(s, g) == One(s.c = "over", [s EXCEPT !.c = "end"])
Close(s, g) == One(s.c \in {"idle", "end"}, [s EXCEPT !.c = "closed"])
Shown(s, g, v, k) == One(s.vv[v] = k /\ k # 0, [s EXCEPT !.vv[v] = 0])
\* nothing moves although everybody had the time to
Stuck(s, g) == Hidden(s, g) = {} /\ s.w # "pull" /\ s.c # "ask" /\ s.c # "have" /\ s.c # "over"
\* the consumer waits for a frame: everything was delivered, and what can be shown has been shown
Starved(s, g) == s.c = "ask" /\ s.w = "pull" /\ s.p = s.n /\ s.o = s.p
                 /\ \A v \in 1..g.V : s.vq[v] = 0 /\ s.vv[v] = 0

RECURSIVE Closure(_, _)
Closure(S, g) == LET T == S \cup UNION {Hidden(s, g) : s \in S}
                 IN IF T = S THEN S ELSE Closure(T, g)
=============================================================================
