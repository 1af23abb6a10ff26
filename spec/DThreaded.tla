------------------------------ MODULE DThreaded ------------------------------
(***************************************************************************)
(* All schedules of one instance: the worker, the consumer and the         *)
(* display are interleaved in every possible way.                          *)
(***************************************************************************)
EXTENDS Threaded, TLC
CONSTANTS MaxN, MaxQ, MaxV,
          NoMark      \* TRUE: the worker leaves without an end mark (sensitivity)
VARIABLES g, s, out, shown
vars == <<g, s, out, shown>>
Inst == [N : 0..MaxN, fail : {0, 1}, q : 0..MaxQ, V : {0}, kind : {"threaded"}, disp : {"any"}]
        \cup [N : 0..MaxN, fail : {0}, q : {0}, V : 0..MaxV, kind : {"playt"}, disp : {"any"}]
        \cup [N : 0..MaxN, fail : {0}, q : {0}, V : 0..MaxV, kind : {"play"}, disp : {"always", "never", "any"}]
Init == g \in Inst /\ s = S0(g) /\ out = <<>> /\ shown = [v \in 1..g.V |-> <<>>]
Quiet == UNCHANGED <<g, out, shown>>
WorkerHidden == s' \in Offer(s, g) \cup Offered(s, g) \cup Put(s, g) \cup (IF NoMark THEN {} ELSE Fin(s, g)) /\ Quiet
WorkerPull == s' \in Obtain(s, g, s.o + 1) \cup SourceEnd(s, g) /\ Quiet
ConsumerHidden == ~Showing(s, g) /\ s' \in Get(s, g) \cup GetEnd(s, g) \cup Hand(s, g) \cup HandEnd(s, g) /\ Quiet
ConsumerNext == s' \in Next_(s, g) /\ Quiet
ConsumerRecv == s' \in Recv(s, g, s.n) /\ out' = Append(out, s.n) /\ UNCHANGED <<g, shown>>
ConsumerEnd == s' \in End(s, g) /\ Quiet
DisplayTake == s' \in Take(s, g) /\ Quiet
DisplayShow == \E v \in 1..g.V : /\ s' \in Shown(s, g, v, s.vv[v])
                                 /\ shown' = [shown EXCEPT ![v] = Append(@, s.vv[v])] /\ UNCHANGED <<g, out>>
Worker == WorkerHidden \/ WorkerPull
Consumer == ConsumerHidden \/ ConsumerNext \/ ConsumerRecv \/ ConsumerEnd
Display == DisplayTake \/ DisplayShow
Next == Worker \/ Consumer \/ Display
Spec == Init /\ [][Next]_vars /\ WF_vars(Worker) /\ WF_vars(Consumer) /\ WF_vars(DisplayShow) /\ WF_vars(DisplayTake)

\* every multi-frame is delivered once, in order
InOrder == out = [i \in 1..Len(out) |-> i] /\ Len(out) = s.r
\* the source is never read further ahead than the queue holds, plus the one in hand
Lookahead == /\ s.r <= s.n /\ s.n <= s.p /\ s.p <= s.o
             /\ g.q > 0 => s.o - s.n <= g.q + 1
             /\ g.kind = "play" => s.o <= s.r + 1
\* viewers show frames of the video in order, none twice, never one that was not obtained
ShownInOrder == \A v \in 1..g.V : \A i \in 1..Len(shown[v]) :
                   /\ shown[v][i] <= s.o
                   /\ i > 1 => shown[v][i - 1] < shown[v][i]
AllShown == (g.kind = "play" /\ g.disp = "always") => \A v \in 1..g.V : \A k \in 1..s.r : k <= Len(shown[v]) /\ shown[v][k] = k
NoneShown == (g.kind = "play" /\ g.disp = "never") => \A v \in 1..g.V : shown[v] = <<>>
Complete == s.c = "end" => Len(out) = g.N
\* waiting for the display never holds up the video, and the end is always reached
Ends == <>(s.c = "end" /\ s.w = "off")
=============================================================================
