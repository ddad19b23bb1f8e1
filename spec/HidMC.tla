------------------------------- MODULE HidMC --------------------------------
(* All behaviours of HidGadget with a few keys, more than fit in a report.  *)
EXTENDS HidGadget
VARIABLES H, last
Keys == {30, 31, 32, 33, 34, 35, 36, 29, 240}
Init == H = Init0 /\ last = <<0, FALSE>>
Next == \E c \in Keys, p \in BOOLEAN :
          LET N == Change(H, c, p)
          IN /\ \E r \in Reports(N) : Allowed(H, N, c, p, r) /\ H' = [N EXCEPT !.rep = r]
             /\ last' = <<c, p>>
\* There is always something to report
Possible == \A c \in Keys, p \in BOOLEAN : LET N == Change(H, c, p) IN \E r \in Reports(N) : Allowed(H, N, c, p, r)
Inv == Coherent(H) /\ (~last[2] => last[1] \notin H.rep) /\ Possible
        /\ (last[2] /\ last[1] \in Ordinary /\ last[1] \notin H.rep => Cardinality(H.rep) = Slots)
=============================================================================
