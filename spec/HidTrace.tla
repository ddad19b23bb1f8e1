------------------------------ MODULE HidTrace ------------------------------
(***************************************************************************)
(* Decides whether the reports written by the real USB gadget backend      *)
(* (harness/hid.c) are those of HidGadget.  KEYD_TRACES: one JSON object   *)
(* per line: id, ev: [c (code), p (pressed), r (the reports written)].     *)
(***************************************************************************)
EXTENDS HidGadget, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.KEYD_TRACES)
VARIABLES tid, i, H, bad
vars == <<tid, i, H, bad>>
T == Traces[tid]

Init == tid \in 1..Len(Traces) /\ i = 0 /\ H = Init0 /\ bad = FALSE

\* The keys of a report (usages without a key are kept apart: 0 - usage)
KeysOf(r) == {LET u == r[j]
                  C == {c \in Ordinary : Usage[c] = u}
              IN IF C = {} THEN 0 - u ELSE CHOOSE c \in C : TRUE : j \in {j \in 3..8 : r[j] # 0}}
Distinct(r) == \A j, k \in 3..8 : r[j] # 0 /\ r[j] = r[k] => j = k
Good(r, N) == Len(r) = 8 /\ r[1] = ModByte(N) /\ r[2] = 0 /\ Distinct(r)

Next ==
  /\ ~bad /\ i < Len(T.ev)
  /\ UNCHANGED tid /\ i' = i + 1
  /\ LET e == T.ev[i + 1]
         N == Change(H, e.c, e.p = 1)
         same == N.down = H.down /\ N.mods = H.mods
         n == Len(e.r)
         last == IF n = 0 THEN H.rep ELSE KeysOf(e.r[n])
         ok == /\ (n = 0 => same)
               /\ \A j \in 1..n : Good(e.r[j], N)
               /\ Allowed(H, N, e.c, e.p = 1, last)
     IN /\ H' = [N EXCEPT !.rep = last]
        /\ bad' = IF ok THEN FALSE
                  ELSE PrintT("##" \o ToJson([reject |-> T.id, at |-> i + 1, event |-> e, mods |-> ModByte(N), down |-> N.down,
                                              before |-> H.rep]))
Done == i = Len(T.ev) /\ ~bad => PrintT("##" \o ToJson([accept |-> T.id]))
Sound == bad \/ Coherent(H)
=============================================================================
