---------------------------- MODULE MapperTrace -----------------------------
(***************************************************************************)
(* Decides whether the bindings the real application mapper put in force   *)
(* are those of AppMapper.  KEYD_TRACES: one JSON object per line:         *)
(*   id, conf (the text at the start), ev: [m: what happened (a sequence   *)
(*   of messages), cmd: the keyd bind commands (sequences of arguments)    *)
(*   until the mapper was idle again, alive]                               *)
(***************************************************************************)
EXTENDS AppMapper, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.KEYD_TRACES)
VARIABLES tid, i, S, force, bad
vars == <<tid, i, S, force, bad>>
T == Traces[tid]

Init ==
  /\ tid \in 1..Len(Traces) /\ i = 0 /\ force = <<>> /\ bad = FALSE
  /\ S = Start(T.conf)

Next ==
  /\ ~bad /\ i < Len(T.ev)
  /\ UNCHANGED tid /\ i' = i + 1
  /\ LET e == T.ev[i + 1]
         s == FoldLeft(Step, S, e.m)
         f == FoldLeft(Bind, force, e.cmd)
         ok == e.alive = 1 /\ (s.any \/ f \in s.ok)
     IN /\ S' = IF s.any THEN s ELSE [s EXCEPT !.ok = {f}]
        /\ force' = f
        /\ bad' = IF ok THEN FALSE
                  ELSE PrintT("##" \o ToJson([reject |-> T.id, at |-> i + 1, alive |-> e.alive, inforce |-> f, allowed |-> s.ok, focus |-> s.cur]))
Done == i = Len(T.ev) /\ ~bad => PrintT("##" \o ToJson([accept |-> T.id]))
\* Nothing accumulates: what is in force is determined by the focus and the file
Sound == bad \/ S.any \/ force \in S.ok
=============================================================================
