------------------------------ MODULE MapperMC ------------------------------
(* All histories of a few windows and configurations, with a mapper which  *)
(* binds at every change of the focus: what it does is what is asked for,  *)
(* and nothing accumulates.                                                *)
EXTENDS AppMapper
VARIABLES S, force, n
vars == <<S, force, n>>
A == <<97>>
B == <<98>>
\* "[a]\nx", "[*]\ny\n[b|a]\nx", "x\n[b]\nreset\nx"
Texts == {<<91, 97, 93, 10, 120>>, <<91, 42, 93, 10, 121, 10, 91, 98, 124, 97, 93, 10, 120>>,
          <<120, 10, 91, 98, 93, 10, 114, 101, 115, 101, 116, 10, 120>>}
Ids == 1..2
Msgs == [op : {"top"}, id : Ids] \cup [op : {"title", "app"}, id : Ids, s : {A, B}]
        \cup [op : {"state"}, id : Ids, l : {<<>>, <<0, 2>>}] \cup [op : {"done", "closed"}, id : Ids]
        \cup [op : {"conf"}, s : Texts] \cup {[op |-> "noconf"], [op |-> "usr1"]}
Text0 == <<91, 97, 93, 10, 120>>
Init == S = Start(Text0) /\ force = <<>> /\ n = 0
Acts(s, m) == m.op = "usr1" \/ (m.op \notin {"conf", "noconf"} /\ Active(Announce(s.W, m), m))
Next == \E m \in Msgs :
  /\ m.op = "usr1" => S.cur # <<>>
  /\ m.op = "top" => m.id \notin DOMAIN S.W
  /\ m.op \notin {"top", "conf", "noconf", "usr1"} => m.id \in DOMAIN S.W
  /\ LET s == Step(S, m)
         f == IF Acts(S, m) THEN Bind(force, <<Reset>> \o Lookup(s.last, s.cur[1].c, s.cur[1].t)) ELSE force
     IN S' = (IF s.any THEN s ELSE [s EXCEPT !.ok = {f}]) /\ force' = f /\ Assert(s.any \/ f \in s.ok, <<S, m>>)
  /\ n' = n + 1
Bound == n < 9
View == <<S, force>>
\* What is in force is a function of the focus and the file as last read
Inv == S.cur # <<>> /\ ~S.any => force = Wanted(S.last, S.cur[1])
=============================================================================
