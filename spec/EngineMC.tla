------------------------------ MODULE EngineMC ------------------------------
(***************************************************************************)
(* The engine as a closed system: a few keys of a small configuration are  *)
(* pressed and released at the interesting times, in every order.  In      *)
(* every reachable state the properties of KeydProps hold; every           *)
(* transition is printed and replayed in the real engine (tools/mc.py).    *)
(*                                                                         *)
(* KEYD_CONFS  as in EngineTrace, and keys: the keys used; dts: how much   *)
(*             time may pass before an event; depth: events per history    *)
(*                                                                         *)
(* Times are kept relative to the present, which is always Base, so that   *)
(* states which differ only in their age are one.                          *)
(***************************************************************************)
EXTENDS KeydProps

Confs == ndJsonDeserialize(IOEnv.KEYD_CONFS)
ASSUME TLCSet(1, BuiltinConfig)
ASSUME TLCSet(2, [i \in 1..Len(Confs) |-> TLCEval(ParseFile(TLCGet(1), Confs[i].lines, <<>>))])
ASSUME \A i \in 1..Len(Confs) : TLCGet(2)[i].ok \/ Assert(FALSE, Confs[i])

Base == 100000
Old == Base - 5000         \* what is older makes no difference
Max2(a, b) == IF a < b THEN b ELSE a

VARIABLES n,     \* the configuration
          S,     \* the engine
          h      \* the history: key, pressed, time (absolute, from 0)
vars == <<n, S, h>>
View == <<n, S>>
C == TLCGet(2)[n].cfg

Shift(T, d) ==
  LET ago(x) == Max2(x - d, Old)
      q(s) == [j \in 1..Len(s) |-> [s[j] EXCEPT !.t = ago(@)]]
      \* the order of activation is what matters, not its time
      live == {x \in DOMAIN T.at : T.act[x] > 0}
      late == {T.at[z] : z \in {y \in live : T.at[y] > 1}}
      rank(x) == IF T.at[x] <= 1 THEN T.at[x] ELSE 2 + Cardinality({v \in late : v < T.at[x]})
  IN [T EXCEPT !.am.t = IF T.am.on THEN ago(@) ELSE 0,
               !.oto = IF @ = 0 THEN 0 ELSE ago(@),
               !.ovs = ago(@), !.lsk = ago(@),
               !.ch.lct = IF T.ch.st = "idle" THEN 0 ELSE ago(@),
               !.ch.q = q(@), !.pk.q = q(@),
               !.pk.exp = IF T.pk.c = 0 THEN 0 ELSE ago(@),
               !.at = [x \in DOMAIN T.at |-> IF x \in live THEN rank(x) ELSE 0],
               !.clk = 2 + Cardinality(late)]

\* The engine is woken whenever it has asked for it
RECURSIVE Pass(_, _, _, _)
Pass(T, from, to, k) ==
  LET w == NextWake(T, C, from)
  IN IF w = 0 \/ w > to \/ k = 0 \/ T.amb THEN T ELSE Pass(Quiet(Step(T, C, 0, FALSE, w)), w, to, k - 1)

Init ==
  /\ n \in 1..Len(Confs)
  /\ S = Shift(InitState(C), 0)
  /\ h = <<>>

Now0 == IF h = <<>> THEN 0 ELSE h[Len(h)][3]
Set(s) == {s[j] : j \in 1..Len(s)}

Key(c, dt) ==
  LET T == Pass(S, Base, Base + dt, 40)
      down == c \notin S.phys
      R == IF T.amb THEN T ELSE Step(T, C, c, down, Base + dt)
      h2 == Append(h, <<c, IF down THEN 1 ELSE 0, Now0 + dt>>)
  IN /\ S' = Shift(Quiet(R), dt)
     /\ h' = h2
     /\ PrintT("##" \o ToJson([h |-> h2, n |-> n]))

Next ==
  /\ Len(h) < Confs[n].depth
  /\ ~S.amb
  /\ UNCHANGED n
  /\ \E c \in Set(Confs[n].keys), dt \in Set(Confs[n].dts) : Key(c, dt)

Keeps == S.amb \/ LET B == Broken(S, C, Base) IN B = {} \/ PrintT("##" \o ToJson([broken |-> n, h |-> h, props |-> B]))
Limit == TLCGet("distinct") < AToI(IOEnv.KEYD_STATES)
=============================================================================
