----------------------------- MODULE EngineTrace ----------------------------
(***************************************************************************)
(* Decides whether traces recorded from the real engine are behaviours of  *)
(* KeydEngine.                                                             *)
(*                                                                         *)
(* KEYD_CONFS   one JSON object per line: lines, incs (an object), and     *)
(*              ok: whether the real parser accepted the file              *)
(* KEYD_TRACES  one JSON object per line: id, cfg (line of KEYD_CONFS),    *)
(*              ev (see harness/engine.c)                                  *)
(* KEYD_MODE    which part of a trace is judged:                           *)
(*   full    every key event, pause, command and layer announcement of     *)
(*           every step, and the wake up times asked for                   *)
(*   keys    only what is observable by the user at rest: which keys are   *)
(*           down whenever nothing is held or pending (C01)                *)
(*   layers  only which layers are active then, and that announcements     *)
(*           balance (C02)                                                 *)
(*   timing  full, without the tolerance for early wake ups                *)
(*                                                                         *)
(* Every trace is one behaviour; the step taken is determined by the next  *)
(* event of the trace, so a state is identified by its trace and position. *)
(***************************************************************************)
EXTENDS KeydProps

Confs == ndJsonDeserialize(IOEnv.KEYD_CONFS)
Traces == ndJsonDeserialize(IOEnv.KEYD_TRACES)
Mode == IF "KEYD_MODE" \in DOMAIN IOEnv THEN IOEnv.KEYD_MODE ELSE "full"

ASSUME TLCSet(1, BuiltinConfig)
ASSUME TLCSet(2, [i \in 1..Len(Confs) |->
         TLCEval(ParseFile(TLCGet(1), Confs[i].lines,
                   [n \in {Confs[i].incs[k].name : k \in 1..Len(Confs[i].incs)} |->
                      LET k == CHOOSE k \in 1..Len(Confs[i].incs) : Confs[i].incs[k].name = n
                      IN Confs[i].incs[k].lines]))])
\* The verdict on the configuration files themselves
ConfOk(i) == TLCGet(2)[i].ok = (Confs[i].ok = 1)
ASSUME \A i \in 1..Len(Confs) :
         ConfOk(i) \/ PrintT("##" \o ToJson([conf |-> i, expected |-> TLCGet(2)[i].ok]))

VARIABLES tid,      \* the trace
          i,        \* number of its events already taken
          C, S,     \* configuration and state of the engine
          down,     \* the keys which are down according to the trace
          lay,      \* the activations seen so far, per layer
          bad       \* the trace has been rejected
vars == <<tid, i, C, S, down, lay, bad>>
View == <<tid, i>>

Conf(t) == TLCGet(2)[Traces[t].cfg]
Init ==
  /\ tid \in {t \in 1..Len(Traces) : Conf(t).ok /\ Confs[Traces[t].cfg].ok = 1}
  /\ i = 0
  /\ C = Conf(tid).cfg
  /\ S = InitState(C)
  /\ down = {}
  /\ lay = [x \in 1..Len(C.layers) |-> S.act[x]]
  /\ bad = FALSE

RECURSIVE DownAfter(_, _, _)
DownAfter(o, j, D) ==
  IF j > Len(o) THEN D
  ELSE DownAfter(o, j + 1, IF o[j] < 1000 THEN D \cup {o[j]} ELSE D \ {o[j] - 1000})

\* Announcement of layer activity; selecting a layout replaces the previous one
RECURSIVE LayAfter(_, _, _)
LayAfter(l, j, L) ==
  IF j > Len(l) THEN L
  ELSE LET n == From(l[j], 2)
           x == LayerIdx(C, n)
           up == Ch(l[j], 1) = "+"
       IN IF x = 0 THEN [y \in DOMAIN L |-> 99]
          ELSE IF C.layers[x].type = "layout"
          THEN LayAfter(l, j + 1,
                 [y \in DOMAIN L |-> IF C.layers[y].type # "layout" THEN L[y]
                                     ELSE IF y = 1 \/ y = x THEN 1 ELSE 0])
          ELSE LayAfter(l, j + 1, [L EXCEPT ![x] = IF up THEN @ + 1 ELSE @ - 1])

Report(kind, e, expected) ==
  PrintT("##" \o ToJson([reject |-> Traces[tid].id, at |-> i', kind |-> kind, event |-> e, expected |-> expected]))

\* Nothing is held and nothing is going to happen by itself
Latched(T) == UNION {C.layers[x].mods : x \in {y \in 1..Len(C.layers) : lay[y] > 0}}

\* Commands run by themselves, in no particular order
Count(s, x) == Cardinality({j \in 1..Len(s) : s[j] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A j \in 1..Len(a) : Count(a, a[j]) = Count(b, a[j])

Wake(e, T) ==      \* the wake up asked for is early enough
  LET n == NextWake(T, C, e.t)
  IN n = 0 \/ (e.w # 0 /\ e.w <= n)

KeyStep1(e) ==
  LET R == Step(S, C, e.c, e.p = 1, e.t)
      T == Quiet(R)
      d2 == DownAfter(e.o, 1, down)
      l2 == LayAfter(e.l, 1, lay)
      ok == CASE R.amb -> TRUE
              [] Mode \in {"full", "timing"} ->
                   R.out = e.o /\ R.lyo = e.l /\ SameBag(R.cmds, e.m) /\ Wake(e, R)
              [] OTHER -> TRUE
  IN /\ S' = T
     /\ C' = C
     /\ down' = d2
     /\ lay' = l2
     /\ bad' = IF ok THEN FALSE
               ELSE Report("step", e, [o |-> R.out, l |-> R.lyo, m |-> R.cmds, w |-> NextWake(R, C, e.t)])

\* What held keys may still refer to is not given up
ResetConfig(T, D, orig) ==
  IF NoKeyHeld(T) /\ ~T.am.on /\ T.pk.c = 0 /\ T.ch.st = "idle" THEN orig
  ELSE [orig EXCEPT !.nm = D.nm, !.nd = D.nd, !.nc = D.nc]

EvalStep(e) ==
  LET r == IF e.x = "reset" THEN [ok |-> TRUE, cfg |-> ResetConfig(S, C, Conf(tid).cfg)] ELSE AddEntry(C, e.x)
      ok == (e.ok = 1) = r.ok /\ e.o = <<>> /\ e.l = <<>> /\ e.m = <<>>
  IN /\ C' = r.cfg
     /\ UNCHANGED <<S, down, lay>>
     /\ bad' = IF ok THEN FALSE ELSE Report("eval", e, [ok |-> r.ok])

\* How a configuration matches a device: 2 by its id, 1 by the wildcard, 0 not at all
MatchStep(e) ==
  LET kinds == (IF (e.f \div 2) % 2 = 1 THEN {"mouse"} ELSE {}) \cup (IF (e.f \div 4) % 2 = 1 THEN {"keyboard"} ELSE {})
      r == Match(C, e.x, kinds)
  IN /\ UNCHANGED <<S, C, down, lay>>
     /\ bad' = IF e.r = r THEN FALSE ELSE Report("match", e, [r |-> r])

\* A point at which the user has let go of everything and waited
RestStep(e) ==
  LET mods == {ModCode[m] : m \in Latched(S)}
      lat == [x \in 1..Len(C.layers) |-> S.act[x]]
      ok == CASE Mode = "keys" -> ~AtRest(S, C) \/ down \subseteq mods
              [] Mode = "layers" -> ~AtRest(S, C) \/ lay = lat
              [] OTHER -> e.o = <<>> /\ e.l = <<>> /\ e.m = <<>>
                          /\ (~AtRest(S, C) \/ (down \subseteq mods /\ lay = lat))
  IN /\ UNCHANGED <<S, C, down, lay>>
     /\ bad' = IF ok THEN FALSE
               ELSE Report("rest", e, [down |-> down, mods |-> mods, active |-> lat, announced |-> lay])

\* A trace is a sequence of events, or a tree (n: the events which may come
\* next), which stands for all its paths
Tree == "n" \in DOMAIN Traces[tid]
Following ==
  IF ~Tree THEN {i + 1} \cap 1..Len(Traces[tid].ev)
  ELSE LET s == IF i = 0 THEN Traces[tid].n ELSE Traces[tid].ev[i].n IN {s[k] : k \in 1..Len(s)}

Next ==
  /\ ~bad
  /\ ~S.amb
  /\ UNCHANGED tid
  /\ \E j \in Following :
       /\ i' = j
       /\ LET e == Traces[tid].ev[j] IN
          CASE e.k = "k" -> KeyStep1(e)
            [] e.k = "e" -> EvalStep(e)
            [] e.k = "m" -> MatchStep(e)
            [] e.k = "q" -> RestStep(e)

\* The properties of KeydProps hold in every state the trace goes through
Held1 == LET t == IF i = 0 THEN 0 ELSE LET e == Traces[tid].ev[i] IN IF e.k = "k" THEN e.t ELSE 0
             B == IF i = 0 \/ Traces[tid].ev[i].k # "k" \/ S.amb THEN {} ELSE Broken(S, C, t)
         IN B = {} \/ PrintT("##" \o ToJson([broken |-> Traces[tid].id, at |-> i, props |-> B]))
Done == ~Tree /\ (S.amb \/ i = Len(Traces[tid].ev)) => bad \/ PrintT("##" \o ToJson([accept |-> Traces[tid].id, amb |-> S.amb]))
=============================================================================
