------------------------------ MODULE KeydProps -----------------------------
(***************************************************************************)
(* What has to be true of the engine in every reachable state, stated      *)
(* independently of how KeydEngine computes the next state.                *)
(* now: the time of the last step.                                        *)
(***************************************************************************)
EXTENDS KeydEngine

Layers(C) == 1..Len(C.layers)
IsLayout(C, x) == C.layers[x].type = "layout"
NoKeyHeld(S) == \A k \in 1..Cache : S.ca[k].c = 0
ModCodes == {ModCode[m] : m \in ModLetters}
ActiveMods(S, C) == {ModCode[m] : m \in LayerMods(S, C, 0)}

\* Nothing is held, and only the end of pending oneshots can come by itself
AtRest(S, C) == NoKeyHeld(S) /\ Deadlines(S, C) \subseteq {S.oto}

\* C01
NoStuckKey(S, C) == AtRest(S, C) => S.ks \subseteq ActiveMods(S, C)

\* C02: every activation has exactly one reason: the base layer, the layout,
\* a held key, a toggle or a pending oneshot
Holds(S, x) ==
  Cardinality({k \in 1..Cache : S.ca[k].c # 0
                 /\ \/ S.ca[k].d.op \in {"layer", "layerm", "overload"} /\ S.ca[k].d.l = x
                    \/ S.ca[k].d.op \in {"oneshot", "oneshotm"} /\ S.ca[k].d.l = x})
Justified(S, C) ==
  /\ \A x \in Layers(C) : ~IsLayout(C, x) =>
       S.act[x] = Holds(S, x) + (IF S.tg[x] THEN 1 ELSE 0) + S.od[x]
  /\ S.act[1] = 1
  /\ \A x \in Layers(C) : IsLayout(C, x) => S.act[x] \in {0, 1} /\ ~S.tg[x] /\ S.od[x] = 0

\* C03, C10, C11: no key is lost.  A physical key which is down is known to be
\* held, or waits for a decision, or is a part of a chord; and a key which is
\* known to be held is down, or its release waits for a decision.
InQueue(q, c) == \E j \in 1..Len(q) : q[j].c = c
Waiting(S, c) == S.pk.c = c \/ InQueue(S.pk.q, c) \/ InQueue(S.ch.q, c)
InChord(S, c) == \E a \in 1..NCHORDS : S.ac[a].on /\ c \in S.ac[a].rem
ChordKey(S, c) == c \in CHORD1..(CHORD1 + NCHORDS - 1)
NoKeyLost(S, C) ==
  /\ \A c \in S.phys \ S.ign : Held(S, c) \/ Waiting(S, c) \/ InChord(S, c)
  /\ \A k \in 1..Cache :
       LET c == S.ca[k].c IN
       c = 0 \/ c \in S.phys \/ Waiting(S, c) \/ (ChordKey(S, c) /\ S.ac[c - CHORD1 + 1].on)
  /\ \A k, j \in 1..Cache : k # j /\ S.ca[k].c # 0 => S.ca[k].c # S.ca[j].c

\* C05: with no key held the only modifiers down are those of active layers
CleanMods(S, C) == NoKeyHeld(S) /\ ~S.am.on => S.ks \cap ModCodes \subseteq ActiveMods(S, C)
\* and no other key is down
CleanKeys(S, C) == NoKeyHeld(S) => S.ks \subseteq ModCodes

\* C07
OneshotEnds(S, C) ==
  /\ (S.oto # 0 => C.o.ost # 0)
  /\ (C.o.ost # 0 /\ \E x \in Layers(C) : S.od[x] > 0) => S.oto # 0 \/ S.latch

\* C08: at most one layout on top of the base layer
OneLayout(S, C) == Cardinality({x \in Layers(C) : x # 1 /\ IsLayout(C, x) /\ S.act[x] > 0}) <= 1

\* C11
ChordsHeld(S, C) ==
  \A a \in 1..NCHORDS : S.ac[a].on =>
    \/ Held(S, CHORD1 + a - 1) \/ Waiting(S, CHORD1 + a - 1)
    \/ CHORD1 + a - 1 \in S.ign      \* too many keys held
    \/ S.ac[a].rem = {}

\* C13: nothing is overdue.  A oneshot may outlive its time only as long as a
\* decision is open (the keys struck before it still belong to it).
NothingDue(S, C, now) ==
  ~S.amb =>
  /\ S.am.on => S.am.t > now \/ S.pk.c # 0 \/ S.ch.st # "idle"
  /\ S.ch.st = "disamb" => S.ch.lct + C.o.cit > now
  /\ S.ch.st = "hold" => S.ch.lct + C.o.cht > now
  /\ S.oto # 0 => S.oto > now \/ S.pk.c # 0 \/ S.ch.st # "idle"
\* (K1) the one exception is a decision which comes up at the very moment
\* another one is taken
PendingDue(S, now) == S.pk.c # 0 /\ S.pk.exp <= now

\* C14
Bounded(S, C) ==
  /\ Len(S.pk.q) <= QueueMax /\ Len(S.ch.q) <= QueueMax
  /\ \A x \in Layers(C) : S.act[x] >= 0 /\ S.od[x] >= 0
  /\ S.pk.c = 0 => S.pk = NoPend
  /\ S.ch.st \in {"idle", "disamb", "hold"}
  /\ S.ch.st = "idle" => S.ch = NoChord

Properties(S, C, now) ==
  [ NoStuckKey |-> NoStuckKey(S, C), Justified |-> Justified(S, C),
    NoKeyLost |-> NoKeyLost(S, C), CleanMods |-> CleanMods(S, C),
    CleanKeys |-> CleanKeys(S, C), OneshotEnds |-> OneshotEnds(S, C),
    OneLayout |-> OneLayout(S, C), ChordsHeld |-> ChordsHeld(S, C),
    NothingDue |-> NothingDue(S, C, now), Bounded |-> Bounded(S, C) ]
Broken(S, C, now) ==
  LET P == Properties(S, C, now) IN {p \in DOMAIN P : ~P[p]}
=============================================================================
