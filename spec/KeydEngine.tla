----------------------------- MODULE KeydEngine -----------------------------
(***************************************************************************)
(* The remapping engine of keyd: the state of one (logical) keyboard and   *)
(* its reaction to key events and to the passing of time.                  *)
(*                                                                         *)
(* A state is a record S, a configuration a record C as defined by         *)
(* KeydConfig.  All operators are functions from states to states; what a  *)
(* step emits is appended to S.out (key events, pauses and commands, in    *)
(* order) and S.lyo (layer announcements, in order).                       *)
(*                                                                         *)
(* Codes are evdev codes.  Element of S.out:                               *)
(*    c            key c goes down            1000 + c     key c goes up   *)
(*    10000 + us   pause of us microseconds                                *)
(***************************************************************************)
EXTENDS KeydConfig

Cache == 16
QueueMax == 32
None == 0

EmptySlot == [c |-> 0, d |-> NoneD, dl |-> 1, l |-> 1]
NoMatch == [keys |-> <<>>, d |-> NoneD]
NoChord == [st |-> "idle", q |-> <<>>, m |-> NoMatch, ml |-> 1, lct |-> 0]
NoPend == [c |-> 0, dl |-> 1, exp |-> 0, due |-> FALSE, beh |-> "tap", q |-> <<>>, a1 |-> NoneD, a2 |-> NoneD]
FreeAc == [on |-> FALSE, queued |-> FALSE, rem |-> {}, d |-> NoneD, l |-> 1]

LayoutIdx(C, name) ==
  LET M == {i \in 1..Len(C.layers) : C.layers[i].name = name /\ C.layers[i].type = "layout"}
  IN IF name = "" \/ M = {} THEN 0 ELSE CHOOSE i \in M : \A j \in M : i <= j

InitState(C) ==
  LET n == Len(C.layers)
      dl == LayoutIdx(C, C.dl)
      on(i) == i = 1 \/ i = dl
  IN [ phys |-> {},               \* keys which are down on the input side
       ign |-> {},                \* keys which are down but ignored, too many being held
       ks |-> {},                 \* keys which are down on the output side
       lo |-> 0,                  \* last key pressed on the output side
       lp |-> 0,                  \* last key processed as a press
       latch |-> FALSE,           \* a oneshot key has been struck and nothing since
       am |-> [on |-> FALSE, m |-> <<>>, l |-> 1, t |-> 0, r |-> 0],   \* repeating macro
       oto |-> 0,                 \* when the pending oneshots end (0: never)
       otd |-> FALSE,             \* that moment has come, but a decision is open
       ovs |-> 0,                 \* when the last overload key was struck
       lsk |-> -1000000,          \* when the last ordinary key was struck or released
       ac |-> [i \in 1..NCHORDS |-> FreeAc],
       ch |-> NoChord,
       pk |-> NoPend,             \* the key whose action is still undecided
       act |-> [i \in 1..n |-> IF on(i) THEN 1 ELSE 0],
       at |-> [i \in 1..n |-> IF i = dl THEN 1 ELSE 0],
       tg |-> [i \in 1..n |-> FALSE],
       od |-> [i \in 1..n |-> 0],
       ca |-> [i \in 1..Cache |-> EmptySlot],
       clk |-> 2,
       rep |-> 0,                 \* queued events are being processed
       amb |-> FALSE,             \* the outcome has stopped being determined
       scr |-> [on |-> FALSE, n |-> 0],
       out |-> <<>>, lyo |-> <<>>, cmds |-> <<>> ]

Quiet(S) == [S EXCEPT !.out = <<>>, !.lyo = <<>>, !.cmds = <<>>]

(*************************** cache of held keys ****************************)
MinOf(X) == CHOOSE x \in X : \A y \in X : x <= y
MaxOf(X) == CHOOSE x \in X : \A y \in X : x >= y

Slot(S, code) ==      \* slot of a held key, or 0
  LET M == {i \in 1..Cache : S.ca[i].c = code} IN IF M = {} THEN 0 ELSE MinOf(M)
FreeSlot(S) ==
  LET M == {i \in 1..Cache : S.ca[i].c = 0} IN IF M = {} THEN 0 ELSE MaxOf(M)
Held(S, code) == Slot(S, code) # 0
CacheFor(S, code) == IF Held(S, code) THEN Slot(S, code) ELSE FreeSlot(S)
CacheSet(S, code, d, dl) ==
  LET i == CacheFor(S, code)
  IN IF i = 0 THEN S ELSE [S EXCEPT !.ca[i] = [c |-> code, d |-> d, dl |-> dl, l |-> 1]]
CacheDel(S, code) ==
  LET i == Slot(S, code) IN IF i = 0 THEN S ELSE [S EXCEPT !.ca[i] = EmptySlot]

(*************************** output ****************************************)
Send(S, code, down) ==
  IF code = NOOP \/ code = EXTMOUSE THEN S
  ELSE IF down
  THEN IF code \in S.ks THEN [S EXCEPT !.lo = code]
       ELSE [S EXCEPT !.lo = code, !.ks = @ \cup {code}, !.out = Append(@, code)]
  ELSE IF code \in S.ks THEN [S EXCEPT !.ks = @ \ {code}, !.out = Append(@, 1000 + code)]
       ELSE S

RECURSIVE ReleaseAll(_)
ReleaseAll(S) == IF S.ks = {} THEN S ELSE ReleaseAll(Send(S, MinOf(S.ks), FALSE))

\* A lone meta, alt or altgr tap is hidden behind a control tap.
ClearMod(S, C, code, inh) ==
  LET guard == S.lo = code /\ code \in {125, 56, 100} /\ ~inh /\ C.o.dmg = 0
  IN IF guard /\ 29 \notin S.ks
     THEN Send(Send(Send(S, 29, TRUE), code, FALSE), 29, FALSE)
     ELSE Send(S, code, FALSE)

RECURSIVE SetModsFrom(_, _, _, _, _)
SetModsFrom(S, C, mods, inh, i) ==
  IF i > 5 THEN S
  ELSE LET c == ModCode[Mods[i]]
           S2 == IF Mods[i] \in mods
                 THEN IF c \in S.ks THEN S ELSE Send(S, c, TRUE)
                 ELSE IF c \in S.ks THEN ClearMod(S, C, c, inh) ELSE S
       IN SetModsFrom(S2, C, mods, inh, i + 1)

\* The modifiers contributed by the active layers other than ex (0: none)
LayerMods(S, C, ex) ==
  LET excl(i) == i = ex \/ (ex # 0 /\ C.layers[ex].type = "composite"
                            /\ \E j \in 1..Len(C.layers[ex].cons) : C.layers[ex].cons[j] = i)
  IN UNION {C.layers[i].mods : i \in {k \in 1..Len(C.layers) : S.act[k] > 0 /\ ~excl(k)}}

UpdModsI(S, C, ex, mods, inh) == SetModsFrom(S, C, mods \cup LayerMods(S, C, ex), inh, 1)
UpdMods(S, C, ex, mods) == UpdModsI(S, C, ex, mods, FALSE)

(*************************** macros ****************************************)
Seq1(f(_), ms) ==     \* apply f to the modifiers in ms, in order
  LET RECURSIVE G(_)
      G(i) == IF i > 5 THEN <<>> ELSE (IF Mods[i] \in ms THEN <<f(ModCode[Mods[i]])>> ELSE <<>>) \o G(i + 1)
  IN G(1)
DownEv(c) == c
UpEv(c) == 1000 + c
WaitEv(us) == IF us = 0 THEN <<>> ELSE <<10000 + us>>

\* What the steps from i on emit; hs: position of the first key held, or 0
RECURSIVE MacroOut(_, _, _, _)
MacroOut(m, mst, i, hs) ==
  IF i > Len(m) THEN <<>>
  ELSE LET e == m[i]
           o == CASE e.t = "hold" -> <<e.code>>
                  [] e.t = "release" ->
                       IF hs = 0 THEN <<>>
                       ELSE LET RECURSIVE G(_)
                                G(j) == IF j >= i THEN <<>>
                                        ELSE (IF m[j].t = "hold" THEN <<1000 + m[j].code>> ELSE <<>>) \o G(j + 1)
                            IN G(hs)
                  [] e.t = "uni" ->
                       <<CANCEL, 1000 + CANCEL, e.ks[1], 1000 + e.ks[1],
                         e.ks[2], 1000 + e.ks[2], e.ks[3], 1000 + e.ks[3]>>
                  [] e.t = "key" ->
                       Seq1(DownEv, e.mods) \o (IF e.mods = {} THEN <<>> ELSE WaitEv(mst))
                       \o <<e.code, 1000 + e.code>> \o Seq1(UpEv, e.mods)
                  [] e.t = "wait" -> <<10000 + e.ms * 1000>>
           hs2 == IF e.t = "hold" /\ hs = 0 THEN i ELSE IF e.t = "release" THEN 0 ELSE hs
       IN o \o WaitEv(mst) \o MacroOut(m, mst, i + 1, hs2)

MacroKeys(m) ==
  UNION {LET e == m[i] IN
         CASE e.t = "hold" -> {e.code}
           [] e.t = "key" -> {e.code} \cup {ModCode[x] : x \in e.mods}
           [] e.t = "uni" -> {CANCEL, e.ks[1], e.ks[2], e.ks[3]}
           [] OTHER -> {} : i \in 1..Len(m)}

Single(m) == Len(m) = 1 /\ m[1].t = "key"

ExecMacro(S, C, dl, m) ==
  IF Single(m)
  THEN Send(Send(UpdMods(S, C, dl, m[1].mods), m[1].code, TRUE), m[1].code, FALSE)
  ELSE LET S1 == UpdMods(S, C, dl, {})
       IN [S1 EXCEPT !.out = @ \o MacroOut(m, C.o.mst, 1, 0), !.ks = @ \ MacroKeys(m)]

(*************************** layers ****************************************)
Activate(S, C, code, i) ==
  LET s == Slot(S, code)
      S1 == [S EXCEPT !.at[i] = S.clk, !.clk = @ + 1, !.act[i] = @ + 1,
                      !.lyo = Append(@, "+" \o C.layers[i].name)]
  IN IF code = 0 \/ s = 0 THEN S1 ELSE [S1 EXCEPT !.ca[s].l = i]

Deactivate(S, C, i) ==
  [S EXCEPT !.act[i] = @ - 1, !.lyo = Append(@, "-" \o C.layers[i].name)]

RECURSIVE ClearOneshotFrom(_, _, _)
ClearOneshotFrom(S, C, i) ==
  IF i > Len(C.layers) THEN [S EXCEPT !.latch = FALSE, !.oto = 0, !.otd = FALSE]
  ELSE IF S.od[i] > 0
  THEN ClearOneshotFrom([Deactivate(S, C, i) EXCEPT !.od[i] = @ - 1], C, i)
  ELSE ClearOneshotFrom(S, C, i + 1)
ClearOneshot(S, C) == ClearOneshotFrom(S, C, 1)

RECURSIVE ClearToggles(_, _, _)
ClearToggles(S, C, i) ==
  IF i > Len(C.layers) THEN S
  ELSE IF C.layers[i].type # "layout" /\ S.tg[i]
  THEN ClearToggles([Deactivate(S, C, i) EXCEPT !.tg[i] = FALSE], C, i + 1)
  ELSE ClearToggles(S, C, i + 1)

Clear(S, C) ==
  ReleaseAll([ClearToggles(ClearOneshot(S, C), C, 2) EXCEPT !.am.on = FALSE])

SetLayout(S, C, idx) ==
  LET S1 == Clear(S, C)
      act2 == [i \in 1..Len(C.layers) |->
                 IF i = 1 THEN S1.act[1]
                 ELSE IF i = idx THEN 1
                 ELSE IF C.layers[i].type = "layout" THEN 0 ELSE S1.act[i]]
      at2 == IF idx # 1 THEN [S1.at EXCEPT ![idx] = 1] ELSE S1.at
  IN [S1 EXCEPT !.act = act2, !.at = at2, !.lyo = Append(@, "+" \o C.layers[idx].name)]

\* The binding of a key: [d, dl]
Lookup(S, C, code) ==
  IF code \in CHORD1..(CHORD1 + NCHORDS - 1)
  THEN LET a == S.ac[code - CHORD1 + 1] IN [d |-> a.d, dl |-> a.l]
  ELSE LET N == 1..Len(C.layers)
           def(i) == code \in DOMAIN C.layers[i].km
           M == {i \in N : S.act[i] > 0 /\ def(i)}
           top == MaxOf({S.at[i] : i \in M})
           K == {i \in N : C.layers[i].type = "composite" /\ def(i) /\ C.layers[i].cons # <<>>
                           /\ \A j \in 1..Len(C.layers[i].cons) : S.act[C.layers[i].cons[j]] > 0}
           big == MaxOf({Len(C.layers[i].cons) : i \in K})
           at(i) == [d |-> C.layers[i].km[code], dl |-> i]
       IN IF K # {} THEN at(MinOf({i \in K : Len(C.layers[i].cons) = big}))
          ELSE IF M # {} THEN at(MaxOf({i \in M : S.at[i] = top}))
          ELSE [d |-> KeyD(code, {}), dl |-> 1]

(*************************** chords ****************************************)
\* 0: no match, 1: partial match, 2: match
EventMatch(keys, q) ==
  LET P == {i \in 1..Len(q) : q[i].p}
      in(c) == \E j \in 1..Len(keys) : keys[j] = c
  IN IF P = {} \/ \E i \in P : ~in(q[i].c) THEN 0
     ELSE IF Cardinality(P) = Len(keys) THEN 2 ELSE 1

\* [r, m, ml]: r as above or 3 (a match which is also a part of another chord)
ChordMatch(S, C, q, m0, ml0) ==
  LET L == {i \in 1..Len(C.layers) : S.act[i] > 0}
      Cs == UNION {{<<i, j>> : j \in 1..Len(C.layers[i].chords)} : i \in L}
      res(x) == EventMatch(C.layers[x[1]].chords[x[2]].keys, q)
      F == {x \in Cs : res(x) = 2}
      partial == \E x \in Cs : res(x) = 1
      top == MaxOf({S.at[x[1]] : x \in F})
      F1 == {x \in F : S.at[x[1]] = top}
      li == MaxOf({x[1] : x \in F1})
      ci == MaxOf({x[2] : x \in {y \in F1 : y[1] = li}})
  IN IF F # {} THEN [r |-> IF partial THEN 3 ELSE 2, m |-> C.layers[li].chords[ci], ml |-> li]
     ELSE [r |-> IF partial THEN 1 ELSE 0, m |-> m0, ml |-> ml0]

(*************************** time ******************************************)
\* The moments at which something is going to happen by itself
Deadlines(S, C) ==
  (IF S.pk.c # 0 /\ ~S.pk.due THEN {S.pk.exp} ELSE {})
  \cup (IF S.oto # 0 /\ ~S.otd THEN {S.oto} ELSE {})
  \cup (IF S.am.on THEN {S.am.t} ELSE {})
  \cup (IF S.ch.st = "disamb" THEN {S.ch.lct + C.o.cit} ELSE {})
  \cup (IF S.ch.st = "hold" THEN {S.ch.lct + C.o.cht} ELSE {})

\* The first of them after t, or 0
NextWake(S, C, t) ==
  LET D == {d \in Deadlines(S, C) : d > t} IN IF D = {} THEN 0 ELSE MinOf(D)

IsChordKey(c) == c \in CHORD1..(CHORD1 + NCHORDS - 1)
Ev(c, p, t) == [c |-> c, p |-> p, t |-> t]

(*************************** actions ***************************************)
\* The action a deferred decision comes down to if the key is simply tapped
RECURSIVE ResolveTap(_, _, _)
ResolveTap(S, d, t) ==
  CASE d.op = "timeout" -> ResolveTap(S, d.a, t)
    [] d.op \in {"overloadt", "overloadt2"} -> ResolveTap(S, d.a, t)
    [] d.op = "overloadi" -> ResolveTap(S, IF t - S.lsk >= d.t THEN d.b ELSE d.a, t)
    [] OTHER -> d

Swap(S, C, d, dl) ==
  LET to == d.l IN
  IF S.tg[dl]
  THEN LET S1 == [Deactivate(S, C, dl) EXCEPT !.tg[dl] = FALSE]
           S2 == IF S1.tg[to] THEN S1 ELSE [Activate(S1, C, 0, to) EXCEPT !.tg[to] = TRUE]
       IN UpdMods(S2, C, 0, {})
  ELSE IF S.od[dl] > 0
  THEN LET S1 == [Deactivate(S, C, dl) EXCEPT !.od[dl] = @ - 1]
           S2 == [Activate(S1, C, 0, to) EXCEPT !.od[to] = @ + 1]
       IN UpdMods(S2, C, 0, {})
  ELSE LET K == {i \in 1..Cache : S.ca[i].c # 0 /\ S.ca[i].l = dl /\ dl # 1
                                  /\ C.layers[dl].type = "normal"
                                  /\ S.ca[i].d.op \notin {"toggle", "togglem"}}
           i == MinOf(K)
       IN IF K = {} THEN S
          ELSE LET S1 == [S EXCEPT !.ca[i].d = [op |-> "layer", l |-> to]]
               IN UpdMods(Activate(Deactivate(S1, C, dl), C, S.ca[i].c, to), C, 0, {})

\* The press or release of a key bound to d in layer dl
RECURSIVE Do(_, _, _, _, _, _, _)
Do(S0, C, code, d, dl, p, t) ==
  LET S == IF p /\ d.op \in {"layerm", "oneshotm", "togglem"} THEN ExecMacro(S0, C, dl, d.m) ELSE S0
      R ==
        CASE d.op = "key" ->
               LET S1 == IF p
                         THEN LET a == IF d.code \in S.ks THEN Send(S, d.code, FALSE) ELSE S
                              IN ClearOneshot(Send(UpdMods(a, C, dl, d.mods), d.code, TRUE), C)
                         ELSE UpdMods(Send(S, d.code, FALSE), C, 0, {})
               IN IF d.mods \subseteq {"S"} THEN [S1 EXCEPT !.lsk = t] ELSE S1
          [] d.op = "scroll" -> [S EXCEPT !.scr = [on |-> p, n |-> d.n]]
          [] d.op = "scrollt" -> [S EXCEPT !.scr = [on |-> IF p THEN ~@.on ELSE @.on, n |-> d.n]]
          [] d.op = "overloadi" ->
               IF ~p THEN S
               ELSE LET a == IF t - S.lsk >= d.t THEN d.b ELSE d.a
                        i == Slot(S, code)
                        S1 == IF i = 0 THEN S ELSE [S EXCEPT !.ca[i].d = a]
                    IN Do(S1, C, code, a, dl, TRUE, t)
          [] d.op \in {"overloadt", "overloadt2"} ->
               IF ~p THEN S
               ELSE [S EXCEPT !.pk.c = code, !.pk.dl = dl, !.pk.exp = t + d.t, !.pk.due = FALSE,
                              !.pk.beh = IF d.op = "overloadt" THEN "none" ELSE "tap2",
                              !.pk.a1 = d.a, !.pk.a2 = [op |-> "layer", l |-> d.l]]
          [] d.op = "timeout" ->
               IF ~p THEN S
               ELSE [S EXCEPT !.pk.c = code, !.pk.dl = dl, !.pk.exp = t + d.t, !.pk.due = FALSE, !.pk.beh = "tap",
                              !.pk.a1 = d.a, !.pk.a2 = d.b]
          [] d.op = "setlayout" -> IF p THEN SetLayout(S, C, d.l) ELSE S
          [] d.op \in {"layer", "layerm"} ->
               LET S1 == IF p THEN Activate(S, C, code, d.l) ELSE Deactivate(S, C, d.l)
               IN UpdModsI(S1, C, 0, {}, S1.lp = code)
          [] d.op = "clearm" -> IF p THEN UpdMods(ExecMacro(Clear(S, C), C, dl, d.m), C, dl, {}) ELSE S
          [] d.op = "clear" -> IF p THEN Clear(S, C) ELSE S
          [] d.op = "overload" ->
               IF p THEN UpdMods(Activate([S EXCEPT !.ovs = t], C, code, d.l), C, 0, {})
               ELSE LET S1 == UpdMods(Deactivate(S, C, d.l), C, 0, {})
                        a == ResolveTap(S1, d.a, t)
                    IN IF S1.lp = code /\ (C.o.ott = 0 \/ t - S1.ovs < C.o.ott)
                       THEN IF a.op \in {"macro", "macro2"} THEN UpdMods(ExecMacro(S1, C, dl, a.m), C, dl, {})
                            ELSE Do(Do(S1, C, code, a, dl, TRUE, t), C, code, a, dl, FALSE, t)
                       ELSE S1
          [] d.op \in {"oneshot", "oneshotm"} ->
               IF p THEN [UpdMods(Activate(S, C, code, d.l), C, dl, {}) EXCEPT !.latch = TRUE]
               ELSE IF S.latch
               THEN [S EXCEPT !.od[d.l] = @ + 1, !.oto = IF C.o.ost # 0 THEN t + C.o.ost ELSE @, !.otd = FALSE]
               ELSE UpdMods(Deactivate(S, C, d.l), C, 0, {})
          [] d.op \in {"macro", "macro2"} ->
               IF ~p THEN S
               ELSE [ExecMacro(ClearOneshot(S, C), C, dl, d.m) EXCEPT
                       !.am = [on |-> TRUE, m |-> d.m, l |-> dl,
                               t |-> t + (IF d.op = "macro" THEN C.o.mt ELSE d.t),
                               r |-> IF d.op = "macro" THEN C.o.mrt ELSE d.r]]
          [] d.op \in {"toggle", "togglem"} ->
               IF ~p THEN S
               ELSE LET S1 == IF S.tg[d.l] THEN Deactivate([S EXCEPT !.tg[d.l] = FALSE], C, d.l)
                              ELSE Activate([S EXCEPT !.tg[d.l] = TRUE], C, code, d.l)
                    IN UpdMods(ClearOneshot(S1, C), C, 0, {})
          [] d.op = "command" ->
               IF ~p THEN S
               ELSE UpdMods(ClearOneshot([S EXCEPT !.cmds = Append(@, d.cmd)], C),
                            C, 0, {})
          [] d.op \in {"swap", "swapm"} ->
               IF p
               THEN LET S1 == Swap(S, C, d, dl)
                    IN IF d.op = "swapm" THEN ExecMacro(S1, C, dl, d.m) ELSE S1
               ELSE IF d.op = "swapm" /\ Single(d.m)
               THEN UpdMods(Send(S, d.m[1].code, FALSE), C, 0, {})
               ELSE S
          [] OTHER -> S
  IN IF p THEN [R EXCEPT !.lp = code] ELSE R

(*************************** events ****************************************)
AwaitsDecision(S, code) ==
  S.pk.c # 0 /\ (S.pk.c = code \/ \E i \in 1..Len(S.pk.q) : S.pk.q[i].c = code)

RECURSIVE Event(_, _, _, _, _), Event1(_, _, _, _, _), Events(_, _, _, _, _), OnChord(_, _, _, _, _),
          OnPending(_, _, _, _, _), DrainPending(_, _, _)

\* Process events in order, letting the time between them pass
Events(S, C, evs, i, wake) ==
  IF i > Len(evs) THEN S
  ELSE LET e == evs[i] IN
    IF wake # 0 /\ wake <= e.t
    THEN LET S1 == Event(S, C, 0, FALSE, wake)
             late == S1.pk.c # 0 /\ S1.pk.exp <= wake /\ wake < e.t      \* (K1), see below
         IN Events(IF late THEN [S1 EXCEPT !.amb = TRUE] ELSE S1, C, evs, i, NextWake(S1, C, wake))
    ELSE LET S1 == Event(S, C, e.c, e.p, e.t)
             \* (K1) a decision which is due right now has to wait for the next
             \* event or wake up: what comes first is not determined
             late == i < Len(evs) /\ S1.pk.c # 0 /\ S1.pk.exp <= e.t
         IN Events(IF late THEN [S1 EXCEPT !.amb = TRUE] ELSE S1, C, evs, i + 1, NextWake(S1, C, e.t))

\* Whatever was started by a queued key may be due at once
Settle(S, C, t) == IF S.pk.c # 0 THEN S ELSE Event(S, C, 0, FALSE, t)

Replay(S, C, evs) ==
  LET R == Events([S EXCEPT !.rep = @ + 1], C, evs, 1, 0) IN [R EXCEPT !.rep = @ - 1]

\* The chord under consideration is decided
ResolveChord(S, C, t) ==
  LET m == S.ch.m
      withheld(code) == \E j \in 1..Len(S.ch.q) : S.ch.q[j].c = code
      F == {i \in 1..NCHORDS : ~S.ac[i].on /\ ~AwaitsDecision(S, CHORD1 + i - 1)
                               /\ ~withheld(CHORD1 + i - 1)}
      fire == m.keys # <<>> /\ F # {}
      i == MinOf(F)
      S1 == [S EXCEPT !.ch.st = "res"]
      S2 == IF fire
            THEN Event([S1 EXCEPT !.ac[i] = [on |-> TRUE, queued |-> FALSE, rem |-> {m.keys[j] : j \in 1..Len(m.keys)},
                                            d |-> m.d, l |-> S.ch.ml]],
                       C, CHORD1 + i - 1, TRUE, S.ch.lct)
            ELSE S1
      rest == SubSeq(S.ch.q, IF fire THEN Len(m.keys) + 1 ELSE 1, Len(S.ch.q))
      S3 == Replay(S2, C, Append(rest, Ev(0, FALSE, t - 1)))
  IN Settle([S3 EXCEPT !.ch = NoChord], C, t)
AbortChord(S, C, t) == ResolveChord([S EXCEPT !.ch.m = NoMatch], C, t)

Yes(S) == [h |-> TRUE, s |-> S]
No(S) == [h |-> FALSE, s |-> S]

\* Returns whether the event was consumed
OnChord(S0, C, code, p, t) ==
  LET A == {i \in 1..NCHORDS : S0.ac[i].on /\ code \in S0.ac[i].rem
                               \* queued key up events precede queued chords
                               /\ ~(S0.ac[i].queued /\ S0.rep > 0)}
      a == MinOf(A)
      rem == S0.ac[a].rem \ {code}
      full == code # 0 /\ S0.ch.st \in {"disamb", "hold"} /\ Len(S0.ch.q) = QueueMax
  IN
  IF code # 0 /\ ~p /\ A # {}
  THEN LET S1 == [S0 EXCEPT !.ac[a].rem = rem]
       IN Yes(IF rem = {} THEN Event([S1 EXCEPT !.ac[a].on = FALSE], C, CHORD1 + a - 1, FALSE, t) ELSE S1)
  ELSE
  LET S == IF full THEN ResolveChord(S0, C, t) ELSE S0
      q == IF code = 0 THEN S.ch.q ELSE Append(S.ch.q, Ev(code, p, t))
      m == ChordMatch(S, C, q, S.ch.m, S.ch.ml)
      ch(st) == [st |-> st, q |-> q, m |-> m.m, ml |-> m.ml, lct |-> t]
      struck ==
        CASE m.r \in {1, 3} -> Yes([S EXCEPT !.ch = ch("disamb")])
          [] m.r = 2 -> IF C.o.cht # 0 THEN Yes([S EXCEPT !.ch = ch("hold")])
                        ELSE Yes(ResolveChord([S EXCEPT !.ch = ch("disamb")], C, t))
  IN CASE S.ch.st = "res" -> No(S)
       [] S.ch.st = "idle" -> IF code = 0 \/ m.r = 0 THEN No(S) ELSE struck
       [] S.ch.st = "disamb" ->
            IF code = 0
            THEN IF t - S.ch.lct < C.o.cit THEN No(S)
                 ELSE IF S.ch.m.keys = <<>> THEN Yes(AbortChord(S, C, t))
                 ELSE IF t - S.ch.lct < C.o.cht THEN Yes([S EXCEPT !.ch.st = "hold"])
                 ELSE Yes(ResolveChord(S, C, t))
            ELSE IF ~p \/ m.r = 0 THEN Yes(AbortChord([S EXCEPT !.ch.q = q], C, t))
            ELSE struck
       [] S.ch.st = "hold" ->
            IF code = 0
            THEN IF t - S.ch.lct >= C.o.cht THEN Yes(ResolveChord(S, C, t)) ELSE No(S)
            ELSE LET S1 == [S EXCEPT !.ch.q = q]
                 IN IF ~p /\ \E j \in 1..Len(S.ch.m.keys) : S.ch.m.keys[j] = code
                    THEN Yes(AbortChord(S1, C, t)) ELSE Yes(S1)

\* The undecided key takes action a
Decide(S, C, a, t) ==
  LET pk == S.pk
      open == S.ch.st \in {"disamb", "hold"}   \* keys struck later, which may be a chord
      later == IF open THEN S.ch.q ELSE <<>>
      S1 == CacheSet([S EXCEPT !.pk = NoPend, !.ch = IF open THEN NoChord ELSE @], pk.c, a, pk.dl)
      S2a == Do(S1, C, pk.c, a, pk.dl, TRUE, t)
      inq(k) == \E j \in 1..Len(pk.q) : pk.q[j].p /\ pk.q[j].c = CHORD1 + k - 1
      S2 == [S2a EXCEPT !.ac = [k \in 1..NCHORDS |-> IF inq(k) THEN [@[k] EXCEPT !.queued = TRUE] ELSE @[k]]]
      S3 == Replay(S2, C, Append(pk.q \o later, Ev(0, FALSE, t - 1)))
  IN IF S3.pk.c # 0 THEN OnChord(S3, C, 0, FALSE, t).s ELSE Event(S3, C, 0, FALSE, t)

DrainPending(S, C, t) ==
  IF S.pk.c # 0 /\ Len(S.pk.q) = QueueMax
  THEN DrainPending(OnPending([S EXCEPT !.pk.exp = t], C, 0, FALSE, t).s, C, t)
  ELSE S

OnPending(S00, C, code, p, t) ==
  LET S0 == IF code = 0 THEN S00 ELSE DrainPending(S00, C, t) IN
  IF S0.pk.c = 0 THEN No(S0)
  ELSE
  LET queued(c) == \E i \in 1..Len(S0.pk.q) : S0.pk.q[i].c = c IN
  IF code # 0 /\ ~p /\ code # S0.pk.c /\ ~queued(code)
  THEN No(S0)               \* the release of a key struck before
  ELSE
  LET S == IF code = 0 THEN S0 ELSE [S0 EXCEPT !.pk.q = Append(@, Ev(code, p, t))]
      pk == S.pk
  IN IF t >= pk.exp THEN Yes(Decide(S, C, pk.a2, t))
     ELSE IF code = pk.c THEN Yes(Decide(S, C, pk.a1, t))
     ELSE IF code # 0 /\ p /\ pk.beh = "tap" THEN Yes(Decide(S, C, pk.a1, t))
     ELSE IF code # 0 /\ ~p /\ pk.beh = "tap2" THEN Yes(Decide(S, C, pk.a2, t))
     ELSE Yes(S)

\* One key event, or (code 0) the passing of time
Event(S, C, code, p, t) ==
  LET Z == IF p /\ IsChordKey(code) THEN [S EXCEPT !.ac[code - CHORD1 + 1].queued = FALSE] ELSE S
      R == Event1(Z, C, code, p, t)
      R1 == IF R.oto # 0 /\ R.oto <= t THEN [R EXCEPT !.otd = TRUE] ELSE R
  IN IF R.pk.c # 0 /\ R.pk.exp <= t THEN [R1 EXCEPT !.pk.due = TRUE] ELSE R1     \* (K1)

Event1(S, C, code, p, t) ==
  LET r1 == OnChord(S, C, code, p, t) IN
  IF r1.h THEN r1.s
  ELSE LET r2 == OnPending(r1.s, C, code, p, t) IN
  IF r2.h THEN r2.s
  ELSE
  LET S1 == IF r2.s.oto # 0 /\ t >= r2.s.oto /\ r2.s.ch.st \notin {"disamb", "hold"} \* withheld keys were struck in time
            THEN UpdMods(ClearOneshot(r2.s, C), C, 0, {}) ELSE r2.s
      S2 == IF S1.am.on
            THEN IF code # 0 THEN UpdMods([S1 EXCEPT !.am.on = FALSE], C, 0, {})
                 ELSE IF t >= S1.am.t
                 THEN [ExecMacro(S1, C, S1.am.l, S1.am.m) EXCEPT !.am.t = t + S1.am.r]
                 ELSE S1
            ELSE S1
  IN IF code = 0 THEN S2
     ELSE IF p
     THEN IF Held(S2, code) THEN S2
          ELSE IF FreeSlot(S2) = 0 THEN [S2 EXCEPT !.ign = @ \cup {code}]
          ELSE LET b == Lookup(S2, C, code)
               IN Do(CacheSet(S2, code, b.d, b.dl), C, code, b.d, b.dl, TRUE, t)
     ELSE IF ~Held(S2, code) THEN S2
          ELSE LET e == S2.ca[Slot(S2, code)]
               IN Do(CacheDel(S2, code), C, code, e.d, e.dl, FALSE, t)

\* A key which is already down does not go down again (hardware which repeats
\* itself, or two devices sharing a configuration), and vice versa.
Step(S, C, code, p, t) ==
  LET redundant == code # 0 /\ (p <=> code \in S.phys)
      S1 == IF code = 0 THEN S ELSE [S EXCEPT !.phys = IF p THEN @ \cup {code} ELSE @ \ {code},
                                                 !.ign = IF redundant THEN @ ELSE @ \ {code}]
  IN Events(S1, C, <<IF redundant THEN Ev(0, FALSE, t) ELSE Ev(code, p, t)>>, 1, 0)
=============================================================================
