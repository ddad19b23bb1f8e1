----------------------------- MODULE DaemonTrace ----------------------------
(***************************************************************************)
(* Decides whether traces recorded from the real daemon (harness/daemon.c) *)
(* are behaviours of KeydDaemon.                                           *)
(*                                                                         *)
(* KEYD_CONFS   configuration files, one JSON object per line: lines, incs *)
(* KEYD_TRACES  one JSON object per line: id, devs (descriptions of the    *)
(*              devices), start (those which are there from the start),    *)
(*              sets (lists of configuration files), set (the one in force *)
(*              at the start), reqs (what the clients send), ev, st (how   *)
(*              the process ended)                                         *)
(*                                                                         *)
(* Where the daemon has a choice (between equally good configurations, or  *)
(* the order in which keyboards are woken up) a trace is accepted if some  *)
(* choice explains it.                                                     *)
(***************************************************************************)
EXTENDS KeydDaemon

Confs == ndJsonDeserialize(IOEnv.KEYD_CONFS)
Traces == ndJsonDeserialize(IOEnv.KEYD_TRACES)

ASSUME TLCSet(1, BuiltinConfig)
ASSUME TLCSet(2, [i \in 1..Len(Confs) |->
         TLCEval(ParseFile(TLCGet(1), Confs[i].lines,
                   [n \in {Confs[i].incs[k].name : k \in 1..Len(Confs[i].incs)} |->
                      LET k == CHOOSE k \in 1..Len(Confs[i].incs) : Confs[i].incs[k].name = n
                      IN Confs[i].incs[k].lines]))])
P == TLCGet(2)

VARIABLES tid, i, D, bad
vars == <<tid, i, D, bad>>
T == Traces[tid]
Vs == T.devs
Reqs == T.reqs

Quiet0(X) == [X EXCEPT !.o = <<>>, !.g = {}, !.cmds = <<>>, !.lit = {}, !.leds = {}, !.up = {}, !.darkened = {}, !.ans = 9]
Init ==
  /\ tid \in 1..Len(Traces)
  /\ i = 0
  /\ D = [ kb |-> Keyboards(P, T.sets[T.set]),
           dev |-> [d \in 1..Len(Vs) |-> [on |-> FALSE, kb |-> 0, gr |-> FALSE]],
           act |-> 0, now |-> 0, down |-> {}, pan |-> {}, plast |-> {}, lis |-> <<>>, left |-> 0, stalled |-> {}, pend |-> <<>>,
           ui |-> <<>>, limit |-> 0, amb |-> FALSE,
           o |-> <<>>, g |-> {}, cmds |-> <<>>, lit |-> {}, leds |-> {}, up |-> {}, darkened |-> {}, ans |-> 9 ]
  /\ bad = FALSE

Report(kind, e, expected) ==
  PrintT("##" \o ToJson([reject |-> T.id, at |-> i + 1, kind |-> kind, event |-> e, expected |-> expected]))

(*************************** what is compared ******************************)
Count(s, x) == Cardinality({j \in 1..Len(s) : s[j] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A j \in 1..Len(a) : Count(a, a[j]) = Count(b, a[j])

GrabsOk(e, R) ==
  /\ {<<e.g[j][1], e.g[j][2]>> : j \in 1..Len(e.g)} = R.g
  /\ Len(e.g) = Cardinality(R.g)
  /\ \A j \in 1..Len(e.g) : e.g[j][2] = 1 => e.g[j][3] = 0      \* never while a key is down

LastLed(L, d) ==
  LET J == {j \in 1..Len(L) : L[j][1] = 10 + d /\ L[j][3] = 1} IN IF J = {} THEN -1 ELSE L[MaxOf(J)][4]
LedsOk(e, R) ==
  LET L == Leds(e.o)
      on == {d \in DOMAIN R.dev : R.dev[d].on /\ R.dev[d].kb \in R.lit}
  IN IF R.leds # {}
     THEN {L[j] : j \in 1..Len(L)} = R.leds /\ Len(L) = Cardinality(R.leds)
     ELSE /\ \A j \in 1..Len(L) : L[j][2] = EvLed /\ L[j][3] = 1 /\ L[j][1] - 10 \in on \cup R.darkened
          /\ \A d \in on : LastLed(L, d) = (IF Lit(R.kb[R.dev[d].kb]) THEN 1 ELSE 0)
          /\ \A d \in R.darkened : LastLed(L, d) = 0

\* How long it takes to grab a device is up to the user's letting go of its keys
Keyed(o) == SelectSeq(o, LAMBDA w : w[1] # 99)

\* Releases at a reload come in any order
UpsOk(e, R) ==
  LET o == Keyed(Norm(e.o))
      k(w) == w[2] = EvKey
      K == SelectSeq(o, k)
      need == UNION {{KeyWrite(c, 0)[1]} : c \in R.up \ Scrolls}
      free == {<<0, EvKey, c, 0>> : c \in R.up \cap Scrolls}
      got == {K[j] : j \in 1..Len(K)}
  IN /\ need \subseteq got /\ got \subseteq need \cup free /\ Len(K) = Cardinality(got)
     /\ \A j \in 1..Len(o) : k(o[j]) => j < Len(o) /\ o[j + 1][2] = EvSyn /\ o[j + 1][1] = o[j][1]
     /\ \A j \in 1..Len(o) : k(o[j]) \/ o[j][2] = EvSyn

OutOk(e, R) ==
  /\ IF R.up # {} THEN UpsOk(e, R)
     ELSE IF R.g # {} THEN Keyed(Norm(e.o)) = Keyed(Norm(R.o))
     ELSE Norm(e.o) = Norm(R.o)
  /\ Announced(R.ui, e.o)
  /\ SameBag(e.m, R.cmds)
  /\ GrabsOk(e, R)
  /\ LedsOk(e, R)

Pauses(o) == LET RECURSIVE F(_)
                 F(j) == IF j > Len(o) THEN 0 ELSE (IF o[j][1] = 99 THEN o[j][3] ELSE 0) + F(j + 1)
             IN F(1)
MaxWait == 500          \* how long a client may hold up the daemon (ms)
Later(X, t, e, extra) == [X EXCEPT !.limit = (IF t > @ THEN t ELSE @) + Pauses(e.o) \div 1000 + 1 + extra]

Take(R, ok, e, kind) ==
  /\ D' = Later(R, e.t, e, IF e.k = "i" THEN MaxWait ELSE 0)
  /\ bad' = IF ok \/ R.amb THEN FALSE
            ELSE Report(kind, e, [o |-> Norm(R.o), g |-> R.g, m |-> R.cmds, up |-> R.up, lit |-> R.lit, leds |-> R.leds,
                                  got |-> Norm(e.o), wakes |-> [b \in 1..Len(D.kb) |-> <<D.kb[b].f, D.kb[b].wake>>]])

(*************************** the entries of a trace ************************)
RECURSIVE Assignments(_, _)
Assignments(kb, X) ==
  IF X = {} THEN {<<>>}
  ELSE LET d == MinOf(X)
       IN {(d :> b) @@ f : b \in Candidates(kb, Vs[d]), f \in Assignments(kb, X \ {d})}
Known(X) == {d \in X : Kinds(Vs[d]) # {}}

StartStep(e) ==
  LET X == Known({T.start[j] : j \in 1..Len(T.start)})
  IN \E f \in Assignments(D.kb, X) :
       LET R == ManageAll(D, f, X) IN
       /\ D' = R
       /\ bad' = IF GrabsOk(e, R) /\ Keyed(Norm(e.o)) = <<>> THEN FALSE ELSE Report("start", e, [g |-> R.g])

UiStep(e) == /\ D' = [D EXCEPT !.ui = e.ui]
             /\ bad' = IF e.n = 2 /\ \A j \in 1..e.n : e.ui[j].created = 1 THEN FALSE ELSE Report("ui", e, 2)

\* The daemon looks for events: what it owes has been delivered by now
PollStep(e) ==
  LET n == FirstWake(D)
      inTime == n = 0 \/ (e.w # -1 /\ e.w <= IF n > e.n THEN n ELSE e.n)
      served == D.pend = <<>> /\ \A c \in DOMAIN D.lis : c \in D.stalled \/ D.lis[c] = ""
      free == e.n <= D.limit \/ D.limit = 0
      X == Due(D, e.t)
      \* keyd may also wake a keyboard up for nothing
      more == IF e.w # -1 /\ e.w <= e.t THEN SUBSET ((1..Len(D.kb)) \ X) ELSE {{}}
  IN \E Y \in more : \E ord \in Orders(X \cup Y) :
       LET R == [TickIn(Quiet0(D), ord, e.t) EXCEPT !.now = e.t] IN
       IF ~inTime THEN Take(R, FALSE, e, "overslept")
       ELSE IF ~served THEN Take(R, FALSE, e, "unanswered")
       ELSE IF ~free THEN Take(R, FALSE, e, "blocked")
       ELSE Take(R, OutOk(e, R), e, "wakeup")

DeviceStep(e) ==
  LET V == Vs[e.dev]
      ev == Classify(V, e.ty, e.co, e.va)
      Q == PanicSee(Quiet0(D), e.dev, ev)
      last == i + 1 = Len(T.ev) /\ T.st # 1077
  IN \E t \in {e.t, D.now} :      \* when it was read, or when keyd was told of it
     LET R == Input(Q, e.dev, V, ev, t) IN
     IF last /\ MayPanic(Q) /\ ev.k = "key" THEN D' = Q /\ bad' = FALSE
     ELSE IF MustPanic(Q) /\ ev.k = "key" THEN Take(R, FALSE, e, "panic")
     ELSE Take(R, OutOk(e, R) /\ ~last, e, IF last THEN "died" ELSE "input")

AppearStep(e) ==
  IF Kinds(Vs[e.dev]) = {} \/ Present(D) >= MaxDevices THEN LET R == Quiet0(D) IN Take(R, OutOk(e, R), e, "appear")
  ELSE \E b \in Candidates(D.kb, Vs[e.dev]) :
         LET R == Manage(Quiet0(D), e.dev, b) IN Take(R, OutOk(e, R), e, "appear")

VanishStep(e) == LET R == Gone(Quiet0(D), e.dev) IN Take(R, OutOk(e, R), e, "vanish")

Owe(X, c, r, v) ==
  IF r.how = "gone" THEN X
  ELSE IF r.how = "stall" THEN [X EXCEPT !.stalled = @ \cup {c}]
  ELSE [X EXCEPT !.pend = (c :> v) @@ @]
RequestStep(e) ==
  LET r == Reqs[e.cl]
      Q == Quiet0(D)
      full(R) == Take(Owe(R, e.cl, r, R.ans), OutOk(e, R), e, "request")
  IN IF ~Arrives(r) THEN Take(Owe(Q, e.cl, r, 9), OutOk(e, Q), e, "request")
     ELSE IF r.size >= MaxMsg \/ r.to > 1000000 THEN full(Answer(Q, 0))
     ELSE CASE r.type = Bind -> full(BindAll(Q, r.data))
            [] r.type = InputReq ->
                 LET x == TypeText(r.data, 1, r.to)
                 IN full(Answer([Q EXCEPT !.o = AllWrites(x.o, 1)], IF x.ok THEN 1 ELSE 0))
            [] r.type = MacroReq ->
                 LET x == MacroText(RTrimNl(r.data))
                     o == IF x.ok THEN MacroOut(x.m, r.to, 1, 0) ELSE <<>>
                 IN full(Answer([Q EXCEPT !.o = AllWrites(o, 1), !.down = DownOf(o, 1, @)], IF x.ok THEN 1 ELSE 0))
            [] r.type = Reload ->
                 LET kb2 == Keyboards(P, T.sets[r.set])
                     X == {d \in DOMAIN D.dev : D.dev[d].on}
                 IN \E f \in Assignments(kb2, X), ord \in Orders(1..Len(D.kb)) :
                      full(DoReload(Q, P, T.sets[r.set], f, ord))
            [] r.type = Listen ->
                 \* (those who hung up or do not read may, or may not, be counted)
                 \/ /\ Cardinality(DOMAIN Q.lis) + Q.left >= MaxListeners
                    /\ LET R == Owe(Q, e.cl, r, 8) IN Take(R, OutOk(e, R), e, "request")
                 \/ /\ Cardinality(DOMAIN Q.lis \ Q.stalled) < MaxListeners
                    /\ \E b \in (IF D.act # 0 THEN {D.act} ELSE IF D.kb = <<>> THEN {0} ELSE 1..Len(D.kb)) :
                        LET s == IF b = 0 THEN "" ELSE LayerState(D.kb[b])
                            R == [Q EXCEPT !.lis = (e.cl :> s) @@ @,
                                           !.stalled = IF r.how \in {"stall", "gone"} THEN @ \cup {e.cl} ELSE @]
                        IN Take(R, OutOk(e, R), e, "request")
            [] OTHER -> full(Answer(Q, 0))

\* A client receives something, or the end of the connection
Without(f, c) == [x \in DOMAIN f \ {c} |-> f[x]]
ReceiveStep(e) ==
  LET c == e.cl
      R == Quiet0(D)
      text == IF c \in DOMAIN D.lis THEN D.lis[c] ELSE ""
      got(ok, X) == D' = X /\ bad' = (IF ok \/ D.amb THEN FALSE
                              ELSE Report("received", e, [pend |-> D.pend, text |-> text]))
  IN IF c \in DOMAIN D.pend
     THEN got(CASE D.pend[c] = 9 -> e.ans = 9 /\ e.x = ""
                [] D.pend[c] = 8 -> e.ans = 9
                [] OTHER -> e.ans = D.pend[c], [R EXCEPT !.pend = Without(@, c)])
          /\ e.eof = 1
     ELSE IF c \in DOMAIN D.lis
     THEN IF c \in D.stalled
          THEN got(IF e.eof = 1 THEN StartsWith(text, e.x) ELSE e.x = text, [R EXCEPT !.lis[c] = ""])
          ELSE got(e.eof = 0 /\ e.x = text, [R EXCEPT !.lis[c] = ""])
     ELSE got(c \in D.stalled, R)

HangUpStep(e) ==
  /\ D' = [D EXCEPT !.lis = Without(@, e.cl), !.pend = Without(@, e.cl), !.left = IF e.cl \in DOMAIN D.lis THEN @ + 1 ELSE @]
  /\ bad' = FALSE
TermStep(e) == D' = Quiet0(D) /\ bad' = IF i + 1 = Len(T.ev) /\ T.st = 1015 THEN FALSE ELSE Report("term", e, T.st)

Next ==
  /\ ~bad
  /\ ~D.amb
  /\ i < Len(T.ev)
  /\ UNCHANGED tid
  /\ i' = i + 1
  /\ LET e == T.ev[i + 1] IN
     CASE e.k = "s" -> StartStep(e)
       [] e.k = "ui" -> UiStep(e)
       [] e.k = "p" -> PollStep(e)
       [] e.k = "d" -> DeviceStep(e)
       [] e.k = "a" -> AppearStep(e)
       [] e.k = "x" -> VanishStep(e)
       [] e.k = "i" -> RequestStep(e)
       [] e.k = "r" -> ReceiveStep(e)
       [] e.k = "R" -> HangUpStep(e)
       [] e.k = "term" -> TermStep(e)

\* The process ends at the end of the scenario, and only there, unless it was asked to
Ended ==
  LET e == IF T.ev = <<>> THEN [k |-> "none"] ELSE T.ev[Len(T.ev)]
      asked == e.k = "term" \/ (e.k = "d" /\ MayPanic(D))
  IN T.st = 1077 \/ asked
Done == (D.amb \/ i = Len(T.ev)) =>
          \/ bad
          \/ IF D.amb \/ Ended THEN PrintT("##" \o ToJson([accept |-> T.id, amb |-> D.amb]))
             ELSE PrintT("##" \o ToJson([reject |-> T.id, at |-> i, kind |-> "died", event |-> T.st, expected |-> 1077]))
\* The invariants of the engine hold for every keyboard
=============================================================================
