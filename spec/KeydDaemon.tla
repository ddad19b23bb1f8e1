----------------------------- MODULE KeydDaemon -----------------------------
(***************************************************************************)
(* The daemon around the engine: devices, configurations, the virtual      *)
(* devices, the control socket and the listeners.                          *)
(*                                                                         *)
(* A state is a record D:                                                  *)
(*   kb    the loaded configurations, each with the state of its keyboard  *)
(*   dev   per device: is it there, which keyboard drives it (0: none), is *)
(*         it grabbed                                                      *)
(*   act   the keyboard used last (0: none)                                *)
(*   down  the keys which are down on the virtual keyboard                 *)
(*   lis   the listeners: what they have yet to be sent                    *)
(*   pan   the keys of the panic sequence: per key, where it is down       *)
(* What a step does is appended to D.o (writes to the virtual devices and  *)
(* pauses), D.g (grabs), D.cmds (commands).                                *)
(*                                                                         *)
(* A write is <<destination, type, code, value>>; destination 0 is the     *)
(* virtual keyboard, 1 the virtual pointer, 10 + i device i (LEDs), 99 a   *)
(* pause (of code microseconds).                                           *)
(***************************************************************************)
EXTENDS KeydProps

EvSyn == 0
EvKey == 1
EvRel == 2
EvAbs == 3
EvLed == 17
ScrollUp == 149
ScrollDown == 148
ScrollLeft == 202
ScrollRight == 203
Scrolls == {ScrollUp, ScrollDown, ScrollLeft, ScrollRight}

(*************************** devices ***************************************)
Ranges(r) == UNION {r[i][1]..r[i][2] : i \in 1..Len(r)}
\* What kind of device it is: V is its description
Kinds(V) ==
  LET K == Ranges(V.keys)
  IN (IF V.rel # 0 \/ V.abs # 0 THEN {"mouse"} ELSE {})
     \cup (IF (2..11 \cup 16..21) \subseteq K \/ 225 \in K \/ 115 \in K THEN {"keyboard"} ELSE {})
Virtual(V) == V.vendor = 4012       \* 0x0FAC

\* Keys beyond the range of keyd are given a place in it
KeyMap ==
  [c \in 466..477 |-> 183 + c - 466]                      \* fn + f1..f12
  @@ 444 :> 191 @@ 445 :> 192 @@ 446 :> 193               \* thinkpad
  @@ 485 :> 183 @@ 374 :> 184 @@ 562 :> 185 @@ 634 :> 186 @@ 532 :> 187 @@ 531 :> 188 @@ 360 :> 189
  @@ 422 :> 183 @@ 423 :> 184 @@ 424 :> 185 @@ 425 :> 186 @@ 426 :> 187 @@ 427 :> 188 @@ 428 :> 189
  @@ 429 :> 190 @@ 430 :> 191
  @@ 464 :> 254 @@ 372 :> 177 @@ 582 :> 222
  @@ 272 :> 249 @@ 274 :> 250 @@ 273 :> 251 @@ 275 :> 252 @@ 276 :> 253 @@ 278 :> 178 @@ 277 :> 255 @@ 279 :> 188
  @@ [c \in 256..265 |-> 183 + c - 256]                   \* the buttons of macro pads

TDiv(a, b) == LET q == (IF a < 0 THEN -a ELSE a) \div (IF b < 0 THEN -b ELSE b)
              IN IF (a < 0) = (b < 0) THEN q ELSE -q
TMod(a, b) == a - b * TDiv(a, b)

\* What an evdev event means
NoEvent == [k |-> "none"]
Classify(V, ty, co, va) ==
  CASE ty = EvKey ->
         IF va = 2 THEN NoEvent
         ELSE IF co < 256 THEN [k |-> "key", c |-> co, p |-> va = 1]
         ELSE IF co \in DOMAIN KeyMap THEN [k |-> "key", c |-> KeyMap[co], p |-> va = 1]
         ELSE NoEvent
    [] ty = EvRel ->
         CASE co = 8 -> [k |-> "wheel", x |-> 0, y |-> va]
           [] co = 6 -> [k |-> "wheel", x |-> va, y |-> 0]
           [] co = 0 -> [k |-> "move", x |-> va, y |-> 0]
           [] co = 1 -> [k |-> "move", x |-> 0, y |-> va]
           [] OTHER -> NoEvent
    [] ty = EvAbs ->
         CASE co = 0 -> [k |-> "abs", x |-> TDiv((va - V.minx) * 1024, V.maxx - V.minx), y |-> 0]
           [] co = 1 -> [k |-> "abs", x |-> 0, y |-> TDiv((va - V.miny) * 1024, V.maxy - V.miny)]
           [] OTHER -> NoEvent
    [] ty = EvLed -> [k |-> "led", c |-> co, v |-> va]
    [] OTHER -> NoEvent

(*************************** virtual devices *******************************)
Button == 249 :> 272 @@ 250 :> 274 @@ 251 :> 273 @@ 252 :> 275 @@ 253 :> 276 @@ 178 :> 278 @@ 255 :> 277
KeyWrite(c, v) ==
  IF c \in DOMAIN Button THEN <<<<1, EvKey, Button[c], v>>, <<1, EvSyn, 0, 0>>>>
  ELSE <<<<0, EvKey, IF c = 177 THEN 372 ELSE IF c = 222 THEN 582 ELSE c, v>>, <<0, EvSyn, 0, 0>>>>
Report2(ty, cx, cy, x, y) ==
  IF x = 0 /\ y = 0 THEN <<>>
  ELSE (IF x # 0 THEN <<<<1, ty, cx, x>>>> ELSE <<>>) \o (IF y # 0 THEN <<<<1, ty, cy, y>>>> ELSE <<>>)
       \o <<<<1, EvSyn, 0, 0>>>>
Move(x, y) == Report2(EvRel, 0, 1, x, y)
MoveAbs(x, y) == Report2(EvAbs, 0, 1, x, y)
Wheel(x, y) == Report2(EvRel, 6, 8, x, y)

\* An element of the output of the engine as writes
Writes(e) ==
  IF e >= 10000 THEN <<<<99, 0, e - 10000, 0>>>>
  ELSE IF e >= 1000 THEN IF e - 1000 \in Scrolls THEN <<>> ELSE KeyWrite(e - 1000, 0)
  ELSE CASE e = ScrollUp -> Wheel(0, 1)
         [] e = ScrollDown -> Wheel(0, -1)
         [] e = ScrollRight -> Wheel(1, 0)
         [] e = ScrollLeft -> Wheel(-1, 0)
         [] OTHER -> KeyWrite(e, 1)
RECURSIVE AllWrites(_, _)
AllWrites(o, i) == IF i > Len(o) THEN <<>> ELSE Writes(o[i]) \o AllWrites(o, i + 1)

\* Writes without meaning are not told apart: relative motion by nothing,
\* empty reports, the pause which precedes a button.
RECURSIVE NormFrom(_, _, _)
NormFrom(o, i, open) ==
  IF i > Len(o) THEN <<>>
  ELSE LET w == o[i]
       IN IF w[1] = 1 /\ w[2] = EvRel /\ w[4] = 0 THEN NormFrom(o, i + 1, open)
          ELSE IF w[1] = 99 /\ w[3] = 1000 /\ i < Len(o) /\ o[i + 1][1] = 1 /\ o[i + 1][2] = EvKey
          THEN NormFrom(o, i + 1, open)
          ELSE IF w[1] < 2 /\ w[2] = EvSyn
          THEN IF w[1] \in open THEN <<w>> \o NormFrom(o, i + 1, open \ {w[1]}) ELSE NormFrom(o, i + 1, open)
          ELSE <<w>> \o NormFrom(o, i + 1, IF w[1] < 2 THEN open \cup {w[1]} ELSE open)
Norm(o) == NormFrom(SelectSeq(o, LAMBDA w : w[1] < 10 \/ w[1] = 99), 1, {})
Leds(o) == SelectSeq(o, LAMBDA w : w[1] >= 10 /\ w[1] < 99)
\* Every code written is among those the virtual device announced
Announced(U, o) ==
  \A i \in 1..Len(o) : o[i][1] < 2 /\ o[i][2] # EvSyn =>
    \E j \in 1..Len(U) :
       /\ U[j].ptr = o[i][1] /\ U[j].created = 1
       /\ \E n \in 1..Len(U[j].ev) : U[j].ev[n] = o[i][2]
       /\ LET L == CASE o[i][2] = EvKey -> U[j].key [] o[i][2] = EvRel -> U[j].rel [] OTHER -> U[j].abs
          IN \E n \in 1..Len(L) : L[n] = o[i][3]

RECURSIVE DownOf(_, _, _)
DownOf(o, j, X) ==
  IF j > Len(o) THEN X
  ELSE DownOf(o, j + 1, IF o[j] >= 10000 THEN X ELSE IF o[j] < 1000 THEN X \cup {o[j]} ELSE X \ {o[j] - 1000})

(*************************** configurations ********************************)
\* P: the parsed files; set: the files there are (positions in P)
NewKb(P, f) ==
  LET C == P[f].cfg
  IN [f |-> f, C |-> C, C0 |-> C, S |-> InitState(C), wake |-> 0, sx |-> 0, sy |-> 0]
Keyboards(P, set) ==
  LET F == SelectSeq(set, LAMBDA f : P[f].ok)
  IN [i \in 1..Len(F) |-> NewKb(P, F[i])]

\* The keyboards which may be chosen for a device ({0}: none is)
Candidates(kb, V) ==
  LET ks == Kinds(V)
      rank(i) == Match(kb[i].C, V.id, ks)
      best == IF kb = <<>> THEN 0 ELSE MaxOf({rank(i) : i \in 1..Len(kb)})
  IN IF Virtual(V) \/ best = 0 \/ (best = 1 /\ ks = {"mouse"}) THEN {0}
     ELSE {i \in 1..Len(kb) : rank(i) = best}

(*************************** listeners *************************************)
Line(C, l) ==
  LET x == LayerIdx(C, From(l, 2))
  IN IF x # 0 /\ C.layers[x].type = "layout" THEN "/" \o From(l, 2) \o "\n" ELSE l \o "\n"
RECURSIVE Lines(_, _, _)
Lines(C, l, i) == IF i > Len(l) THEN "" ELSE Line(C, l[i]) \o Lines(C, l, i + 1)
Tell(D, text) ==
  IF text = "" THEN D
  ELSE [D EXCEPT !.lis = [c \in DOMAIN @ |-> @[c] \o text]]

\* The layers which are active, as told to a new listener
LayerState(k) ==
  LET C == k.C
      n == Len(C.layers)
      L == {i \in 2..n : C.layers[i].type = "layout" /\ k.S.act[i] > 0}
      RECURSIVE G(_)
      G(i) == IF i > n THEN ""
              ELSE (IF k.S.act[i] > 0 /\ C.layers[i].type # "layout" THEN "+" \o C.layers[i].name \o "\n" ELSE "") \o G(i + 1)
  IN "/" \o C.layers[IF L = {} THEN 1 ELSE MinOf(L)].name \o "\n" \o G(2)
\* ... and as withdrawn when the configuration is
Withdrawn(k) ==
  LET C == k.C
      RECURSIVE G(_)
      G(i) == IF i > Len(C.layers) THEN ""
              ELSE (IF k.S.act[i] = 0 THEN ""
                    ELSE IF C.layers[i].type = "layout" THEN "/" \o C.layers[1].name \o "\n"
                    ELSE "-" \o C.layers[i].name \o "\n") \o G(i + 1)
  IN G(2)
\* Some layer shows on the LED
Lit(k) == \E i \in 2..Len(k.C.layers) : k.C.layers[i].type # "layout" /\ k.S.act[i] > 0

(*************************** keyboards *************************************)
\* Keyboard b processes an event (code 0: time passes)
Feed(D, b, code, p, t) ==
  LET k == D.kb[b]
      R == Step(k.S, k.C, code, p, t)
      D1 == [D EXCEPT !.kb[b].S = Quiet(R), !.kb[b].wake = NextWake(R, k.C, t),
                      !.down = DownOf(R.out, 1, @),
                      !.o = @ \o AllWrites(R.out, 1),
                      !.cmds = @ \o R.cmds,
                      !.lit = IF R.lyo # <<>> /\ k.C.o.li # 0 THEN @ \cup {b} ELSE @,
                      !.amb = @ \/ R.amb]
  IN Tell(D1, Lines(k.C, R.lyo, 1))
Strike(D, b, code, t) == Feed(Feed(D, b, code, TRUE, t), b, code, FALSE, t)
RECURSIVE Strikes(_, _, _, _, _)
Strikes(D, b, code, n, t) == IF n = 0 THEN D ELSE Strikes(Strike(D, b, code, t), b, code, n - 1, t)

\* The keyboards which are to be woken up
Due(D, t) == {b \in 1..Len(D.kb) : D.kb[b].wake # 0 /\ D.kb[b].wake <= t}
RECURSIVE TickIn(_, _, _)
TickIn(D, order, t) ==
  IF order = <<>> THEN D ELSE TickIn(Feed(D, Head(order), 0, FALSE, t), Tail(order), t)
Orders(X) == {s \in [1..Cardinality(X) -> X] : \A i, j \in 1..Cardinality(X) : s[i] = s[j] => i = j}

FirstWake(D) ==
  LET W == {D.kb[b].wake : b \in 1..Len(D.kb)} \ {0} IN IF W = {} THEN 0 ELSE MinOf(W)

(*************************** input *****************************************)
PanicKeys == {1, 14, 28}
PanicSee(D, d, e) ==
  IF e.k # "key" \/ e.c \notin PanicKeys THEN D
  ELSE [D EXCEPT !.pan = IF e.p THEN @ \cup {<<d, e.c>>} ELSE @ \ {<<d, e.c>>},
                 !.plast = IF e.p THEN @ \cup {e.c} ELSE @ \ {e.c}]
\* All are down on one device and have not been released elsewhere meanwhile
MustPanic(D) == PanicKeys \subseteq D.plast /\ \E d \in {x[1] : x \in D.pan} : \A c \in PanicKeys : <<d, c>> \in D.pan
MayPanic(D) == \A c \in PanicKeys : c \in D.plast \/ \E x \in D.pan : x[2] = c

\* Event e (see Classify) of device d with description V
Input(D, d, V, e, t) ==
  LET b == D.dev[d].kb
      A == IF b # 0 /\ e.k # "none" THEN [D EXCEPT !.act = b] ELSE D
  IN IF b # 0
     THEN CASE e.k = "key" -> Feed(A, b, e.c, e.p, t)
            [] e.k = "wheel" ->
                 LET n == e.x + e.y
                     c == IF e.x > 0 THEN ScrollRight ELSE IF e.x < 0 THEN ScrollLeft
                          ELSE IF e.y > 0 THEN ScrollUp ELSE ScrollDown
                 IN Strikes(A, b, c, IF n < 0 THEN -n ELSE n, t)
            [] e.k = "move" ->
                 LET k == A.kb[b]
                     s == k.S.scr.n
                     x == k.sx + e.x
                     y == k.sy + e.y
                 IN IF ~k.S.scr.on THEN [A EXCEPT !.o = @ \o Move(e.x, e.y)]
                    ELSE IF s = 0 THEN A
                    ELSE [A EXCEPT !.kb[b].sx = TMod(x, s), !.kb[b].sy = TMod(y, s),
                                   !.o = @ \o Wheel(0, -TDiv(y, s)) \o Wheel(TDiv(x, s), 0)]
            [] e.k = "abs" -> [A EXCEPT !.o = @ \o MoveAbs(e.x, e.y)]
            [] OTHER -> A
     ELSE IF Virtual(V)
     THEN IF e.k = "led"
          THEN [D EXCEPT !.leds = {<<10 + x, EvLed, e.c, e.v>> : x \in {y \in DOMAIN D.dev : D.dev[y].on /\ D.dev[y].kb # 0}}]
          ELSE D
     ELSE IF "mouse" \in Kinds(V) /\ e.k \in {"key", "wheel"} /\ D.act # 0
     THEN Strike(D, D.act, EXTMOUSE, t)
     ELSE D

(*************************** devices come and go ***************************)
MaxDevices == 64
Present(D) == Cardinality({d \in DOMAIN D.dev : D.dev[d].on})
\* b: the keyboard chosen
Manage(D, d, b) ==
  IF b # 0
  THEN [D EXCEPT !.dev[d] = [on |-> TRUE, kb |-> b, gr |-> TRUE],
                 !.g = IF D.dev[d].gr THEN @ ELSE @ \cup {<<d, 1>>}]
  ELSE [D EXCEPT !.dev[d] = [on |-> TRUE, kb |-> 0, gr |-> FALSE],
                 !.g = IF D.dev[d].gr THEN @ \cup {<<d, 0>>} ELSE @]
Gone(D, d) == [D EXCEPT !.dev[d] = [on |-> FALSE, kb |-> 0, gr |-> FALSE]]
\* All assignments of the devices in X to keyboards: functions
Assign(kb, X, Vs) ==
  LET one(d) == Candidates(kb, Vs[d])
  IN {f \in [X -> 0..Len(kb)] : \A d \in X : f[d] \in one(d)}
RECURSIVE ManageAll(_, _, _)
ManageAll(D, f, X) ==
  IF X = {} THEN D ELSE LET d == MinOf(X) IN ManageAll(Manage(D, d, f[d]), f, X \ {d})

(*************************** requests **************************************)
MaxMsg == 4096
MaxListeners == 32
Bind == 2
InputReq == 3
MacroReq == 4
Reload == 5
Listen == 6

ResetConfig(T, C, orig) ==
  IF NoKeyHeld(T) /\ ~T.am.on /\ T.pk.c = 0 /\ T.ch.st = "idle" THEN orig
  ELSE [orig EXCEPT !.nm = C.nm, !.nd = C.nd, !.nc = C.nc]

\* Typing a text: [ok, o]; what precedes a character which cannot be typed is typed
RECURSIVE TypeText(_, _, _)
TypeText(s, i, us) ==
  IF i > Len(s) THEN [ok |-> TRUE, o |-> <<>>]
  ELSE LET u == Utf8Len(s, i)
           c == Ch(s, i)
           st == CharSteps(SubSeq(s, i, i + u.n - 1), 1)
           o == IF u.n = 1 /\ c = " " THEN <<57, 1057>>
                ELSE IF u.n = 1 /\ c = "\n" THEN <<28, 1028>>
                ELSE IF u.n = 1 /\ c = "\t" THEN <<15, 1015>>
                ELSE MacroOut(st, 0, 1, 0)
           r == TypeText(s, i + u.n, us)
       IN IF o = <<>> THEN [ok |-> FALSE, o |-> <<>>]
          ELSE [ok |-> r.ok, o |-> o \o WaitEv(us) \o r.o]

RECURSIVE RTrimNl(_)
RTrimNl(s) == IF s # "" /\ Ch(s, Len(s)) = "\n" THEN RTrimNl(SubSeq(s, 1, Len(s) - 1)) ELSE s

Answer(D, v) == [D EXCEPT !.ans = v]
\* Only the bindings: the engine does nothing by itself
BindAll(D, x) ==
  LET one(k) == IF x = "reset" THEN [ok |-> TRUE, cfg |-> ResetConfig(k.S, k.C, k.C0)] ELSE AddEntry(k.C, x)
      R == [i \in 1..Len(D.kb) |-> one(D.kb[i])]
  IN Answer([D EXCEPT !.kb = [i \in 1..Len(D.kb) |-> [@[i] EXCEPT !.C = R[i].cfg]]],
            IF \E i \in 1..Len(R) : R[i].ok THEN 1 ELSE 0)

\* P: parsed files; set: those there are; f: devices are assigned to keyboards; ord: of the old keyboards
DoReload(D, P, set, f, ord) ==
  LET W == [i \in 1..Len(ord) |-> Withdrawn(D.kb[ord[i]])]
      RECURSIVE Cat(_)
      Cat(i) == IF i > Len(W) THEN "" ELSE W[i] \o Cat(i + 1)
      T == Tell(D, Cat(1))
      N == [T EXCEPT !.kb = Keyboards(P, set), !.act = 0, !.up = D.down, !.down = {},
                     !.darkened = {d \in DOMAIN D.dev : D.dev[d].on /\ D.dev[d].kb # 0 /\ Withdrawn(D.kb[D.dev[d].kb]) # ""
                                                         /\ D.kb[D.dev[d].kb].C.o.li # 0}]
  IN Answer(ManageAll(N, f, {d \in DOMAIN D.dev : D.dev[d].on}), 1)

\* Does a client which behaves in this way get its request across?
Arrives(r) ==
  CASE r.how \in {"eof", "silent"} -> r.arg >= r.full
    [] r.how = "drip" -> 3 * r.arg < 50
    [] OTHER -> TRUE
=============================================================================
