----------------------------- MODULE AppMapper ------------------------------
(***************************************************************************)
(* The application mapper: which bindings are in force, given the contents *)
(* of app.conf and what the desktop says about its windows.                *)
(*                                                                         *)
(* Texts are sequences of code points.  A configuration is a sequence of   *)
(* sections [c, t, b]: class pattern, title pattern, bindings.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

\* ---- characters ---------------------------------------------------------
Upper == 65..90
IsAscii(c) == c \in 48..57 \/ c \in Upper \/ c \in 97..122
Letters == {201, 233, 223, 241, 1046, 1078, 20013}       \* the letters beyond ASCII which are used
IsWord(c) == IsAscii(c) \/ c \in Letters
Low(c) == IF c \in Upper THEN c + 32 ELSE IF c = 201 THEN 233 ELSE IF c = 1046 THEN 1078 ELSE c
IsSpace(c) == c \in {32, 9, 11, 12}
Dash == 45

\* Runs of other characters become one dash; none at the ends; lower case
Normal(s, keep(_)) ==
  LET one(acc, c) == IF keep(c) THEN Append(acc, Low(c))
                     ELSE IF acc = <<>> \/ acc[Len(acc)] = Dash THEN acc ELSE Append(acc, Dash)
      r == FoldLeft(one, <<>>, s)
  IN IF r # <<>> /\ r[Len(r)] = Dash THEN SubSeq(r, 1, Len(r) - 1) ELSE r
NormalClass(s) == Normal(s, IsAscii)
NormalTitle(s) == Normal(s, IsWord)

\* ---- patterns: * ? [set] [!set] -----------------------------------------
\* Where the set which opens at i is closed (0: it is not)
Close(p, i) ==
  LET a == IF i + 1 <= Len(p) /\ p[i + 1] = 33 THEN i + 2 ELSE i + 1
      C == {j \in (a + 1)..Len(p) : p[j] = 93}
  IN IF C = {} THEN 0 ELSE CHOOSE j \in C : \A k \in C : j <= k
InSet(p, a, z, c) ==
  \E j \in a..z :
    \/ p[j] = c /\ ~(p[j] = Dash /\ j > a /\ j < z)
    \/ j + 2 <= z /\ p[j + 1] = Dash /\ p[j] <= c /\ c <= p[j + 2]
RECURSIVE Match(_, _, _, _)
Match(p, i, s, j) ==
  IF i > Len(p) THEN j > Len(s)
  ELSE LET m == p[i]
           more == j <= Len(s)
           z == IF m = 91 THEN Close(p, i) ELSE 0
       IN CASE m = 42 -> Match(p, i + 1, s, j) \/ (more /\ Match(p, i, s, j + 1))
            [] m = 63 -> more /\ Match(p, i + 1, s, j + 1)
            [] z > 0 -> LET neg == p[i + 1] = 33
                            a == IF neg THEN i + 2 ELSE i + 1
                        IN more /\ (InSet(p, a, z - 1, s[j]) # neg) /\ Match(p, z + 1, s, j + 1)
            [] OTHER -> more /\ s[j] = m /\ Match(p, i + 1, s, j + 1)
Matches(p, s) == Match(p, 1, s, 1)

\* ---- app.conf -----------------------------------------------------------
RECURSIVE Lines(_, _, _)
Lines(s, i, acc) ==
  IF i > Len(s) THEN (IF acc = <<>> THEN <<>> ELSE <<acc>>)
  ELSE IF s[i] \in {10, 13} THEN <<acc>> \o Lines(s, i + 1, <<>>)
  ELSE Lines(s, i + 1, Append(acc, s[i]))
Strip(l) ==
  LET N == {j \in 1..Len(l) : ~IsSpace(l[j])}
  IN IF N = {} THEN <<>>
     ELSE SubSeq(l, CHOOSE j \in N : \A k \in N : j <= k, CHOOSE j \in N : \A k \in N : j >= k)
Star == <<42>>
Header(l) ==
  LET h == SubSeq(l, 2, Len(l) - 1)
      B == {j \in 1..Len(h) : h[j] = 124}
      first == CHOOSE j \in B : \A k \in B : j <= k
      rest == SubSeq(h, first + 1, Len(h))
      E == {j \in 1..Len(rest) : rest[j] = 124}
      end == IF E = {} THEN Len(rest) ELSE (CHOOSE j \in E : \A k \in E : j <= k) - 1
  IN IF B = {} THEN [c |-> h, t |-> Star, b |-> <<>>]
     ELSE [c |-> SubSeq(h, 1, first - 1), t |-> SubSeq(rest, 1, end), b |-> <<>>]
Parse(text) ==
  LET one(acc, raw) ==
        LET l == Strip(raw)
        IN CASE l = <<>> -> acc
             [] Len(l) >= 2 /\ l[1] = 91 /\ l[Len(l)] = 93 -> Append(acc, Header(l))
             [] l[1] = 35 -> acc
             [] acc = <<>> -> acc                                  \* belongs to no section
             [] OTHER -> [acc EXCEPT ![Len(acc)].b = Append(@, l)]
  IN FoldLeft(one, <<>>, Lines(text, 1, <<>>))
\* What the text means is not said if it is not UTF-8 or contains a NUL
Strange(text) == \E j \in 1..Len(text) : text[j] = 0 \/ text[j] \in 56448..56575

\* ---- bindings -----------------------------------------------------------
Reset == <<114, 101, 115, 101, 116>>
\* keyd bind: the bindings in force after its arguments
Bind(force, args) == FoldLeft(LAMBDA acc, a : IF a = Reset THEN <<>> ELSE Append(acc, a), force, args)
Lookup(conf, cls, title) ==
  LET c == NormalClass(cls)
      t == NormalTitle(title)
  IN FoldLeft(LAMBDA acc, s : IF Matches(s.c, c) /\ Matches(s.t, t) THEN acc \o s.b ELSE acc, <<>>, conf)
Wanted(conf, w) == Bind(<<>>, Lookup(conf, w.c, w.t))

\* ---- the windows of a Wayland compositor --------------------------------
\* W: id :> [p: what is announced, q: what is in effect], [c, t, a (activated)]
Plain == [c |-> <<>>, t |-> <<>>, a |-> FALSE]
Announce(W, m) ==
  LET w == W[m.id]
  IN CASE m.op = "top" -> (m.id :> [p |-> Plain, q |-> Plain]) @@ W
       [] m.id \notin DOMAIN W -> W
       [] m.op = "title" -> [W EXCEPT ![m.id].p.t = m.s]
       [] m.op = "app" -> [W EXCEPT ![m.id].p.c = m.s]
       [] m.op = "state" -> [W EXCEPT ![m.id].p.a = 2 \in ToSet(m.l)]
       [] m.op = "done" -> [W EXCEPT ![m.id].q = w.p]
       [] m.op = "closed" -> [x \in DOMAIN W \ {m.id} |-> W[x]]
       [] OTHER -> W
\* The window which has just been given the focus, or has it and has changed
Active(W, m) == m.op = "done" /\ m.id \in DOMAIN W /\ W[m.id].q.a

\* ---- the windows of an X server -----------------------------------------
\* X: [f: the window with the focus (0: none), w: sequence of windows
\*    [id, up (parent, 0: none), c (class: <<>> or <<text>>), n (_NET_WM_NAME),
\*     m (WM_NAME), above, note (a notification)]]
WinOf(X, id) == LET J == {j \in 1..Len(X.w) : X.w[j].id = id} IN IF J = {} THEN 0 ELSE CHOOSE j \in J : TRUE
RECURSIVE Classed(_, _)
Classed(X, id) ==
  LET j == WinOf(X, id)
  IN IF j = 0 THEN [c |-> <<114, 111, 111, 116>>, t |-> <<>>]      \* "root"
     ELSE LET w == X.w[j]
          IN IF w.c # <<>> THEN [c |-> w.c[1], t |-> IF w.n # <<>> THEN w.n[1] ELSE IF w.m # <<>> THEN w.m[1] ELSE <<>>]
             ELSE Classed(X, w.up)
Floating(X) == {j \in 1..Len(X.w) : X.w[j].above /\ ~X.w[j].note}
HasFocus(X) == Floating(X) # {} \/ X.f # 0
Focus(X) == IF Floating(X) # {} THEN Classed(X, X.w[CHOOSE j \in Floating(X) : TRUE].id) ELSE Classed(X, X.f)

\* ---- what is in force ---------------------------------------------------
\* S: file (parsed), odd (its meaning is not said), gone (there is no file),
\*    last, lastodd (the file as it was last read), W (Wayland windows), cur
\*    (the focus: <<>> or <<[c, t]>>), ok (the bindings which may be in
\*    force), any (nothing is said about them)
Read(text) == IF Strange(text) THEN <<>> ELSE Parse(text)
Start(text) == [file |-> Read(text), odd |-> Strange(text), gone |-> FALSE, last |-> Read(text), lastodd |-> Strange(text),
                W |-> <<>>, cur |-> <<>>, ok |-> {<<>>}, any |-> FALSE]
Same(a, b) == NormalClass(a.c) = NormalClass(b.c) /\ NormalTitle(a.t) = NormalTitle(b.t)
\* The focus is w now: app.conf is read again if it has changed
Focused(s, w, forced) ==
  LET conf == IF s.gone THEN s.last ELSE s.file
      odd == IF s.gone THEN s.lastodd ELSE s.odd
      now == Wanted(conf, w)
      again == s.cur # <<>> /\ ~forced /\ Same(s.cur[1], w)
  IN [s EXCEPT !.cur = <<w>>, !.last = conf, !.lastodd = odd,
               !.ok = IF again THEN @ \cup {now} ELSE {now},
               !.any = odd \/ (again /\ @)]
\* app.conf may have been read
Maybe(s) == IF s.gone THEN s ELSE [s EXCEPT !.lastodd = @ \/ s.odd \/ s.last # s.file, !.any = TRUE]
Step(s, m) ==
  CASE m.op = "conf" -> [s EXCEPT !.file = Read(m.s), !.odd = Strange(m.s), !.gone = FALSE]
    [] m.op = "noconf" -> [s EXCEPT !.gone = TRUE]
    [] m.op = "focus" -> Focused(s, [c |-> m.c, t |-> m.t], FALSE)
    [] m.op = "x" -> IF HasFocus(m) THEN Focused(s, Focus(m), FALSE) ELSE s
    [] m.op = "usr1" -> IF s.cur = <<>> THEN Maybe([s EXCEPT !.any = TRUE]) ELSE Focused(s, s.cur[1], TRUE)
    [] m.op = "junk" -> Maybe([s EXCEPT !.any = TRUE, !.cur = <<>>])
    [] m.op = "nothing" -> s
    [] OTHER -> LET W == Announce(s.W, m)
                    n == [s EXCEPT !.W = W]
                IN IF Active(W, m) THEN Focused(n, W[m.id].q, FALSE)
                   ELSE IF s.cur # <<>> /\ \A x \in DOMAIN W : ~W[x].q.a
                   THEN [n EXCEPT !.any = TRUE, !.cur = <<>>]          \* no window has the focus
                   ELSE n

=============================================================================
