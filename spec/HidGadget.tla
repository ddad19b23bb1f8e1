----------------------------- MODULE HidGadget ------------------------------
(***************************************************************************)
(* The USB gadget backend: what the host is told about the keys which are  *)
(* down.  A report is 8 bytes: modifiers, a reserved byte (0), and up to   *)
(* six usages of ordinary keys.                                            *)
(*                                                                         *)
(* H.down: the ordinary keys which are down; H.mods: the modifiers; H.rep: *)
(* the ordinary keys the last report contained.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* Keys with a bit of their own (USB HID usage tables, 8.3)
ModBit == 29 :> 1 @@ 42 :> 2 @@ 56 :> 4 @@ 125 :> 8 @@ 97 :> 16 @@ 54 :> 32 @@ 100 :> 64 @@ 126 :> 128

\* Usages of the ordinary keys (USB HID usage tables, 10; codes of evdev)
Row(first, us) == [c \in first..(first + Len(us) - 1) |-> us[c - first + 1]]
Usage ==
  Row(1, <<41, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 45, 46, 42, 43>>)          \* esc 1..0 - = backspace tab
  @@ Row(16, <<20, 26, 8, 21, 23, 28, 24, 12, 18, 19, 47, 48, 40>>)               \* q..p [ ] enter
  @@ Row(30, <<4, 22, 7, 9, 10, 11, 13, 14, 15, 51, 52, 53>>)                     \* a..l ; ' `
  @@ Row(43, <<49, 29, 27, 6, 25, 5, 17, 16, 54, 55, 56>>)                        \* \ z..m , . /
  @@ Row(57, <<44, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 83, 71>>)          \* space capslock f1..f10 num scroll
  @@ Row(71, <<95, 96, 97, 86, 92, 93, 94, 87, 89, 90, 91, 98, 99>>)              \* kp7 8 9 - 4 5 6 + 1 2 3 0 .
  @@ 55 :> 85 @@ 85 :> 148 @@ 86 :> 100 @@ 87 :> 68 @@ 88 :> 69
  @@ 89 :> 135 @@ 90 :> 146 @@ 91 :> 147 @@ 92 :> 138 @@ 93 :> 136 @@ 94 :> 139
  @@ 96 :> 88 @@ 98 :> 84 @@ 99 :> 70
  @@ Row(102, <<74, 82, 75, 80, 79, 77, 81, 78, 73, 76>>)                         \* home up pgup left right end down pgdn ins del
  @@ 113 :> 127 @@ 114 :> 129 @@ 115 :> 128 @@ 116 :> 102 @@ 117 :> 103 @@ 118 :> 215 @@ 119 :> 72
  @@ 121 :> 133 @@ 122 :> 144 @@ 123 :> 145 @@ 124 :> 137 @@ 127 :> 101
  @@ 129 :> 121 @@ 131 :> 122 @@ 132 :> 119 @@ 133 :> 124 @@ 134 :> 116 @@ 135 :> 125 @@ 136 :> 126 @@ 137 :> 123 @@ 138 :> 117
  @@ 179 :> 182 @@ 180 :> 183
  @@ Row(183, <<104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115>>)     \* f13..f24

Ordinary == DOMAIN Usage
Slots == 6
Init0 == [down |-> {}, mods |-> {}, rep |-> {}]

RECURSIVE Sum(_)
Sum(X) == IF X = {} THEN 0 ELSE LET x == CHOOSE x \in X : TRUE IN ModBit[x] + Sum(X \ {x})
ModByte(H) == Sum(H.mods)

\* The key is pressed or released; rep: the ordinary keys reported from now on
Change(H, code, p) ==
  CASE code \in DOMAIN ModBit -> [H EXCEPT !.mods = IF p THEN @ \cup {code} ELSE @ \ {code}]
    [] code \in Ordinary -> [H EXCEPT !.down = IF p THEN @ \cup {code} ELSE @ \ {code}]
    [] OTHER -> H
\* What was reported stays while it is down; a new key is reported if there
\* is room.  Whether a key which found no room is reported later is not said.
Allowed(H, N, code, p, rep) ==
  /\ rep \subseteq N.down
  /\ Cardinality(rep) <= Slots
  /\ H.rep \cap N.down \subseteq rep
  /\ p /\ code \in Ordinary /\ Cardinality(H.rep \ {code}) < Slots => code \in rep
Reports(N) == {r \in SUBSET N.down : Cardinality(r) <= Slots}

Coherent(H) ==
  /\ H.rep \subseteq H.down
  /\ Cardinality(H.down) <= Slots => TRUE
  /\ H.down = {} => H.rep = {}
=============================================================================
