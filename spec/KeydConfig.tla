---------------------------- MODULE KeydConfig ----------------------------
(***************************************************************************)
(* The configuration language of keyd: how the text of a configuration     *)
(* file (or of a run time binding) denotes layers, bindings, chords,       *)
(* aliases, options and device ids.                                        *)
(*                                                                         *)
(* Text is a string in which every character stands for one byte.  A file  *)
(* is a sequence of lines.                                                 *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils, KeyTable

\* The 255 one-byte strings: ByteStr[b] for b \in 1..255.
ByteStr == ndJsonDeserialize("bytes.json")[1]
\* Supported characters: code point -> the three keys which follow cancel, taken
\* from the compose file shipped with keyd.
UniRows == IF "KEYD_UNI" \in DOMAIN IOEnv THEN ndJsonDeserialize(IOEnv.KEYD_UNI) ELSE <<>>
\* The rows are sorted by code point; <<>> if the character is not supported.
RECURSIVE UniFind(_, _, _)
UniFind(cp, lo, hi) ==
  IF lo > hi THEN <<>>
  ELSE LET mid == (lo + hi) \div 2
           r == UniRows[mid]
       IN IF r.cp = cp THEN r.ks
          ELSE IF r.cp < cp THEN UniFind(cp, mid + 1, hi) ELSE UniFind(cp, lo, mid - 1)
UniKeys(cp) == UniFind(cp, 1, Len(UniRows))

(*************************** strings ***************************************)
Ch(s, i) == SubSeq(s, i, i)
Ord == [c \in {ByteStr[b] : b \in 1..255} |-> CHOOSE b \in 1..255 : ByteStr[b] = c]
OrdAt(s, i) == Ord[SubSeq(s, i, i)]
From(s, i) == SubSeq(s, i, Len(s))
IsBlank(c) == c = " " \/ c = "\t"
SpaceSet == {ByteStr[b] : b \in {9, 10, 11, 12, 13, 32}}
IsDigit(c) == c \in {"0","1","2","3","4","5","6","7","8","9"}

RECURSIVE Find(_, _, _)     \* first position >= i of character c, or 0
Find(s, c, i) == IF i > Len(s) THEN 0 ELSE IF Ch(s, i) = c THEN i ELSE Find(s, c, i + 1)

Has(s, c) == Find(s, c, 1) # 0
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p

RECURSIVE LTrim(_, _), RTrim(_, _)
LTrim(s, S) == IF s # "" /\ Ch(s, 1) \in S THEN LTrim(From(s, 2), S) ELSE s
RTrim(s, S) == IF s # "" /\ Ch(s, Len(s)) \in S THEN RTrim(SubSeq(s, 1, Len(s) - 1), S) ELSE s

RECURSIVE Tokens(_, _)      \* the non empty substrings between occurrences of c
Tokens(s, c) ==
  LET p == Find(s, c, 1)
      hd == IF p = 0 THEN s ELSE SubSeq(s, 1, p - 1)
      tl == IF p = 0 THEN <<>> ELSE Tokens(From(s, p + 1), c)
  IN IF hd = "" THEN tl ELSE <<hd>> \o tl

RECURSIVE Digits(_, _)      \* number of digits from position i on
Digits(s, i) == IF i <= Len(s) /\ IsDigit(Ch(s, i)) THEN 1 + Digits(s, i + 1) ELSE 0
RECURSIVE DecVal(_, _, _)
DecVal(s, n, acc) == IF n = 0 THEN acc
                     ELSE DecVal(From(s, 2), n - 1, acc * 10 + (Ord[Ch(s, 1)] - 48))
AToI(s0) ==                  \* as atoi()
  LET s == LTrim(s0, SpaceSet)
      neg == s # "" /\ Ch(s, 1) = "-"
      t == IF s # "" /\ Ch(s, 1) \in {"-", "+"} THEN From(s, 2) ELSE s
      n == Digits(t, 1)
      v == DecVal(t, n, 0)
  IN IF neg THEN 0 - v ELSE v

RECURSIVE Escape(_)
Escape(s) ==
  IF s = "" THEN ""
  ELSE IF Ch(s, 1) # "\\" THEN Ch(s, 1) \o Escape(From(s, 2))
  ELSE IF Len(s) = 1 THEN ""
  ELSE LET c == Ch(s, 2)
           r == Escape(From(s, 3))
       IN CASE c = "n" -> "\n" \o r
            [] c = "t" -> "\t" \o r
            [] c \in {"\\", "(", ")"} -> c \o r
            [] OTHER -> "\\" \o c \o r

(*************************** keys ******************************************)
Mods == <<"A", "G", "S", "M", "C">>             \* in the order they are set
ModCode == [A |-> 56, G |-> 100, S |-> 42, M |-> 125, C |-> 29]
ModLetters == {"A", "G", "S", "M", "C"}
NOOP == 195
EXTMOUSE == 196
CHORD1 == 197
NCHORDS == 3
CANCEL == 223

RowSet == {KeyRows[i] : i \in 1..Len(KeyRows)}
NameSet == {r.n : r \in RowSet} \cup {r.a : r \in {q \in RowSet : q.a # ""}}
ShiftSet == {r.s : r \in {q \in RowSet : q.s # ""}}
NameMap ==                  \* name or alternate name -> code
  [x \in NameSet |-> (CHOOSE r \in RowSet : r.n = x \/ r.a = x).c]
ShiftMap ==                 \* shifted name -> code
  [x \in ShiftSet |-> (CHOOSE r \in RowSet : r.s = x).c]
KeyCode(n) == IF n \in NameSet THEN NameMap[n] ELSE 0

RECURSIVE KeySeq(_, _)      \* [C-][M-]...key
KeySeq(s, mods) ==
  IF Len(s) >= 2 /\ Ch(s, 2) = "-"
  THEN IF Ch(s, 1) \in ModLetters THEN KeySeq(From(s, 3), mods \cup {Ch(s, 1)})
       ELSE [ok |-> FALSE]
  ELSE IF s \in ShiftSet THEN [ok |-> TRUE, code |-> ShiftMap[s], mods |-> mods \cup {"S"}]
  ELSE IF s \in NameSet THEN [ok |-> TRUE, code |-> NameMap[s], mods |-> mods]
  ELSE [ok |-> FALSE]

ParseKeySeq(s) == KeySeq(s, {})

RECURSIVE ModSet(_, _)      \* C-S-...
ModSet(s, acc) ==
  IF s = "" THEN [ok |-> TRUE, mods |-> acc]
  ELSE IF Ch(s, 1) \notin ModLetters THEN [ok |-> FALSE]
  ELSE IF Len(s) = 1 THEN [ok |-> TRUE, mods |-> acc \cup {s}]
  ELSE IF Ch(s, 2) # "-" THEN [ok |-> FALSE]
  ELSE ModSet(From(s, 3), acc \cup {Ch(s, 1)})

(*************************** characters ************************************)
Utf8Len(s, i) ==            \* bytes of the character at position i (1 if truncated)
  LET b == OrdAt(s, i)
      n == IF b >= 240 THEN 4 ELSE IF b >= 224 THEN 3 ELSE IF b >= 192 THEN 2 ELSE 1
  IN IF i + n - 1 > Len(s) THEN [n |-> 1, trunc |-> TRUE] ELSE [n |-> n, trunc |-> FALSE]
CodePoint(s, i) ==
  LET u == Utf8Len(s, i)
      b(k) == OrdAt(s, i + k)
  IN IF u.trunc THEN 0
     ELSE CASE u.n = 4 -> ((b(0) % 8) * 262144) + ((b(1) % 64) * 4096) + ((b(2) % 64) * 64) + (b(3) % 64)
            [] u.n = 3 -> ((b(0) % 16) * 4096) + ((b(1) % 64) * 64) + (b(2) % 64)
            [] u.n = 2 -> ((b(0) % 32) * 64) + (b(1) % 64)
            [] OTHER -> b(0) % 128
RECURSIVE Utf8Count(_, _)
Utf8Count(s, i) == IF i > Len(s) THEN 0 ELSE 1 + Utf8Count(s, i + Utf8Len(s, i).n)

(*************************** macros ****************************************)
MaxMacro == 256
KeyStep(c, m) == [t |-> "key", code |-> c, mods |-> m]
IsTimeVal(s) ==
  LET n == Digits(s, 1)
      r == From(s, n + 1)
  IN n > 0 /\ (r = "ms" \/ StartsWith(r, "ms\n"))
WaitStep(s) == [t |-> "wait", ms |-> AToI(s) % 65536]

RECURSIVE CharSteps(_, _)
CharSteps(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE LET u == Utf8Len(s, i)
           cp == CodePoint(s, i)
           c == Ch(s, i)
           st == IF u.n = 1
                 THEN IF c \in NameSet THEN <<KeyStep(NameMap[c], {})>>
                      ELSE IF c \in ShiftSet THEN <<KeyStep(ShiftMap[c], {"S"})>>
                      ELSE <<>>
                 ELSE IF UniKeys(cp) # <<>> THEN <<[t |-> "uni", ks |-> UniKeys(cp)]>>
                 ELSE <<>>
       IN st \o CharSteps(s, i + u.n)

RECURSIVE GroupSteps(_)
GroupSteps(ks) ==
  IF ks = <<>> THEN [ok |-> TRUE, m |-> <<[t |-> "release"]>>]
  ELSE LET k == Head(ks)
           q == ParseKeySeq(k)
           r == GroupSteps(Tail(ks))
       IN IF ~r.ok THEN r
          ELSE IF IsTimeVal(k) THEN [ok |-> TRUE, m |-> <<WaitStep(k)>> \o r.m]
          ELSE IF q.ok THEN [ok |-> TRUE, m |-> <<[t |-> "hold", code |-> q.code]>> \o r.m]
          ELSE [ok |-> FALSE]

RECURSIVE MacroSteps(_)
MacroSteps(toks) ==
  IF toks = <<>> THEN [ok |-> TRUE, m |-> <<>>]
  ELSE LET t == Head(toks)
           q == ParseKeySeq(t)
           h == IF q.ok THEN [ok |-> TRUE, m |-> <<KeyStep(q.code, q.mods)>>]
                ELSE IF Has(t, "+") THEN GroupSteps(Tokens(t, "+"))
                ELSE IF IsTimeVal(t) THEN [ok |-> TRUE, m |-> <<WaitStep(t)>>]
                ELSE [ok |-> TRUE, m |-> CharSteps(t, 1)]
       IN IF ~h.ok THEN h
          ELSE LET r == MacroSteps(Tail(toks))
               IN IF r.ok THEN [ok |-> TRUE, m |-> h.m \o r.m] ELSE r

MacroText(s) ==
  LET r == MacroSteps(Tokens(s, " "))
  IN IF r.ok /\ Len(r.m) <= MaxMacro THEN r ELSE [ok |-> FALSE]

\* res: "ok", "no" (not a macro expression) or "bad"
MacroExpr(s) ==
  LET lit == StartsWith(s, "macro(") /\ Ch(s, Len(s)) = ")"
      r == MacroText(IF lit THEN Escape(SubSeq(s, 7, Len(s) - 1)) ELSE s)
  IN IF ~lit /\ ~ParseKeySeq(s).ok /\ Utf8Count(s, 1) # 1 THEN [res |-> "no"]
     ELSE IF r.ok THEN [res |-> "ok", m |-> r.m] ELSE [res |-> "bad"]

(*************************** layers ****************************************)
MaxLayers == 32
LayerIdx(cfg, name) ==      \* 0 if there is none
  LET S == {i \in 1..Len(cfg.layers) : cfg.layers[i].name = name}
  IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j

(*************************** actions ***************************************)
MaxMacros == 256
MaxDescs == 1024
MaxCmds == 64
NoneD == [op |-> "none"]
KeyD(c, m) == [op |-> "key", code |-> c, mods |-> m]

Sigs == [ swap |-> <<"L">>, clear |-> <<>>, oneshot |-> <<"L">>, toggle |-> <<"L">>,
          clearm |-> <<"M">>, swapm |-> <<"L", "M">>, togglem |-> <<"L", "M">>,
          layerm |-> <<"L", "M">>, oneshotm |-> <<"L", "M">>, layer |-> <<"L">>,
          overload |-> <<"L", "D">>, overloadt |-> <<"L", "D", "T">>,
          overloadt2 |-> <<"L", "D", "T">>, overloadi |-> <<"D", "D", "T">>,
          timeout |-> <<"D", "T", "D">>, macro2 |-> <<"T", "T", "M">>,
          setlayout |-> <<"Y">>, scrollt |-> <<"N">>, scroll |-> <<"N">>,
          overload2 |-> <<"L", "D", "T">>, overload3 |-> <<"L", "D", "T">>,
          toggle2 |-> <<"L", "M">>, swap2 |-> <<"L", "M">> ]
Canon == [ overload2 |-> "overloadt", overload3 |-> "overloadt2",
           toggle2 |-> "togglem", swap2 |-> "swapm" ]

\* name(arg, arg...) ; anything after the closing parenthesis is ignored
RECURSIVE ScanArgs(_, _, _, _, _)
ScanArgs(s, i, start, lvl, args) ==
  IF i > Len(s) THEN [ok |-> FALSE]
  ELSE LET c == Ch(s, i) IN
    IF c = "\\" THEN ScanArgs(s, IF i < Len(s) THEN i + 2 ELSE i + 1, start, lvl, args)
    ELSE IF c = "(" THEN ScanArgs(s, i + 1, start, lvl + 1, args)
    ELSE IF c = ")" /\ lvl > 0 THEN ScanArgs(s, i + 1, start, lvl - 1, args)
    ELSE IF c = ")" \/ (c = "," /\ lvl = 0)
    THEN LET arg == SubSeq(s, start, i - 1)
             args2 == IF arg = "" THEN args ELSE Append(args, arg)
         IN IF Len(args2) > 5 THEN [ok |-> FALSE]
            ELSE IF c = ")" THEN [ok |-> TRUE, args |-> args2]
            ELSE LET rest == LTrim(From(s, i + 1), {" "})
                     j == Len(s) - Len(rest) + 1
                 IN ScanArgs(s, j, j, 0, args2)
    ELSE ScanArgs(s, i + 1, start, lvl, args)
ParseFn(s) ==
  LET p == Find(s, "(", 1) IN
  IF p = 0 THEN [ok |-> FALSE]
  ELSE LET rest == LTrim(From(s, p + 1), {" "})
           j == Len(s) - Len(rest) + 1
           r == ScanArgs(s, j, j, 0, <<>>)
       IN IF r.ok THEN [ok |-> TRUE, name |-> SubSeq(s, 1, p - 1), args |-> r.args] ELSE r

ModKeyLayer == 42 :> "shift" @@ 29 :> "control" @@ 125 :> "meta" @@ 56 :> "alt" @@ 100 :> "altgr"

\* Returns [ok, d, k]: k counts the macros, descriptors and commands in use.
RECURSIVE ParseDesc(_, _, _), ParseArgs(_, _, _, _, _, _)
ParseDesc(s, cfg, k) ==
  LET q == ParseKeySeq(s)
      m == MacroExpr(s)
      f0 == ParseFn(s)
      fail == [ok |-> FALSE, k |-> k]
  IN
  IF s = "" THEN [ok |-> TRUE, d |-> NoneD, k |-> k]
  ELSE IF q.ok
  THEN IF q.code \in DOMAIN ModKeyLayer
       THEN [ok |-> TRUE, d |-> [op |-> "layer", l |-> LayerIdx(cfg, ModKeyLayer[q.code])], k |-> k]
       ELSE [ok |-> TRUE, d |-> KeyD(q.code, q.mods), k |-> k]
  ELSE IF StartsWith(s, "command(") /\ Ch(s, Len(s)) = ")"
  THEN IF Len(s) > 256 \/ k.nc >= MaxCmds THEN fail
       ELSE [ok |-> TRUE, d |-> [op |-> "command", cmd |-> Escape(SubSeq(s, 9, Len(s) - 1))],
             k |-> [k EXCEPT !.nc = @ + 1]]
  ELSE IF m.res # "no"
  THEN IF m.res = "bad" \/ k.nm >= MaxMacros THEN fail
       ELSE [ok |-> TRUE, d |-> [op |-> "macro", m |-> m.m], k |-> [k EXCEPT !.nm = @ + 1]]
  ELSE IF ~f0.ok THEN fail
  ELSE IF f0.name = "lettermod" /\ Len(f0.args) # 4 THEN fail
  ELSE LET a == f0.args
           f == IF f0.name = "lettermod"
                THEN ParseFn("overloadi(" \o a[2] \o ", overloadt2(" \o a[1] \o ", " \o a[2]
                              \o ", " \o a[4] \o "), " \o a[3] \o ")")
                ELSE f0
       IN IF ~f.ok \/ f.name \notin DOMAIN Sigs THEN fail
          ELSE IF Len(f.args) # Len(Sigs[f.name]) THEN fail
          ELSE LET op == IF f.name \in DOMAIN Canon THEN Canon[f.name] ELSE f.name
                   r == ParseArgs(f.args, Sigs[f.name], Len(f.args), cfg, k, <<>>)
               IN IF ~r.ok THEN [ok |-> FALSE, k |-> r.k]
                  ELSE LET v == r.vals IN
                   [ok |-> TRUE, k |-> r.k, d |->
                     CASE op \in {"layer", "oneshot", "toggle", "swap"} -> [op |-> op, l |-> v[1]]
                       [] op \in {"layerm", "oneshotm", "togglem", "swapm"} -> [op |-> op, l |-> v[1], m |-> v[2]]
                       [] op = "clear" -> [op |-> op]
                       [] op = "clearm" -> [op |-> op, m |-> v[1]]
                       [] op = "overload" -> [op |-> op, l |-> v[1], a |-> v[2]]
                       [] op \in {"overloadt", "overloadt2"} -> [op |-> op, l |-> v[1], a |-> v[2], t |-> v[3]]
                       [] op = "overloadi" -> [op |-> op, a |-> v[1], b |-> v[2], t |-> v[3]]
                       [] op = "timeout" -> [op |-> op, a |-> v[1], t |-> v[2], b |-> v[3]]
                       [] op = "macro2" -> [op |-> op, t |-> v[1], r |-> v[2], m |-> v[3]]
                       [] op = "setlayout" -> [op |-> op, l |-> v[1]]
                       [] OTHER -> [op |-> op, n |-> v[1]]]

\* The arguments are evaluated from the last to the first.
ParseArgs(args, sig, j, cfg, k, vals) ==
  IF j = 0 THEN [ok |-> TRUE, vals |-> vals, k |-> k]
  ELSE LET s == args[j]
           fail(kk) == [ok |-> FALSE, k |-> kk]
           li == LayerIdx(cfg, s)
       IN
       CASE sig[j] = "L" ->
              IF s = "main" \/ li = 0 THEN fail(k)
              ELSE IF cfg.layers[li].type = "layout" THEN fail(k)
              ELSE ParseArgs(args, sig, j - 1, cfg, k, <<li>> \o vals)
         [] sig[j] = "Y" ->
              IF li = 0 THEN fail(k)
              ELSE IF li # 1 /\ cfg.layers[li].type # "layout" THEN fail(k)
              ELSE ParseArgs(args, sig, j - 1, cfg, k, <<li>> \o vals)
         [] sig[j] = "D" ->
              LET r == ParseDesc(s, cfg, k) IN
              IF ~r.ok \/ r.k.nd >= MaxDescs THEN fail(r.k)
              ELSE ParseArgs(args, sig, j - 1, cfg, [r.k EXCEPT !.nd = @ + 1], <<r.d>> \o vals)
         [] sig[j] = "T" -> ParseArgs(args, sig, j - 1, cfg, k, <<AToI(s) % 65536>> \o vals)
         [] sig[j] = "N" -> ParseArgs(args, sig, j - 1, cfg, k, <<AToI(s)>> \o vals)
         [] sig[j] = "M" ->
              LET r == MacroExpr(s) IN
              IF k.nm >= MaxMacros \/ r.res # "ok" THEN fail(k)
              ELSE ParseArgs(args, sig, j - 1, cfg, [k EXCEPT !.nm = @ + 1], <<r.m>> \o vals)

(*************************** entries ***************************************)
\* key = value
Kvp(s) ==
  LET p == IF s = "" THEN 0 ELSE Find(s, "=", IF Ch(s, 1) = "=" THEN 2 ELSE 1)
  IN IF p = 0 THEN [key |-> s, has |-> FALSE, val |-> ""]
     ELSE [key |-> RTrim(SubSeq(s, 1, p - 1), {" ", "\t"}), has |-> TRUE,
           val |-> LTrim(From(s, p + 1), {" ", "\t"})]

MaxExp == 512
MaxChords == 64
MaxChordKeys == 8
SetKm(km, c, d) ==
  IF d.op = "none" THEN [x \in DOMAIN km \ {c} |-> km[x]]
  ELSE [x \in DOMAIN km \cup {c} |-> IF x = c THEN d ELSE km[x]]

\* Returns [ok, layer]
SetEntry(cfg, layer, key, d) ==
  LET toks == Tokens(key, "+")
      codes == [i \in 1..Len(toks) |-> KeyCode(toks[i])]
      al == {c \in DOMAIN cfg.aliases : cfg.aliases[c] = key}
      same(ch) == Len(ch.keys) = Len(codes) /\
                  \A i \in 1..Len(codes) : \E j \in 1..Len(ch.keys) : ch.keys[j] = codes[i]
      S == {i \in 1..Len(layer.chords) : same(layer.chords[i])}
      fail == [ok |-> FALSE]
  IN IF key = "" THEN fail
     ELSE IF Has(key, "+")
     THEN IF toks = <<>> \/ Len(toks) > MaxChordKeys \/ (\E i \in 1..Len(codes) : codes[i] = 0) THEN fail
          ELSE IF S # {}
          THEN [ok |-> TRUE, layer |->
                 [layer EXCEPT !.chords[CHOOSE i \in S : \A j \in S : i <= j].d = d]]
          ELSE IF Len(layer.chords) >= MaxChords THEN fail
          ELSE [ok |-> TRUE, layer |-> [layer EXCEPT !.chords = Append(@, [keys |-> codes, d |-> d])]]
     ELSE IF al # {}
     THEN [ok |-> TRUE, layer |-> [layer EXCEPT !.km =
             IF d.op = "none" THEN [x \in DOMAIN @ \ al |-> @[x]]
             ELSE [x \in DOMAIN @ \cup al |-> IF x \in al THEN d ELSE @[x]]]]
     ELSE IF KeyCode(key) = 0 THEN fail
     ELSE [ok |-> TRUE, layer |-> [layer EXCEPT !.km = SetKm(@, KeyCode(key), d)]]

\* [layer.]key = action.  Returns [ok, cfg]
AddEntry(cfg, exp) ==
  LET dot == Find(exp, ".", 1)
      paren == Find(exp, "(", 1)
      eq == Find(exp, "=", 2)
      hasl == dot > 1 /\ (paren = 0 \/ dot < paren) /\ (eq = 0 \/ dot < eq)
      lname == IF hasl THEN SubSeq(exp, 1, dot - 1) ELSE "main"
      kv == Kvp(IF hasl THEN From(exp, dot + 1) ELSE exp)
      li == LayerIdx(cfg, lname)
      k == [nm |-> cfg.nm, nd |-> cfg.nd, nc |-> cfg.nc]
  IN IF Len(exp) >= MaxExp \/ li = 0 THEN [ok |-> FALSE, cfg |-> cfg]
     ELSE LET r == ParseDesc(kv.val, cfg, k)
              cfg2 == [cfg EXCEPT !.nm = r.k.nm, !.nd = r.k.nd, !.nc = r.k.nc]
          IN IF ~r.ok THEN [ok |-> FALSE, cfg |-> cfg2]
             ELSE LET e == SetEntry(cfg, cfg.layers[li], kv.key, r.d)
                  IN IF e.ok THEN [ok |-> TRUE, cfg |-> [cfg2 EXCEPT !.layers[li] = e.layer]]
                     ELSE [ok |-> FALSE, cfg |-> cfg2]

(*************************** sections **************************************)
MaxSections == 32
MaxSectionEntries == 1024
MaxSectionName == 64
\* INI structure of a sequence of lines; ok is FALSE if an entry precedes all sections
RECURSIVE IniFold(_, _, _, _)
IniFold(lines, i, secs, cur) ==   \* cur: 0 none, -1 in an excess section
  IF i > Len(lines) THEN [ok |-> TRUE, secs |-> secs]
  ELSE LET l == RTrim(LTrim(lines[i], SpaceSet), SpaceSet) IN
    IF l = "" THEN IniFold(lines, i + 1, secs, cur)
    ELSE IF Ch(l, 1) = "[" /\ Ch(l, Len(l)) = "]"
    THEN IF Len(secs) < MaxSections
         THEN IniFold(lines, i + 1, Append(secs, [name |-> SubSeq(l, 2, Len(l) - 1), ents |-> <<>>]),
                      Len(secs) + 1)
         ELSE IniFold(lines, i + 1, secs, -1)
    ELSE IF Ch(l, 1) = "#" THEN IniFold(lines, i + 1, secs, cur)
    ELSE IF cur = 0 THEN [ok |-> FALSE]
    ELSE IF cur = -1 THEN IniFold(lines, i + 1, secs, cur)
    ELSE IF Len(secs[cur].ents) >= MaxSectionEntries THEN IniFold(lines, i + 1, secs, cur)
    ELSE IniFold(lines, i + 1, [secs EXCEPT ![cur].ents = Append(@, Kvp(l))], cur)

NewLayer(name, type, mods, cons) ==
  [name |-> name, type |-> type, mods |-> mods, cons |-> cons,
   km |-> [c \in {} |-> NoneD], chords |-> <<>>]

AddLayer(cfg, s) ==         \* an invalid section adds nothing
  LET toks == Tokens(s, ":")
      name == toks[1]
      type == IF Len(toks) > 1 THEN toks[2] ELSE ""
      parts == Tokens(name, "+")
      cons == [i \in 1..Len(parts) |-> LayerIdx(cfg, parts[i])]
      ms == ModSet(type, {})
      add(l) == [cfg EXCEPT !.layers = Append(@, l)]
  IN IF Len(s) > MaxSectionName \/ toks = <<>> THEN cfg
     ELSE IF LayerIdx(cfg, name) # 0 \/ Len(cfg.layers) >= MaxLayers THEN cfg
     ELSE IF Has(name, "+")
     THEN IF type # "" \/ (\E i \in 1..Len(cons) : cons[i] = 0) \/ Len(cons) > 8 THEN cfg
          ELSE add(NewLayer(name, "composite", {}, cons))
     ELSE IF type = "layout" THEN add(NewLayer(name, "layout", {}, <<>>))
     ELSE IF type # "" /\ ms.ok THEN add(NewLayer(name, "normal", ms.mods, <<>>))
     ELSE add(NewLayer(name, "normal", {}, <<>>))

\* How well a configuration fits a device of the given kinds: the first id
\* which is a prefix of the id of the device, and is meant for its kind, decides.
RECURSIVE MatchIds(_, _, _, _)
MatchIds(cfg, id, kinds, i) ==
  IF i > Len(cfg.ids) THEN (IF cfg.wild THEN 1 ELSE 0)
  ELSE LET e == cfg.ids[i] IN
    IF ~StartsWith(id, e.id) THEN MatchIds(cfg, id, kinds, i + 1)
    ELSE IF "excluded" \in e.kinds THEN 0
    ELSE IF e.kinds \cap kinds # {} THEN 2
    ELSE MatchIds(cfg, id, kinds, i + 1)
Match(cfg, id, kinds) == MatchIds(cfg, id, kinds, 1)

MaxIds == 64
Trunc63(s) == SubSeq(s, 1, IF Len(s) > 63 THEN 63 ELSE Len(s))
RECURSIVE AddIds(_, _, _)
AddIds(cfg, ents, i) ==
  IF i > Len(ents) THEN cfg
  ELSE LET s == ents[i].key
           add(id, kinds) == [cfg EXCEPT !.ids = Append(@, [id |-> Trunc63(id), kinds |-> kinds])]
           c2 == IF s = "*" THEN [cfg EXCEPT !.wild = TRUE]
                 ELSE IF Len(cfg.ids) >= MaxIds THEN cfg
                 ELSE IF StartsWith(s, "m:") THEN add(From(s, 3), {"mouse"})
                 ELSE IF StartsWith(s, "k:") THEN add(From(s, 3), {"keyboard"})
                 ELSE IF StartsWith(s, "-") THEN add(From(s, 2), {"excluded"})
                 ELSE IF Len(s) < 63 THEN add(s, {"keyboard", "mouse"})
                 ELSE cfg
       IN AddIds(c2, ents, i + 1)

RECURSIVE AddAliases(_, _, _)
AddAliases(cfg, ents, i) ==
  IF i > Len(ents) THEN cfg
  ELSE LET e == ents[i]
           c == KeyCode(e.key)
           n == e.val
           c1 == IF KeyCode(n) # 0 /\ Len(cfg.layers) > 0
                 THEN [cfg EXCEPT !.layers[1].km = SetKm(@, c, KeyD(KeyCode(n), {}))] ELSE cfg
           c2 == IF ~e.has \/ c = 0 \/ Len(n) >= 32 THEN cfg
                 ELSE [c1 EXCEPT !.aliases = [x \in DOMAIN @ \cup {c} |-> IF x = c THEN n ELSE @[x]]]
       IN AddAliases(c2, ents, i + 1)

OptName == [ macro_timeout |-> "mt", macro_sequence_timeout |-> "mst", disable_modifier_guard |-> "dmg",
             oneshot_timeout |-> "ost", chord_hold_timeout |-> "cht", chord_timeout |-> "cit",
             macro_repeat_timeout |-> "mrt", layer_indicator |-> "li", overload_tap_timeout |-> "ott" ]
RECURSIVE AddOpts(_, _, _)
AddOpts(cfg, ents, i) ==
  IF i > Len(ents) THEN cfg
  ELSE LET e == ents[i]
           v == AToI(e.val)
           c2 == IF ~e.has THEN cfg
                 ELSE IF e.key = "default_layout" THEN [cfg EXCEPT !.dl = Trunc63(e.val)]
                 ELSE IF e.key \in DOMAIN OptName
                 THEN LET f == OptName[e.key]
                          w == IF f \in {"dmg", "li"} THEN v % 256 ELSE v
                      IN [cfg EXCEPT !.o[f] = w]
                 ELSE cfg
       IN AddOpts(c2, ents, i + 1)

Special == {"ids", "aliases", "global"}
RECURSIVE Pass1(_, _, _)
Pass1(cfg, secs, i) ==
  IF i > Len(secs) THEN cfg
  ELSE LET s == secs[i] IN
       Pass1(CASE s.name = "ids" -> AddIds(cfg, s.ents, 1)
               [] s.name = "aliases" -> AddAliases(cfg, s.ents, 1)
               [] s.name = "global" -> AddOpts(cfg, s.ents, 1)
               [] OTHER -> AddLayer(cfg, s.name), secs, i + 1)

RECURSIVE AddEntries(_, _, _, _)
AddEntries(cfg, lname, ents, i) ==
  IF i > Len(ents) THEN cfg
  ELSE LET e == ents[i] IN
       AddEntries(IF e.has THEN AddEntry(cfg, lname \o "." \o e.key \o " = " \o e.val).cfg ELSE cfg,
                  lname, ents, i + 1)
RECURSIVE Pass2(_, _, _)
Pass2(cfg, secs, i) ==
  IF i > Len(secs) THEN cfg
  ELSE LET s == secs[i]
           toks == Tokens(s.name, ":")
       IN Pass2(IF s.name \in Special \/ toks = <<>> THEN cfg
                ELSE AddEntries(cfg, toks[1], s.ents, 1), secs, i + 1)

ParseLines(cfg, lines) ==
  LET ini == IniFold(lines, 1, <<>>, 0)
  IN IF ini.ok THEN [ok |-> TRUE, cfg |-> Pass2(Pass1(cfg, ini.secs, 1), ini.secs, 1)]
     ELSE [ok |-> FALSE]

(*************************** files *****************************************)
EmptyConfig ==
  [layers |-> <<>>, aliases |-> [c \in {} |-> ""], ids |-> <<>>, wild |-> FALSE, dl |-> "",
   o |-> [mt |-> 0, mst |-> 0, mrt |-> 0, ost |-> 0, ott |-> 0, cit |-> 0, cht |-> 0, dmg |-> 0, li |-> 0],
   nm |-> 0, nd |-> 0, nc |-> 0]

BuiltinLines == <<
  "[aliases]", "leftshift = shift", "rightshift = shift", "leftalt = alt", "rightalt = altgr",
  "leftmeta = meta", "rightmeta = meta", "leftcontrol = control", "rightcontrol = control",
  "[main:layout]", "shift = layer(shift)", "alt = layer(alt)", "altgr = layer(altgr)",
  "meta = layer(meta)", "control = layer(control)",
  "[control:C]", "[shift:S]", "[meta:M]", "[alt:A]", "[altgr:G]" >>

BuiltinConfig ==
  [ParseLines(EmptyConfig, BuiltinLines).cfg EXCEPT
     !.o = [@ EXCEPT !.cit = 50, !.cht = 0, !.ost = 0, !.mt = 600, !.mrt = 50]]

MaxLine == 256
MaxFile == 65536
SumLen(lines) ==
  LET RECURSIVE S(_)
      S(i) == IF i = 0 THEN 0 ELSE S(i - 1) + Len(lines[i]) + 1
  IN S(Len(lines))

\* A file is a sequence of lines; incs maps the names of the files which can be
\* included to their lines.
RECURSIVE Splice(_, _, _)
Splice(lines, incs, i) ==
  IF i > Len(lines) THEN <<>>
  ELSE LET l == lines[i] IN
    IF StartsWith(l, "include ")
    THEN LET p == LTrim(From(l, 9), {" "})
         IN (IF Has(p, ".") \/ p \notin DOMAIN incs THEN <<>> ELSE incs[p]) \o Splice(lines, incs, i + 1)
    ELSE <<l>> \o Splice(lines, incs, i + 1)

\* base is BuiltinConfig: TLC does not cache the value of such a definition, so
\* the users of this module evaluate it once and hand it in.
ParseFile(base, lines, incs) ==
  LET all == Splice(lines, incs, 1)
  IN IF \E i \in 1..Len(lines) : Len(lines[i]) >= MaxLine THEN [ok |-> FALSE]
     ELSE IF SumLen(all) > MaxFile THEN [ok |-> FALSE]
     ELSE ParseLines(base, all)
=============================================================================
