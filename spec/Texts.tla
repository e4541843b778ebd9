------------------------------- MODULE Texts --------------------------------
(* Texts, and positions in them as LSP has them: lines end at "\n", "\r\n" and "\r" only; columns count bytes (UTF-8) or 16-bit units
   (UTF-16); a column past the end of its line is that end, a line past the last one is the end of the text.
   A text is a sequence of kinds of characters: "a" of one byte, "e" of two, "u" of three, "s" of four (and two units), "n" and "r" the two
   line ends, "f" a character of one byte that ends lines for typst (as a form feed does) but not for LSP, "v" one that ends lines for both. *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Counts,       \* "units": columns are counted in what was agreed on; "chars": in characters with UTF-8
          Clamps,       \* a column past the end of its line is that end
          OwnLines      \* lines end where LSP says, not typst

Width(enc, c) == IF enc = "utf16" THEN IF c = "s" THEN 2 ELSE 1
                 ELSE CASE c = "e" -> 2 [] c = "u" -> 3 [] c = "s" -> 4 [] OTHER -> 1
EndsAt(t, i, own) == \/ t[i] \in {"n", "v"}
                     \/ t[i] = "f" /\ ~own
                     \/ t[i] = "r" /\ ~(IF i < Len(t) THEN t[i + 1] = "n" ELSE FALSE)
Ends(t, own) == {i \in DOMAIN t : EndsAt(t, i, own)}
NLines(t, own) == Cardinality(Ends(t, own)) + 1
(* The offset at which a line starts: so many characters before it. *)
Start(t, l, own) == IF l = 0 THEN 0 ELSE CHOOSE i \in Ends(t, own) : Cardinality({k \in Ends(t, own) : k <= i}) = l
(* ... and where it ends: before its line end. *)
End(t, l, own) ==
  IF l + 1 = NLines(t, own) THEN Len(t)
  ELSE LET i == Start(t, l + 1, own) IN
       IF i > 1 /\ t[i] = "n" THEN IF t[i - 1] = "r" THEN i - 2 ELSE i - 1 ELSE IF t[i] \in {"n", "r"} THEN i - 1 ELSE i
RECURSIVE Sum(_, _, _, _)
Sum(enc, t, i, j) == IF i >= j THEN 0 ELSE Width(enc, t[i + 1]) + Sum(enc, t, i + 1, j)
Bytes(t, i) == Sum("utf8", t, 0, i)

(* Where a client says offset i is. Nothing is said to be between "\r" and "\n". *)
Splits(t, i) == IF i = 0 \/ i = Len(t) THEN FALSE ELSE t[i] = "r" /\ t[i + 1] = "n"
LineOf(t, i, own) == Cardinality({k \in Ends(t, own) : k <= i})
Pos(t, i, enc) == LET l == LineOf(t, i, TRUE) IN <<l, Sum(enc, t, Start(t, l, TRUE), i)>>
(* What offsets a position may be: in the middle of a character, those before and after it. *)
Offsets(t, p, enc) ==
  IF p[1] >= NLines(t, TRUE) THEN {Len(t)}
  ELSE LET s == Start(t, p[1], TRUE) e == End(t, p[1], TRUE) IN
       IF Sum(enc, t, s, e) <= p[2] THEN {e}
       ELSE LET below == CHOOSE k \in s..e : Sum(enc, t, s, k) <= p[2] /\ Sum(enc, t, s, k + 1) > p[2] IN
            IF Sum(enc, t, s, below) = p[2] THEN {below} ELSE {below, below + 1}

(* What the server takes a position for. *)
Col(enc, c) == IF Counts = "chars" /\ enc = "utf8" THEN 1 ELSE Width(enc, c)
RECURSIVE Walk(_, _, _, _, _)
Walk(t, k, e, n, enc) == IF n = 0 \/ k >= e THEN k ELSE Walk(t, k + 1, e, IF n < Col(enc, t[k + 1]) THEN 0 ELSE n - Col(enc, t[k + 1]), enc)
Server(t, p, enc) ==
  IF p[1] >= NLines(t, OwnLines) THEN Len(t)
  ELSE Walk(t, Start(t, p[1], OwnLines), IF Clamps THEN End(t, p[1], OwnLines) ELSE Len(t), p[2], enc)

Splice(t, i, j, with) == SubSeq(t, 1, i) \o with \o SubSeq(t, j + 1, Len(t))
(* Changes of one notification, one after the other: [whole |-> TRUE, t] or [whole |-> FALSE, from, to, t]. *)
RECURSIVE Applied(_, _, _)
Applied(t, cs, enc) ==
  IF cs = <<>> THEN {t}
  ELSE LET c == Head(cs) IN
       IF c.whole THEN Applied(c.t, Tail(cs), enc)
       ELSE UNION {Applied(Splice(t, i, j, c.t), Tail(cs), enc) : i \in Offsets(t, c.from, enc), j \in Offsets(t, c.to, enc)}
=============================================================================
