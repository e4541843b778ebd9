------------------------------ MODULE FpText ------------------------------
(***************************************************************************)
(* The text of a fingerprint: the eight bytes of its low half, then those  *)
(* of its high half up to the last one that is not zero, in base64 without *)
(* padding.  TLC shows that texts name fingerprints uniquely and that the  *)
(* parser accepts nothing else, and emits fingerprints and near-texts.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json

CONSTANTS LoBytes, LoSplit, HiBytes, HiSplit   \* a half: LoSplit free bytes, the rest repeats the last one

Alphabet == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z",
              "a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z",
              "0","1","2","3","4","5","6","7","8","9","+","/">>
Chr(v) == Alphabet[v + 1]
IsDigit(c) == \E i \in 1..64 : Alphabet[i] = c
Val(c) == (CHOOSE i \in 1..64 : Alphabet[i] = c) - 1

RECURSIVE Enc(_)
Enc(b) == CASE Len(b) = 0 -> <<>>
            [] Len(b) = 1 -> <<Chr(b[1] \div 4), Chr((b[1] % 4) * 16)>>
            [] Len(b) = 2 -> <<Chr(b[1] \div 4), Chr((b[1] % 4) * 16 + b[2] \div 16), Chr((b[2] % 16) * 4)>>
            [] OTHER -> <<Chr(b[1] \div 4), Chr((b[1] % 4) * 16 + b[2] \div 16), Chr((b[2] % 16) * 4 + b[3] \div 64), Chr(b[3] % 64)>>
                        \o Enc(SubSeq(b, 4, Len(b)))
Err == <<-1>>
\* Strict: digits of the alphabet only, no left over digit, no left over bits.
RECURSIVE Dec(_)
Dec(s) == CASE Len(s) = 0 -> <<>>
            [] \E i \in DOMAIN s : ~IsDigit(s[i]) -> Err
            [] Len(s) = 1 -> Err
            [] Len(s) = 2 -> IF Val(s[2]) % 16 # 0 THEN Err ELSE <<Val(s[1]) * 4 + Val(s[2]) \div 16>>
            [] Len(s) = 3 -> IF Val(s[3]) % 4 # 0 THEN Err
                             ELSE <<Val(s[1]) * 4 + Val(s[2]) \div 16, (Val(s[2]) % 16) * 16 + Val(s[3]) \div 4>>
            [] OTHER -> LET r == Dec(SubSeq(s, 5, Len(s))) IN
                        IF r = Err THEN Err
                        ELSE <<Val(s[1]) * 4 + Val(s[2]) \div 16, (Val(s[2]) % 16) * 16 + Val(s[3]) \div 4, (Val(s[3]) % 4) * 64 + Val(s[4])>> \o r

RECURSIVE Strip(_)
Strip(b) == IF b # <<>> /\ b[Len(b)] = 0 THEN Strip(SubSeq(b, 1, Len(b) - 1)) ELSE b
Pad(b) == b \o [i \in 1..(8 - Len(b)) |-> 0]

Text(lo, hi) == Enc(lo) \o Enc(Strip(hi))
Parse(s) == IF Len(s) < 11 THEN Err
            ELSE LET l == Dec(SubSeq(s, 1, 11))
                     h == Dec(SubSeq(s, 12, Len(s))) IN
                 IF l = Err \/ h = Err \/ Len(l) # 8 \/ Len(h) > 8 THEN Err
                 ELSE IF h # Strip(h) THEN Err ELSE l \o Pad(h)

Half(vs, n) == {[i \in 1..8 |-> IF i <= n THEN f[i] ELSE f[n]] : f \in [1..n -> vs]}
Near(s) == {SubSeq(s, 1, n) : n \in 0..Len(s)}
           \cup {s \o <<c>> : c \in {"A", "B", "_", "="}} \cup {s \o <<"A", "A">>}
           \cup {RemoveAt(s, p) : p \in DOMAIN s}
           \cup {[s EXCEPT ![p] = c] : p \in DOMAIN s, c \in {"A", "Q", "g", "/", "-", "="}}

VARIABLES lo, hi
vars == <<lo, hi>>
Init == lo \in Half(LoBytes, LoSplit) /\ hi \in Half(HiBytes, HiSplit)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

RoundTrip == Parse(Text(lo, hi)) = lo \o hi     \* hence different fingerprints have different texts
OnlyTexts == \A s \in Near(Text(lo, hi)) : LET f == Parse(s) IN f = Err \/ Text(SubSeq(f, 1, 8), SubSeq(f, 9, 16)) = s
Emit == PrintT(ToJson([lo |-> lo, hi |-> hi]))
EmitNear == PrintT(ToJson([lo |-> lo, hi |-> hi, near |-> SetToSeq({FoldSeq(LAMBDA a, b : b \o a, "", s) : s \in Near(Text(lo, hi))})]))
=============================================================================
