---------------------------- MODULE MCLiterals ------------------------------
(***************************************************************************)
(* The literal parser as the state machine the crate uses: one character   *)
(* at a time, a pending escape prefix of at most 8 characters, a state per *)
(* shape of the prefix.  Checked: after any text, finishing the machine    *)
(* (flushing the prefix) yields Decode of the text.  The grammar-level     *)
(* Decode looks ahead, the machine never does.                             *)
(* Second part: printing.  Print is one admissible printer; it denotes its *)
(* argument; and DenotesBody is a function of the text, so two different   *)
(* strings never have a common literal.                                    *)
(***************************************************************************)
EXTENDS Literals, IOUtils, TLC

Deep == IOEnv.TIER = "thorough"
MaxLen == IF Deep THEN 6 ELSE 4      \* characters after the prefix
\* \ u { } 0 2 f x: all the classes of characters (2F000, 30000 and friends can be spelled)
Sigma == {92, 117, 123, 125, 48, 50, 102, 120}
\* texts continue one of these prefixes
Prefixes == { <<>>, <<92, 117>>, <<92, 117, 123>>, <<92, 117, 123, 50, 102>>, <<92, 117, 123, 51, 48, 48, 48>>,
              <<92, 117, 102, 70>>, <<92, 92, 117>>, <<92, 117, 123, 48, 48, 48, 52, 49>> }

VARIABLES text, st, done, pend, code, left, room
vars == <<text, st, done, pend, code, left, room>>
\* st: "init" "slash" "u" "brace" "hex"
Emit(x) == done' = done \o x
Start(pre, c) ==     \* character c in state init, after appending pre
  IF c = Backslash
  THEN /\ Emit(pre) /\ pend' = <<c>> /\ st' = "slash" /\ code' = 0
  ELSE /\ Emit(Append(pre, c)) /\ pend' = <<>> /\ st' = "init" /\ code' = 0
Keep(c, s, v) == pend' = Append(pend, c) /\ st' = s /\ code' = v /\ UNCHANGED done
Close(v) == Emit(<<v>>) /\ pend' = <<>> /\ st' = "init" /\ code' = 0
Accept(c) ==
  CASE st = "init"  -> Start(<<>>, c)
    [] st = "slash" -> IF c = LowerU THEN Keep(c, "u", 0) ELSE Start(pend, c)
    [] st = "u"     -> IF c = LBrace THEN Keep(c, "brace", 0)
                       ELSE IF IsHex(c) THEN Keep(c, "hex", HexDigit(c)) ELSE Start(pend, c)
    [] st = "brace" -> IF c = RBrace /\ Len(pend) > 3 /\ code <= MaxChar THEN Close(code)
                       ELSE IF IsHex(c) /\ Len(pend) < 8 THEN Keep(c, "brace", 16 * code + HexDigit(c))
                       ELSE Start(pend, c)
    [] st = "hex"   -> IF IsHex(c)
                       THEN IF Len(pend) = 5 THEN Close(16 * code + HexDigit(c))
                            ELSE Keep(c, "hex", 16 * code + HexDigit(c))
                       ELSE Start(pend, c)
Init == text = <<>> /\ st = "init" /\ done = <<>> /\ pend = <<>> /\ code = 0 /\ left \in Prefixes /\ room = MaxLen
Forced == left # <<>> /\ Accept(Head(left)) /\ text' = Append(text, Head(left)) /\ left' = Tail(left) /\ UNCHANGED room
Free == /\ left = <<>> /\ room > 0 /\ room' = room - 1
        /\ \E c \in Sigma : Accept(c) /\ text' = Append(text, c)
        /\ UNCHANGED left
Next == Forced \/ Free
Spec == Init /\ [][Next]_vars

Finished == done \o pend
ParserDecodes == Finished = Decode(text)
PendingFits == Len(pend) <= 8
InRange == \A i \in DOMAIN Finished : Finished[i] \in 0..MaxChar
NoLonger == Len(Finished) <= Len(text)

------------------------------------------------------------------------------
(* printing: a backslash before u is escaped, so is everything not printable *)
HexDigits(n, k) == [ i \in 1..k |-> LET d == (n \div (16 ^ (k - i))) % 16 IN IF d < 10 THEN 48 + d ELSE 87 + d ]
Short(n) == IF n < 256 THEN <<Backslash, LowerU, LBrace>> \o HexDigits(n, 2) \o <<RBrace>>
            ELSE IF n < 65536 THEN <<Backslash, LowerU>> \o HexDigits(n, 4)
            ELSE <<Backslash, LowerU, LBrace>> \o HexDigits(n, 5) \o <<RBrace>>
RECURSIVE PrintBody(_)
PrintBody(s) ==
  IF s = <<>> THEN <<>>
  ELSE LET c == Head(s) IN
       (IF c = Quote THEN <<Quote, Quote>>
        ELSE IF c = Backslash /\ Len(s) > 1 /\ s[2] = LowerU THEN Short(c)
        ELSE IF c \in 32..126 THEN <<c>> ELSE Short(c)) \o PrintBody(Tail(s))
\* every finished text is also a string to print
PrintDenotes == Len(text) <= 5 => (DenotesBody(PrintBody(text), text) /\ DenotesBody(PrintBody(Finished), Finished))
=============================================================================
