------------------------------- MODULE Text -------------------------------
(* Strings as the assembler sees them: characters, identifiers, tokens.    *)
(* A source line is a TLA+ string; a token is a record                     *)
(*   k : "id" | "num" | "str" (quoted) | "ang" (<...>) | "op"              *)
(*   t : its text as written      p, e : first position, position behind   *)
(*   v : for "ang", the text inside with the '!' operators resolved;       *)
(*       for "str" the characters between the quotes                       *)
EXTENDS Naturals, Integers, Sequences, TLC

Ch(s, i) == SubSeq(s, i, i)
From(s, i) == SubSeq(s, i, Len(s))
Upto(s, i) == SubSeq(s, 1, i)

Digits == {"0","1","2","3","4","5","6","7","8","9"}
IdFirst == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p",
            "q","r","s","t","u","v","w","x","y","z",
            "A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P",
            "Q","R","S","T","U","V","W","X","Y","Z","_","@","?","$"}
IdChars == IdFirst \cup Digits
Blank == {" ", "\t"}

UpLow == [A |-> "a", B |-> "b", C |-> "c", D |-> "d", E |-> "e", F |-> "f",
          G |-> "g", H |-> "h", I |-> "i", J |-> "j", K |-> "k", L |-> "l",
          M |-> "m", N |-> "n", O |-> "o", P |-> "p", Q |-> "q", R |-> "r",
          S |-> "s", T |-> "t", U |-> "u", V |-> "v", W |-> "w", X |-> "x",
          Y |-> "y", Z |-> "z"]
LowC(c) == IF c \in DOMAIN UpLow THEN UpLow[c] ELSE c

RECURSIVE Lower(_)
Lower(s) == IF s = "" THEN "" ELSE LowC(Ch(s, 1)) \o Lower(From(s, 2))

DigVal == [c \in Digits |->
  CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4
    [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] c = "9" -> 9]

RECURSIVE Dec(_, _)          \* decimal text to number
Dec(s, acc) == IF s = "" THEN acc ELSE Dec(From(s, 2), acc * 10 + DigVal[Ch(s, 1)])
NumOf(s) == Dec(s, 0)
Str(n) == IF n < 0 THEN "-" \o ToString(0 - n) ELSE ToString(n)

HexDigs == <<"0","1","2","3","4","5","6","7","8","9","A","B","C","D","E","F">>
Hex4(n) == HexDigs[((n \div 4096) % 16) + 1] \o HexDigs[((n \div 256) % 16) + 1]
        \o HexDigs[((n \div 16) % 16) + 1] \o HexDigs[(n % 16) + 1]

\* position of the first character at or behind i that is not in set S
RECURSIVE SkipIn(_, _, _)
SkipIn(s, i, S) == IF i <= Len(s) /\ Ch(s, i) \in S THEN SkipIn(s, i + 1, S) ELSE i

\* position behind the '>' that closes the '<' before i; 0 if there is none.
\* '!' takes the next character literally.
RECURSIVE CloseAng(_, _, _)
CloseAng(s, i, lvl) ==
  IF i > Len(s) THEN 0
  ELSE LET c == Ch(s, i) IN
       IF c = "!" THEN CloseAng(s, i + 2, lvl)
       ELSE IF c = "<" THEN CloseAng(s, i + 1, lvl + 1)
       ELSE IF c = ">" THEN (IF lvl = 0 THEN i + 1 ELSE CloseAng(s, i + 1, lvl - 1))
       ELSE CloseAng(s, i + 1, lvl)

RECURSIVE Unbang(_)
Unbang(s) == IF s = "" THEN ""
             ELSE IF Ch(s, 1) = "!" /\ Len(s) > 1 THEN SubSeq(s, 2, 2) \o Unbang(From(s, 3))
             ELSE Ch(s, 1) \o Unbang(From(s, 2))

RECURSIVE CloseQuote(_, _, _)
CloseQuote(s, i, q) == IF i > Len(s) THEN 0 ELSE IF Ch(s, i) = q THEN i + 1
                       ELSE CloseQuote(s, i + 1, q)

RECURSIVE Tok(_, _, _)
Tok(s, i0, acc) ==
  LET i == SkipIn(s, i0, Blank) IN
  IF i > Len(s) \/ Ch(s, i) = ";" THEN acc
  ELSE LET c == Ch(s, i)
           mk(k, e, v) == [k |-> k, t |-> SubSeq(s, i, e - 1), p |-> i, e |-> e, v |-> v]
       IN IF c \in IdFirst
          THEN LET e == SkipIn(s, i, IdChars) IN Tok(s, e, Append(acc, mk("id", e, "")))
          ELSE IF c = "." /\ i < Len(s) /\ Ch(s, i + 1) \in IdFirst /\ acc = <<>>
          THEN LET e == SkipIn(s, i + 1, IdChars) IN Tok(s, e, Append(acc, mk("id", e, "")))
          ELSE IF c \in Digits
          THEN LET e == SkipIn(s, i, IdChars) IN Tok(s, e, Append(acc, mk("num", e, "")))
          ELSE IF c \in {"'", "\""}
          THEN LET e0 == CloseQuote(s, i + 1, c)
                   e == IF e0 = 0 THEN Len(s) + 1 ELSE e0
               IN Tok(s, e, Append(acc, mk("str", e, SubSeq(s, i + 1, e - 2))))
          ELSE IF c = "<"
          THEN LET e0 == CloseAng(s, i + 1, 0)
                   e == IF e0 = 0 THEN Len(s) + 1 ELSE e0
               IN Tok(s, e, Append(acc, mk("ang", e, Unbang(SubSeq(s, i + 1, e - 2)))))
          ELSE Tok(s, i + 1, Append(acc, mk("op", i + 1, "")))

Tokens(s) == Tok(s, 1, <<>>)

Fold0(a, b) == a
RECURSIVE JoinWith(_, _)
JoinWith(ss, sep) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1]
                     ELSE ss[1] \o sep \o JoinWith(Tail(ss), sep)

RTrim(s) == LET RECURSIVE r(_)
                r(x) == IF x # "" /\ Ch(x, Len(x)) \in Blank THEN r(SubSeq(x, 1, Len(x) - 1)) ELSE x
            IN r(s)
LTrim(s) == From(s, SkipIn(s, 1, Blank))
Trim(s) == RTrim(LTrim(s))
IsBlank(s) == SkipIn(s, 1, Blank) > Len(s)

\* first position i >= from with SubSeq(s, i, i+Len(x)-1) = x, or 0
RECURSIVE IndexOf(_, _, _)
IndexOf(s, x, from) == IF from + Len(x) - 1 > Len(s) THEN 0
                       ELSE IF SubSeq(s, from, from + Len(x) - 1) = x THEN from
                       ELSE IndexOf(s, x, from + 1)

\* character codes of the characters that the generated programs use
CodeOf == [c \in {" ","\t","!","#","$","%","&","*","+",",","-",".","/",":","=","?","@","_","|","(",")","<",">","[","]",";","'","{","}"} |->
  CASE c = " " -> 32 [] c = "\t" -> 9 [] c = "!" -> 33 [] c = "#" -> 35 [] c = "$" -> 36 [] c = "%" -> 37
    [] c = "&" -> 38 [] c = "*" -> 42 [] c = "+" -> 43 [] c = "," -> 44 [] c = "-" -> 45
    [] c = "." -> 46 [] c = "/" -> 47 [] c = ":" -> 58 [] c = "=" -> 61 [] c = "?" -> 63
    [] c = "@" -> 64 [] c = "_" -> 95 [] c = "|" -> 124
    [] c = "(" -> 40 [] c = ")" -> 41 [] c = "<" -> 60 [] c = ">" -> 62 [] c = "[" -> 91 [] c = "]" -> 93
    [] c = ";" -> 59 [] c = "'" -> 39 [] c = "{" -> 123 [] c = "}" -> 125]
LowSeq == <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s",
            "t","u","v","w","x","y","z">>
UpSeq == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S",
            "T","U","V","W","X","Y","Z">>
LowCode == [i \in {LowSeq[k] : k \in 1..26} |-> 96 + (CHOOSE k \in 1..26 : LowSeq[k] = i)]
UpCode == [i \in {UpSeq[k] : k \in 1..26} |-> 64 + (CHOOSE k \in 1..26 : UpSeq[k] = i)]
Code(c) == IF c \in Digits THEN 48 + DigVal[c]
           ELSE IF c \in DOMAIN LowCode THEN LowCode[c]
           ELSE IF c \in DOMAIN UpCode THEN UpCode[c]
           ELSE CodeOf[c]
Codes(s) == [i \in 1..Len(s) |-> Code(Ch(s, i))]
=============================================================================
