------------------------------ MODULE DataModel ------------------------------
(* All small initialiser lists, built by appending an item, by putting        *)
(* everything under DUP, or the last item: what the definition of Data.tla    *)
(* makes of their text against the meaning of the tree.                       *)
EXTENDS Data, Json
CONSTANTS MaxOps
VARIABLES t, ops, n
vars == <<t, ops, n>>
\* items: <<"v", number>>, <<"s", string>>, <<"?">>, <<"d", count, list>>
Leaves == {<<"v", 7>>, <<"v", -2>>, <<"s", "pq">>, <<"?">>}
Init == t \in {<<x>> : x \in Leaves} /\ ops = 1 /\ n \in {1, 2, 4}
Counts == 0..3
Next == /\ ops < MaxOps /\ ops' = ops + 1 /\ n' = n
        /\ \/ \E x \in Leaves : t' = Append(t, x)
           \/ \E k \in Counts : t' = << <<"d", k, t>> >>
           \/ Len(t) > 1 /\ \E k \in Counts : t' = Append(SubSeq(t, 1, Len(t) - 1), <<"d", k, <<t[Len(t)]>> >>)
RECURSIVE Show(_)
RECURSIVE ShowItem(_)
ShowItem(x) == CASE x[1] = "v" -> Str(x[2]) [] x[1] = "s" -> "'" \o x[2] \o "'" [] x[1] = "?" -> "?"
                 [] x[1] = "d" -> Str(x[2]) \o " dup (" \o Show(x[3]) \o ")"
Show(l) == ShowItem(l[1]) \o (IF Len(l) = 1 THEN "" ELSE ", " \o Show(Tail(l)))

\* ---- meaning: the sequence of elements
RECURSIVE Elems(_)
RECURSIVE Times(_, _)
Times(s, k) == IF k = 0 THEN <<>> ELSE s \o Times(s, k - 1)
ElemsOf(x) == CASE x[1] = "v" -> <<Small(x[2], n)>> [] x[1] = "?" -> <<Zero(n)>>
                [] x[1] = "s" -> (IF n = 1 THEN [k \in 1..Len(x[2]) |-> <<Code(Ch(x[2], k))>>]
                                  ELSE << [k \in 1..n |-> IF k > Len(x[2]) THEN 0 ELSE Code(Ch(x[2], Len(x[2]) + 1 - k))] >>)
                [] x[1] = "d" -> Times(Elems(x[3]), x[2])
Elems(l) == IF l = <<>> THEN <<>> ELSE ElemsOf(l[1]) \o Elems(Tail(l))
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE s[1] \o Flat(Tail(s))

C0 == [rx |-> 10, bits |-> 32, sym |-> <<>>]
D == Define(Show(t), C0, n, "int")
Meaning == LET e == Elems(t)  d == D IN
  /\ d.ok /\ d.b = Flat(e) /\ d.n = Len(e) /\ Len(d.b) = n * d.n
  /\ d.first = (IF t[1][1] = "d" THEN t[1][2] ELSE 1)
Report == PrintT(<<"@V", 0, ToJson([n |-> n, x |-> Show(t), b |-> D.b, len |-> D.n, first |-> D.first])>>)
Inv == Meaning /\ Report
=============================================================================
