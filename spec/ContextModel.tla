---------------------------- MODULE ContextModel ---------------------------
(* Every history of up to K changes, saves and restores of the settings.  The *)
(* value of each setting is compared with what the text of the history says:  *)
(* that of the last change, or that at the save a restore belongs to.         *)
EXTENDS Context
CONSTANT K
VARIABLES hist, s
vars == <<hist, s>>
H == [use |-> 16, late |-> FALSE, order |-> <<"D1", "D2", "D3", "CS1", "CS2">>,
      grp |-> [D1 |-> "G", D2 |-> "G", D3 |-> "", CS1 |-> "", CS2 |-> ""],
      size |-> [D1 |-> 4, D2 |-> 5, D3 |-> 16, CS1 |-> 4, CS2 |-> 4]]
\* one change of each kind, told by the length of the history so far
Change(k, m) ==
  CASE k = "assumes" -> [op |-> "assume", ps |-> <<<<IF m % 2 = 0 THEN "ds" ELSE "es", IF m % 3 = 0 THEN "NOTHING" ELSE "D1">>>>]
    [] k = "radix" -> [op |-> "radix", r |-> 2 + m]
    [] k = "listing" -> IF m % 2 = 0 THEN [op |-> "lmac", how |-> IF m % 4 = 0 THEN "none" ELSE "all"] ELSE [op |-> "tif"]
    [] k = "cpu" -> [op |-> "cpu", d |-> [k |-> "cpu", lvl |-> m % 7, pm |-> m % 2 = 1 /\ m % 7 > 1],
                     t |-> CASE m % 7 = 0 -> ".8086" [] m % 7 = 1 -> ".186" [] m % 7 = 2 -> ".286" [] m % 7 = 3 -> ".386p" [] m % 7 = 4 -> ".486" [] m % 7 = 5 -> ".586p" [] m % 7 = 6 -> ".686"]
    [] k = "alignment" -> IF m % 2 = 0 THEN [op |-> "field", a |-> 8] ELSE [op |-> "palign", a |-> 4]
Alphabet(m) == {Change(k, m) : k \in Kinds} \cup {[op |-> o, ks |-> <<k>>] : o \in {"push", "pop"}, k \in Kinds \cup {"all"}}
               \cup {[op |-> "push", ks |-> <<"radix", "alignment">>], [op |-> "pop", ks |-> <<"alignment", "all">>]}
Init == hist = <<>> /\ s = Start(H)
Next == Len(hist) < K /\ s.e1 = {} /\ \E S \in Alphabet(Len(hist)) : hist' = Append(hist, S) /\ s' = TLCEval(Step(s, S, Len(hist) + 1))
----
KindOf(S) == CASE S.op = "assume" -> "assumes" [] S.op = "radix" -> "radix" [] S.op \in {"lmac", "tif"} -> "listing" [] S.op = "cpu" -> "cpu" [] S.op \in {"field", "palign"} -> "alignment" [] OTHER -> ""
\* the saves and restores of kind k, one by one, in order: +1 / -1 with the place
Names(S, k) == S.op \in {"push", "pop"} /\ \E j \in DOMAIN S.ks : k \in Parts(S.ks[j])
\* depth of kind k before statement p
Depth(k, p) == Cardinality({q \in 1..(p - 1) : hist[q].op = "push" /\ Names(hist[q], k)}) - Cardinality({q \in 1..(p - 1) : hist[q].op = "pop" /\ Names(hist[q], k)})
\* the save that the restore p of kind k belongs to: the last one before it at its depth
Partner(k, p) == LET qs == {q \in 1..(p - 1) : hist[q].op = "push" /\ Names(hist[q], k) /\ Depth(k, q) = Depth(k, p) - 1} IN CHOOSE q \in qs : \A r \in qs : r <= q
RECURSIVE Value(_, _)
Value(k, p) == \* of kind k before statement p
  IF p = 1 THEN Start(H).set[k]
  ELSE LET S == hist[p - 1] IN
       IF KindOf(S) = k THEN Step([Start(H) EXCEPT !.set[k] = Value(k, p - 1)], S, 1).set[k]
       ELSE IF S.op = "pop" /\ Names(S, k) THEN Value(k, Partner(k, p - 1))
       ELSE Value(k, p - 1)
Bad(p) == hist[p].op = "pop" /\ \E k \in Kinds : Names(hist[p], k) /\ Depth(k, p) <= 0
Restored == IF s.e1 = {} THEN \A k \in Kinds : s.set[k] = Value(k, Len(hist) + 1) /\ Len(s.saved[k]) = Depth(k, Len(hist) + 1)
            ELSE s.e1 = {Len(hist)} /\ Bad(Len(hist))
Fine == (s.e1 = {}) = (\A p \in DOMAIN hist : ~Bad(p))
Inv == Restored /\ Fine /\ (Len(hist) = K \/ s.e1 # {} => PrintT(<<"@S", 0, ToJson([h |-> H, hist |-> hist])>>))
=============================================================================
