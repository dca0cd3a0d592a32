----------------------------- MODULE BranchModel -----------------------------
(* Every program of up to MaxItems items over a scaled-down short range, and *)
(* every order in which branches may be moved to the near form: all orders   *)
(* end in the same layout, which is the least consistent one and in which no *)
(* branch alone could be short.                                              *)
EXTENDS Branch, TLC
CONSTANTS MaxItems, Fills, Labels
Br(op, pin, t) == [k |-> "br", op |-> op, code |-> 4, px |-> 0, bnd |-> 0, pin |-> pin, t |-> t, add |-> 0]
Item == {[k |-> "fill", n |-> n] : n \in Fills} \cup {[k |-> "lab", id |-> l] : l \in Labels}
        \cup {Br("jmp", "", l) : l \in Labels} \cup {Br("jcc", "", l) : l \in Labels}
        \cup {Br("jmp", "near", l) : l \in Labels} \cup {Br("jcc", "short", l) : l \in Labels}
Env == [w |-> 2, x |-> FALSE]
VARIABLES P, S, phase
vars == <<P, S, phase>>
Count(l) == Cardinality({k \in DOMAIN P : P[k].k = "lab" /\ P[k].id = l})
Init == P = <<>> /\ S = {} /\ phase = "write"
Write == /\ phase = "write" /\ Len(P) < MaxItems
         /\ \E it \in Item : /\ it.k = "lab" => Count(it.id) = 0
                             /\ P' = Append(P, it)
         /\ UNCHANGED <<S, phase>>
Start == /\ phase = "write"
         /\ \A k \in DOMAIN P : IsBr(P[k]) => Count(P[k].t) = 1
         /\ phase' = "grow" /\ S' = Must(P) /\ P' = P
Move == /\ phase = "grow"
        /\ \E k \in Growing(P, Env, S, 0) : S' = S \cup {k}
        /\ UNCHANGED <<P, phase>>
Next == Write \/ Start \/ Move
Frees == {k \in DOMAIN P : Free(P[k])}
Settled(T) == Growing(P, Env, T, 0) = {}
\* the layout never exceeds any settled one
Below == phase = "grow" => \A T \in SUBSET Frees : Settled(T \cup Must(P)) => S \subseteq T \cup Must(P)
Final == phase = "grow" /\ Settled(S) =>
   /\ S = Least(P, Env, 0)
   /\ ShortestAlone(P, Env, S, 0)
   /\ Unreachable(P, Env, 0) = {} => Reaches(P, Env, Addrs(P, Env, S, 0), Code(P, Env, S, 0))
=============================================================================
