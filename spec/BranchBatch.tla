----------------------------- MODULE BranchBatch -----------------------------
(* For each program without ALIGN: the least layout and its code. For each  *)
(* with recorded addresses (field a, code c): is it an acceptable layout?   *)
EXTENDS Branch, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, S, done
vars == <<i, S, done>>
P == Cases[i].p
Env == [w |-> Cases[i].w, x |-> Cases[i].x]
Init == i \in 1..Len(Cases) /\ S = Must(P) /\ done = FALSE
Next == /\ ~done
        /\ LET G == Growing(P, Env, S, Cases[i].base)
           IN IF G = {} THEN done' = TRUE /\ S' = S ELSE S' = S \cup G /\ done' = done
        /\ i' = i
Plain == ~\E k \in DOMAIN P : P[k].k = "al"
Bad == {k \in TooFar(P, Env, S, Cases[i].base) : Never(P[k])}
Fun(f) == [j \in 1..Cardinality(DOMAIN f) |-> LET k == CHOOSE x \in DOMAIN f : Cardinality({y \in DOMAIN f : y < x}) = j - 1 IN <<k, f[k]>>]
Verdict == LET c == Cases[i]
               C == [k \in {c.c[j][1] : j \in DOMAIN c.c} |-> c.c[CHOOSE j \in DOMAIN c.c : c.c[j][1] = k][2]]
           IN [consistent |-> Consistent(P, Env, c.a), reaches |-> Reaches(P, Env, c.a, C), shortest |-> Shortest(P, Env, c.a)]
Report == done =>
   IF "a" \in DOMAIN Cases[i] THEN PrintT(<<"@VERDICT", i, ToJson(Verdict)>>)
   ELSE PrintT(<<"@OUT", i, ToJson([a |-> Addrs(P, Env, S, Cases[i].base), c |-> Fun(Code(P, Env, S, Cases[i].base)), bad |-> Bad])>>)
Mono == S \subseteq {k \in DOMAIN P : IsBr(P[k])}
Sound == done /\ Plain /\ Bad = {} => LET A == Addrs(P, Env, S, Cases[i].base) IN Consistent(P, Env, A) /\ Shortest(P, Env, A) /\ ShortestAlone(P, Env, S, Cases[i].base)
=============================================================================
