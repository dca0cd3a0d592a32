------------------------------ MODULE CpuModel -----------------------------
(* All histories of up to N processor directives. The set of instructions in  *)
(* force is compared with what the text of the history says; each history is  *)
(* printed for the replay.                                                    *)
EXTENDS CpuIns, Json
CONSTANT N
VARIABLES h, c
vars == <<h, c>>
Init == h = <<>> /\ c = Start
Next == Len(h) < N /\ \E d \in 1..Len(Dirs) : h' = Append(h, d) /\ c' = Set(c, Dirs[d])
(* ---- from the text alone *)
LastOf(S) == LET k == {j \in 1..Len(h) : Dirs[h[j]].k \in S} IN IF k = {} THEN 0 ELSE CHOOSE j \in k : \A x \in k : x <= j
D(j) == Dirs[h[j]]
Level == IF LastOf({"cpu", "x64"}) = 0 THEN 0 ELSE D(LastOf({"cpu", "x64"})).lvl
Priv == IF LastOf({"cpu", "x64"}) = 0 THEN FALSE ELSE D(LastOf({"cpu", "x64"})).pm
Fpu == LET f == LastOf({"fpu"})  q == LastOf({"cpu", "x64"}) IN
       IF f > q THEN D(f).fpu                                  \* chosen since
       ELSE IF f # 0 /\ D(f).fpu = 0 THEN 0                    \* .NO87 stays until a coprocessor is chosen
       ELSE FpuOf(Level)                                       \* comes with the processor
Ext == LET e == LastOf({"ext", "x64"}) IN IF e = 0 THEN {} ELSE IF D(e).k = "x64" THEN ExtAll ELSE {D(e).ext[j] : j \in 1..Len(D(e).ext)}
FromText == c.lvl = Level /\ c.pm = Priv /\ c.fpu = Fpu /\ c.ext = Ext
AllowedIn(x) == {k \in 1..Len(Ins) : Allowed(x, Ins[k], 16) \/ Allowed(x, Ins[k], 64)}
(* a later processor takes nothing away *)
Monotone == \A l \in 0..6 : c.lvl = l => AllowedIn(c) \subseteq AllowedIn([c EXCEPT !.lvl = l + 1])
(* the privileged variant adds the privileged instructions only *)
PrivOnly == LET a == AllowedIn([c EXCEPT !.pm = TRUE]) \ AllowedIn([c EXCEPT !.pm = FALSE]) IN \A k \in a : Ins[k].pm
Out == [h |-> [j \in 1..Len(h) |-> Dirs[h[j]].t]]
Inv == FromText /\ (Len(h) <= 1 => Monotone /\ PrivOnly) /\ (Len(h) > 0 => PrintT(<<"@H", Len(h), ToJson(Out)>>))
=============================================================================
