------------------------------ MODULE SegModel ------------------------------
(* Every program of up to MaxLen statements over two segments, each          *)
(* statement's effect on the counters, and the meaning of the image. The     *)
(* programs that end outside of all segments are printed for replay.         *)
EXTENDS Segments, TLC, Json
CONSTANTS MaxLen, Grouped
VARIABLES P, st
D == <<[al |-> 2, ty |-> "data", g |-> Grouped, flat |-> FALSE, rank |-> 1],
       [al |-> 4, ty |-> "data", g |-> Grouped, flat |-> FALSE, rank |-> 0]>>
Byte == [op |-> "put", v |-> <<[k |-> "b", v |-> Len(P) + 1]>>]
Here == [op |-> "put", v |-> <<[k |-> "r", w |-> 2, e |-> [k |-> "here", d |-> 0]]>>]
Stmts == IF st.stk = <<>> THEN {[op |-> "open", s |-> s] : s \in 1..2}
         ELSE {[op |-> "open", s |-> s] : s \in (1..2) \ ToSet(st.stk)}
              \cup {[op |-> "ends", s |-> Cur(st)], Byte, Here,
                    [op |-> "put", v |-> <<[k |-> "q", n |-> 2]>>],
                    [op |-> "align", n |-> 4], [op |-> "orgrel", d |-> 3], [op |-> "org", n |-> 2]}
              \cup (IF st.segs[Cur(st)].loc > 0 THEN {[op |-> "orgrel", d |-> -1]} ELSE {})
Init == P = <<>> /\ st = InitSt(D)
\* the opened segments are still to be closed
Next == \E x \in Stmts :
          /\ LET n == Len(P) + 1
                 t == Exec(st, D, x, n)
             IN n + Len(t.stk) <= MaxLen /\ st' = t /\ Assert(Untouched(st, t), "foreign counter moved")
          /\ P' = Append(P, x)
Complete == st.stk = <<>> /\ st.puts # <<>>
NoErr == st.err = <<>>
Meaning == Complete => InBounds(st) /\ Apart(st, D, "seq") /\ Faithful(st, D, "seq") /\ Apart(st, D, "alpha") /\ Faithful(st, D, "alpha") /\ GroupPlaces(st, D, "seq")
Report == Complete /\ Len(P) >= MaxLen - 1 => PrintT(<<"@P", 0, ToJson([p |-> P, img |-> Image(st, D, "seq")])>>)
=============================================================================
