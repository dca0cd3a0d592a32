------------------------------ MODULE X86Batch -----------------------------
(* Given instructions and machine code (environment CASES): [mode, ins,       *)
(* code (15 bytes longer), len]. The code is read instruction by instruction  *)
(* next to the written ones; s.bad is the first place where they disagree.    *)
EXTENDS X86Ins, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
Lines(x) == {x[k] : k \in 1..Len(x)}
Arg(x) == IF x.k = "m" THEN [x EXCEPT !.regs = Lines(@)] ELSE x
Ins(w) == [op |-> w.op, args |-> [k \in 1..Len(w.args) |-> Arg(w.args[k])], rep |-> w.rep, lock |-> w.lock]
VARIABLES i, k, p, bad
vars == <<i, k, p, bad>>
Init == i \in 1..Len(Cases) /\ k = 0 /\ p = 1 /\ bad = <<>>
More == bad = <<>> /\ k < Len(Cases[i].ins)
Step == LET c == Cases[i] IN
    IF c.len = 0 THEN
        /\ k' = k + 1 /\ UNCHANGED <<p, bad>>
    ELSE LET w == Ins(c.ins[k + 1]) IN
        LET d == Decode(c.code, p, c.mode) IN
        /\ k' = k + 1 /\ p' = p + d.len
        /\ bad' = IF p + d.len - 1 <= c.len /\ Same(w, d, c.mode) THEN <<>> ELSE <<k + 1, p, d>>
Next == More /\ Step /\ i' = i
Done == LET c == Cases[i] IN
    [bad |-> IF bad # <<>> THEN bad ELSE IF c.len > 0 /\ p # c.len + 1 THEN <<0, p, "bytes behind the last instruction">> ELSE <<>>,
     enc |-> {j \in 1..Len(c.ins) : Encodable(Ins(c.ins[j]), c.mode)}]
Inv == ~More => PrintT(<<"@V", i, ToJson(Done)>>)
=============================================================================
