------------------------------ MODULE DataBatch ------------------------------
(* Programs of data definitions, executed statement by statement: the image   *)
(* and the values of the attribute and address expressions. Statements:       *)
(*  def  label ("" if none), size n, kind, text                               *)
(*  attr name of a constant, which attribute, label                           *)
(*  dist name of a constant: $ - label                                        *)
EXTENDS Data, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, pc, img, env, lab, errs, open
vars == <<i, pc, img, env, lab, errs, open>>
C(c) == [rx |-> 10, bits |-> c.bits, sym |-> env]
None == [x \in {} |-> <<>>]
Init == /\ i \in 1..Len(Cases) /\ pc = 1 /\ img = <<>> /\ env = Cases[i].init /\ lab = None /\ errs = <<>> /\ open = FALSE
Stmt == Cases[i].stmts[pc]
Set(f, k, v) == (k :> v) @@ f
Num(v) == Ext(Small(v, 4), 16)
Step ==
  LET s == Stmt IN
  IF s.op = "def" THEN
    LET x == Define(s.text, C(Cases[i]), s.n, s.kind) IN
    IF x.ok THEN /\ img' = img \o x.b
                 /\ lab' = IF s.label = "" THEN lab ELSE Set(lab, s.label, [at |-> Len(img)] @@ Attrs(x, s.n))
                 /\ UNCHANGED <<env, errs, open>>
    ELSE /\ errs' = Append(errs, pc) /\ open' = (open \/ x.why = "open") /\ UNCHANGED <<img, env, lab>>
  ELSE IF s.label \notin DOMAIN lab THEN open' = TRUE /\ UNCHANGED <<img, env, lab, errs>>
  ELSE /\ env' = Set(env, s.name, Num(IF s.op = "dist" THEN Len(img) - lab[s.label].at ELSE lab[s.label][s.what]))
       /\ UNCHANGED <<img, lab, errs, open>>
Next == pc <= Len(Cases[i].stmts) /\ Step /\ pc' = pc + 1 /\ i' = i
\* labels never overlap: what a label covers ends at or before the next one
Disjoint == \A a, b \in DOMAIN lab : lab[a].at < lab[b].at => lab[a].at + lab[a].sizeof <= lab[b].at
Report == pc > Len(Cases[i].stmts) =>
  PrintT(<<"@V", i, ToJson([img |-> img, errs |-> errs, open |-> open])>>)
Inv == Report /\ Disjoint
=============================================================================
