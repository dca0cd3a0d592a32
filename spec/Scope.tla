------------------------------- MODULE Scope -------------------------------
(* Which definition a name denotes: labels (global, local to a procedure,     *)
(* anonymous), data, constants, parameters and locals, under the case rule    *)
(* (CASEMAP) and OPTION SCOPED/NOSCOPED.                                      *)
(*                                                                            *)
(* A source is a sequence of statements                                       *)
(*   proc n ps | endp | local n | lab n ("n:") | glab n ("n::")               *)
(*   data n ("n dd -1") | here n ("n label dword") | const n v | anon ("@@:") *)
(*   dd n | lea n | back ("dd @B") | fwd ("dd @F")                            *)
(*   scoped b (OPTION SCOPED / NOSCOPED)        *)
(* A name is [b, v]: a base name and the way it is written.                   *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC
Same(cs, a, b) == a.b = b.b /\ (~cs \/ a.v = b.v)
Start(cs) == [loc |-> 0, defs |-> <<>>, in |-> 0, nproc |-> 0, npar |-> 0, nloc |-> 0, scoped |-> TRUE, cs |-> cs,
              anon |-> <<>>, img |-> <<>>, err |-> 0, open |-> FALSE]
Visible(s, n, sc) == SelectSeq(s.defs, LAMBDA d : d.sc = sc /\ Same(s.cs, d.n, n))
\* a name may be defined once among the global names, and once in a procedure
\* in which no global name defined before has the same name
Taken(s, n) == Visible(s, n, 0) # <<>> \/ (s.in # 0 /\ Visible(s, n, s.in) # <<>>)
Define(s, pc, n, kind, val, sc) ==
  IF Taken([s EXCEPT !.in = IF sc # 0 THEN sc ELSE @], n) THEN [s EXCEPT !.err = pc]
  ELSE [s EXCEPT !.defs = Append(@, [n |-> n, kind |-> kind, val |-> val, sc |-> sc, dw |-> FALSE])]
\* a data definition at the place of a label of its own type completes that label
Typed(s, pc, n, isdata) ==
  LET same == {k \in DOMAIN s.defs : s.defs[k].sc = 0 /\ s.defs[k].dw /\ s.defs[k].val = s.loc /\ Same(s.cs, s.defs[k].n, n)}
  IN IF isdata /\ same # {} /\ (s.in = 0 \/ Visible(s, n, s.in) = <<>>) THEN s
     ELSE LET d == Define(s, pc, n, "label", s.loc, 0) IN IF d.err # 0 THEN d ELSE [d EXCEPT !.defs[Len(d.defs)].dw = TRUE]
Emit(s, x, size) == [s EXCEPT !.img = Append(@, x), !.loc = @ + size]
Ref(s, pc, n, form) == [form |-> form, n |-> n, in |-> s.in, cs |-> s.cs, pc |-> pc, k |-> Len(s.anon)]
IsStack(s, n) == s.in # 0 /\ \E k \in DOMAIN s.defs : s.defs[k].sc = s.in /\ s.defs[k].kind = "stack" /\ Same(s.cs, s.defs[k].n, n)
Step(s, S, pc) ==
  CASE S.op = "proc" ->
         IF s.in # 0 THEN [s EXCEPT !.open = TRUE]
         ELSE LET d == Define(s, pc, S.n, "label", s.loc, 0)
                  e == [d EXCEPT !.in = s.nproc + 1, !.nproc = @ + 1, !.npar = 0, !.nloc = 0]
              IN FoldLeft(LAMBDA a, p : IF a.err # 0 THEN a ELSE [Define(a, pc, p, "stack", 8 + 4 * a.npar, a.in) EXCEPT !.npar = @ + 1], e, S.ps)
    [] S.op = "endp" -> IF s.in = 0 THEN [s EXCEPT !.open = TRUE] ELSE [s EXCEPT !.in = 0]
    [] S.op = "local" -> [Define(s, pc, S.n, "stack", 256 - 4 * (s.nloc + 1), s.in) EXCEPT !.nloc = @ + 1]
    [] S.op = "lab" -> Define(s, pc, S.n, "label", s.loc, IF s.in # 0 /\ s.scoped THEN s.in ELSE 0)
    [] S.op = "glab" -> Define(s, pc, S.n, "label", s.loc, 0)
    [] S.op = "here" -> Typed(s, pc, S.n, FALSE)
    [] S.op = "data" -> Emit(Typed(s, pc, S.n, TRUE), <<"v", 238>>, 4)
    [] S.op = "const" -> Define(s, pc, S.n, "const", S.v, 0)
    [] S.op = "anon" -> [s EXCEPT !.anon = Append(@, [at |-> s.loc, sc |-> IF s.scoped THEN s.in ELSE 0])]
    [] S.op = "dd" -> Emit(s, <<"r", Ref(s, pc, S.n, "dd")>>, 4)
    [] S.op = "lea" -> Emit(s, <<"r", Ref(s, pc, S.n, "lea")>>, IF IsStack(s, S.n) THEN 3 ELSE 6)
    [] S.op = "back" -> Emit(s, <<"r", Ref(s, pc, [b |-> "@B", v |-> 0], "back")>>, 4)
    [] S.op = "fwd" -> Emit(s, <<"r", Ref(s, pc, [b |-> "@F", v |-> 0], "fwd")>>, 4)
    [] S.op = "scoped" -> [s EXCEPT !.scoped = S.on]
\* the nearest anonymous label, which may be hidden in another procedure
Anon(s, r, k) == IF k \in DOMAIN s.anon /\ s.anon[k].sc \in {0, r.in} THEN <<"label", s.anon[k].at>> ELSE <<"none", 0>>
\* what a reference denotes, once all definitions are known: <<kind, value>>
Denotes(s, r) ==
  CASE r.form = "back" -> Anon(s, r, r.k)
    [] r.form = "fwd" -> Anon(s, r, r.k + 1)
    [] OTHER ->
       LET own == IF r.in = 0 THEN <<>> ELSE Visible([s EXCEPT !.cs = r.cs], r.n, r.in)
           all == IF own # <<>> THEN own ELSE Visible([s EXCEPT !.cs = r.cs], r.n, 0)
       IN IF all = <<>> THEN <<"none", 0>> ELSE IF Len(all) > 1 THEN <<"open", 0>> ELSE <<all[1].kind, all[1].val>>
Refs(s) == SelectSeq(s.img, LAMBDA x : x[1] = "r")
\* references without a definition, and addresses of the stack in data
Undefined(s) == {Refs(s)[k][2].pc : k \in {j \in DOMAIN Refs(s) : Denotes(s, Refs(s)[j][2])[1] = "none"}}
Misused(s) == {Refs(s)[k][2].pc : k \in {j \in DOMAIN Refs(s) : Refs(s)[j][2].form = "dd" /\ Denotes(s, Refs(s)[j][2])[1] = "stack"}}
Unclear(s) == \E k \in DOMAIN Refs(s) : LET d == Denotes(s, Refs(s)[k][2]) IN d[1] = "open" \/ (d[1] = "const" /\ Refs(s)[k][2].form = "lea")
B4(v) == <<v % 256, (v \div 256) % 256, (v \div 65536) % 256, v \div 16777216>>
Bytes(s) == FoldLeft(LAMBDA a, x : a \o (IF x[1] = "v" THEN <<238, 238, 238, 238>>
              ELSE LET d == Denotes(s, x[2]) IN IF x[2].form # "lea" THEN B4(d[2])
                   ELSE IF d[1] = "stack" THEN <<141, 69, d[2]>> ELSE <<141, 5>> \o B4(d[2])), <<>>, s.img)
Verdict(s) == [open |-> s.open \/ s.in # 0 \/ Unclear(s), err |-> s.err,
               undef |-> IF s.err = 0 /\ ~s.open THEN Undefined(s) ELSE {}, mis |-> IF ~s.open THEN Misused(s) ELSE {},
               img |-> IF s.err = 0 /\ ~s.open /\ ~Unclear(s) /\ Undefined(s) = {} /\ Misused(s) = {} THEN Bytes(s) ELSE <<>>]
=============================================================================
