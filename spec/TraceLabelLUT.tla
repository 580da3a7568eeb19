----------------------------- MODULE TraceLabelLUT -----------------------------
(* Records form a tree walked depth first: d = 0 starts or continues a linear  *)
(* history, d > 0 is applied to the last state recorded at depth d-1.          *)
EXTENDS LabelLUT, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st        \* st[d+1]: state at depth d
Range(s) == {s[i] : i \in 1..Len(s)}
Base(rec) == IF rec.d = 0 THEN st[1] ELSE st[rec.d]
Apply(rec) == CASE rec.op = "new" -> New(rec.a)
                [] rec.op = "init" -> New(rec.a)
                [] rec.op = "append" -> AppendLabel(Base(rec))
                [] rec.op = "relabel" -> Merge(Base(rec), rec.a, rec.b)
Errs(rec, t) ==
    LET rep == TLCEval([x \in Labels(t) |-> Rep(t, x)])
        reps == TLCEval({x \in Labels(t) : rep[x] = x})
    IN  (IF /\ Len(rec.lut) = t.n
            /\ \A x \in Labels(t) : rec.lut[x+1] = rep[x] THEN {} ELSE {"resolve"})
        \cup (IF /\ Len(rec.m) = Cardinality(reps)
                 /\ \A i \in 1..Len(rec.m) :
                      LET r == rec.m[i][1]
                          lst == SubSeq(rec.m[i], 2, Len(rec.m[i]))
                          class == TLCEval({x \in Labels(t) : rep[x] = r})
                      IN  r \in reps /\ Range(lst) = class /\ Len(lst) = Cardinality(class)
              THEN {} ELSE {"merged-list"})
Init == l = 1 /\ st = <<New(0)>>
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET rec == Trace[l]
               t == Apply(rec)
               e == Errs(rec, t)
           IN  /\ (IF e = {} THEN TRUE ELSE PrintT(<<"ERR", l, rec.op, e>>))
               /\ st' = Append(SubSeq(st, 1, rec.d), t)
Finished == l <= Len(Trace) \/ PrintT(<<"DONE", l - 1>>)
Spec == Init /\ [][Next]_<<l, st>>
=============================================================================
