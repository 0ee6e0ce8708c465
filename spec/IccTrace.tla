------------------------------- MODULE IccTrace -------------------------------
(* C16: compressed ICC profiles and what the code reconstructed from them. *)
EXTENDS Icc, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, z
vars == <<t, z>>
R == Traces[t]
Init == t \in 1..Len(Traces) /\ z = Icc0(<<>>)

Done(v, info) == PrintT(ToString(<<"VERDICT", t, v, info>>)) /\ z' = [z EXCEPT !.ph = "end", !.out = <<>>] /\ UNCHANGED t

Advance == /\ z.st = "" /\ z.ph \notin {"done", "end"} /\ ~R.pan
           /\ z' = TLCEval(IccStep(R.bytes, z)) /\ UNCHANGED t
Panicked == z.ph # "end" /\ R.pan /\ Done("REJECT", <<"panic", R.kind, R.msg>>)
Refuse ==
  /\ z.ph # "end" /\ ~R.pan /\ z.st # ""
  /\ IF z.st # "err" THEN Done("skip", z.st)
     ELSE IF ~R.err THEN Done("REJECT", <<"malformed profile accepted", R.kind, z.ph>>)
     ELSE IF ~R.err2 THEN Done("REJECT", <<"the second request for a malformed profile succeeds", R.kind, z.ph>>)
     ELSE Done("ok", <<"refused", z.ph>>)
Differ == {i \in 1..Len(z.out) : R.out[i] # z.out[i]}
Judge ==
  /\ z.ph = "done" /\ ~R.pan /\ z.st = ""
  /\ IF R.err THEN (IF Leftover(R.bytes, z) \/ z.n = 0 THEN Done("skip", "left over") ELSE Done("REJECT", <<"valid profile refused", R.kind, R.msg>>))
     ELSE IF Len(R.out) # z.n THEN Done("REJECT", <<"length", z.n, Len(R.out), R.kind>>)
     ELSE IF R.out # z.out
          THEN LET i == CHOOSE i \in Differ : \A j \in Differ : i <= j IN Done("REJECT", <<"byte", i - 1, "is", R.out[i], "should be", z.out[i], R.kind>>)
     ELSE IF R.err2 \/ R.out2 # R.out THEN Done("REJECT", <<"a second request gives another profile", R.kind>>)
     ELSE Done("ok", R.kind)
Next == Advance \/ Panicked \/ Refuse \/ Judge
Spec == Init /\ [][Next]_vars
View == <<t, z.ph, z.st, z.c, z.d, Len(z.out)>>
Safe == z.ph \in {"sizes", "header", "count", "tags", "data", "done", "end"} /\ (z.ph # "end" => Len(z.out) <= z.n)
=============================================================================
