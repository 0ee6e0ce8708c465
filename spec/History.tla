-------------------------------- MODULE History --------------------------------
(* C13: decoding is a pure function of the file.  A record is the history of one process:
   what each file decodes to in a process of its own (R.fresh), then steps, each a set of
   decodes that run together in any schedule, under a worker limit and processor count,
   by new decoders or by ones used before.  The state remembers the outcome of every file
   and the checksum of every image still held; no step may change either.              *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, i, memo, held
vars == <<t, i, memo, held>>
R == Traces[t]

(* what a decode came to, as far as the file decides it *)
Outcome(x) == IF x.err THEN [st |-> "err", w |-> 0, h |-> 0, sum |-> 0]
              ELSE IF x.nil THEN [st |-> "nil", w |-> 0, h |-> 0, sum |-> 0]
              ELSE [st |-> "image", w |-> x.w, h |-> x.h, sum |-> x.sum]

Init == t \in 1..Len(Traces) /\ i = 0 /\ memo = <<>> /\ held = <<>>
Done(v, info) == PrintT(ToString(<<"VERDICT", t, v, info>>)) /\ i' = -1 /\ memo' = <<>> /\ held' = <<>> /\ UNCHANGED t

Start ==
  /\ i = 0
  /\ IF R.pan THEN Done("REJECT", <<"panic or data race", R.msg>>)
     ELSE LET bad == {k \in 1..Len(R.fresh) : R.fresh[k].pan \/ R.fresh[k].nil}
          IN IF bad # {} THEN Done("REJECT", <<"alone in its process", R.files[CHOOSE k \in bad : TRUE], R.fresh[CHOOSE k \in bad : TRUE].msg>>)
             ELSE /\ memo' = TLCEval([k \in 1..Len(R.fresh) |-> Outcome(R.fresh[k])])
                  /\ i' = 1 /\ UNCHANGED <<t, held>>

(* the decodes of step i: each must come to what its file comes to, whatever ran before or beside it *)
Step ==
  /\ i > 0 /\ i <= Len(R.steps)
  /\ LET S == R.steps[i]
         odd == {k \in 1..Len(S.d) : S.d[k].pan \/ Outcome(S.d[k]) # memo[S.d[k].f]}
         (* images held over from earlier steps, looked at again after this one *)
         changed == {k \in 1..Len(S.look) : S.look[k] # held[k]}
     IN IF odd # {} THEN LET k == CHOOSE k \in odd : TRUE
             IN Done("REJECT", <<IF S.d[k].pan THEN "panic" ELSE "another outcome than alone", R.files[S.d[k].f], "step", i, "procs", S.procs, "workers", S.maxg, "beside", Len(S.d) - 1,
                                 Outcome(S.d[k]), memo[S.d[k].f], S.d[k].msg>>)
        ELSE IF Len(S.look) # Len(held) THEN Done("REJECT", <<"record does not look at all held images">>)
        ELSE IF changed # {} THEN Done("REJECT", <<"an image returned earlier was changed by step", i, R.files[S.d[1].f]>>)
        ELSE /\ held' = held \o TLCEval(LET keep == SelectSeq(S.d, LAMBDA x : x.keep /\ ~x.err) IN [k \in 1..Len(keep) |-> keep[k].sum])
             /\ i' = i + 1 /\ UNCHANGED <<t, memo>>

Finish == i > Len(R.steps) /\ Done("ok", <<Len(R.steps), Cardinality({k \in 1..Len(memo) : memo[k].st = "image"})>>)
Next == Start \/ Step \/ Finish
Spec == Init /\ [][Next]_vars
View == <<t, i>>
Safe == i >= -1
================================================================================
