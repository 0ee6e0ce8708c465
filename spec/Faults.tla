-------------------------------- MODULE Faults --------------------------------
(* C14: a file and what decoding it came to when its bytes stop early, a read or a seek
   fails, bits are flipped or parts of a frame are damaged.  R.base holds the outcome of the whole file for
   each way to ask; every fault must end in an error or in that outcome, and in an error
   where needed bytes are gone.  For a bare codestream whose prefix decodes, every longer
   prefix must decode too: `enough` is the shortest prefix seen to suffice.             *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils, PoolRule
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, i, enough
vars == <<t, i, enough>>
R == Traces[t]
None == 1000000000
Outcome(x) == IF x.pan THEN [st |-> "panic", w |-> 0, h |-> 0, sum |-> 0]
              ELSE IF x.err THEN [st |-> "err", w |-> 0, h |-> 0, sum |-> 0]
              ELSE IF x.nil THEN [st |-> "nil", w |-> 0, h |-> 0, sum |-> 0]
              ELSE [st |-> "image", w |-> x.w, h |-> x.h, sum |-> x.sum]
Base(q) == LET k == CHOOSE k \in 1..Len(R.base) : R.base[k].q = q IN Outcome(R.base[k])
Init == t \in 1..Len(Traces) /\ i = 0 /\ enough = [q \in {"decode", "image", "config", "header"} |-> None]
Done(v, info) == PrintT(ToString(<<"VERDICT", t, v, info>>)) /\ i' = -1 /\ UNCHANGED <<t, enough>>

Start == /\ i = 0
         /\ IF R.pan THEN Done("REJECT", <<"panic", R.kind, R.msg>>)
            ELSE LET bad == {k \in 1..Len(R.base) : Outcome(R.base[k]).st \in {"panic", "nil"}}
                     sick == {k \in 1..Len(R.base) : Outcome(R.base[k]).st = "err"}
                 IN IF bad # {} THEN Done("REJECT", <<"whole file", R.kind, R.base[CHOOSE k \in bad : TRUE].msg>>)
                    ELSE IF R.valid /\ sick # {} THEN Done("REJECT", <<"whole file refused", R.kind, R.base[CHOOSE k \in sick : TRUE].msg>>)
                    ELSE i' = 1 /\ UNCHANGED <<t, enough>>
Fault ==
  /\ i > 0 /\ i <= Len(R.faults)
  /\ LET x == R.faults[i]
         o == Outcome(x)
         whole == Base(x.q)
         what == <<R.kind, x.q, x.how, "at", x.at, "of", R.n>>
         free == x.how = "flip"   \* other data: any image, but an answer
         must == x.how = "parts" /\ PoolOutcome({x.bad[k] : k \in 1..Len(x.bad)}) = "err"
     IN IF o.st = "panic" THEN Done("REJECT", <<"panic", what, x.msg>>)
        ELSE IF o.st = "nil" THEN Done("REJECT", <<"neither image nor error", what>>)
        ELSE IF o.st = "image" /\ must THEN Done("REJECT", <<"an image although parts are damaged", what, x.bad, "workers", x.maxg>>)
        ELSE IF ~free /\ o.st = "image" /\ whole.st = "image" /\ o # whole THEN Done("REJECT", <<"not the image of the whole file", what, o, whole>>)
        ELSE IF x.how = "cut" /\ R.bare /\ o.st = "err" /\ x.at >= enough[x.q] THEN Done("REJECT", <<"refused although a shorter prefix decodes", what, enough[x.q], x.msg>>)
        ELSE IF x.how = "slow" /\ o # whole THEN Done("REJECT", <<"depends on how the bytes arrive", what, o, whole>>)
        ELSE /\ i' = i + 1 /\ UNCHANGED t
             /\ enough' = IF x.how = "cut" /\ o.st = "image" /\ x.at < enough[x.q] THEN [enough EXCEPT ![x.q] = x.at] ELSE enough
Finish == i > Len(R.faults) /\ Done("ok", <<R.kind, Len(R.faults), Cardinality({k \in 1..Len(R.faults) : R.faults[k].err})>>)
Next == Start \/ Fault \/ Finish
Spec == Init /\ [][Next]_vars
View == <<t, i>>
Safe == i >= -1
================================================================================
