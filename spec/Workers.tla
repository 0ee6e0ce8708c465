-------------------------------- MODULE Workers --------------------------------
(* The worker pools of a frame (frame/Frame.go): LF groups are spawned one by one under a
   counting semaphore, each reporting at most one error; then the passes' groups go through
   a closed queue to a fixed number of workers, which report errors and carry on; the frame
   joins the workers, looks for an error, and only then puts the parts together.  The model
   explores every interleaving for every set of damaged parts and every worker limit.    *)
EXTENDS Naturals, FiniteSets, PoolRule
CONSTANTS MaxLF, MaxGroups, MaxWorkers
VARIABLES nl, ng, w, bad,       \* the case: LF groups, group parts, worker limit, damaged parts
          main,                 \* what the frame is doing
          lf,                   \* LF group -> "new" | "run" | "end"
          sem,                  \* semaphore in use
          queue, wk,            \* parts not taken; worker -> part it works on, 0 idle, ng + 1 gone
          errs,                 \* errors in the channel
          done,                 \* parts decoded
          out                   \* "none" | "err" | "image"
vars == <<nl, ng, w, bad, main, lf, sem, queue, wk, errs, done, out>>
LFs == 1..nl
Parts == 1..ng
(* damaged parts: LF group k is k, group part k is nl + k *)
Init == /\ nl \in 1..MaxLF /\ ng \in 1..MaxGroups /\ w \in 1..MaxWorkers
        /\ bad \in SUBSET (1..(nl + ng))
        /\ main = "spawn" /\ lf = [k \in LFs |-> "new"] /\ sem = 0
        /\ queue = {} /\ wk = <<>> /\ errs = 0 /\ done = {} /\ out = "none"

Case == UNCHANGED <<nl, ng, w, bad>>
Spawn == /\ main = "spawn" /\ sem < w
         /\ LET k == CHOOSE x \in LFs : lf[x] = "new" /\ \A y \in LFs : y < x => lf[y] # "new"
            IN lf' = [lf EXCEPT ![k] = "run"]
         /\ sem' = sem + 1
         /\ main' = IF \E k, j \in LFs : k # j /\ lf[k] = "new" /\ lf[j] = "new" THEN "spawn" ELSE "joinlf"
         /\ UNCHANGED <<queue, wk, errs, done, out>> /\ Case
(* the error channel holds nl errors: sending never blocks *)
RunLF(k) == /\ lf[k] = "run" /\ (k \in bad => errs < nl)
            /\ errs' = IF k \in bad THEN errs + 1 ELSE errs
            /\ done' = IF k \in bad THEN done ELSE done \cup {k}
            /\ lf' = [lf EXCEPT ![k] = "end"] /\ sem' = sem - 1
            /\ UNCHANGED <<main, queue, wk, out>> /\ Case
JoinLF == /\ main = "joinlf" /\ \A k \in LFs : lf[k] = "end"
          /\ IF errs > 0 THEN main' = "end" /\ out' = "err" /\ UNCHANGED <<queue, wk>>
             ELSE main' = "work" /\ queue' = Parts /\ wk' = [i \in 1..w |-> 0] /\ UNCHANGED out
          /\ UNCHANGED <<lf, sem, errs, done>> /\ Case
Take(i) == /\ main = "work" /\ wk[i] = 0
           /\ IF queue = {} THEN wk' = [wk EXCEPT ![i] = ng + 1] /\ UNCHANGED queue
              ELSE LET k == CHOOSE x \in queue : \A y \in queue : x <= y
                   IN wk' = [wk EXCEPT ![i] = k] /\ queue' = queue \ {k}
           /\ UNCHANGED <<main, lf, sem, errs, done, out>> /\ Case
Work(i) == /\ main = "work" /\ wk[i] \in Parts
           /\ LET k == wk[i] IN
              /\ nl + k \in bad => errs < ng
              /\ errs' = IF nl + k \in bad THEN errs + 1 ELSE errs
              /\ done' = IF nl + k \in bad THEN done ELSE done \cup {nl + k}
           /\ wk' = [wk EXCEPT ![i] = 0]
           /\ UNCHANGED <<main, lf, sem, queue, out>> /\ Case
Join == /\ main = "work" /\ \A i \in 1..w : wk[i] = ng + 1
        /\ main' = "end" /\ out' = IF errs > 0 THEN "err" ELSE "image"
        /\ UNCHANGED <<lf, sem, queue, wk, errs, done>> /\ Case
End == main = "end" /\ UNCHANGED vars
Step == Spawn \/ JoinLF \/ Join \/ (\E k \in LFs : RunLF(k)) \/ (main = "work" /\ \E i \in 1..w : Take(i) \/ Work(i))
Next == Step \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Step)

(* nothing is put together before all of it is there *)
Complete == out = "image" => done = 1..(nl + ng)
Right == main = "end" => out = PoolOutcome(bad)
Bounded == sem <= w /\ errs <= nl + ng
Exclusive == main = "work" => \A i, j \in 1..w : i # j => wk[i] = 0 \/ wk[i] = ng + 1 \/ wk[i] # wk[j]
Ends == <>(main = "end")
================================================================================
