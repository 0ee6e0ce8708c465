-------------------------------- MODULE PoolRule --------------------------------
(* What a frame cut into parts decodes to when the parts in Bad are damaged, whichever
   workers run in whichever order: Workers.tla shows that the worker pools have no other
   outcome, Faults.tla holds the implementation to it.                                *)
PoolOutcome(Bad) == IF Bad = {} THEN "image" ELSE "err"
================================================================================
