---------------------------- MODULE EntropyStream ----------------------------
(* C06: a session with the entropy decoder.  State: the parsed code, the decoder
   (cursor, ANS state, LZ77 window and pending copy) and how many symbols were
   delivered.  Transitions: read the code description; read one symbol; finish. *)
EXTENDS Entropy, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, k, E, d, verdict
vars == <<t, k, E, d, verdict>>

Init == t \in 1..Len(Traces) /\ k = 0 /\ E = NoE /\ d = D0(0) /\ verdict = "run"

Finish(v, info) == /\ verdict' = v /\ PrintT(ToString(<<"VERDICT", t, v, info>>)) /\ UNCHANGED <<t, k, E, d>>

ReadDescription ==
  /\ verdict = "run" /\ k = 0
  /\ LET r == Traces[t]
         c == ReadCode(r.bytes, r.skip, r.n, r.nolz)
     IN IF r.pan THEN Finish("REJECT", <<"panic", r.kind, r.msg>>)
        ELSE IF c.p > NBits(r.bytes) THEN Finish("skip", "description runs past the data")
        ELSE IF c.st = "hole" THEN Finish("skip", "cluster number without contexts")
        ELSE IF c.st = "big" THEN Finish("skip", "number too large")
        ELSE IF c.st = "err" THEN (IF r.err THEN Finish("ok", "refused") ELSE Finish("REJECT", <<"malformed description accepted", r.kind>>))
        ELSE IF r.err THEN Finish("REJECT", <<"valid description refused", r.kind, r.msg>>)
        ELSE IF r.p0 # c.p THEN Finish("REJECT", <<"description length", c.p, r.p0>>)
        ELSE k' = 1 /\ E' = c.E /\ d' = D0(c.p) /\ UNCHANGED <<t, verdict>>

ReadSymbol ==
  /\ verdict = "run" /\ k > 0 /\ k <= Len(Traces[t].ctx)
  /\ LET r == Traces[t]
         s == ReadSym(r.bytes, E, d, r.ctx[k], r.mult[k])
     IN IF s.d.p > NBits(r.bytes) THEN Finish("skip", "symbols run past the data")
        ELSE IF s.d.st # "" THEN Finish("skip", "number too large")
        ELSE IF r.serr = k THEN Finish("REJECT", <<"symbol refused", k, r.kind>>)
        ELSE IF r.v[k] # s.v THEN Finish("REJECT", <<"symbol", k, "is", r.v[k], "should be", s.v, r.kind>>)
        ELSE k' = k + 1 /\ d' = s.d /\ UNCHANGED <<t, E, verdict>>

End ==
  /\ verdict = "run" /\ k > Len(Traces[t].ctx)
  /\ LET r == Traces[t]
     IN IF r.p1 # d.p THEN Finish("REJECT", <<"cursor after the symbols", d.p, r.p1, r.kind>>)
        ELSE IF r.fin # FinalOK(d) THEN Finish("REJECT", <<"final state", FinalOK(d), r.fin, r.kind>>)
        ELSE Finish("ok", r.kind)

Next == ReadDescription \/ ReadSymbol \/ End
Spec == Init /\ [][Next]_vars
(* a pending copy never points past the window, and the state stays normalised *)
DecoderInv == d.cn > 0 => d.cp <= Len(d.win)
StateInv == d.hi < 1048576 /\ d.lo < 4096

View == <<t, k, verdict>>
=============================================================================
