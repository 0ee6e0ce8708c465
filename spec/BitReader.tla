------------------------------ MODULE BitReader ------------------------------
(* C01, C02: the bit reader is a cursor over an LSB-first bit string.
   State: the cursor (or "unknown" after a failed consuming operation) and the
   number of bits consumed.  A behaviour is one recorded session with the real
   reader; each transition is one call, and the call must return what the
   abstract cursor gives.                                                     *)
EXTENDS Bits, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t, k, pos, known, cnt, verdict
vars == <<t, k, pos, known, cnt, verdict>>

Aligned(p) == p % 8 = 0
CeilByte(p) == (p + 7) \div 8

Done(p, v) == [err |-> FALSE, v |-> v, p |-> p, used |-> TRUE]
Peek(p, v) == [err |-> FALSE, v |-> v, p |-> p, used |-> FALSE]
Bad == [err |-> TRUE, v |-> Zero4, p |-> 0, used |-> TRUE]
Num(r) == IF r.err THEN Bad ELSE Done(r.p, r.v)
SubBytes(b, i, n) == SubSeq(b, i + 1, i + n)

(* what the abstract cursor does for operation o at position p of bytes b *)
Expect(b, p, o) ==
  CASE o.op = "bits"  -> IF o.n > 64 THEN Bad ELSE Num(Take(b, p, o.n))
    [] o.op = "show"  -> (IF o.n > 64 \/ p + o.n > NBits(b) THEN [Bad EXCEPT !.p = p, !.used = FALSE]
                          ELSE Peek(p, Limbs(b, p, o.n)))
    [] o.op = "skip"  -> IF p + o.n > NBits(b) THEN Bad ELSE Done(p + o.n, Zero4)
    [] o.op = "skipb" -> IF p + 8 * o.n > NBits(b) THEN Bad ELSE Done(p + 8 * o.n, L(o.n))
    [] o.op = "bool"  -> Num(Take(b, p, 1))
    [] o.op = "byte"  -> Num(Take(b, p, 8))
    [] o.op = "align" -> Done(8 * CeilByte(p), Zero4)
    [] o.op = "bytes" -> (IF ~Aligned(p) \/ p + 8 * o.n > NBits(b) THEN Bad
                          ELSE Done(p + 8 * o.n, SubBytes(b, p \div 8, o.n)))
    [] o.op = "bu64"  -> (IF o.n < 1 \/ o.n > 8 \/ ~Aligned(p) \/ p + 8 * o.n > NBits(b) THEN Bad
                          ELSE Done(p + 8 * o.n, Limbs(b, p, 8 * o.n)))
    [] o.op = "at"    -> (IF o.m = 0 THEN Peek(p, <<>>)
                          ELSE IF o.n + o.m > Len(b) THEN Bad
                          ELSE Done(8 * (o.n + o.m), SubBytes(b, o.n, o.m)))
    [] o.op = "seek"  -> (CASE o.m = 0 -> Peek(8 * o.n, L(o.n))
                            [] o.m = 1 -> Peek(p, L(CeilByte(p)))
                            [] o.m = 2 -> Peek(8 * (Len(b) + o.n), L(Len(b) + o.n)))
    [] o.op = "reset" -> Peek(0, Zero4)
    [] o.op = "atend" -> Peek(p, L(IF p + 1 > NBits(b) THEN 1 ELSE 0))
    [] o.op = "u32"   -> Num(U32(b, p, o.a))
    [] o.op = "u64"   -> Num(U64(b, p))
    [] o.op = "u8"    -> Num(U8(b, p))
    [] o.op = "enum"  -> Num(Enum(b, p))
    [] o.op = "f16"   -> Num(F16(b, p))
    [] o.op = "icc"   -> Num(ICCVarint(b, p))
    [] o.op = "zig32" -> Peek(p, Zig32(o.a))
    [] o.op = "zig64" -> Peek(p, Zig64(o.a))

(* operations whose result does not depend on the cursor *)
Absolute(o) == o.op \in {"reset", "zig32", "zig64"} \/ (o.op = "seek" /\ o.m # 1)

(* the result is an ICC varint too large for the reader's 32-bit result: any answer but a panic *)
Unmodelled(o, x) == o.op = "icc" /\ ~x.err /\ (x.v[2] >= 32768 \/ x.v[3] > 0 \/ x.v[4] > 0)

(* bits an operation consumes: the bytes read by "at" count, not the distance of its seek *)
Consumed(p, o, x) == IF ~x.used THEN 0 ELSE IF o.op = "at" THEN 8 * o.m ELSE x.p - p

Conforms(b, p, c, o, x) ==
  /\ ~o.pan
  /\ Unmodelled(o, x) \/
       ( /\ o.err = x.err
         /\ ~x.err => o.v = x.v
         /\ (~x.err \/ ~x.used) => o.c = c + Consumed(p, o, x) )

Init == /\ t \in 1..Len(Traces)
        /\ k = 1 /\ pos = 0 /\ known = TRUE /\ cnt = 0 /\ verdict = "run"

Finish(v, info) == /\ verdict' = v
                   /\ PrintT(ToString(<<"VERDICT", t, v, info>>))
                   /\ UNCHANGED <<t, k, pos, known, cnt>>

Step ==
  /\ verdict = "run"
  /\ LET tr == Traces[t] IN
     IF k > Len(tr.ops) THEN Finish("ok", "")
     ELSE LET o == tr.ops[k] IN
       IF ~known /\ ~Absolute(o)
       THEN IF o.pan THEN Finish("REJECT", <<k, o>>)
            ELSE /\ cnt' = o.c /\ k' = k + 1 /\ UNCHANGED <<t, pos, known, verdict>>
       ELSE LET x == Expect(tr.bytes, pos, o) IN
         IF ~Conforms(tr.bytes, pos, cnt, o, x) THEN Finish("REJECT", <<k, pos, o, x>>)
         ELSE /\ cnt' = o.c
              /\ k' = k + 1
              /\ pos' = IF x.err /\ x.used THEN pos ELSE x.p
              /\ known' = ((~x.err \/ ~x.used) /\ (known \/ o.op \in {"reset", "seek"}))
              /\ UNCHANGED <<t, verdict>>

Next == Step
Spec == Init /\ [][Next]_vars

(* invariants of the abstract cursor *)
CursorInv == known => pos >= 0
=============================================================================
