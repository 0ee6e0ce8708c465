-------------------------- MODULE ImageHeaderTrace --------------------------
(* C04: one image header.  The specification parses the recorded bytes and
   compares every reported field and the final cursor.                        *)
EXTENDS ImageHeader, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, verdict
vars == <<t, verdict>>
Init == t \in 1..Len(Traces) /\ verdict = "run"

(* chromaticities of the named white points and primaries, in millionths *)
WhiteXY(c) == CASE c.wp = 1 -> <<312700, 329000>> [] c.wp = 2 -> c.wxy [] c.wp = 10 -> <<333333, 333333>> [] c.wp = 11 -> <<314000, 351000>>
PrimXY(c) == CASE c.prim = 1 -> <<639999, 330010, 300004, 600003, 150002, 59997>>
               [] c.prim = 2 -> c.pxy[1] \o c.pxy[2] \o c.pxy[3]
               [] c.prim = 9 -> <<708000, 292000, 170000, 797000, 131000, 46000>>
               [] c.prim = 11 -> <<680000, 320000, 265000, 690000, 150000, 60000>>
(* single floats carry 24 bits: a large chromaticity may be off by a millionth, and the
   named primaries may be stated with any of the usual roundings *)
Near(a, b, d) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i] - b[i] <= d /\ b[i] - a[i] <= d

ECsame(a, b) == /\ a.type = b.type /\ a.bits = b.bits /\ a.exp = b.exp /\ a.shift = b.shift /\ a.name = b.name
                /\ a.assoc = b.assoc /\ a.spot = b.spot /\ a.cfa = b.cfa
Alphas(h) == SelectSeq([i \in 1..Len(h.ec) |-> i - 1], LAMBDA i: h.ec[i + 1].type = 0)
ExtSame(e, r) == Len(e) = Len(r) /\ \A i \in 1..Len(e) : e[i][1] = r[i][1] /\ e[i][3] = r[i][2]

Wrong(h, r) ==
  SelectSeq(<<
    IF r.w # h.w \/ r.h # h.h THEN <<"size", h.w, h.h, r.w, r.h>> ELSE <<>>,
    IF r.orient # h.orient THEN <<"orientation", h.orient, r.orient>> ELSE <<>>,
    IF <<r.ow, r.oh>> # (IF h.orient > 4 THEN <<h.h, h.w>> ELSE <<h.w, h.h>>) THEN <<"oriented size", r.ow, r.oh, h.orient>> ELSE <<>>,
    IF r.prev # h.prev THEN <<"preview", h.prev, r.prev>> ELSE <<>>,
    IF r.bits # h.bits \/ r.exp # h.exp THEN <<"bit depth", h.bits, h.exp, r.bits, r.exp>> ELSE <<>>,
    IF r.m16 # h.m16 THEN <<"16-bit buffers">> ELSE <<>>,
    IF Len(r.ec) # Len(h.ec) THEN <<"number of extra channels">>
      ELSE IF \E i \in 1..Len(h.ec) : ~ECsame(h.ec[i], r.ec[i]) THEN <<"extra channel", h.ec, r.ec>> ELSE <<>>,
    IF r.alpha # Alphas(h) \/ r.hasa # (Alphas(h) # <<>>) THEN <<"alpha channels", r.alpha>> ELSE <<>>,
    IF r.ncol # NColours(h) \/ r.ntot # NColours(h) + Len(h.ec) THEN <<"channel counts">> ELSE <<>>,
    IF r.xyb # h.xyb THEN <<"xyb">> ELSE <<>>,
    IF r.ce.icc # h.ce.icc \/ r.ce.cs # h.ce.cs THEN <<"colour space", h.ce, r.ce>>
      ELSE IF h.ce.icc THEN <<>>
      ELSE IF r.ce.wp # h.ce.wp \/ ~Near(WhiteXY(h.ce), r.ce.wxy, 1) THEN <<"white point", WhiteXY(h.ce), r.ce.wxy>>
      ELSE IF h.ce.cs = 0 /\ (r.ce.prim # h.ce.prim \/ ~Near(PrimXY(h.ce), r.ce.pxy, IF h.ce.prim = 2 THEN 1 ELSE 4)) THEN <<"primaries", PrimXY(h.ce), r.ce.pxy>>
      ELSE IF r.ce.gamma # h.ce.gamma \/ r.ce.tf # h.ce.tf THEN <<"transfer function", h.ce, r.ce>>
      ELSE IF r.ce.ri # h.ce.ri THEN <<"rendering intent">> ELSE <<>>,
    IF h.tm.target # r.tm.target \/ h.tm.min # r.tm.min \/ h.tm.rel # r.tm.rel \/ h.tm.below # r.tm.below THEN <<"tone mapping", h.tm, r.tm>> ELSE <<>>,
    IF ~ExtSame(h.ext, r.ext) THEN <<"extensions", h.ext, r.ext>> ELSE <<>>,
    IF h.opsin # r.opsin THEN <<"opsin matrix">> ELSE <<>>,
    IF h.up2 # r.up2 \/ h.up4 # r.up4 \/ h.up8 # r.up8 THEN <<"upsampling weights">> ELSE <<>>,
    IF h.icc # r.icc THEN <<"icc stream">> ELSE <<>>
  >>, LAMBDA x: x # <<>>)

Finish(v, info) == /\ verdict' = v /\ PrintT(ToString(<<"VERDICT", t, v, info>>)) /\ UNCHANGED t
Parse ==
  /\ verdict = "run"
  /\ LET r == Traces[t]
         s == ReadImageHeader(r.bytes, 0, r.level)
     IN IF r.pan THEN Finish("REJECT", <<"panic", r.kind, r.msg>>)
        ELSE IF s.st = "err" THEN (IF r.err THEN Finish("ok", "refused") ELSE Finish("REJECT", <<"forbidden or cut header accepted", r.kind>>))
        ELSE IF s.st # "" THEN Finish("skip", s.st)
        ELSE IF r.err THEN Finish("REJECT", <<"valid header refused", r.kind, r.msg>>)
        ELSE IF r.p # s.p THEN Finish("REJECT", <<"cursor", s.p, r.p, r.kind>>)
        ELSE LET x == Wrong(s.h, r) IN IF x # <<>> THEN Finish("REJECT", <<x[1], r.kind>>) ELSE Finish("ok", r.kind)
Next == Parse
Spec == Init /\ [][Next]_vars
TypeOK == verdict \in {"run", "ok", "skip", "REJECT"}
=============================================================================
