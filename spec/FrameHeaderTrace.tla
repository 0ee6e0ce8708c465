--------------------------- MODULE FrameHeaderTrace ---------------------------
(* C05: one frame header and its table of contents.                            *)
EXTENDS FrameHeader, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, stage, verdict
vars == <<t, stage, verdict>>
Init == t \in 1..Len(Traces) /\ stage = 0 /\ verdict = "run"

(* a field the harness could not observe is an empty sequence *)
Opt(seen, want) == seen = <<>> \/ seen = want
HS == <<0, 1, 1, 0>>
VS == <<0, 1, 0, 1>>
Max3(a) == Max2(a[1], Max2(a[2], a[3]))
Jpeg(f) == LET h == [i \in 1..3 |-> HS[f.jpeg[i] + 1]] v == [i \in 1..3 |-> VS[f.jpeg[i] + 1]]
           IN << Max3(h) - h[1], Max3(h) - h[2], Max3(h) - h[3], Max3(v) - v[1], Max3(v) - v[2], Max3(v) - v[3] >>
SameBl(a, b) == a.mode = b.mode /\ a.alpha = b.alpha /\ a.clamp = b.clamp /\ a.src = b.src
(* defaults of the filter as single floats *)
Def3 == << <<0, 16928>>, <<0, 16544>>, <<0, 16480>> >>   \* 40, 5, 3.5
One == <<0, 16256>>

Wrong(f, ih, g) ==
  SelectSeq(<<
    IF g.type # f.type \/ g.enc # f.enc THEN <<"type or encoding">> ELSE <<>>,
    IF g.flags # f.flags THEN <<"flags">> ELSE <<>>,
    IF g.ycc # f.ycc THEN <<"YCbCr">> ELSE <<>>,
    IF ~Opt(g.jpeg, Jpeg(f)) THEN <<"chroma subsampling", Jpeg(f), g.jpeg>> ELSE <<>>,
    IF g.ups # f.ups THEN <<"upsampling">> ELSE <<>>,
    IF ~Has(f.flags, USELF) /\ \E i \in 1..Len(ih.ec) : g.ecups[i] # f.ecups[i] /\ g.ecups[i] * 2 ^ ih.ec[i].shift # f.ecups[i] THEN <<"extra channel upsampling">> ELSE <<>>,
    IF ~Opt(g.group, <<GroupDim(f)>>) THEN <<"group size">> ELSE <<>>,
    IF ~Opt(g.qm, <<f.xqm, f.bqm>>) THEN <<"quantiser scales", g.qm>> ELSE <<>>,
    IF ~Opt(g.pass, << <<f.pass.n>>, f.pass.shift, f.pass.ds, f.pass.last >>) THEN <<"passes", f.pass, g.pass>> ELSE <<>>,
    IF g.lf # f.lf THEN <<"LF level">> ELSE <<>>,
    IF g.x0 # f.x0 \/ g.y0 # f.y0 THEN <<"origin", f.x0, f.y0, g.x0, g.y0>> ELSE <<>>,
    IF g.bw # CodedW(f) \/ g.bh # CodedH(f) THEN <<"size", CodedW(f), CodedH(f), g.bw, g.bh>> ELSE <<>>,
    IF f.crop /\ (g.w # f.w \/ g.h # f.h) THEN <<"crop size">> ELSE <<>>,
    IF ~SameBl(f.bl, g.bl) THEN <<"blending", f.bl, g.bl>> ELSE <<>>,
    IF \E i \in 1..Len(ih.ec) : ~SameBl(f.ecbl[i], g.ecbl[i]) THEN <<"extra channel blending">> ELSE <<>>,
    IF g.last # f.last THEN <<"last">> ELSE <<>>,
    IF g.save # f.save THEN <<"save slot">> ELSE <<>>,
    IF f.type # LFFRAME /\ g.sbct # f.sbct THEN <<"save before colour transform">> ELSE <<>>,
    IF ~Opt(g.name, <<f.name>>) THEN <<"name">> ELSE <<>>,
    IF ~Opt(g.gab, <<f.rf.gab>>) THEN <<"gaborish">> ELSE <<>>,
    IF f.rf.gw # <<>> /\ ~Opt(g.gw, << f.rf.gw[1], f.rf.gw[3], f.rf.gw[5], f.rf.gw[2], f.rf.gw[4], f.rf.gw[6] >>) THEN <<"gaborish weights">> ELSE <<>>,
    IF ~Opt(g.epf, <<f.rf.epf>>) THEN <<"edge filter iterations">> ELSE <<>>,
    IF ~Opt(g.chs, IF f.rf.chs # <<>> THEN f.rf.chs ELSE Def3) THEN <<"edge filter channel scale", f.rf.chs, g.chs>> ELSE <<>>,
    IF ~Opt(g.smod, IF f.rf.smod # <<>> THEN f.rf.smod ELSE <<One>>) THEN <<"edge filter modular sigma", f.rf.smod, g.smod>> ELSE <<>>,
    IF f.rf.sigma # <<>> /\ g.sig # <<>> /\ f.rf.sigma # (IF Len(f.rf.sigma) = 4 THEN g.sig ELSE SubSeq(g.sig, 2, 4)) THEN <<"edge filter sigma">> ELSE <<>>
  >>, LAMBDA x: x # <<>>)

Img(r) == ReadImageHeader(r.img, 0, 5)
Finish(v, info) == /\ verdict' = v /\ PrintT(ToString(<<"VERDICT", t, v, info>>)) /\ UNCHANGED <<t, stage>>
Hdr(r) == ReadFrameHeader(r.bytes, r.p0, Img(r).h)
Many(f) == GroupsX(f) > 1048576 \div GroupsY(f)

(* verdict of the header stage when the filter is read with or without the quirk *)
Judge(r, s) ==
  IF s.st = "err" THEN (IF r.err THEN <<"ok", "refused">> ELSE <<"REJECT", <<"forbidden or cut frame header accepted", r.Kind>>>>)
  ELSE IF s.st # "" THEN <<"skip", s.st>>
  ELSE IF Many(s.f) /\ r.err THEN <<"ok", "too many groups">>
  ELSE IF r.err THEN <<"REJECT", <<"valid frame header refused", r.Kind, r.msg>>>>
  ELSE IF r.p # s.p THEN <<"REJECT", <<"cursor", s.p, r.p, r.Kind>>>>
  ELSE LET x == Wrong(s.f, Img(r).h, r.f) IN IF x # <<>> THEN <<"REJECT", <<x[1], r.Kind>>>> ELSE <<"next", "">>

ParseHeader ==
  /\ verdict = "run" /\ stage = 0
  /\ LET r == Traces[t]
         h == Img(r).h
         j == Judge(r, Hdr(r))
         q == Judge(r, ReadFrameHeaderQ(r.bytes, r.p0, h, TRUE))
     IN IF r.pan THEN Finish("REJECT", <<"panic", r.Kind, r.msg>>)
        ELSE IF Img(r).st # "" THEN Finish("REJECT", <<"image header of the harness is wrong">>)
        ELSE IF j[1] = "next" THEN stage' = 1 /\ UNCHANGED <<t, verdict>>
        ELSE IF j[1] # "REJECT" THEN Finish(j[1], j[2])
        ELSE IF q[1] # "REJECT" THEN Finish("known", <<"epf-weights-flag", j[2]>>)
        ELSE Finish("REJECT", j[2])

ParseToc ==
  /\ verdict = "run" /\ stage = 1
  /\ LET r == Traces[t]
         s == Hdr(r)
         n == TocEntries(s.f)
         c == ReadToc(r.bytes, s.p, n)
     IN IF r.tpan THEN Finish("REJECT", <<"panic in table of contents", r.Kind, r.tmsg>>)
        ELSE IF r.not \/ CodedW(s.f) > 20000 \/ CodedH(s.f) > 20000 \/ n > 400 THEN Finish("ok", "large table not read")
        ELSE IF c.st = "err" THEN (IF r.terr THEN Finish("ok", "table refused") ELSE Finish("REJECT", <<"malformed table accepted", r.Kind>>))
        ELSE IF c.st # "" THEN Finish("skip", c.st)
        ELSE IF r.terr THEN Finish("REJECT", <<"valid table refused", r.Kind, r.tmsg>>)
        ELSE IF r.tp # c.p THEN Finish("REJECT", <<"cursor after table", c.p, r.tp>>)
        ELSE IF ~Opt(r.f.sizes, <<c.sizes>>) THEN Finish("REJECT", <<"section sizes">>)
        ELSE IF r.f.perm # <<>> /\ r.f.perm # <<c.perm>> /\ ~(r.f.perm = <<<<>>>> /\ c.perm = [i \in 1..n |-> i - 1]) THEN Finish("REJECT", <<"section order", c.perm, r.f.perm>>)
        ELSE Finish("ok", r.Kind)
Next == ParseHeader \/ ParseToc
Spec == Init /\ [][Next]_vars
TypeOK == stage \in {0, 1}
=============================================================================
