-------------------------------- MODULE Decode --------------------------------
(* The decoder as a state machine over one recorded file: container, header, then for each
   frame its header, its table of contents, its sections one by one, the inverse
   transforms and the composition onto the canvas, and finally the image, which is
   compared with what the code under test returned for the same bytes.
   C07, C08, C09, C10, C11, C14 and C18 use this module.                        *)
EXTENDS Compose, VarDct, Container, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t, stage, s
vars == <<t, stage, s>>

R == Traces[t]
B == s.cs

Init == /\ t \in 1..Len(Traces)
        /\ stage = "file"
        /\ s = [n |-> 0]

Say(v, info) == PrintT(ToString(<<"VERDICT", t, v, info>>))
Done(v, info) == Say(v, info) /\ stage' = "done" /\ s' = [n |-> 0] /\ UNCHANGED t

(* the model leaves the stream: nothing but a panic is wrong *)
Leave(why) == IF R.pan THEN Done("REJECT", <<"panic", R.kind, R.msg>>) ELSE Done("skip", <<why, R.kind>>)
(* the stream must be refused *)
Forbidden(where) == IF R.pan THEN Done("REJECT", <<"panic", R.kind, R.msg>>)
                    ELSE IF R.err THEN Done("ok", <<"refused", where>>)
                    ELSE Done("REJECT", <<IF R.nil THEN "neither image nor error" ELSE "malformed stream accepted", where, R.kind>>)
Stop(st, where) == IF st = "err" THEN Forbidden(where) ELSE Leave(st)

File ==
  /\ stage = "file"
  /\ LET C == Container(R.bytes)
     IN IF C.st # "" THEN Stop(C.st, "container")
        ELSE stage' = "header" /\ UNCHANGED t /\ s' = [n |-> 0, cs |-> C.cs, level |-> C.level]

(* low frequencies kept for the frames of each level *)
NoLf == [planes |-> <<>>, e |-> 0]

Header ==
  /\ stage = "header"
  /\ LET H == ReadImageHeader(B, 0, s.level)
     IN IF H.st = "" /\ H.h.w > 268435456 \div H.h.h THEN Leave("area")
        ELSE IF H.st = "animation" THEN Forbidden("animation")
        ELSE IF H.st # "" THEN Stop(H.st, "image header")
        ELSE IF H.h.prev # <<>> THEN Forbidden("preview")
        ELSE IF H.h.exp # 0 \/ \E i \in 1..Len(H.h.ec) : H.h.ec[i].exp # 0 THEN Leave("float samples")
        ELSE /\ stage' = "frame" /\ UNCHANGED t
             /\ s' = [cs |-> s.cs, ih |-> H.h, p |-> H.p, n |-> 0, refs |-> NoRefs, lfs |-> << NoLf, NoLf, NoLf, NoLf, NoLf >>]

IsDct(f) == f.enc = VARDCT
Beyond(ih, f) == IF IsDct(f) THEN VdUnmodelled(ih, f) ELSE Unmodelled(ih, f)
Steps(fr) == IF IsDct(fr.f) THEN VdSteps(fr) ELSE Len(fr.sec)

(* the code misreads headers that name the edge filter (known_findings.jsonl, epf-weights-flag):
   left out unless it makes no difference, as the bits behind are 0 and end in the same byte *)
ReadAlike(p, F) ==
  LET Q == ReadFrameHeaderQ(B, p, s.ih, TRUE)
  IN \/ F.f.rf.epf = 0
     \/ Q.p = F.p /\ Q.f = F.f
     \/ Q.st = "" /\ Q.f = F.f /\ Q.p = F.p - 1 /\ F.p % 8 # 0 /\ GetBits(B, Q.p, 1) = 0 /\ GetBits(B, F.p, 1) = 0

FrameHdr ==
  /\ stage = "frame"
  /\ LET F == ReadFrameHeader(B, s.p, s.ih)
     IN IF s.p + 1 > NBits(B) THEN Forbidden("no frame")
        ELSE IF F.st # "" THEN Stop(F.st, "frame header")
        ELSE IF Refused(F.f) THEN Forbidden("unsupported feature")
        ELSE IF ~ReadAlike(s.p, F) THEN Leave("weights of the edge filter")
        ELSE IF s.ih.xyb /\ Space(s.ih).st # "" THEN Leave(Space(s.ih).st)
        ELSE IF Beyond(s.ih, F.f) # "" THEN Leave(Beyond(s.ih, F.f))
        ELSE IF Has(F.f.flags, USELF) /\ s.lfs[F.f.lf + 1] = NoLf THEN Forbidden("no low frequencies")
        ELSE IF Has(F.f.flags, USELF) /\ (Len(s.lfs[F.f.lf + 1].planes[1]) # CellsY(F.f) \/ Len(s.lfs[F.f.lf + 1].planes[1][1]) # CellsX(F.f)) THEN Leave("LF frame of another size")
        ELSE LET T == ReadToc(B, F.p, TocEntries(F.f))
                 S == Sections(B, T)
             IN IF T.st # "" THEN Stop(T.st, "table of contents")
                ELSE IF S.st # "" THEN Stop(S.st, "sections")
                ELSE stage' = "sections" /\ UNCHANGED t
                     /\ s' = [cs |-> s.cs, ih |-> s.ih, p |-> 8 * S.end, n |-> s.n + 1, refs |-> s.refs, lfs |-> s.lfs, fr |-> IF IsDct(F.f) THEN StartVd(F.f, S.s, s.lfs[F.f.lf + 1]) ELSE StartFrame(F.f, S.s)]

Section ==
  /\ stage = "sections"
  /\ s.fr.i < Steps(s.fr)
  /\ LET fr == TLCEval(IF IsDct(s.fr.f) THEN VdNext(s.ih, s.fr) ELSE NextSection(s.ih, s.fr))
     IN IF fr.st # "" THEN Stop(fr.st, <<"section", s.fr.i>>)
        ELSE s' = [s EXCEPT !.fr = fr] /\ UNCHANGED <<t, stage>>

(* what was seen of a channel has to show the channel *)
SameChan(o, c) == o.w = c.w /\ o.h = c.h /\ ((o.d = c.d /\ c.s = 1 /\ ~o.fl) \/ \A y \in 1..c.h : \A x \in 1..c.w : Shows(o.fl, o.d[y][x], c, c.d[y][x]))
WrongAt(o, c) ==
  IF o.w # c.w \/ o.h # c.h THEN <<"size", c.w, c.h, o.w, o.h>>
  ELSE LET bad == {y \in 1..c.h : \E x \in 1..c.w : ~Shows(o.fl, o.d[y][x], c, c.d[y][x])}
           y == CHOOSE y \in bad : \A z \in bad : y <= z
           x == CHOOSE x \in 1..c.w : ~Shows(o.fl, o.d[y][x], c, c.d[y][x]) /\ \A k \in 1..(x - 1) : Shows(o.fl, o.d[y][k], c, c.d[y][k])
       IN <<"x", x - 1, "y", y - 1, "is", o.d[y][x], IF o.fl THEN "/64" ELSE "", "should be", c.d[y][x], IF c.s = 64 THEN "/64" ELSE "">>
Unsaid(c) == IF c.s = 1 THEN 0 ELSE FoldLeft(LAMBDA a, r: a + FoldLeft(LAMBDA u, q: IF q = U THEN u + 1 ELSE u, 0, r), 0, c.d)

Judge(canvas, other) ==
  LET turn(cv) == TLCEval([c \in 1..Len(cv) |-> TLCEval(Oriented(cv[c], s.ih.orient))])
      chs == turn(canvas)
      alt == turn(other)
      bad == {c \in 1..Len(chs) : ~SameChan(R.ch[c], chs[c])}
      first == CHOOSE c \in bad : \A k \in bad : c <= k
  IN IF R.pan THEN Done("REJECT", <<"panic", R.kind, R.msg>>)
     ELSE IF R.err \/ R.nil THEN Done("REJECT", <<"valid stream refused", R.kind, R.msg>>)
     ELSE IF Len(R.ch) # Len(chs) THEN Done("REJECT", <<"number of channels", Len(chs), Len(R.ch)>>)
     ELSE IF R.w # chs[1].w \/ R.h # chs[1].h THEN Done("REJECT", <<"size of the image", chs[1].w, chs[1].h, R.w, R.h>>)
     ELSE IF bad # {} /\ alt # <<>> /\ \A c \in 1..Len(alt) : SameChan(R.ch[c], alt[c]) THEN Done("known", <<"adaptive-smoothing", R.kind>>)
     ELSE IF bad # {} THEN Done("REJECT", <<R.kind, "channel", first - 1, WrongAt(R.ch[first], chs[first])>>)
     ELSE IF \E c \in 1..Len(chs) : 2 * Unsaid(chs[c]) > chs[c].h * chs[c].w THEN Done("skip", <<"pixels beyond the fixed point range", R.kind>>)
     ELSE Done("ok", R.kind)

(* a frame with smoothed low frequencies, drawn without the smoothing *)
Flat == IF s.fr.vd.soft = <<>> THEN <<>> ELSE DrawFrame(s.ih, s.fr.f, s.refs, VdFinish(s.ih, s.fr, TRUE).chs)

Finish ==
  /\ stage = "sections"
  /\ s.fr.i = Steps(s.fr)
  /\ LET f == s.fr.f
         U0 == IF IsDct(f) THEN VdFinish(s.ih, s.fr, FALSE) ELSE ModFinish(s.ih, s.fr)
         low == f.type = LFFRAME
         own == IF low THEN <<>> ELSE ToCanvas(s.ih, U0.chs)
         canvas == IF f.nonorm THEN <<>> ELSE DrawFrame(s.ih, f, s.refs, U0.chs)
     IN IF U0.st # "" THEN Stop(U0.st, "transforms")
        ELSE IF low THEN stage' = "frame" /\ UNCHANGED t
                         /\ s' = [cs |-> s.cs, ih |-> s.ih, p |-> s.p, n |-> s.n, refs |-> s.refs, lfs |-> [s.lfs EXCEPT ![f.lf] = [planes |-> U0.planes, e |-> U0.e]]]
        ELSE IF \E i \in Sources(s.ih, f) : ~s.refs[i + 1].plain THEN Leave("blending with a frame kept for patches")
        ELSE IF f.last THEN Judge(canvas, IF IsDct(f) THEN Flat ELSE <<>>)
        ELSE stage' = "frame" /\ UNCHANGED t /\ s' = [cs |-> s.cs, ih |-> s.ih, p |-> s.p, n |-> s.n, refs |-> Save(s.refs, f, own, canvas), lfs |-> s.lfs]

Next == File \/ Header \/ FrameHdr \/ Section \/ Finish
Spec == Init /\ [][Next]_vars
View == <<t, stage, IF stage = "sections" THEN s.n * 10000 + s.fr.i + 1 ELSE IF stage = "frame" THEN s.n * 10000 ELSE 0>>
TypeOK == stage \in {"file", "header", "frame", "sections", "done"}
=============================================================================
