-------------------------------- MODULE Queries --------------------------------
(* C15: one file and the answers to several questions about it: the configuration, asked
   directly and by the registry of the standard library, the header, the image, the
   converted image.  What the header says is read by the specification from the file;
   an image, where one was delivered, must be the one the header announces.  Questions
   may go to one decoder or to fresh ones, in any order.                              *)
EXTENDS ImageHeader, Container, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, i, s
vars == <<t, i, s>>
R == Traces[t]
Init == t \in 1..Len(Traces) /\ i = 0 /\ s = [st |-> "start"]
Done(v, info) == PrintT(ToString(<<"VERDICT", t, v, info>>)) /\ i' = -1 /\ s' = [st |-> "end"] /\ UNCHANGED t

Nothing == [st |-> "", w |-> 0, h |-> 0, nc |-> 0, ec |-> <<>>, model |-> "none"]
(* what the file announces; st = "err": no header can be read *)
Announced ==
  LET C == Container(R.bytes)
      A == ReadImageHeader(C.cs, 0, C.level)
      sideways == A.h.orient > 4
      types == TLCEval([k \in 1..Len(A.h.ec) |-> A.h.ec[k].type])
      alpha == \E k \in 1..Len(types) : types[k] = 0
      nc == NColours(A.h)
  IN IF C.st # "" THEN [Nothing EXCEPT !.st = C.st]
     ELSE IF A.st # "" THEN [Nothing EXCEPT !.st = A.st]
     ELSE [st |-> "", w |-> IF sideways THEN A.h.h ELSE A.h.w, h |-> IF sideways THEN A.h.w ELSE A.h.h,
           nc |-> nc, ec |-> types, model |-> IF nc = 1 /\ ~alpha THEN "gray" ELSE "colour"]

Models(m) == IF m = "gray" THEN {"gray", "gray16"} ELSE {"nrgba", "nrgba64", "rgba", "rgba64"}
ModelOK(a, m) == a.model \in Models(m)

(* <<>> or what is wrong with answer a, x being announced *)
Judge(a, x) ==
  IF x.st = "err" THEN IF a.err THEN <<>> ELSE <<"answered about a file without a header">>
  ELSE CASE a.q \in {"config", "rconfig"} ->
              IF a.err THEN <<"refused", a.msg>>
              ELSE IF a.w # x.w \/ a.h # x.h THEN <<"size", a.w, a.h, "should be", x.w, x.h>>
              ELSE IF ~ModelOK(a, x.model) THEN <<"colour model", a.model>>
              ELSE IF a.q = "rconfig" /\ a.fmt # "jxl" THEN <<"format", a.fmt>> ELSE <<>>
         [] a.q = "header" ->
              IF a.err \/ a.nil THEN <<"refused", a.msg>>
              ELSE IF a.w # x.w \/ a.h # x.h THEN <<"size", a.w, a.h, "should be", x.w, x.h>>
              ELSE IF a.nc # x.nc \/ a.ec # x.ec THEN <<"channels", a.nc, a.ec>> ELSE <<>>
         [] a.q = "decode" ->
              IF a.err THEN <<>>
              ELSE IF a.nil THEN <<"neither image nor error">>
              ELSE IF a.w # x.w \/ a.h # x.h THEN <<"size", a.w, a.h, "should be", x.w, x.h>>
              ELSE IF a.nc # x.nc + Len(x.ec) \/ a.ec # x.ec THEN <<"channels", a.nc, a.ec>> ELSE <<>>
         [] OTHER ->
              IF a.err THEN <<>>
              ELSE IF a.nil THEN <<"neither image nor error">>
              ELSE IF a.w # x.w \/ a.h # x.h THEN <<"size", a.w, a.h, "should be", x.w, x.h>>
              ELSE IF ~ModelOK(a, x.model) THEN <<"colour model", a.model>>
              ELSE IF a.q = "rimage" /\ a.fmt # "jxl" THEN <<"format", a.fmt>> ELSE <<>>

Group(q) == IF q \in {"config", "rconfig"} THEN "config" ELSE IF q \in {"image", "rimage"} THEN "image" ELSE q
(* answers that disagree among themselves *)
Clash(a, b) ==
  IF Group(a.q) = Group(b.q) /\ (a.err # b.err \/ a.w # b.w \/ a.h # b.h \/ a.model # b.model \/ (a.q = "decode" /\ a.sum # b.sum)) THEN <<"two ways to ask, two answers", a.q, b.q>>
  ELSE IF a.q \in {"config", "rconfig"} /\ b.q \in {"image", "rimage"} /\ ~b.err /\ a.model # b.model THEN <<"colour model of the image", b.model, "announced", a.model>>
  ELSE IF a.q \in {"config", "rconfig", "header"} /\ b.q \in {"decode", "image", "rimage"} /\ a.err /\ ~b.err THEN <<"an image, but no", a.q>>
  ELSE IF a.q \in {"config", "rconfig"} /\ b.q = "header" /\ a.err # b.err THEN <<"header and configuration disagree">>
  ELSE IF a.q = "decode" /\ b.q \in {"image", "rimage"} /\ a.err /\ ~b.err THEN <<"an image of a file that cannot be decoded">>
  ELSE <<>>

Start == /\ i = 0
         /\ IF R.pan THEN Done("REJECT", <<"panic", R.kind, R.msg>>)
            ELSE LET x == TLCEval(Announced) IN
                 /\ s' = x /\ UNCHANGED t /\ i' = 1
Answer == /\ i > 0 /\ i <= Len(R.a)
          /\ LET a == R.a[i]
                 j == IF s.st \in {"", "err"} THEN Judge(a, s) ELSE <<>>
                 c == {k \in 1..Len(R.a) : Clash(a, R.a[k]) # <<>>}
             IN IF a.pan THEN Done("REJECT", <<"panic", a.q, R.kind, a.msg>>)
                ELSE IF j # <<>> THEN Done("REJECT", <<a.q, R.kind, j>>)
                ELSE IF c # {} THEN Done("REJECT", <<R.kind, Clash(a, R.a[CHOOSE k \in c : TRUE])>>)
                ELSE i' = i + 1 /\ UNCHANGED <<t, s>>
Decoded == \E k \in 1..Len(R.a) : R.a[k].q = "decode" /\ ~R.a[k].err
Finish == i > Len(R.a) /\ Done(IF s.st \in {"", "err"} THEN "ok" ELSE "skip", IF s.st # "" THEN s.st ELSE <<R.kind, Decoded>>)
Next == Start \/ Answer \/ Finish
Spec == Init /\ [][Next]_vars
View == <<t, i>>
Safe == i >= -1
================================================================================
