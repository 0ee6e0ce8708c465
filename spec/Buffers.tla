-------------------------------- MODULE Buffers --------------------------------
(* C17: matrices from the pools and sample buffers.  A record is a history of calls; the state is
   what every live matrix and buffer must hold.  Nothing but a call on a handle changes that handle,
   so shared storage shows as contents the state does not have.
   An integer sample is <<v, 1>>; a floating one the rational <<num, den>>; <<0, 0>> is no number,
   <<1, 0>> and <<-1, 0>> the infinities, <<0, -1>> a sample nothing is said of.
   Matrices have planes, rows, columns (two-dimensional ones one plane).                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, i, mats, bufs
vars == <<t, i, mats, bufs>>
R == Traces[t]
E == R.s[i]

Lim == 2^20
AbsV(x) == IF x < 0 THEN -x ELSE x
Without(f, h) == [x \in (DOMAIN f) \ {h} |-> f[x]]
With(f, h, v) == [x \in (DOMAIN f) \cup {h} |-> IF x = h THEN v ELSE f[x]]
Zeros(d, h, w) == [p \in 1..d |-> [y \in 1..h |-> [x \in 1..w |-> 0]]]

(* ---- samples ---- *)
Undef == <<0, -1>>
Big(n) == AbsV(n) >= Lim
(* the conversion of an integer to a float by a maximum *)
ToF(s, m) == IF s[2] # 1 \/ Big(s[1]) \/ Big(m) THEN Undef ELSE <<s[1], m>>
(* what integer r may a float sample become by a maximum m? *)
IntOk(s, m, r) ==
  /\ r >= 0 /\ r <= m
  /\ CASE s = Undef -> TRUE
       [] s = <<0, 0>> -> TRUE
       [] s = <<1, 0>> -> r = m
       [] s = <<-1, 0>> -> r = 0
       [] s[1] <= 0 -> r = 0
       [] s[1] >= s[2] -> r = m
       [] s[2] = m -> r = s[1]
       [] Big(m) \/ s[1] > (2^30) \div m -> TRUE
       [] OTHER -> AbsV(r * s[2] - s[1] * m) <= (s[2] + 1) \div 2 + (s[1] * m) \div (2^20)
(* may a recorded float (in 1/1024) be the sample? *)
FloatOk(s, o) ==
  CASE s = Undef -> TRUE
    [] s[2] = 0 -> TRUE
    [] AbsV(s[1]) \div s[2] >= 2^18 -> TRUE   \* not recorded
    [] OTHER -> AbsV(o) <= (2^30 + 2^27) \div s[2] /\ AbsV(o * s[2] - s[1] * 1024) <= s[2] * (1 + AbsV(o) \div 2^21)   \* the record rounds, and so does the code
SampleOk(ty, s, o) == IF ty = "int" THEN s = Undef \/ o = s[1] ELSE FloatOk(s, o)

(* ---- buffers: [ty, w, h, c], c a sequence of rows of samples ---- *)
Shown(b, o) ==
  /\ o.ty = b.ty /\ o.w = b.w /\ o.h = b.h /\ Len(o.c) = b.h
  /\ \A y \in 1..b.h : Len(o.c[y]) = b.w /\ \A x \in 1..b.w : SampleOk(b.ty, b.c[y][x], o.c[y][x])
Map(c, f(_)) == TLCEval([y \in 1..Len(c) |-> [x \in 1..Len(c[y]) |-> f(c[y][x])]])
Cells(b) == {b.c[y][x] : y \in 1..b.h, x \in 1..b.w}
SameShape(a, b) == a.ty = b.ty /\ a.w = b.w /\ a.h = b.h
Differs(s, u) == s # u /\ s[2] >= 0 /\ u[2] >= 0 /\ (s[2] = u[2] \/ s[2] = 0 \/ u[2] = 0)
SurelyNot(a, b) == ~SameShape(a, b) \/ \E y \in 1..a.h : \E x \in 1..a.w : Differs(a.c[y][x], b.c[y][x])
Surely(a, b) == SameShape(a, b) /\ a.c = b.c /\ \A s \in Cells(a) : s # Undef /\ s # <<0, 0>>
EqOk(a, b, r) == (SurelyNot(a, b) => ~r) /\ (Surely(a, b) => r)
EqsOk(a, b, r) ==
  /\ (Len(a) # Len(b) \/ \E k \in 1..Len(a) : SurelyNot(bufs[a[k]], bufs[b[k]])) => ~r
  /\ (Len(a) = Len(b) /\ \A k \in 1..Len(a) : Surely(bufs[a[k]], bufs[b[k]])) => r
(* the greatest sample, when it is known and not below zero *)
MaxIntOk(b, r) == LET V == {s[1] : s \in Cells(b)} IN (b.ty = "int" /\ V # {} /\ \E v \in V : v >= 0) => (r \in V \cup {0} /\ \A v \in V : v <= r)

Init == t \in 1..Len(Traces) /\ i = 1 /\ mats = [x \in {} |-> 0] /\ bufs = [x \in {} |-> 0]
Done(v, info) == PrintT(ToString(<<"VERDICT", t, v, info>>)) /\ i' = -1 /\ mats' = <<>> /\ bufs' = <<>> /\ UNCHANGED t
No(what) == Done("REJECT", <<what, "step", i, E.op, E.k, E.h>>)
Mats(m) == mats' = TLCEval(m) /\ i' = i + 1 /\ UNCHANGED <<t, bufs>>
Bufs(b) == bufs' = TLCEval(b) /\ i' = i + 1 /\ UNCHANGED <<t, mats>>
Stay == i' = i + 1 /\ UNCHANGED <<t, mats, bufs>>

Active == i > 0 /\ i <= Len(R.s) /\ ~R.pan
Panicked == i > 0 /\ R.pan /\ Done("REJECT", <<"panic or data race", R.msg, "after", Len(R.s)>>)

(* a matrix handed out, pooled or plain *)
Make == /\ Active /\ E.op = "make"
        /\ IF E.c # Zeros(E.d, E.y, E.x) THEN No("a matrix is not of the requested shape, or not zero")
           ELSE Mats(With(mats, E.h, E.c))
(* a matrix the caller built *)
Own == Active /\ E.op = "own" /\ Mats(With(mats, E.h, E.c))
Write == /\ Active /\ E.op = "write"
         /\ Mats([mats EXCEPT ![E.h][E.d + 1][E.y + 1][E.x + 1] = E.v])
Look == /\ Active /\ E.op = "look"
        /\ IF E.c # mats[E.h] THEN No("a live matrix changed by itself") ELSE Stay
Return == Active /\ E.op = "return" /\ Mats(Without(mats, E.h))

(* buffers *)
NewBuf == /\ Active /\ E.op = "new"
          /\ IF E.bad THEN (IF E.err THEN Stay ELSE No("an impossible buffer is made"))
             ELSE IF E.err THEN No("a buffer is refused")
             ELSE LET b == [ty |-> E.ty, w |-> E.x, h |-> E.y, c |-> [y \in 1..E.y |-> [x \in 1..E.x |-> <<0, 1>>]]]
                  IN IF ~Shown(b, E.o) THEN No("a new buffer is not zero") ELSE Bufs(With(bufs, E.h, b))
From == /\ Active /\ E.op = "from"
        /\ LET b == [ty |-> E.ty, w |-> E.x, h |-> E.y, c |-> E.c]
           IN IF ~Shown(b, E.o) THEN No("a buffer made from samples shows others") ELSE Bufs(With(bufs, E.h, b))
Copy == /\ Active /\ E.op = "copy"
        /\ LET b == bufs[E.from]
               n == IF E.v = 1 THEN b ELSE [b EXCEPT !.c = Map(b.c, LAMBDA s : <<0, 1>>)]
           IN IF ~Shown(n, E.o) THEN No("a copy differs from its source") ELSE Bufs(With(bufs, E.h, n))
Poke == Active /\ E.op = "poke" /\ Bufs([bufs EXCEPT ![E.h].c[E.y + 1][E.x + 1] = E.s])
Show == Active /\ E.op = "show" /\ (IF Shown(bufs[E.h], E.o) THEN Stay ELSE No("a buffer changed by itself"))
CastF ==
  /\ Active /\ E.op = "castf"
  /\ LET b == bufs[E.h]
         n == [b EXCEPT !.ty = "float", !.c = Map(b.c, LAMBDA s : ToF(s, E.v))]
     IN IF b.ty = "float" THEN (IF ~E.err /\ Shown(b, E.o) THEN Stay ELSE No("converting a float buffer to float is not idle"))
        ELSE IF E.v < 1 THEN (IF E.err /\ Shown(b, E.o) THEN Stay ELSE No("a failed conversion is not reported, or changes the buffer"))
        ELSE IF E.err \/ ~Shown(n, E.o) THEN No("conversion to float") ELSE Bufs([bufs EXCEPT ![E.h] = n])
CastI ==
  /\ Active /\ E.op = "casti"
  /\ LET b == bufs[E.h]
         ok == /\ E.o.ty = "int" /\ E.o.w = b.w /\ E.o.h = b.h /\ Len(E.o.c) = b.h
               /\ \A y \in 1..b.h : Len(E.o.c[y]) = b.w /\ \A x \in 1..b.w : IntOk(b.c[y][x], E.v, E.o.c[y][x])
         n == [b EXCEPT !.ty = "int", !.c = Map(E.o.c, LAMBDA v : <<v, 1>>)]
     IN IF b.ty = "int" THEN (IF ~E.err /\ Shown(b, E.o) THEN Stay ELSE No("converting an integer buffer to integers is not idle"))
        ELSE IF E.v < 1 THEN (IF E.err /\ Shown(b, E.o) THEN Stay ELSE No("a failed conversion is not reported, or changes the buffer"))
        ELSE IF E.err \/ ~ok THEN No("conversion to integers") ELSE Bufs([bufs EXCEPT ![E.h] = n])
Clamped ==
  /\ Active /\ E.op = "clamp"
  /\ LET b == bufs[E.h]
         n == [b EXCEPT !.c = Map(b.c, LAMBDA s : <<IF s[1] < 0 THEN 0 ELSE IF s[1] > E.v THEN E.v ELSE s[1], 1>>)]
     IN IF b.ty = "float" THEN (IF E.err /\ Shown(b, E.o) THEN Stay ELSE No("clamping a float buffer"))
        ELSE IF E.err \/ ~Shown(n, E.o) THEN No("clamping") ELSE Bufs([bufs EXCEPT ![E.h] = n])
Equal == Active /\ E.op = "equal" /\ (IF EqOk(bufs[E.h], bufs[E.from], E.r) THEN Stay ELSE No(<<"equality says", E.r>>))
Equals == Active /\ E.op = "equals" /\ (IF EqsOk(E.a, E.b, E.r) THEN Stay ELSE No(<<"equality of sequences says", E.r>>))
Greatest == Active /\ E.op = "max" /\ (IF MaxIntOk(bufs[E.h], E.v) THEN Stay ELSE No(<<"greatest sample", E.v>>))

Finish == i > Len(R.s) /\ ~R.pan /\ Done("ok", <<Len(R.s), R.par>>)
Next == \/ Panicked \/ Make \/ Own \/ Write \/ Look \/ Return \/ NewBuf \/ From \/ Copy \/ Poke \/ Show
        \/ CastF \/ CastI \/ Clamped \/ Equal \/ Equals \/ Greatest \/ Finish
Spec == Init /\ [][Next]_vars
View == <<t, i>>
Safe == i = -1 \/ (i > 0 /\ i <= Len(R.s) + 1)
================================================================================
