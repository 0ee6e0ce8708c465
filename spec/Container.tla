------------------------------ MODULE Container ------------------------------
(* The file format around a codestream: a bare codestream, or a signature followed
   by boxes.  Container(b) returns [st, cs, level]: cs are the bytes of the
   codestream, the contents of the codestream boxes one after another.
   st = "" fine, "err" to be refused, anything else: not laid down.             *)
EXTENDS Rd, SequencesExt

Magic == <<0, 0, 0, 12, 74, 88, 76, 32, 13, 10, 135, 10>>
FTYP == <<102, 116, 121, 112>>
JXLC == <<106, 120, 108, 99>>
JXLP == <<106, 120, 108, 112>>
JXLL == <<106, 120, 108, 108>>

Huge == 1000000000
(* big-endian number of the n bytes after offset o (0-based), Huge if larger *)
BE(b, o, n) == FoldLeft(LAMBDA a, i: IF a >= 3000000 THEN Huge ELSE a * 256 + b[o + i], 0, Iota(n))

(* the box at offset o: [st, type, from, to) contents, next *)
Box(b, o) ==
  LET n == Len(b)
      s == BE(b, o, 4)
      hd == IF s = 1 THEN 16 ELSE 8
      sz == IF s = 1 THEN BE(b, o + 8, 8) ELSE IF s = 0 THEN n - o ELSE s
  IN IF o + 8 > n \/ (s = 1 /\ o + 16 > n) THEN [st |-> "err", type |-> <<>>, from |-> 0, to |-> 0]
     ELSE IF sz < hd \/ sz > n - o THEN [st |-> "err", type |-> <<>>, from |-> 0, to |-> 0]
     ELSE [st |-> "", type |-> SubSeq(b, o + 5, o + 8), from |-> o + hd, to |-> o + sz]

(* walk over the boxes; parts: codestream pieces; done: the last piece was seen *)
Boxes(b) ==
  LET step(a, i) ==
        IF a.st # "" \/ a.o = Len(b) THEN a
        ELSE LET x == Box(b, a.o)
                 c == SubSeq(b, x.from + 1, x.to)
                 lev == IF Len(c) = 1 THEN c[1] ELSE 0
             IN IF x.st # "" THEN [a EXCEPT !.st = x.st]
                ELSE IF x.type = JXLC
                THEN [a EXCEPT !.o = x.to, !.whole = a.whole + 1, !.cs = a.cs \o c]
                ELSE IF x.type = JXLP
                THEN IF Len(c) < 4 THEN [a EXCEPT !.st = "err"]
                     ELSE [a EXCEPT !.o = x.to, !.part = a.part + 1, !.cs = a.cs \o SubSeq(c, 5, Len(c)),
                                    !.order = a.order /\ c[1] \in {0, 128} /\ BE(c, 1, 3) = a.part, !.ends = Append(a.ends, c[1] >= 128)]
                ELSE IF x.type = JXLL
                THEN IF lev \in {5, 10} THEN [a EXCEPT !.o = x.to, !.level = lev, !.levels = a.levels + 1]
                     ELSE [a EXCEPT !.st = IF c = <<>> THEN "err" ELSE "level box"]
                ELSE [a EXCEPT !.o = x.to]
  IN FoldLeft(step, [st |-> "", o |-> 12, cs |-> <<>>, whole |-> 0, part |-> 0, order |-> TRUE, ends |-> <<>>, level |-> 5, levels |-> 0],
              Iota((Len(b) - 12) \div 8 + 1))

Container(b) ==
  IF Len(b) < 12 \/ SubSeq(b, 1, 12) # Magic THEN [st |-> "", cs |-> b, level |-> 5]
  ELSE LET z == Boxes(b)
           n == Len(z.ends)
           st == IF z.st = "err" THEN "err"
                 ELSE IF z.st # "" THEN z.st
                 ELSE IF z.whole + z.part = 0 THEN "err"
                 ELSE IF z.whole > 1 \/ (z.whole = 1 /\ z.part > 0) THEN "several codestreams"
                 ELSE IF ~z.order \/ (\E i \in 1..n : z.ends[i] # (i = n)) THEN "order of the parts"
                 ELSE IF z.levels > 1 THEN "several levels" ELSE ""
       IN [st |-> st, cs |-> z.cs, level |-> z.level]
=============================================================================
