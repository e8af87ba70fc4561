----------------------------- MODULE VersePerFile -----------------------------
(* A Bible kept one file per verse (BCV): a processed book is written into its  *)
(* folder, the lines of every verse in a file of their own (all those before    *)
(* the first chapter together in one), with a list of the files; and read back  *)
(* from there, file by file and line by line.                                   *)
EXTENDS Book

RECURSIVE At(_, _, _)
At(s, ch, i) == IF i > Len(s) THEN 0 ELSE IF SubSeq(s, i, i) = ch THEN i ELSE At(s, ch, i + 1)

\* what the lines say: texts which contain what the format itself is made of
Number(t) == IF t \in {"t" \o ToString(i) : i \in 1..60} THEN CHOOSE i \in 1..60 : t = "t" \o ToString(i) ELSE 0
Weave(t) ==
  LET n == Number(t) IN
  IF n = 0 \/ (\E i \in 1..Len(raw) : raw[i].m = "cp" /\ raw[i].x = t) THEN t   \* (a chapter number is a plain one)
  ELSE CASE n % 7 = 0 -> t \o " = half"
         [] n % 7 = 1 -> "<<" \o t \o ">> it said"
         [] n % 7 = 2 -> t \o "=" \o t \o " <<c=v"
         [] n % 7 = 3 -> "Word \\add " \o t \o "\\add* and \\nd x=y\\nd*."
         [] n % 7 = 4 -> t \o "\\f + \\ft A note=<<1>>\\f* more\\x - \\xt Mrk 7:14\\x*"
         [] n % 7 = 5 -> "=" \o t \o " ¬v “quoted”"
         [] n % 7 = 6 -> t

OurEnd(l) == SubSeq(l.m, 1, 1) = "/"
Custom == {"headers", "intro", "ilist", "chapters", "list"}
Bare(l) == OurEnd(l) \/ l.m \in Custom     \* a line of the library's own, nothing but a marker
Implied == {<<"c#", "c">>, <<"v~", "v">>}  \* original markers that go without saying
(* ------------------------------------------------------------ writing *)
Written(l) == "\\" \o l.m
              \o (IF ~Bare(l) /\ l.o \notin {"", l.m} /\ <<l.m, l.o>> \notin Implied THEN "<<" \o l.o ELSE "")
              \o (IF ~Bare(l) /\ l.t # "" THEN "=" \o Weave(l.t) ELSE "")
LinesOf(e) == [i \in 1..e.n |-> Written(ls[e.ix + i])]
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Front == TLCEval(SelectSeq(Idx, LAMBDA e : e.c = "-1"))
Verses == TLCEval(SelectSeq(Idx, LAMBDA e : e.c # "-1"))
FrontFile == IF Verses = <<>> THEN "_C0" ELSE "__Intro"
Files == (IF Front = <<>> THEN <<>> ELSE << [cv |-> <<"-1">>, name |-> FrontFile, lines |-> Flat([i \in 1..Len(Front) |-> LinesOf(Front[i])])] >>)
         \o [i \in 1..Len(Verses) |-> [cv |-> <<Verses[i].c, Verses[i].v>>, name |-> "_C" \o Verses[i].c \o "V" \o Verses[i].v, lines |-> LinesOf(Verses[i])]]
(* ------------------------------------------------------------ reading *)
EqAt(s) == IF Len(s) > 4 /\ SubSeq(s, 1, IF Len(s) > 4 THEN 4 ELSE 0) = "\\v=<" THEN At(s, "=", 4 + 1) ELSE At(s, "=", 2)   \* (the marker v=)
LlAt(s) == LET p == At(s, "<", 2) q == EqAt(s) IN IF p = 0 \/ (q # 0 /\ p > q) THEN 0 ELSE p
ReadLine(last, s) ==     \* last: the chapter and the verse it is in
  LET q == EqAt(s) p == LlAt(s)
      e1 == IF p # 0 THEN p - 1 ELSE IF q # 0 THEN q - 1 ELSE Len(s)
      m == SubSeq(s, 2, e1)
      bare == SubSeq(m, 1, 1) = "/" \/ m \in Custom \/ (m = "iot" /\ q = 0)
      o == IF bare THEN "" ELSE IF p # 0 THEN SubSeq(s, p + 2, IF q # 0 THEN q - 1 ELSE Len(s))
           ELSE IF \E x \in Implied : x[1] = m THEN (CHOOSE x \in Implied : x[1] = m)[2] ELSE m
      t == IF m = "/c" THEN last.c ELSE IF m = "/v" THEN last.v ELSE IF q = 0 THEN "" ELSE SubSeq(s, q + 1, Len(s))
  IN [m |-> m, o |-> o, t |-> t]
RECURSIVE ReadAll(_, _, _)
ReadAll(last, ss, k) ==
  IF k > Len(ss) THEN <<>>
  ELSE LET l == TLCEval(ReadLine(last, ss[k])) IN
       <<l>> \o ReadAll([c |-> IF l.m = "c" THEN l.t ELSE last.c, v |-> IF l.m = "v" THEN l.t ELSE last.v], ss, k + 1)
Woven(s) == [i \in 1..Len(s) |-> [m |-> s[i].m, o |-> s[i].o, t |-> Weave(s[i].t)]]

TellFiles == /\ phase = "done" /\ Emit
             /\ PrintT("@@" \o ToJson([raw |-> [i \in 1..Len(raw) |-> [raw[i] EXCEPT !.x = Weave(@)]],
                                       lines |-> Woven(ls), index |-> Idx, files |-> Files]))
             /\ phase' = "told"
             /\ UNCHANGED <<raw, cN, vN, suf, rs, ns, ls, is, j, Idx>>
FNext == Add \/ End \/ Nest \/ Start \/ Index \/ Finish \/ TellFiles
FSpec == Init /\ [][FNext]_vars
----------------------------------------------------------------------------
\* reading the files one after the other gives the book
Back == phase = "done" => ReadAll([c |-> "", v |-> ""], Flat([i \in 1..Len(Files) |-> Files[i].lines]), 1) = Woven(ls)
\* a file for every verse, and no two verses in one
OwnFile == phase = "done" => \A a, b \in 1..Len(Files) : a # b => Files[a].name # Files[b].name
Whole == phase = "done" => Len(Flat([i \in 1..Len(Files) |-> Files[i].lines])) = Len(ls)
=============================================================================
