------------------------------ MODULE Processing ------------------------------
(* How a book is processed, line by line, as operators on records.  Each       *)
(* operator is one step of the implementation:                                 *)
(*   RawStep    one source line -> standardised lines (chapter numbers kept    *)
(*              waiting for their printing place, verse and paragraph text     *)
(*              split from the marker)                                         *)
(*   NestStep   one standardised line -> end markers due before it + itself    *)
(*   NestFinish end of book: everything still open is closed, innermost first  *)
(*   VerseStart a logical verse start before a heading that leads a verse      *)
(*   IndexStep  one processed line -> chapter/verse index bookkeeping          *)
(* A line is [m |-> marker, o |-> original marker, t |-> text].                *)
EXTENDS Markers, Integers

L(m, o, t) == [m |-> m, o |-> o, t |-> t]

----------------------------------------------------------------------------
(* 1. Source lines.  st = [out, C, waiting]; C = "-1" before the first chapter *)
RawInit == [out |-> <<>>, C |-> "-1", waiting |-> ""]

\* text after the marker: n = number ("" if none), x = text ("" if none)
AppendEntry(st, m, o, x) ==
  IF m \in ParaSplit /\ x # ""
  THEN [st EXCEPT !.out = @ \o << L(m, o, ""), L("p~", o, x) >>]
  ELSE [st EXCEPT !.out = Append(@, L(m, o, x))]

Waiting(st) == IF st.waiting = "" THEN st
               ELSE [st EXCEPT !.out = Append(@, L("c#", "c", st.waiting)), !.waiting = ""]

MissingChapter(st) ==   \* a verse before any chapter: chapter 1 is made explicit, before an opened paragraph
  LET last == st.out[Len(st.out)]
      front == SubSeq(st.out, 1, Len(st.out) - 1)
  IN IF last.m \in Para \cup {"nb"}
     THEN [st EXCEPT !.out = front \o << L("c", "c", "1"), last >>, !.C = "1"]
     ELSE [st EXCEPT !.out = Append(@, L("c", "c", "1")), !.C = "1"]

RawStep(st, ln) ==      \* ln = [m, n, x]
  LET m == Std(ln.m) IN
  CASE ln.m = "c" ->
         LET st1 == [st EXCEPT !.C = ln.n, !.waiting = ln.n, !.out = Append(@, L("c", "c", ln.n))]
         IN IF ln.x = "" THEN st1 ELSE [st1 EXCEPT !.out = Append(@, L("c~", "c", ln.x))]
    [] ln.m = "cp" -> [AppendEntry(st, "cp", "cp", ln.x) EXCEPT !.waiting = ln.x]
    [] ln.m = "cl" /\ st.C = "-1" -> AppendEntry(st, "cl$", "cl", ln.x)
    [] ln.m \in {"d", "iex"} /\ ln.x # "" -> AppendEntry(Waiting(st), m, ln.m, ln.x)
    [] ln.m = "v" ->
         LET st1 == Waiting(IF st.C = "-1" THEN MissingChapter(st) ELSE st)
             st2 == [st1 EXCEPT !.out = Append(@, L("v", "v", ln.n))]
         IN IF ln.x = "" THEN st2 ELSE [st2 EXCEPT !.out = Append(@, L("v~", "v", ln.x))]
    [] OTHER -> AppendEntry(st, m, ln.m, ln.x)

----------------------------------------------------------------------------
(* 2. End markers.  st = [out, open, lastM, lastP, lastS, C, V]                *)
NestInit == [out |-> <<>>, open |-> <<>>, lastM |-> "", lastP |-> "", lastS |-> "", C |-> "-1", V |-> ""]

Member(x, s) == \E i \in 1..Len(s) : s[i] = x
Last(s) == IF s = <<>> THEN "" ELSE s[Len(s)]
Drop(s, x) == LET i == CHOOSE k \in 1..Len(s) : s[k] = x /\ \A h \in 1..(k-1) : s[h] # x
              IN SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
EndText(st, m) == IF m = "v" THEN st.V ELSE IF m = "c" THEN st.C ELSE ""

Open(st, m) == [st EXCEPT !.out = Append(@, L(m, "", "")), !.open = Append(@, m)]
CloseLast(st) == LET m == Last(st.open)
                 IN [st EXCEPT !.out = Append(@, L("/" \o m, "", EndText(st, m))), !.open = SubSeq(@, 1, Len(@) - 1)]
Close(st, m) == [st EXCEPT !.out = Append(@, L("/" \o m, "", EndText(st, m))), !.open = Drop(@, m)]
CloseIfOpen(st, m) == IF Member(m, st.open) THEN Close(st, m) ELSE st

\* what comes after position j decides whether a container has ended
RECURSIVE Ahead(_, _, _, _)
Ahead(ls, k, yes, no) == IF k > Len(ls) THEN TRUE
                         ELSE IF ls[k].m \in yes THEN TRUE
                         ELSE IF ls[k].m \in no THEN FALSE
                         ELSE Ahead(ls, k + 1, yes, no)
VerseEnded(ls, j) == Ahead(ls, j + 1, {"v", "c"}, {"v~", "p~"})
ChapterEnded(ls, j) == Ahead(ls, j + 1, {"c"}, {"v", "v~", "p~"})
ParaEnded(ls, j) == Ahead(ls, j + 1, Para, {"v", "v~", "p~"})
RECURSIVE NextIn(_, _, _)
NextIn(ls, k, S) == IF k > Len(ls) THEN "" ELSE IF ls[k].m \in S THEN ls[k].m ELSE NextIn(ls, k + 1, S)
NextRelevant(ls, j) == NextIn(ls, j + 1, {"v", "v~", "p~"} \cup Heading \cup HeadingBlock \cup Para)
RECURSIVE NextNotIn(_, _, _)
NextNotIn(ls, k, S) == IF k > Len(ls) THEN "" ELSE IF ls[k].m \notin S THEN ls[k].m ELSE NextNotIn(ls, k + 1, S)

\* close a finished verse or the current paragraph, while the innermost container is one of those
RECURSIVE LoopVP(_, _, _)
LoopVP(st, ls, j) ==
  IF Last(st.open) = "v" /\ VerseEnded(ls, j) THEN LoopVP(CloseLast(st), ls, j)
  ELSE IF st.lastP # "" /\ Last(st.open) = st.lastP THEN LoopVP([CloseLast(st) EXCEPT !.lastP = ""], ls, j)
  ELSE st
CloseVerseIfEnded(st, ls, j) == IF Member("v", st.open) /\ VerseEnded(ls, j) THEN Close(st, "v") ELSE st
ClosePara(st) == IF st.lastP # "" /\ Member(st.lastP, st.open) THEN [Close(st, st.lastP) EXCEPT !.lastP = ""] ELSE st

RECURSIVE LoopV(_, _, _)
LoopV(st, ls, j) ==
  IF Last(st.open) = "v" THEN LoopV(CloseLast(st), ls, j)
  ELSE IF st.lastP # "" /\ Last(st.open) \in Para /\ ParaEnded(ls, j)
       THEN LoopV([CloseLast(st) EXCEPT !.lastP = IF Last(st.open) = st.lastP THEN "" ELSE @], ls, j)
  ELSE st

RECURSIVE LoopBlock(_, _, _, _)
LoopBlock(st, ls, j, m) ==
  LET o == Last(st.open) IN
  IF o \in {"headers", "intro"} THEN LoopBlock(CloseLast(st), ls, j, m)
  ELSE IF o = "v" /\ VerseEnded(ls, j) THEN LoopBlock(CloseLast(st), ls, j, m)
  ELSE IF st.lastP # "" /\ o = st.lastP THEN LoopBlock([CloseLast(st) EXCEPT !.lastP = ""], ls, j, m)
  ELSE IF o = "c" /\ ChapterEnded(ls, j) THEN LoopBlock(CloseLast(st), ls, j, m)
  ELSE IF o = m THEN LoopBlock(CloseLast(st), ls, j, m)
  ELSE st

NestHeadersIntro(st, m) ==
  LET st1 == IF m = "h" /\ ~Member("headers", st.open) THEN Open(st, "headers") ELSE st
  IN IF m \in IntroMarkers /\ ~Member("intro", st1.open) /\ (m # "iex" \/ ~Member("c", st1.open))
     THEN Open(IF Last(st1.open) = "headers" THEN CloseLast(st1) ELSE CloseIfOpen(st1, "headers"), "intro")
     ELSE st1
NestOutline(st, m) == IF Last(st.open) = "iot" /\ m \notin Outline THEN CloseLast(st) ELSE st
NestIntroList(st, m) == IF Last(st.open) = "ilist" /\ m \notin IntroList THEN CloseLast(st) ELSE st
NestList(st, ls, j) ==
  IF Last(st.open) = "list" /\ ls[j].m \notin MainList \cup {"v~", "p~"}
     /\ NextNotIn(ls, j + 1, {"c", "v=", "v", "v~", "p~"}) \notin MainList
  THEN CloseLast(st) ELSE st

NestChapter(st, ls, j) ==
  LET a == IF Last(st.open) \in {"headers", "intro"} THEN CloseLast(st) ELSE st
      b == CloseIfOpen(a, "v")
      c == IF ~Member("chapters", b.open) THEN Open(b, "chapters")
           ELSE IF Last(b.open) \in Para /\ NextRelevant(ls, j) \in Para \cup Heading THEN CloseLast(b) ELSE b
      d == CloseIfOpen(c, "c")
  IN [d EXCEPT !.C = ls[j].t, !.V = "0", !.open = Append(@, "c")]
NestVerse(st, ls, j) ==
  LET a == CloseIfOpen(LoopV(st, ls, j), "v")
  IN [a EXCEPT !.V = ls[j].t, !.open = Append(@, "v")]
NestOutlineItem(st, m) ==
  IF st.lastM \notin Outline \cup {"iot"} THEN Open(st, "iot") ELSE st
NestIntroListItem(st, m) == IF st.lastM \notin IntroList THEN Open(st, "ilist") ELSE st
NestHeading(st, ls, j) == ClosePara(CloseVerseIfEnded(LoopVP(st, ls, j), ls, j))
NestBlock(st, ls, j) ==
  LET m == ls[j].m
      a == LoopBlock(st, ls, j, m)
      b == IF ~Member("chapters", a.open) THEN Open(a, "chapters") ELSE ClosePara(a)
      c == CloseIfOpen(b, m)
  IN [c EXCEPT !.open = Append(@, m)]
NestMainList(st, ls, j) ==
  LET a == ClosePara(CloseVerseIfEnded(LoopVP(st, ls, j), ls, j))
      b == IF Member("list", a.open) THEN a ELSE Open(a, "list")
  IN [b EXCEPT !.open = Append(@, ls[j].m), !.lastP = ls[j].m]
NestPara(st, ls, j) ==
  LET a == ClosePara(CloseVerseIfEnded(LoopVP(st, ls, j), ls, j))
  IN [a EXCEPT !.open = Append(@, ls[j].m), !.lastP = ls[j].m]
NestNever(st, ls, j) == CloseVerseIfEnded(LoopVP(st, ls, j), ls, j)

NestStep(st, ls, j) ==
  LET m == ls[j].m
      p == NestList(NestIntroList(NestOutline(NestHeadersIntro(st, m), m), m), ls, j)
      q == CASE m = "c" -> NestChapter(p, ls, j)
             [] m = "v" -> NestVerse(p, ls, j)
             [] m = "iot" -> [p EXCEPT !.open = Append(@, "iot")]
             [] m \in Outline -> NestOutlineItem(p, m)
             [] m \in IntroList -> NestIntroListItem(p, m)
             [] m \in Heading -> NestHeading(p, ls, j)
             [] m \in HeadingBlock -> NestBlock(p, ls, j)
             [] m \in MainList -> NestMainList(p, ls, j)
             [] m \in Para -> NestPara(p, ls, j)
             [] m \in NeverText -> NestNever(p, ls, j)
             [] OTHER -> p
  IN [q EXCEPT !.out = Append(@, ls[j]), !.lastM = m]

RECURSIVE NestFinish(_)
NestFinish(st) == IF st.open = <<>> THEN st ELSE NestFinish(CloseLast(st))

----------------------------------------------------------------------------
(* 3. Logical verse starts: a heading that leads into a verse is preceded by   *)
(* the number of that verse.                                                   *)
Leads == Numbered("s", 4) \cup {"sp"}
LeadsAlso == AllBiblePara \cup {"c#", "r", "d", "ms1", "mr", "sr", "sp", "ib", "b", "nb", "cl$", "tr"}
RECURSIVE Look(_, _, _)
Look(ls, j, k) ==      \* the verse line within the four lines after j, "" if none
  IF k > 4 \/ j + k > Len(ls) THEN <<>>
  ELSE IF ls[j + k].m = "v" THEN << L("v=", "v", ls[j + k].t) >>
  ELSE IF ls[j + k].m \in LeadsAlso THEN Look(ls, j, k + 1)
  ELSE <<>>
RECURSIVE VerseStart(_, _)
VerseStart(ls, j) == IF j > Len(ls) THEN <<>>
                     ELSE (IF ls[j].m \in Leads THEN Look(ls, j, 1) ELSE <<>>) \o << ls[j] >> \o VerseStart(ls, j + 1)

----------------------------------------------------------------------------
(* 4. The chapter/verse index.  st = [ents, C, key, start, n]; an entry is     *)
(* [c, v, ix (from 0), n, ctx].                                                *)
IndexInit == [ents |-> <<>>, C |-> "-1", key |-> "", start |-> 0, n |-> 0]
Find(ents, c, v) == IF \E i \in 1..Len(ents) : ents[i].c = c /\ ents[i].v = v
                    THEN CHOOSE i \in 1..Len(ents) : ents[i].c = c /\ ents[i].v = v ELSE 0
Save(st) == IF st.key = "" THEN st
            ELSE LET i == Find(st.ents, st.C, st.key)
                     e == [c |-> st.C, v |-> st.key, ix |-> st.start, n |-> st.n]
                 IN [st EXCEPT !.ents = IF i = 0 THEN Append(@, e) ELSE [@ EXCEPT ![i].n = @ + st.n],
                               !.key = "", !.n = 0]
RECURSIVE LeadIn(_, _)  \* how many lines just before position j lead into the verse there
LeadIn(ls, j) == IF j = 1 THEN 0
                 ELSE IF ls[j - 1].m \in {"c", "v", "v~", "p~"} \/ IsEnd(ls[j - 1].m) THEN 0
                 ELSE 1 + LeadIn(ls, j - 1)
IndexStep(st, ls, j) ==
  LET m == ls[j].m IN
  CASE m = "c" -> [Save(st) EXCEPT !.C = ls[j].t, !.key = "0", !.start = j - 1, !.n = 1]
    [] m = "v" -> LET back == LeadIn(ls, j)
                  IN [Save([st EXCEPT !.n = @ - back]) EXCEPT !.key = ls[j].t, !.start = j - 1 - back, !.n = back + 1]
    [] st.C = "-1" -> [st EXCEPT !.ents = Append(@, [c |-> "-1", v |-> ToString(j - 1), ix |-> j - 1, n |-> 1])]
    [] OTHER -> [st EXCEPT !.n = @ + 1]
\* a book without chapters (front and back matter) has one entry per line
IndexPlain(ls) == [j \in 1..Len(ls) |-> [c |-> "-1", v |-> ToString(j - 1), ix |-> j - 1, n |-> 1]]

\* containers (other than verses) open just before line j (counted from 1)
RECURSIVE OpenBefore(_, _)
OpenBefore(ls, j) ==
  IF j = 1 THEN <<>>
  ELSE LET prev == OpenBefore(ls, j - 1)
           m == ls[j - 1].m
       IN IF IsEnd(m) /\ m # "/v" /\ Member(EndOf(m), prev) THEN Drop(prev, EndOf(m))
          ELSE IF m \in ContextMarkers THEN Append(prev, m) ELSE prev
Contexts(ls) ==  \* the same, for every line
  LET RECURSIVE Walk(_, _, _)
      Walk(j, ctx, acc) == IF j > Len(ls) THEN acc
         ELSE LET m == ls[j].m
                  nx == IF IsEnd(m) /\ m # "/v" /\ Member(EndOf(m), ctx) THEN Drop(ctx, EndOf(m))
                        ELSE IF m \in ContextMarkers THEN Append(ctx, m) ELSE ctx
              IN Walk(j + 1, nx, Append(acc, ctx))
  IN Walk(1, <<>>, <<>>)
WithContext(ents, ls) == LET cx == Contexts(ls)
                         IN [i \in 1..Len(ents) |-> [c |-> ents[i].c, v |-> ents[i].v, ix |-> ents[i].ix, n |-> ents[i].n,
                                                     ctx |-> cx[ents[i].ix + 1]]]
=============================================================================
