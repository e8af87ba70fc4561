------------------------------- MODULE Sections -------------------------------
(* The section index: a processed book divided into consecutive sections.  A   *)
(* section begins with the book, with a heading (s1, ms1, is1), with the first  *)
(* chapter, and with each chapter when the book has no headings or its          *)
(* chapters are units of their own.                                             *)
EXTENDS Lookup

CONSTANTS Story        \* FALSE: a book such as Psalms, whose chapters are units
CONSTANTS AlsoChapters \* chapters that begin a section in any case
BookName == "@"        \* (the name of the book)

HeadedBy == {"s1", "s2", "s3", "s4", "qa"}
WithHeadings(lines) == \E i \in 1..Len(lines) : lines[i].m \in HeadedBy
ByChapter(lines) == ~WithHeadings(lines) \/ ~Story
Low(v) == LET h == PosOf(v, "-", 1) IN IF h = 0 THEN v ELSE SubSeq(v, 1, h - 1)
High(v) == LET h == PosOf(v, "-", 1) IN IF h = 0 THEN v ELSE SubSeq(v, h + 1, Len(v))
Chapter(c) == BookName \o " " \o c
Letters == <<"a", "b", "c", "d", "e", "f", "g", "h">>
IsLetter(ch) == \E i \in 1..Len(Letters) : Letters[i] = ch
NextLetter(ch) == Letters[(CHOOSE i \in 1..Len(Letters) : Letters[i] = ch) + 1]
EndOfS(s) == SubSeq(s, Len(s), Len(s))

\* where a section that stretches from line a to line z starts: its first verse, or, when it begins with
\* text of the verse that the one before ended with, the second part of that verse
RECURSIVE Scan(_, _, _, _, _, _, _, _)
Scan(lines, a, z, c, v, hi, pc, pv) ==
  IF a > z THEN [c |-> c, v |-> v, how |-> "none"]
  ELSE LET l == lines[a] IN
    IF l.m = "c" THEN Scan(lines, a + 1, z, l.t, "0", "0", pc, pv)
    ELSE IF l.m = "v" THEN [c |-> c, v |-> Low(l.t), how |-> "verse"]
    ELSE IF l.m \in {"v~", "p~"} /\ pc = c /\ pv = hi THEN [c |-> c, v |-> hi, how |-> "mid"]   \* (its letter: below)
    ELSE Scan(lines, a + 1, z, c, v, hi, pc, pv)

RECURSIVE Fresh(_, _, _)
Fresh(out, c, v) == IF \E i \in 1..Len(out) : out[i].c = c /\ out[i].v = v
                    THEN Fresh(out, c, IF IsLetter(EndOfS(v)) THEN SubSeq(v, 1, Len(v) - 1) \o NextLetter(EndOfS(v)) ELSE v \o "a")
                    ELSE v

Joins(last, s) == /\ last.ex + 1 - last.ix < 4   \* a heading joins the few lines of the heading or chapter just before it
                  /\ \/ (s.r = "ms1" /\ last.r = "c")
                     \/ (s.r = "s1" /\ last.r \in {"c", "ms1", "ms1/c"})
CloseSection(out, lines, s) ==   \* s = [c, v, ec, ev, ix, ex, r, n]: lines ix..ex (from 0)
  LET join == out # <<>> /\ Joins(out[Len(out)], s)
      p == out[Len(out)]
      before == IF join THEN SubSeq(out, 1, Len(out) - 1) ELSE out
      ix == IF join THEN p.ix ELSE s.ix
      r == IF ~join THEN s.r ELSE IF s.r = "ms1" THEN "ms1/c" ELSE p.r \o "/s1"
      n == IF ~join THEN s.n ELSE IF s.r = "ms1" THEN s.n \o "/" \o p.n ELSE p.n \o "/" \o s.n
      q == before[Len(before)]
      f == Scan(lines, ix + 1, s.ex + 1, s.c, IF join THEN p.v ELSE Low(s.v), High(s.v), IF before = <<>> THEN "" ELSE q.ec, IF before = <<>> THEN "" ELSE q.ev)
      part == IF q.v # q.ev /\ SubSeq(q.v, 1, Len(q.v) - 1) = q.ev THEN q.v ELSE q.ev \o "a"   \* what the one before ends with
      v1 == IF f.how = "mid" THEN f.v \o NextLetter(EndOfS(part)) ELSE IF f.how = "none" /\ r = "ms1" /\ f.c = s.c /\ f.c # "-1" THEN ToString(Lead(f.v) + 1) ELSE f.v
      ended == ~(IntOf(s.ec) < IntOf(f.c) \/ (IntOf(s.ec) = IntOf(f.c) /\ Lead(High(s.ev)) < Lead(v1)))
      ec == IF ended THEN s.ec ELSE f.c
      ev == IF ended THEN High(s.ev) ELSE v1
      done == IF f.how = "mid" THEN SubSeq(before, 1, Len(before) - 1) \o << [q EXCEPT !.ev = part] >> ELSE before
      v2 == IF done # <<>> /\ done[Len(done)].ec = f.c /\ done[Len(done)].ev = v1 /\ IsDigits(v1) THEN v1 \o "a" ELSE v1
  IN Append(done, [c |-> f.c, v |-> Fresh(done, f.c, v2), ec |-> ec, ev |-> ev, ix |-> ix, ex |-> s.ex, r |-> r, n |-> n])

SecInit == [c |-> "-1", v |-> "-1", lc |-> "-1", lv |-> "", sc |-> "-1", sv |-> "0", r |-> "Headers", n |-> "#", ix |-> 0, out |-> <<>>]
EndHere(st, lines, ec, ev, ex) == CloseSection(st.out, lines,
  [c |-> st.sc, v |-> st.sv, ec |-> ec, ev |-> ev, ix |-> st.ix, ex |-> ex, r |-> st.r, n |-> IF st.n = "" THEN Chapter(st.sc) ELSE st.n])
SecChapter(st0, lines, i, l) ==
  LET st == IF st0.c # "-1" THEN st0
            ELSE [st0 EXCEPT !.out = EndHere(st0, lines, "-1", st0.v, i - 2), !.ix = i - 1, !.sc = l.t, !.sv = "0", !.r = "c", !.n = ""]
      cut == ByChapter(lines) \/ l.t \in AlsoChapters
  IN IF ~cut THEN [st EXCEPT !.c = l.t, !.v = "0"]
     ELSE [st EXCEPT !.out = IF st.ix < i - 1 \/ st.n # "" THEN EndHere(st, lines, st.lc, st.lv, i - 2) ELSE @,
                     !.c = l.t, !.v = "0", !.ix = i - 1, !.sc = l.t, !.sv = "0", !.r = "c", !.n = Chapter(l.t)]
SecHeading(st, lines, i, l) ==
  LET one == i - 2 = st.ix \/ IntOf(st.lc) < IntOf(st.sc)
  IN [st EXCEPT !.out = IF st.n = "" THEN @ ELSE EndHere(st, lines, IF one THEN st.sc ELSE st.lc, IF one THEN st.sv ELSE st.lv, i - 2),
                !.ix = IF st.n = "" THEN @ ELSE i - 1,
                !.sc = st.c, !.sv = IF st.c = "-1" THEN ToString(i - 1) ELSE st.v, !.r = l.m, !.n = l.t]
SecStep(st0, lines, i) ==
  LET l == lines[i]
      st == IF l.m = "c" THEN SecChapter(st0, lines, i, l)
            ELSE IF l.m \in {"v", "v="} THEN [st0 EXCEPT !.v = l.t]
            ELSE IF st0.c = "-1" THEN [st0 EXCEPT !.lv = st0.v, !.v = ToString(i - 1)] ELSE st0
      st2 == IF l.m \in {"s1", "ms1", "is1"} THEN SecHeading(st, lines, i, l)
             ELSE IF l.m \in {"v~", "p~"} /\ st.n = "" THEN [st EXCEPT !.n = Chapter(st.c)] ELSE st
  IN IF l.m = "v" THEN [st2 EXCEPT !.lc = st2.c, !.lv = st2.v] ELSE st2
RECURSIVE SecFrom(_, _, _)
SecFrom(st, lines, i) == IF i > Len(lines) THEN EndHere(st, lines, st.c, st.v, Len(lines) - 1) ELSE SecFrom(SecStep(st, lines, i), lines, i + 1)
Sections(lines) == SecFrom(SecInit, lines, 1)

TellSections == /\ phase = "done" /\ Emit
                /\ PrintT("@@" \o ToJson([raw |-> raw, lines |-> ls, secs |-> Sections(ls)]))
                /\ phase' = "told"
                /\ UNCHANGED <<raw, cN, vN, suf, rs, ns, ls, is, j, Idx, log>>
SNext == ((Add \/ End \/ Nest \/ Start \/ Index \/ Finish) /\ UNCHANGED log) \/ TellSections
SSpec == Init /\ log = <<>> /\ [][SNext]_lvars

----------------------------------------------------------------------------
(* What a user relies on.                                                      *)
Tiling == phase = "done" => LET s == Sections(ls) IN
   /\ s[1].ix = 0 /\ s[Len(s)].ex = Len(ls) - 1
   /\ \A i \in 1..Len(s) : s[i].ix <= s[i].ex
   /\ \A i \in 1..(Len(s) - 1) : s[i + 1].ix = s[i].ex + 1
BeginsRight == phase = "done" => LET s == Sections(ls) IN \A i \in 2..Len(s) :
   ls[s[i].ix + 1].m \in {"c", "s1", "ms1", "is1"}
EveryHeading == phase = "done" => LET s == Sections(ls) IN \A k \in 1..Len(ls) : ls[k].m \in {"s1", "ms1", "is1"} =>
   \E i \in 1..Len(s) : /\ s[i].ix <= k - 1 /\ k - 1 <= s[i].ex
                        /\ \A h \in s[i].ix..(k - 2) : ls[h + 1].m \notin {"v~", "p~"} \/ s[i].r # ls[k].m  \* no text of the section comes before its heading
Distinct == phase = "done" => LET s == Sections(ls) IN \A a, b \in 1..Len(s) : a # b => <<s[a].c, s[a].v>> # <<s[b].c, s[b].v>>
\* a section with verses of its own starts at the first of them (or in the middle of the one before) and ends with its last
FirstV(s) == {k \in s.ix..s.ex : ls[k + 1].m = "v"}
StartsAtVerse == phase = "done" => LET s == Sections(ls) IN \A i \in 1..Len(s) :
   FirstV(s[i]) # {} => LET k == Min(FirstV(s[i])) + 1 z == Max(FirstV(s[i])) + 1 IN
      /\ \/ (s[i].c = NumAt(ls, k, "c") /\ Lead(s[i].v) = Lead(ls[k].t))
         \/ (IsLetter(EndOfS(s[i].v)) /\ \E h \in s[i].ix..k : ls[h + 1].m \in {"v~", "p~"})
      /\ i < Len(s) => \/ (s[i].ec = NumAt(ls, z, "c") /\ Lead(s[i].ev) = Lead(High(ls[z].t)))
                       \/ (s[i].ev = "0" /\ \E h \in z..(s[i].ex + 1) : ls[h].m = "c")   \* before the first verse of a later chapter
InOrder == phase = "done" => LET s == Sections(ls) IN \A i \in 1..Len(s) :
   IntOf(s[i].c) < IntOf(s[i].ec) \/ (s[i].c = s[i].ec /\ Lead(s[i].v) <= Lead(s[i].ev))
=============================================================================
