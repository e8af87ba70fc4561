--------------------------------- MODULE Book ---------------------------------
(* The life of one book: its source lines arrive one at a time (Add), then it  *)
(* is processed (End, Nest, Start), indexed (Index) and finished.  One       *)
(* action of this module is one step of the library.                           *)
EXTENDS Processing, Json, FiniteSets

CONSTANTS Kinds,      \* kinds of source line that may be added: [m, num, txt]
          MaxLines, MinLines,
          ChapterBook,  \* TRUE: a book with chapters and verses
          Emit,
          Sim           \* TRUE: random long behaviours (one random successor instead of all of them)

VARIABLES phase, raw, cN, vN, suf, rs, ns, ls, is, j, Idx  \* Idx: the finished index
vars == <<phase, raw, cN, vN, suf, rs, ns, ls, is, j, Idx>>

\* the text of line i: recognisable, and different for every line
Txt(i) == "t" \o ToString(i)

Init == /\ phase = "input"
        /\ raw = << [m |-> "id", n |-> "", x |-> "GEN t1"] >>
        /\ cN = 0 /\ vN = 0 /\ suf = ""
        /\ rs = RawStep(RawInit, [m |-> "id", n |-> "", x |-> "GEN t1"])
        /\ ns = NestInit /\ ls = <<>> /\ is = IndexInit /\ j = 1 /\ Idx = <<>>

\* the number a kind of line carries here, "" if that kind makes no sense here
NumberFor(k) ==
  CASE k.num = "none" -> "-"
    [] k.num = "chapter" -> ToString(cN + 1)
    [] k.num = "chapterskip" -> ToString(cN + 2)
    [] k.num = "verse" -> ToString(vN + 1)
    [] k.num = "verseskip" -> ToString(vN + 2)
    [] k.num = "bridge" -> ToString(vN + 1) \o "-" \o ToString(vN + 2)
    [] k.num = "longbridge" -> ToString(vN + 1) \o "-" \o ToString(vN + 4)
    [] k.num = "list" -> ToString(vN + 1) \o "," \o ToString(vN + 2)
    [] k.num = "list3" -> ToString(vN + 1) \o "," \o ToString(vN + 2) \o "," \o ToString(vN + 3)
    [] k.num = "bridgetoa" -> ToString(vN + 1) \o "-" \o ToString(vN + 2) \o "a"
    [] k.num = "bridgefromb" -> IF suf = "a" THEN ToString(vN) \o "b-" \o ToString(vN + 1) ELSE ""
    [] k.num = "a" -> ToString(vN + 1) \o "a"
    [] k.num = "b" -> IF suf = "a" THEN ToString(vN) \o "b" ELSE ""
    [] k.num = "again" -> IF suf = "one" THEN ToString(vN) ELSE ""   \* the same verse number once more, just after it
    [] k.num = "onb" -> IF suf = "one" THEN ToString(vN) \o "b" ELSE ""   \* 5b just after a verse 5
    [] k.num = "back" -> IF suf = "skip" THEN ToString(vN - 1) ELSE ""
AddLine(k) ==
  /\ NumberFor(k) # ""
  /\ LET n == IF k.num = "none" THEN "" ELSE NumberFor(k)
         ln == [m |-> k.m, n |-> n, x |-> IF k.txt THEN Txt(Len(raw) + 1) ELSE ""]
     IN /\ raw' = Append(raw, ln)
        /\ rs' = RawStep(rs, ln)
  /\ cN' = CASE k.num = "chapter" -> cN + 1 [] k.num = "chapterskip" -> cN + 2
             [] k.m = "v" /\ cN = 0 -> 1 [] OTHER -> cN
  /\ vN' = CASE k.m = "c" -> 0 [] k.num = "verse" -> vN + 1 [] k.num = "verseskip" -> vN + 2
             [] k.num \in {"bridge", "list", "bridgetoa"} -> vN + 2 [] k.num = "list3" -> vN + 3 [] k.num = "longbridge" -> vN + 4 [] k.num \in {"a", "bridgefromb"} -> vN + 1 [] OTHER -> vN
  /\ suf' = CASE k.num \in {"a", "b"} -> k.num [] k.num = "onb" -> "b" [] k.num = "bridgetoa" -> "a" [] k.num = "verseskip" -> "skip" [] k.num \in {"verse", "again"} -> "one" [] k.m \in {"c", "v"} -> "" [] OTHER -> suf
  /\ UNCHANGED <<phase, ns, ls, is, j, Idx>>

IntroOnly == IntroMarkers \cup {"h", "h1", "toc1", "toc2", "mt", "mt1", "mt2", "usfm", "ide", "rem", "imt", "is", "io", "ili", "ie", "ib", "iq"}
BodyOnly == {"mr", "r", "sr", "d", "sp", "v", "b", "nb", "cp", "cd", "qa", "qc", "ms", "s", "q", "li", "pi", "ph", "qm", "lim", "lh", "lf", "po", "qd", "tr", "pb"}
            \cup Para \cup Numbered("s", 4) \cup Numbered("ms", 4)
Allowed(k) == \* where a kind of line may come: introduction lines before the first chapter, body lines after it
  LET before == cN = 0 IN
  /\ (k.m \in IntroOnly \ {"iex", "rem"} => before)
  /\ (k.m = "iex" /\ ~before => raw[Len(raw)].m \in {"c", "cp"})
  /\ (k.m = "cl" /\ ~before => raw[Len(raw)].m \in {"c", "cp"})
  /\ (k.m = "c" /\ ~before => vN > 0 \/ raw[Len(raw)].m = "c")
  /\ (k.m \in BodyOnly /\ k.m \notin {"v", "p", "q", "m", "nb", "s", "ms", "ms1", "s1", "q1"} /\ ChapterBook => ~before)
  /\ (k.m \in {"h", "h1"} => \A i \in 1..Len(raw) : raw[i].m \notin {"h", "h1"} /\ Std(raw[i].m) \notin IntroMarkers)
  /\ (k.m \in {"mt", "mt1", "mt2", "toc1", "toc2"} => \A i \in 1..Len(raw) : Std(raw[i].m) \notin IntroMarkers)
  \* a paragraph opened before the first chapter belongs to a verse whose chapter marker is left out
  /\ (before /\ Std(raw[Len(raw)].m) \in Para \cup {"nb"} /\ ChapterBook => k.m = "v")
  /\ (before /\ ChapterBook /\ Std(k.m) \in Para \cup {"nb"} => ~k.txt)
  /\ (k.m = "cp" => raw[Len(raw)].m = "c")
  /\ (k.m \in IntroOnly \ {"iex", "rem"} \/ (k.m = "iex" /\ before)) => \A i \in 1..Len(raw) : raw[i].m \notin BodyOnly

Add == /\ phase = "input" /\ Len(raw) < MaxLines
       /\ LET able == {k \in Kinds : Allowed(k) /\ NumberFor(k) # ""}
          IN able # {} /\ \E k \in (IF Sim THEN {RandomElement(able)} ELSE able) : AddLine(k)

\* a book must not end on an opener that never got any content
End == /\ phase = "input" /\ Len(raw) >= MinLines
       /\ (Sim => Len(raw) = MaxLines \/ RandomElement(1..6) = 1)
       /\ (cN = 0 /\ ChapterBook => Std(raw[Len(raw)].m) \notin Para \cup {"nb"})
       /\ phase' = "nest" /\ j' = 1
       /\ UNCHANGED <<raw, cN, vN, suf, rs, ns, ls, is, Idx>>

Nest == /\ phase = "nest" /\ j <= Len(rs.out)
        /\ ns' = NestStep(ns, rs.out, j) /\ j' = j + 1
        /\ UNCHANGED <<phase, raw, cN, vN, suf, rs, ls, is, Idx>>

Start == /\ phase = "nest" /\ j > Len(rs.out)
         /\ ns' = NestFinish(ns)
         /\ ls' = VerseStart(ns'.out, 1)
         /\ phase' = "index" /\ j' = 1
         /\ UNCHANGED <<raw, cN, vN, suf, rs, is, Idx>>

Index == /\ phase = "index" /\ j <= Len(ls)
         /\ is' = (IF ChapterBook THEN IndexStep(is, ls, j) ELSE is) /\ j' = j + 1
         /\ UNCHANGED <<phase, raw, cN, vN, suf, rs, ns, ls, Idx>>

Finish == /\ phase = "index" /\ j > Len(ls)
          /\ is' = Save(is)
          /\ Idx' = WithContext(IF ChapterBook THEN Save(is).ents ELSE IndexPlain(ls), ls)
          /\ phase' = "done"
          /\ UNCHANGED <<raw, cN, vN, suf, rs, ns, ls, j>>
Report == /\ phase = "done" /\ Emit
          /\ PrintT("@@" \o ToJson([raw |-> raw, lines |-> ls, index |-> Idx]))
          /\ phase' = "reported"
          /\ UNCHANGED <<raw, cN, vN, suf, rs, ns, ls, is, j, Idx>>

Next == Add \/ End \/ Nest \/ Start \/ Index \/ Finish \/ Report
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* What the library promises about a processed book.                           *)

IsOpener(m) == m \in NestingMarkers \cup HeadingBlock
\* C01: every end marker ends something open; nothing is opened twice; nothing is left open
RECURSIVE OpenAfter(_, _)
OpenAfter(s, i) ==     \* the containers open after the first i lines, or <<"bad">> for ever after a mistake
  IF i = 0 THEN <<>>
  ELSE LET p == OpenAfter(s, i - 1)
           m == s[i].m
       IN IF Member("bad", p) THEN p
          ELSE IF IsEnd(m) THEN (IF Member(EndOf(m), p) THEN Drop(p, EndOf(m)) ELSE << "bad" >>)
          ELSE IF IsOpener(m) THEN (IF Member(m, p) THEN << "bad" >> ELSE Append(p, m))
          ELSE p
Balanced == phase = "done" => OpenAfter(ls, Len(ls)) = <<>>

\* ... an end marker ends the innermost container, except that chapters, verses and paragraphs
\* (and the list and heading blocks around them) may overlap
Floating == {"c", "v", "list"} \cup Para \cup HeadingBlock
Layer(m) == m \notin Floating
LayerStack == phase = "done" => \A i \in 1..Len(ls) :
   IsEnd(ls[i].m) /\ Layer(EndOf(ls[i].m)) => Last(OpenAfter(ls, i - 1)) = EndOf(ls[i].m)

\* ... chapter and verse ends carry the number of what they end
RECURSIVE NumAt(_, _, _)
NumAt(s, i, m) == IF i = 0 THEN "" ELSE IF s[i].m = m THEN s[i].t ELSE NumAt(s, i - 1, m)
EndNumbers == phase = "done" => \A i \in 1..Len(ls) :
   /\ (ls[i].m = "/c" => ls[i].t = NumAt(ls, i, "c"))
   /\ (ls[i].m = "/v" => ls[i].t = NumAt(ls, i, "v"))

\* ... a verse never reaches over a chapter start or another verse, at most one chapter, verse,
\* and introduction are open, and nothing introductory is open once chapters have begun
RECURSIVE NoneOf(_, _)
NoneOf(S, s) == \A i \in 1..Len(s) : s[i] \notin S
Regions == phase = "done" => \A i \in 1..Len(ls) :
   LET o == OpenAfter(ls, i - 1) m == ls[i].m IN
   /\ (m = "c" => NoneOf({"c", "v", "headers", "intro", "iot", "ilist"}, o) /\ Member("chapters", o))
   /\ (m = "v" => NoneOf({"v"}, o) /\ Member("c", o))
   /\ (m \in {"v~", "p~"} /\ ChapterBook => TRUE)
   /\ (m \in Outline => Last(o) = "iot")
   /\ (m \in IntroList => Last(o) = "ilist")
   /\ (m \in Heading \cap Numbered("s", 4) => NoneOf(Para, o))
   /\ (m \in Para => NoneOf(Para, o))

\* C02: no text is lost, added, moved or re-ordered
TextOf(s) == [i \in 1..Len(s) |-> s[i].t]
SelectText(s) == SelectSeq(s, LAMBDA e : e.t # "" /\ e.m \notin {"c", "v", "c#", "v=", "/c", "/v"})
RawText == SelectSeq([i \in 1..Len(raw) |-> raw[i].x], LAMBDA x : x # "")
Conserved == phase = "done" => TextOf(SelectText(ls)) = RawText
Numbers(s, mk) == LET f == SelectSeq(s, LAMBDA e : e.m = mk) IN [i \in 1..Len(f) |-> f[i].t]
RawNumbers(mk) == LET f == SelectSeq(raw, LAMBDA e : e.m = mk) IN [i \in 1..Len(f) |-> f[i].n]
NumbersKept == phase = "done" => /\ Numbers(ls, "v") = RawNumbers("v")
                                 /\ LET c == Numbers(ls, "c") r == RawNumbers("c")
                                    IN c = r \/ ((\E i \in 1..Len(raw) : raw[i].m = "v") /\ c = <<"1">> \o r)
\* every source line keeps its (standardised) marker, in order
Visible(s) == LET f == SelectSeq(s, LAMBDA e : e.o # "" /\ e.m \notin {"v~", "p~", "c~", "c#", "v="})
              IN [i \in 1..Len(f) |-> f[i].m]
RawVisible == [i \in 1..Len(raw) |-> IF raw[i].m = "cl" /\ \A h \in 1..i : raw[h].m \notin {"c", "v"} THEN "cl$" ELSE Std(raw[i].m)]
Inserted == \* chapter 1 made explicit
  \E i \in 1..Len(RawVisible) : RawVisible[i] = "v" /\ \A h \in 1..i : RawVisible[h] # "c"
MarkersKept == phase = "done" => IF Inserted THEN SelectSeq(Visible(ls), LAMBDA m : m # "c") = SelectSeq(RawVisible, LAMBDA m : m # "c")
                                             ELSE Visible(ls) = RawVisible

\* C04: the index is a partition of the lines, and every entry is about its own verse
Partition == phase = "done" =>
   LET e == Idx IN
   /\ e # <<>> /\ e[1].ix = 0
   /\ \A i \in 1..Len(e) : e[i].n > 0
   /\ \A i \in 1..(Len(e) - 1) : e[i + 1].ix = e[i].ix + e[i].n
   /\ e[Len(e)].ix + e[Len(e)].n = Len(ls)
OneEach == phase = "done" =>
   LET e == Idx IN
   /\ \A a, b \in 1..Len(e) : e[a].c = e[b].c /\ e[a].v = e[b].v => a = b
   /\ \A i \in 1..Len(ls) : ls[i].m = "v" =>
        \E k \in 1..Len(e) : e[k].v = ls[i].t /\ e[k].c = NumAt(ls, i, "c") /\ e[k].ix < i /\ i <= e[k].ix + e[k].n
   /\ \A i \in 1..Len(ls) : ls[i].m \in {"v~", "p~"} /\ NumAt(ls, i, "v") # "" =>
        \E k \in 1..Len(e) : e[k].ix < i /\ i <= e[k].ix + e[k].n /\ e[k].c = NumAt(ls, i, "c")

Safe == Balanced /\ LayerStack /\ EndNumbers /\ Regions /\ Conserved /\ NumbersKept /\ MarkersKept /\ Partition /\ OneEach
=============================================================================
