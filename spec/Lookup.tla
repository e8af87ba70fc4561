-------------------------------- MODULE Lookup --------------------------------
(* Questions asked of a processed book: verses, chapters, ranges, counts and   *)
(* versification.  An answer is a function of the book and the question alone; *)
(* asking changes nothing (the variables of Book stay as they are).            *)
EXTENDS Book

CONSTANTS Asks,       \* how many questions are asked of a book; 0: every verse and chapter question once
          AskKinds    \* which kinds of question

VARIABLE log
lvars == <<phase, raw, cN, vN, suf, rs, ns, ls, is, j, Idx, log>>

----------------------------------------------------------------------------
Chr(s, i) == SubSeq(s, i, i)
DigitVal == ("0" :> 0) @@ ("1" :> 1) @@ ("2" :> 2) @@ ("3" :> 3) @@ ("4" :> 4) @@ ("5" :> 5) @@ ("6" :> 6) @@ ("7" :> 7) @@ ("8" :> 8) @@ ("9" :> 9)
IsDigit(ch) == ch \in DOMAIN DigitVal
RECURSIVE LeadLen(_, _)
LeadLen(s, i) == IF i > Len(s) THEN i - 1 ELSE IF IsDigit(Chr(s, i)) THEN LeadLen(s, i + 1) ELSE i - 1
RECURSIVE Val(_, _, _)
Val(s, i, acc) == IF i > Len(s) THEN acc ELSE Val(s, i + 1, acc * 10 + DigitVal[Chr(s, i)])
Lead(s) == Val(SubSeq(s, 1, LeadLen(s, 1)), 1, 0)   \* the number a verse label starts with
IsDigits(s) == Len(s) > 0 /\ LeadLen(s, 1) = Len(s)
IntOf(c) == IF c = "-1" THEN -1 ELSE Lead(c)
RECURSIVE PosOf(_, _, _)
PosOf(s, ch, i) == IF i > Len(s) THEN 0 ELSE IF Chr(s, i) = ch THEN i ELSE PosOf(s, ch, i + 1)
\* the verse numbers a label stands for
RECURSIVE Nums(_)
Nums(v) == LET h == PosOf(v, "-", 1) k == PosOf(v, ",", 1)
           IN IF h > 0 THEN Lead(SubSeq(v, 1, h - 1)) .. Lead(SubSeq(v, h + 1, Len(v)))
              ELSE IF k > 0 THEN {Lead(v)} \cup Nums(SubSeq(v, k + 1, Len(v)))
              ELSE {Lead(v)}
HighNum(v) == CHOOSE n \in Nums(v) : \A m \in Nums(v) : m <= n

Exact(e, c, v) == Find(e, c, v)
Matching(e, c, n) == {i \in 1..Len(e) : e[i].c = c /\ ~IsDigits(e[i].v) /\ n \in Nums(e[i].v)}
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
RECURSIVE Asc(_)
Asc(S) == IF S = {} THEN <<>> ELSE << Min(S) >> \o Asc(S \ {Min(S)})

RECURSIVE SetToSeq(_)
SetToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN << x >> \o SetToSeq(S \ {x})

NoAnswer == [ok |-> FALSE, segs |-> <<>>, ctx |-> <<>>]
Segs(e, is_, ctx) == [ok |-> TRUE, segs |-> [i \in 1..Len(is_) |-> <<e[is_[i]].ix, e[is_[i]].n>>], ctx |-> ctx]
Of(e, s) == IF s = <<>> THEN NoAnswer ELSE Segs(e, s, e[s[1]].ctx)
NonZero(i) == IF i = 0 THEN <<>> ELSE <<i>>

VerseStrict(e, c, v) == Of(e, NonZero(Exact(e, c, v)))
VerseLoose(e, c, v) ==
  LET x == Exact(e, c, v) d == Exact(e, c, ToString(Lead(v))) M == Matching(e, c, Lead(v))
  IN IF x # 0 THEN Of(e, <<x>>)
     ELSE IF c = "-1" THEN NoAnswer
     ELSE IF ~IsDigits(v) /\ d # 0 THEN Of(e, <<d>>)
     ELSE IF M # {} THEN Of(e, << Min(M) >>) ELSE NoAnswer
VerseComplete(e, c, v) ==
  LET x == Exact(e, c, v) d == Exact(e, c, ToString(Lead(v))) M == Matching(e, c, Lead(v))
  IN IF x # 0 THEN Of(e, Asc(M) \o (IF x \in M THEN <<>> ELSE <<x>>))
     ELSE IF c = "-1" THEN NoAnswer
     ELSE Of(e, Asc(M) \o (IF ~IsDigits(v) THEN NonZero(d) ELSE <<>>))
\* the index's own plain lookup: when not strict also a bridge that begins with the verse
StartsBridge(e, c, v) == {i \in 1..Len(e) : e[i].c = c /\ Len(e[i].v) > Len(v) /\ SubSeq(e[i].v, 1, Len(v) + 1) = v \o "-"}
PlainLoose(e, c, v) == LET x == Exact(e, c, v) B == StartsBridge(e, c, v)
                       IN IF x # 0 THEN Of(e, <<x>>) ELSE IF B # {} THEN Of(e, << Min(B) >>) ELSE NoAnswer

\* from entry a to entry b
Span(e, a, b) == [ok |-> TRUE, segs |-> << <<e[a].ix, e[b].ix + e[b].n - e[a].ix>> >>, ctx |-> e[a].ctx]
ChapterEntries(e, c) == {i \in 1..Len(e) : e[i].c = c}
ChapterOf(e, c) == IF Exact(e, c, "0") = 0 THEN NoAnswer ELSE Span(e, Exact(e, c, "0"), Max(ChapterEntries(e, c)))
WholeOf(lines) == [ok |-> TRUE, segs |-> << <<0, Len(lines)>> >>, ctx |-> <<>>]

\* highest verse of a chapter
NumVerses(e, c) == IF ChapterEntries(e, c) = {} THEN -1
                   ELSE Max(UNION {Nums(e[i].v) : i \in ChapterEntries(e, c)})
Covered(e, c, n) == \E i \in ChapterEntries(e, c) : n \in Nums(e[i].v)
Complete(e, sc, sv, ec, ev) == \* every verse of the range is there
  ec = "-1" \/ \A C \in (IF sc = "-1" THEN 1 ELSE IntOf(sc)) .. IntOf(ec) :
     LET c == ToString(C)
         from == IF c = sc THEN Lead(sv) ELSE 0
         to == IF c = ec THEN Lead(ev) ELSE IF NumVerses(e, c) < 0 THEN 0 ELSE NumVerses(e, c)
     IN \A n \in from .. to : Covered(e, c, n)
RangeEnd(e, ec, ev) == \* the last entry that is not after ec:ev
  LET x == Exact(e, ec, ev)
  IN IF x # 0 THEN x
     ELSE LET S == {i \in 1..Len(e) : \/ IntOf(e[i].c) < IntOf(ec)
                                      \/ e[i].c = ec /\ \E n \in Nums(e[i].v) : n <= Lead(ev)}
          IN IF S = {} THEN 0 ELSE Max(S)
Range(e, sc, sv, ec, ev, strict) ==
  LET a == Exact(e, sc, sv) b == RangeEnd(e, ec, ev)
  IN IF a = 0 THEN NoAnswer
     ELSE IF strict /\ ~Complete(e, sc, sv, ec, ev) THEN NoAnswer
     ELSE Span(e, a, IF b < a THEN a ELSE b)

\* a range over several books: the first book from the start on, whole books, the last book up to the end
LastC(e) == e[Len(e)].c
TailOf(e, sc, sv, strict) == Range(e, sc, sv, LastC(e), ToString(NumVerses(e, LastC(e))), strict)
HeadOf(e, ec, ev, strict) == Range(e, "1", "0", ec, ev, strict)
AllOf(e, strict) == TailOf(e, "1", "0", strict)

----------------------------------------------------------------------------
(* Versification, from the source lines alone.                                 *)
RECURSIVE Plain(_)   \* a label without its suffix letters
Plain(s) == IF s = "" THEN "" ELSE (IF IsDigit(Chr(s, 1)) \/ Chr(s, 1) \in {"-", ","} THEN Chr(s, 1) ELSE "") \o Plain(SubSeq(s, 2, Len(s)))
RECURSIVE VersifyFrom(_, _, _)
VersifyFrom(lines, i, st) ==     \* st = [chap, last, high, out, om, comb, reord, seen]
  IF i > Len(lines) THEN [st EXCEPT !.out = Append(@, <<st.chap, ToString(st.high)>>)]
  ELSE LET l == lines[i] IN
    IF l.m = "c" THEN VersifyFrom(lines, i + 1,
         [st EXCEPT !.out = Append(@, IF st.chap = "-1" THEN <<"-1", ToString(i - 2)>> ELSE <<st.chap, ToString(st.high)>>),
                    !.chap = l.t, !.last = 0, !.high = 0])
    ELSE IF l.m = "v" THEN
         LET ns_ == Nums(l.t) first == Lead(l.t) hi == HighNum(l.t)
             partial == Plain(l.t) # l.t
             single == PosOf(l.t, "-", 1) = 0 /\ PosOf(l.t, ",", 1) = 0
         IN VersifyFrom(lines, i + 1,
             [st EXCEPT !.last = hi, !.high = IF hi > @ THEN hi ELSE @,
                !.om = @ \o [n \in 1..(IF first > st.last + 1 THEN first - st.last - 1 ELSE 0) |-> <<st.chap, ToString(st.last + n)>>],
                !.comb = IF single THEN @ ELSE Append(@, <<st.chap, Plain(l.t)>>),
                !.reord = IF first < st.last \/ (first = st.last /\ ~partial) THEN Append(@, <<st.chap, ToString(st.last), Plain(l.t)>>) ELSE @,
                !.seen = @ \cup {<<st.chap, ToString(n)>> : n \in first..hi}])
    ELSE VersifyFrom(lines, i + 1, st)
RECURSIVE Unique(_, _)
Unique(s, done) == IF s = <<>> THEN <<>> ELSE IF s[1] \in done THEN Unique(Tail(s), done) ELSE <<s[1]>> \o Unique(Tail(s), done \cup {s[1]})
Versify(lines) == LET r == VersifyFrom(lines, 1, [chap |-> "-1", last |-> 0, high |-> 0, out |-> <<>>, om |-> <<>>, comb |-> <<>>, reord |-> <<>>, seen |-> {}])
                  IN [chapters |-> r.out, omitted |-> Unique(r.om, r.seen), combined |-> r.comb, reordered |-> r.reord]

\* the text of a verse as one string (symbols for the formatting, as tokens)
Symbol == [d |-> "@d", s1 |-> "@s1", s2 |-> "@s2", s3 |-> "@s3", s4 |-> "@s4", p |-> "@p", q1 |-> "@q1", q2 |-> "@q2", q3 |-> "@q3", q4 |-> "@q4",
           m |-> "@m", mi |-> "@mi", li1 |-> "@li1", li2 |-> "@li2"]
TextPiece(l, canon) ==
  IF l.m = "id" THEN "ID: " \o l.t
  ELSE IF l.m \in {"s1", "s2", "s3", "s4"} THEN (IF canon THEN "" ELSE Symbol[l.m] \o l.t \o Symbol[l.m])
  ELSE IF l.m = "d" THEN "@d" \o l.t \o "@d"
  ELSE IF l.m \in DOMAIN Symbol THEN Symbol[l.m] \o l.t
  ELSE IF l.m \in {"v~", "p~"} THEN l.t ELSE ""
RECURSIVE TextOfLines(_, _, _, _)
TextOfLines(lines, i, k, canon) == IF i > k THEN "" ELSE TextPiece(lines[i], canon) \o TextOfLines(lines, i + 1, k, canon)
RECURSIVE TextOfSegs(_, _, _)
TextOfSegs(lines, segs, canon) == IF segs = <<>> THEN ""
   ELSE TextOfLines(lines, segs[1][1] + 1, segs[1][1] + segs[1][2], canon) \o TextOfSegs(lines, Tail(segs), canon)

----------------------------------------------------------------------------
Q(k, c, v, ec, ev) == [k |-> k, c |-> c, v |-> v, ec |-> ec, ev |-> ev]
Chapters(e) == {e[i].c : i \in 1..Len(e)} \cup {"1", ToString(cN + 1)}
SomeV(e, c) == {e[i].v : i \in ChapterEntries(e, c)} \cup
               (IF c = "-1" THEN {ToString(Cardinality(ChapterEntries(e, "-1"))), ToString(Cardinality(ChapterEntries(e, "-1")) + 1)}
                ELSE {"0", "1", "2", "3", "4", ToString(vN), ToString(vN + 1), "1a", "2b", "3a", "1-2", "2-3", "2,3", "3,4"})
Keys(e) == UNION {{<<c, v>> : v \in SomeV(e, c)} : c \in Chapters(e)}
PresentKeys(e) == {<<e[i].c, e[i].v>> : i \in 1..Len(e)}
NotBefore(a, b) == IntOf(a[1]) < IntOf(b[1]) \/ (a[1] = b[1] /\ Lead(a[2]) <= Lead(b[2]) /\ (Lead(a[2]) = Lead(b[2]) => a[2] = b[2] \/ IsDigits(a[2]) \/ IsDigits(b[2])))
VerseKinds == {"strict", "loose", "complete", "plainstrict", "plainloose", "text", "textc"}
Everything(e) == \* in a fixed order of no importance
  LET ks == Keys(e) IN
  SetToSeq({Q(k, p[1], p[2], "", "") : p \in ks, k \in AskKinds \cap VerseKinds}
     \cup {Q(k, c, "", "", "") : c \in Chapters(e), k \in AskKinds \cap {"chapter", "plainchapter", "numverses"}}
     \cup {Q(k, "", "", "", "") : k \in AskKinds \cap {"whole", "versify", "numchapters"}})
RandomQuestion(e) ==
  LET k == RandomElement(AskKinds)
  IN IF k \in VerseKinds THEN LET p == RandomElement(Keys(e)) IN Q(k, p[1], p[2], "", "")
     ELSE IF k \in {"chapter", "plainchapter", "numverses"} THEN Q(k, RandomElement(Chapters(e)), "", "", "")
     ELSE IF k \in {"range", "rangeloose"} THEN
          LET a == RandomElement(IF RandomElement(1..8) = 1 THEN Keys(e) ELSE PresentKeys(e))
              b == RandomElement({x \in (IF RandomElement(1..4) = 1 THEN Keys(e) \cup {<<ToString(cN + 2), "1">>} ELSE PresentKeys(e)) : NotBefore(a, x)} \cup {a})
          IN Q(k, a[1], a[2], b[1], b[2])
     ELSE IF k \in {"tail", "tailloose"} THEN LET p == RandomElement(PresentKeys(e)) IN Q(k, p[1], p[2], "", "")
     ELSE IF k \in {"head", "headloose"} /\ cN > 0 THEN LET p == RandomElement({x \in PresentKeys(e) : x[1] # "-1"}) IN Q(k, "", "", p[1], p[2])
     ELSE IF k \in {"head", "headloose"} THEN Q("all", "", "", "", "")
     ELSE Q(k, "", "", "", "")
Answer(e, q) ==
  CASE q.k = "strict" -> VerseStrict(e, q.c, q.v)
    [] q.k = "loose" -> VerseLoose(e, q.c, q.v)
    [] q.k = "complete" -> VerseComplete(e, q.c, q.v)
    [] q.k = "plainstrict" -> VerseStrict(e, q.c, q.v)
    [] q.k = "plainloose" -> PlainLoose(e, q.c, q.v)
    [] q.k \in {"text", "textc"} -> LET a == VerseLoose(e, q.c, q.v) IN [ok |-> a.ok, text |-> TextOfSegs(ls, a.segs, q.k = "textc")]
    [] q.k \in {"chapter", "plainchapter"} -> ChapterOf(e, q.c)
    [] q.k = "whole" -> WholeOf(ls)
    [] q.k = "range" -> Range(e, q.c, q.v, q.ec, q.ev, TRUE)
    [] q.k = "rangeloose" -> Range(e, q.c, q.v, q.ec, q.ev, FALSE)
    [] q.k = "tail" -> TailOf(e, q.c, q.v, TRUE)
    [] q.k = "tailloose" -> TailOf(e, q.c, q.v, FALSE)
    [] q.k = "head" -> HeadOf(e, q.ec, q.ev, TRUE)
    [] q.k = "headloose" -> HeadOf(e, q.ec, q.ev, FALSE)
    [] q.k = "all" -> AllOf(e, TRUE)
    [] q.k = "allloose" -> AllOf(e, FALSE)
    [] q.k = "versify" -> Versify(ls)
    [] q.k = "numchapters" -> [n |-> Versify(ls).chapters[Len(Versify(ls).chapters)][1]]
    [] q.k = "numverses" -> LET S == {i \in 1..Len(Versify(ls).chapters) : Versify(ls).chapters[i][1] = q.c}
                            IN [n |-> IF S = {} THEN "none" ELSE Versify(ls).chapters[Max(S)][2]]

Ask == /\ phase = "done" /\ Asks > 0 /\ Len(log) < Asks
       /\ log' = Append(log, RandomQuestion(Idx))
       /\ UNCHANGED vars
AskAll == /\ phase = "done" /\ Asks = 0 /\ log = <<>>
          /\ log' = Everything(Idx)
          /\ UNCHANGED vars
Tell == /\ phase = "done" /\ log # <<>> /\ (Asks = 0 \/ Len(log) = Asks) /\ Emit
        /\ LET e == Idx IN PrintT("@@" \o ToJson([raw |-> raw, qs |-> log, as |-> [i \in 1..Len(log) |-> Answer(e, log[i])]]))
        /\ phase' = "told"
        /\ UNCHANGED <<raw, cN, vN, suf, rs, ns, ls, is, j, Idx, log>>
LookupInit == Init /\ log = <<>>
LookupNext == \/ ((Add \/ End \/ Nest \/ Start \/ Index \/ Finish) /\ UNCHANGED log) \/ Ask \/ AskAll \/ Tell
LookupSpec == LookupInit /\ [][LookupNext]_lvars

----------------------------------------------------------------------------
(* What a user relies on (checked on every finished book).                     *)
\* C05: a present verse is found under its own key, with its own lines, by every kind of lookup;
\* a lookup answers with a verse only if that verse includes the number asked for
FindsItself == phase = "done" /\ log = <<>> => LET e == Idx IN \A i \in 1..Len(e) :
   /\ VerseStrict(e, e[i].c, e[i].v) = Of(e, <<i>>)
   /\ VerseLoose(e, e[i].c, e[i].v) = Of(e, <<i>>)
   /\ \E s \in 1..Len(VerseComplete(e, e[i].c, e[i].v).segs) : VerseComplete(e, e[i].c, e[i].v).segs[s] = <<e[i].ix, e[i].n>>
NeverOther == phase = "done" /\ log = <<>> => LET e == Idx IN \A k \in Keys(e) :
   LET a == VerseLoose(e, k[1], k[2]) IN
   a.ok => \E i \in 1..Len(e) : a.segs = << <<e[i].ix, e[i].n>> >> /\ e[i].c = k[1] /\ (e[i].v = k[2] \/ Lead(k[2]) \in Nums(e[i].v))
FoundIfThere == phase = "done" /\ log = <<>> => LET e == Idx IN \A k \in Keys(e) :
   k[1] # "-1" /\ Covered(e, k[1], Lead(k[2])) => VerseLoose(e, k[1], k[2]).ok /\ VerseComplete(e, k[1], k[2]).ok
\* C06: the chapters of a book, one after the other, are the book; a range from first to last of a chapter is the chapter
ChapterLines(e, c) == ChapterOf(e, c).segs[1]
ChaptersTile == phase = "done" /\ log = <<>> => LET e == Idx IN
   LET cs == Unique([i \in 1..Len(e) |-> e[i].c], {}) IN
   \A k \in 1..Len(cs) : ChapterOf(e, cs[k]).ok /\ ChapterLines(e, cs[k])[1] = (IF k = 1 THEN 0 ELSE ChapterLines(e, cs[k - 1])[1] + ChapterLines(e, cs[k - 1])[2])
                         /\ (k = Len(cs) => ChapterLines(e, cs[k])[1] + ChapterLines(e, cs[k])[2] = Len(ls))
RangeIsChapter == phase = "done" /\ log = <<>> => LET e == Idx IN \A i \in 1..Len(e) :
   i = Max(ChapterEntries(e, e[i].c)) => Range(e, e[i].c, "0", e[i].c, e[i].v, FALSE) = ChapterOf(e, e[i].c)
\* C25: the versification agrees with the index
VersifyAgrees == phase = "done" /\ log = <<>> => LET e == Idx v == Versify(ls) IN
   /\ \A i \in 1..Len(v.chapters) : v.chapters[i][1] # "-1" => v.chapters[i][2] = ToString(NumVerses(e, v.chapters[i][1]))
   /\ \A i \in 1..Len(v.omitted) : ~Covered(e, v.omitted[i][1], Lead(v.omitted[i][2]))
   /\ \A i \in 1..Len(v.chapters) : v.chapters[i][1] # "-1" => \A n \in 1..Lead(v.chapters[i][2]) :
        Covered(e, v.chapters[i][1], n) \/ \E h \in 1..Len(v.omitted) : v.omitted[h] = <<v.chapters[i][1], ToString(n)>>
=============================================================================
