------------------------------- MODULE Tables -------------------------------
(* The data tables (read by an independent reader from the XML files the       *)
(* project publishes) and what is to be answered about them:                   *)
(* D.vers[system] = [books, tab], tab[book] = [n |-> declared chapters,        *)
(* ch |-> <<<<chapter, verses>>,..>>, om |-> omitted <<<<chapter, verse>>,..>>]; *)
(* D.order[system] = sequence of books.                                        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
D == JsonDeserialize("data.json")   \* (a definition, not a constant: TLC then reads it once)

VSystems == DOMAIN D.vers
OSystems == DOMAIN D.order
Books(s) == D.vers[s].books
HasBook(s, b) == b \in DOMAIN D.vers[s].tab
Tab(s, b) == D.vers[s].tab[b]
Chapters(s, b) == [i \in 1..Len(Tab(s, b).ch) |-> Tab(s, b).ch[i][1]]
NumVerses(s, b, c) == IF HasBook(s, b) /\ \E i \in 1..Len(Tab(s, b).ch) : Tab(s, b).ch[i][1] = c
                      THEN LET i == CHOOSE i \in 1..Len(Tab(s, b).ch) : Tab(s, b).ch[i][1] = c IN Tab(s, b).ch[i][2] ELSE 0
HasChapter(s, b, c) == HasBook(s, b) /\ \E i \in 1..Len(Tab(s, b).ch) : Tab(s, b).ch[i][1] = c
RECURSIVE Total(_, _)
Total(ch, i) == IF i > Len(ch) THEN 0 ELSE ch[i][2] + Total(ch, i + 1)
OmittedSet(s, b) == IF HasBook(s, b) THEN {Tab(s, b).om[i] : i \in 1..Len(Tab(s, b).om)} ELSE {}
Omitted(s, b, c, v) == <<c, v>> \in OmittedSet(s, b)

\* v = -1: no verse given.  ext: chapter -1 (with up to 199 verses) and verse 0 are allowed too
ValidRef(s, b, c, v, ext) == /\ HasBook(s, b)
                             /\ \/ ext /\ c = -1 /\ v \in 0..199
                                \/ /\ HasChapter(s, b, c)
                                   /\ (v = -1 \/ (ext /\ v = 0) \/ (v \in 1..NumVerses(s, b, c) /\ ~Omitted(s, b, c, v)))

\* ---- book orders
Pos(o, b) == IF \E i \in 1..Len(o) : o[i] = b THEN CHOOSE i \in 1..Len(o) : o[i] = b ELSE 0
NextOf(o, b) == LET i == Pos(o, b) IN IF i > 0 /\ i < Len(o) THEN o[i + 1] ELSE "none"
PrevOf(o, b) == LET i == Pos(o, b) IN IF i > 1 THEN o[i - 1] ELSE "none"

\* ---- ranges: runs of verses <<book, chapter, from, to>>
RECURSIVE Runs(_, _, _, _, _, _)
Runs(om, b, c, lo, hi, v) ==   \* lo: where the run began
    IF v > hi THEN (IF lo > hi THEN <<>> ELSE <<<<b, c, lo, hi>>>>)
    ELSE IF <<c, v>> \in om THEN (IF lo = v THEN <<>> ELSE <<<<b, c, lo, v - 1>>>>) \o Runs(om, b, c, v + 1, hi, v + 1)
    ELSE Runs(om, b, c, lo, hi, v + 1)
ChapterRuns(s, b, c, lo, hi) == LET om == OmittedSet(s, b) IN
                                IF om = {} THEN (IF lo > hi THEN <<>> ELSE <<<<b, c, lo, hi>>>>) ELSE Runs(om, b, c, lo, hi, lo)
RECURSIVE BookRuns(_, _, _, _, _, _, _)
BookRuns(s, b, i, c1, v1, c2, v2) ==   \* chapters of b from the i-th on, between c1:v1 and c2:v2
    IF i > Len(Tab(s, b).ch) THEN <<>>
    ELSE LET c == Tab(s, b).ch[i][1] IN
         (IF c < c1 \/ c > c2 THEN <<>>
          ELSE ChapterRuns(s, b, c, IF c = c1 THEN v1 ELSE 1, IF c = c2 THEN v2 ELSE Tab(s, b).ch[i][2]))
         \o BookRuns(s, b, i + 1, c1, v1, c2, v2)
BIG == 100000
RECURSIVE BooksRuns(_, _, _, _, _, _, _, _)
BooksRuns(s, o, i, j, c1, v1, c2, v2) ==   \* books o[i]..o[j]; c1:v1 in the first, c2:v2 in the last
    IF i > j THEN <<>>
    ELSE (IF ~HasBook(s, o[i]) THEN <<>>
          ELSE BookRuns(s, o[i], 1, c1, v1, IF i = j THEN c2 ELSE BIG, IF i = j THEN v2 ELSE 1))
         \o BooksRuns(s, o, i + 1, j, -BIG, 1, c2, v2)
Refused == [ok |-> FALSE, runs |-> <<>>]
Expand(s, o, b1, c1, v1, b2, c2, v2) ==
    IF ~ValidRef(s, b1, c1, v1, FALSE) \/ ~ValidRef(s, b2, c2, v2, FALSE) THEN Refused
    ELSE LET f == IF v1 = -1 THEN 1 ELSE v1
             l == IF v2 = -1 THEN NumVerses(s, b2, c2) ELSE v2
         IN IF b1 = b2 THEN (IF c1 > c2 \/ (c1 = c2 /\ f >= l) THEN Refused ELSE [ok |-> TRUE, runs |-> BookRuns(s, b1, 1, c1, f, c2, l)])
            ELSE IF Pos(o, b1) = 0 \/ Pos(o, b2) = 0 \/ Pos(o, b1) >= Pos(o, b2) THEN Refused
            ELSE [ok |-> TRUE, runs |-> BooksRuns(s, o, Pos(o, b1), Pos(o, b2), c1, f, c2, l)]

\* ---- which systems a set of books fits: sch = sequence of <<book, chapter, verses>>
Fits(s, sch) == \A i \in 1..Len(sch) : HasChapter(s, sch[i][1], sch[i][2]) /\ NumVerses(s, sch[i][1], sch[i][2]) = sch[i][3]
Matching(sch) == Cardinality({s \in VSystems : Fits(s, sch)})

\* ---- everything about one book of one system
\* (VerseOK is ValidRef for a chapter of n verses, written so that a whole book can be told quickly)
VerseOK(om, c, n, v, ext) == (ext /\ v = 0) \/ (v \in 1..n /\ <<c, v>> \notin om)
Facts(s, b) == LET t == Tab(s, b) om == OmittedSet(s, b) IN
               [sys |-> s, book |-> b, n |-> t.n, single |-> t.n = 1, ch |-> t.ch, total |-> Total(t.ch, 1), om |-> t.om,
                valid |-> [i \in 1..Len(t.ch) |-> [c |-> t.ch[i][1],
                              bad |-> SetToSeq({v \in 0..(t.ch[i][2] + 2) : ~VerseOK(om, t.ch[i][1], t.ch[i][2], v, FALSE)}),
                              badx |-> SetToSeq({v \in 0..(t.ch[i][2] + 2) : ~VerseOK(om, t.ch[i][1], t.ch[i][2], v, TRUE)})]]]
==============================================================================
