----------------------------- MODULE References -----------------------------
(* What written references denote.  A document is written item by item - a new *)
(* book, a new chapter, a further verse, ranges of all kinds - and at the same *)
(* time what it stands for is put together: the list of references and ranges, *)
(* the verses in them, the OSIS text for it.  Book and chapter carry over from  *)
(* item to item.  A behaviour writes several documents, as one parser will be   *)
(* given them: what a document stands for never depends on the others.          *)
(* D.ref[system] = [v |-> versification, books, names[b] = texts for the book,  *)
(* br, cbr |-> bridge characters in and across chapters, suf |-> verse letters, *)
(* dot |-> abbreviations may end so, osis[b]]; D.order[system]: its book order. *)
EXTENDS Tables
CONSTANTS MaxItems, MaxDocs, Emit
VARIABLES sys, doc, docs, asked
rvars == <<sys, doc, docs, asked>>

\* ---- choices: a tuple of random numbers is drawn once per step, all else follows from it
N == 22
Rnd(i) == RandomElement(0..999999)
Draw(x) == <<Rnd(x + 1), Rnd(x + 2), Rnd(x + 3), Rnd(x + 4), Rnd(x + 5), Rnd(x + 6), Rnd(x + 7), Rnd(x + 8), Rnd(x + 9), Rnd(x + 10), Rnd(x + 11), Rnd(x + 12), Rnd(x + 13), Rnd(x + 14), Rnd(x + 15), Rnd(x + 16), Rnd(x + 17), Rnd(x + 18), Rnd(x + 19), Rnd(x + 20), Rnd(x + 21), Rnd(x + 22)>>
Of(s, x) == s[1 + (x % Len(s))]
S == D.ref[sys]
V == S.v
O == D.order[sys]
Single(b) == Tab(V, b).n = 1
Chap(b, i) == Tab(V, b).ch[i]
Near(b, x) == LET i == Pos(O, b) j == i + (x % 3) IN IF i = 0 \/ j > Len(O) THEN b ELSE IF O[j] \notin DOMAIN S.names THEN b ELSE O[j]
\* a chapter number of b (now and then one that is not there), from the i-th on
ChapOf(b, i, x) == LET n == Len(Tab(V, b).ch) IN
                   IF x % 41 = 0 THEN Chap(b, n)[1] + 1 + (x % 3) ELSE IF x % 7 = 1 THEN Chap(b, 1 + (x % n))[1]
                   ELSE LET j == i + (x % 4) IN Chap(b, IF j > n THEN n ELSE j)[1]
\* a verse number of chapter c of b (now and then not), from lo on
VerseOf(b, c, lo, x) == LET n == NumVerses(V, b, c) IN
                        CASE x % 43 = 0 -> n + 1 + (x % 2) [] x % 47 = 0 -> 0
                          [] n = 0 -> 1 [] x % 5 = 1 -> 1 + (x % n) [] x % 17 = 2 -> n
                          [] OTHER -> LET w == lo + (x % 6) IN IF w > n THEN n ELSE w
Letter(x) == IF x % 6 = 0 THEN Of(S.suf, x \div 7) ELSE ""
P(b, c, v, s) == [b |-> b, c |-> c, v |-> v, s |-> s]
\* ---- texts
Str(n) == ToString(n)
VText(p) == Str(p.v) \o p.s
CVText(p) == Str(p.c) \o (IF p.v = -1 THEN "" ELSE ":" \o VText(p))
OsisOf(p) == S.osis[p.b] \o "." \o Str(p.c) \o (IF p.v = -1 THEN "" ELSE "." \o Str(p.v))
OsisText(i) == IF ~i.r THEN OsisOf(i.x) ELSE OsisOf(IF i.x.v = -1 /\ i.y.v # -1 THEN [i.x EXCEPT !.v = 1] ELSE i.x) \o "-" \o OsisOf(i.y)
RECURSIVE Join(_, _)
Join(l, i) == IF i > Len(l) THEN "" ELSE (IF i > 1 THEN "; " ELSE "") \o OsisText(l[i]) \o Join(l, i + 1)
Name(b, x, first) == LET t == Of(S.names[b], x) IN
                     t \o (CASE S.dot /\ (x \div 16) % 3 = 0 -> (IF (x \div 64) % 5 = 0 /\ first THEN "." ELSE ". ")
                             [] first /\ (x \div 16) % 13 = 1 -> "_" [] (x \div 16) % 17 = 2 /\ first -> "  " [] OTHER -> " ")

\* ---- items
Place(p) == [r |-> FALSE, x |-> p, y |-> p]
Span(p, q) == [r |-> TRUE, x |-> p, y |-> q]
EndText(p, q, x) ==   \* how the end q of a range from p is written
    IF p.b # q.b THEN S.cbr \o Name(q.b, x, FALSE) \o (IF Single(q.b) /\ q.c = 1 /\ (x \div 1024) % 2 = 0 THEN VText(q) ELSE CVText(q))
    ELSE IF p.c # q.c THEN S.cbr \o CVText(q) ELSE S.br \o VText(q)
\* the end of a range that begins at p: further on in the chapter, in another chapter, in another book
EndOf(p, x, b2, c2, v2, l2) ==
    LET same == x % 4 \in {0, 1} \/ (Single(p.b) /\ x % 4 = 2)
        b == IF x % 4 = 3 /\ b2 # p.b THEN b2 ELSE p.b
        c == IF b # p.b THEN ChapOf(b, 1, c2) ELSE IF same \/ Single(b) THEN p.c ELSE ChapOf(b, IF Pos([i \in 1..Len(Tab(V, b).ch) |-> Chap(b, i)[1]], p.c) = 0 THEN 1 ELSE Pos([i \in 1..Len(Tab(V, b).ch) |-> Chap(b, i)[1]], p.c) + 1, c2)
        v == VerseOf(b, c, IF b = p.b /\ c = p.c THEN p.v + 1 ELSE 1, v2)
    IN IF b = p.b /\ c = p.c /\ v = p.v THEN P(b, c, v, p.s) ELSE P(b, c, v, Letter(l2))
Alone(p, q) == [p EXCEPT !.s = IF p.b = q.b /\ p.c = q.c /\ p.v = q.v THEN "" ELSE @]   \* (a range of letters of one verse is not looked at)
\* one reference or range from p on: [t |-> text after the book name (cv: with its chapter), i |-> what it is]
Item(p, cv, d) == LET q == EndOf(p, d[10], Near(p.b, d[11]), d[12], d[13], d[14])
                      t(z) == IF cv THEN CVText(z) ELSE VText(z)
                  IN IF d[9] % 5 < 3 THEN [t |-> t(p), i |-> Place(p), m |-> "v"]
                     ELSE LET p1 == Alone(p, q) q1 == Alone(q, p) IN [t |-> t(p1) \o EndText(p1, q1, d[15]), i |-> Span(p1, q1), m |-> "v"]
\* chapters: a whole one (nothing can follow), or a range of them
Whole(b, c) == [t |-> Str(c), i |-> Place(P(b, c, -1, "")), m |-> "end"]
ChapterRange(b, d) == LET c == ChapOf(b, 1 + (d[4] % Len(Tab(V, b).ch)), d[5])
                          c2 == ChapOf(b, IF c > Len(Tab(V, b).ch) THEN 1 ELSE c + 1, d[6])
                      IN IF d[7] % 2 = 0 THEN [t |-> Str(c) \o S.cbr \o Str(c2), i |-> Span(P(b, c, -1, ""), P(b, c2, -1, "")), m |-> "cr"]
                         ELSE LET q == P(b, c2, VerseOf(b, c2, 1, d[8]), Letter(d[14])) IN [t |-> Str(c) \o S.cbr \o CVText(q), i |-> Span(P(b, c, -1, ""), q), m |-> "v"]
InBook(b, d) ==   \* what follows a book name
    IF Single(b)
    THEN LET p == P(b, 1, VerseOf(b, 1, 1 + (d[4] % 20), d[5]), Letter(d[6]))
             q == P(b, 1, VerseOf(b, 1, p.v + 1, d[8]), Letter(d[14]))
         IN IF d[7] % 2 = 0 THEN Item(p, TRUE, d)
            ELSE IF d[9] % 5 < 3 THEN [t |-> VText(p), i |-> Place(p), m |-> "v"]
            ELSE LET p1 == Alone(p, q) q1 == Alone(q, p) IN [t |-> VText(p1) \o S.br \o VText(q1), i |-> Span(p1, q1), m |-> "v"]
    ELSE IF d[3] % 11 = 0 THEN Whole(b, ChapOf(b, 1, d[4]))
    ELSE IF d[3] % 11 = 1 THEN ChapterRange(b, d)
    ELSE LET c == ChapOf(b, 1 + (d[4] % Len(Tab(V, b).ch)), d[5]) IN Item(P(b, c, VerseOf(b, c, 1 + (d[6] % 20), d[7]), Letter(d[8])), TRUE, d)
InChapter(b, c, d) == Item(P(b, c, VerseOf(b, c, 1 + (d[6] % 25), d[7]), Letter(d[8])), FALSE, d)
InSameBook(b, d) == LET c == ChapOf(b, 1 + (d[4] % Len(Tab(V, b).ch)), d[5])
                    IN IF d[3] % 9 = 0 THEN Whole(b, c) ELSE Item(P(b, c, VerseOf(b, c, 1 + (d[6] % 20), d[7]), Letter(d[8])), TRUE, d)

\* ---- documents
Blank == [k |-> "", t |-> "", l |-> <<>>, m |-> "start"]
LastRef == doc.l[Len(doc.l)].y
Put(t, x) == [k |-> "plain", t |-> doc.t \o t \o x.t, l |-> Append(doc.l, x.i), m |-> x.m]
Sep(ch, x) == IF x % 7 = 0 THEN ch ELSE ch \o " "
NewBook(d) == LET b == IF d[2] % 3 = 0 /\ doc.l # <<>> THEN Near(LastRef.b, d[18]) ELSE Of(S.books, d[18])
              IN Put((IF doc.l = <<>> THEN "" ELSE Sep(";", d[17])) \o Name(b, d[16], doc.l = <<>>), InBook(b, d))
Extend(d) == CASE doc.l = <<>> \/ (doc.m = "cr" /\ d[1] % 2 = 0) \/ d[1] % 5 = 0 -> NewBook(d)
               [] doc.m = "v" /\ (d[1] % 5 \in {1, 2, 3} \/ Single(LastRef.b)) -> Put(IF d[17] % 4 = 0 THEN ", " ELSE ",", InChapter(LastRef.b, LastRef.c, d))
               [] OTHER -> Put(Sep(";", d[17]), InSameBook(LastRef.b, d))
\* OSIS text: every reference in full
OsisBook(x) == LET b == Of(S.books, x) IN IF S.osis[b] = "" THEN "GEN" ELSE b
OsisExtend(d) == LET b == OsisBook(d[18])
                     c == ChapOf(b, 1 + (d[4] % Len(Tab(V, b).ch)), d[5])
                     p == P(b, c, VerseOf(b, c, 1, d[7]), "")
                     q == [EndOf(p, d[10], Near(b, d[11]), d[12], d[13], 1) EXCEPT !.s = ""]
                     i == IF d[9] % 5 < 3 \/ S.osis[q.b] = "" THEN Place(p) ELSE Span(p, q)
                     w == Place(P(b, c, -1, ""))
                     j == IF d[3] % 11 = 0 /\ ~Single(b) THEN w ELSE i
                 IN [k |-> "osis", t |-> doc.t \o (IF doc.l = <<>> THEN "" ELSE Sep(";", d[17])) \o OsisText(j), l |-> Append(doc.l, j), m |-> IF j = w THEN "end" ELSE "v"]

\* ---- what a document stands for
Ex(i) == IF i.r THEN Expand(V, O, i.x.b, i.x.c, i.x.v, i.y.b, i.y.c, i.y.v) ELSE [ok |-> ValidRef(V, i.x.b, i.x.c, i.x.v, FALSE), runs |-> <<<<i.x.b, i.x.c, i.x.v, i.x.v>>>>]
Meaning(x) == LET e == TLCEval([i \in 1..Len(x.l) |-> Ex(x.l[i])]) IN
    [k |-> x.k, t |-> x.t, l |-> x.l, ok |-> \A i \in 1..Len(e) : e[i].ok, runs |-> [i \in 1..Len(e) |-> e[i].runs],
     osis |-> IF \A i \in 1..Len(x.l) : S.osis[x.l[i].x.b] # "" /\ S.osis[x.l[i].y.b] # "" THEN Join(x.l, 1) ELSE ""]

RInit == sys \in DOMAIN D.ref /\ doc = Blank /\ docs = <<>> /\ asked = 0
Write == /\ Len(docs) < MaxDocs /\ doc.m # "end" /\ Len(doc.l) < MaxItems
         /\ \E d \in {Draw(asked)} : /\ (doc.l = <<>> \/ d[19] % 3 # 0)
                              /\ doc' = IF doc.k = "osis" \/ (doc.k = "" /\ d[20] % 6 = 0) THEN OsisExtend(d) ELSE Extend(d)
         /\ UNCHANGED <<sys, docs, asked>>
Finish == /\ doc.l # <<>> /\ Len(docs) < MaxDocs
          /\ docs' = Append(docs, Meaning(doc)) /\ doc' = Blank /\ UNCHANGED <<sys, asked>>
          /\ ((Emit /\ Len(docs') = MaxDocs) => PrintT("@@" \o ToJson([sys |-> sys, docs |-> docs'])))
RNext == Write \/ Finish
RSpec == RInit /\ [][RNext]_rvars

\* ---- the property
\* what a document denotes is made of places of the system, in the order written; ranges go forward and their verses are all there
Sound == \A k \in 1..Len(docs) : docs[k].ok =>
    /\ \A i \in 1..Len(docs[k].l) : LET it == docs[k].l[i] rs == docs[k].runs[i] IN
          /\ \A p \in {it.x, it.y} : p.b \in DOMAIN D.vers[V].tab /\ HasChapter(V, p.b, p.c) /\ p.v <= NumVerses(V, p.b, p.c) /\ ~Omitted(V, p.b, p.c, p.v)
          /\ (it.r => /\ (it.x.b = it.y.b => it.x.c < it.y.c \/ (it.x.c = it.y.c /\ (it.x.v = -1 \/ it.x.v < it.y.v))) /\ Pos(O, it.x.b) <= Pos(O, it.y.b)
                      /\ rs # <<>> /\ rs[1][1] = it.x.b /\ rs[Len(rs)][1] = it.y.b)
\* carrying forward: a document goes on from where its last reference ended
CarryOn == doc.l # <<>> => \A i \in 2..Len(doc.l) : doc.l[i].x.b # "" /\ doc.l[i].x.c # 0
==============================================================================
