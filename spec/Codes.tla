------------------------------- MODULE Codes --------------------------------
(* The book codes: one table of books, each with its codes in a dozen systems, *)
(* and what every lookup in it is to answer.  D.b = sequence of books          *)
(* [bbb, num, seq, names, ch, chn, alt, more, up, own]; own[f] = the code in   *)
(* system f, up[f] = that in upper case ("" when it has none).                 *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS Mode, MaxQ, Emit
VARIABLES what, qs, as
cvars == <<what, qs, as>>
D == JsonDeserialize("data.json")   \* (a definition, not a constant: TLC then reads it once)

N == Len(D.b)
BBBs == {D.b[i].bbb : i \in 1..N}
Ix == TLCEval([x \in BBBs |-> CHOOSE i \in 1..N : D.b[i].bbb = x])
Fields == {"short", "SBL", "OSIS", "Sword", "USFM", "Unbound", "Logos", "NET", "Drupal", "BibleWorks", "Byzantine"}
Named == Fields \ {"Unbound"}        \* systems whose codes may stand in a text
Code(f, i) == D.b[i].up[f]
Keys(f) == {Code(f, i) : i \in 1..N} \ {""}
\* the books that bear a code, in the order of the table
Bearers == TLCEval([f \in Fields |-> TLCEval([k \in Keys(f) |-> SelectSeq([i \in 1..N |-> IF Code(f, i) = k THEN D.b[i].bbb ELSE ""], LAMBDA x : x # "")])])
Find(f, k) == IF k \in Keys(f) THEN Bearers[f][k] ELSE <<>>     \* <<>>: refused
First(s) == IF s = <<>> THEN <<>> ELSE <<s[1]>>
Either(s, t) == IF s # <<>> THEN s ELSE t

\* ---- texts (strings are sequences for TLC)
RECURSIVE NoSpaces(_)
NoSpaces(k) == IF Len(k) = 0 THEN "" ELSE (IF SubSeq(k, 1, 1) = " " THEN "" ELSE SubSeq(k, 1, 1)) \o NoSpaces(SubSeq(k, 2, Len(k)))
Within(k) == {SubSeq(k, i, i + 2) : i \in 1..(Len(k) - 2)} \cap BBBs
English == [x \in {} |-> ""] @@ "EPJER" :> "LJE" @@ "DEUTERONOMY" :> "DEU" @@ "JUDGES" :> "JDG" @@ "1 SAMUEL" :> "SA1" @@ "2 SAMUEL" :> "SA2"
   @@ "1 CHRONICLES" :> "CH1" @@ "2 CHRONICLES" :> "CH2" @@ "ECCLESIASTES" :> "ECC" @@ "LAMENTATIONS" :> "LAM" @@ "HABAKKUK" :> "HAB" @@ "ZEPHANIAH" :> "ZEP"
   @@ "ZECHARIAH" :> "ZEC" @@ "ROMANS" :> "ROM" @@ "1 CORINTHIANS" :> "CO1" @@ "2 CORINTHIANS" :> "CO2" @@ "1 TIMOTHY" :> "TI1" @@ "2 TIMOTHY" :> "TI2"
   @@ "1 KINGS" :> "KI1" @@ "2 KINGS" :> "KI2" @@ "SONG OF SONGS" :> "SNG" @@ "SONG OF SOLOMON" :> "SNG" @@ "MK" :> "MRK" @@ "PHILIPPIANS" :> "PHP"
   @@ "1 THESSALONIANS" :> "TH1" @@ "1THS" :> "TH1" @@ "2 THESSALONIANS" :> "TH2" @@ "2THS" :> "TH2" @@ "PHILEMON" :> "PHM" @@ "1 PETER" :> "PE1"
   @@ "2 PETER" :> "PE2" @@ "PS151" :> "PS2"
More == TLCEval([k \in UNION {{D.b[i].more[j] : j \in 1..Len(D.b[i].more)} : i \in 1..N} |-> CHOOSE x \in BBBs : \E j \in 1..Len(D.b[Ix[x]].more) : D.b[Ix[x]].more[j] = k])
AllKeys == TLCEval(UNION {Keys(f) : f \in Named})
\* every book that some system gives this code to
Meanings(k) == UNION {{Find(f, k)[j] : j \in 1..Len(Find(f, k))} : f \in Named}
OfText(k) == IF k \in BBBs THEN <<k>>
             ELSE IF k \in AllKeys /\ Cardinality(Meanings(k)) = 1 THEN SetToSeq(Meanings(k))
             ELSE IF k \in DOMAIN More THEN <<More[k]>>
             ELSE IF k \in DOMAIN English THEN <<English[k]>>
             ELSE IF Cardinality(Within(k)) = 1 THEN SetToSeq(Within(k)) ELSE <<>>

\* ---- the lookups.  The answer is the sequence of books it may be: one, several (told so), or none: refused
Ops == {"short", "shortStrict", "OSIS", "OSISStrict", "USFM", "Unbound", "Drupal", "text", "is"}
Lookup(op, k) ==
    CASE op = "shortStrict" -> Find("short", k)
      [] op = "short" -> Either(Find("short", k), Either(Find("short", NoSpaces(k)), Either(Find("SBL", k), Find("NET", k))))
      [] op = "OSISStrict" -> Find("OSIS", k)
      [] op = "OSIS" -> Either(Find("OSIS", k), Find("Sword", k))
      [] op = "USFM" -> First(Find("USFM", k))     \* the best fit is the first
      [] op = "Unbound" -> Find("Unbound", k)
      [] op = "Drupal" -> Find("Drupal", k)
      [] op = "text" -> OfText(k)
      [] op = "is" -> IF k \in BBBs THEN <<k>> ELSE <<>>
Asked(op, k) == IF op = "USFM" THEN Len(k) = 3 ELSE Len(k) > 0
Variants(k) == {k, k \o "X", "Q" \o k, SubSeq(k, 1, Len(k) - 1), SubSeq(k, 2, Len(k)), SubSeq(k, 1, 1) \o " " \o SubSeq(k, 2, Len(k)), NoSpaces(k), k \o " 9"} \ {""}
TextsOf(i) == LET b == D.b[i] IN UNION {Variants(k) : k \in ({Code(f, i) : f \in Fields} \cup {b.bbb} \cup {b.more[j] : j \in 1..Len(b.more)} \cup {b.names[j] : j \in 1..Len(b.names)}) \ {""}}
            \cup (IF i = 1 THEN DOMAIN English ELSE {})
\* ---- a book's own facts
RECURSIVE Maximum(_, _)
Maximum(s, m) == IF s = <<>> THEN m ELSE Maximum(Tail(s), IF s[1] > m THEN s[1] ELSE m)
UntitledPsalms == {1, 2, 10, 33, 43, 71, 91, 93, 94, 95, 96, 97, 99} \cup 104..107 \cup 111..119 \cup 135..137 \cup 146..150
Facts(i) == LET b == D.b[i] IN
    [i |-> i, bbb |-> b.bbb, num |-> b.num, own |-> b.own, ch |-> b.ch, max |-> Maximum(b.chn, -1), single |-> b.ch = <<"1">>, cv |-> b.ch # <<>>,
     ot |-> b.num \in 1..39, nt |-> b.num \in 40..66, names |-> b.realnames, alt |-> b.alt, section |-> b.section,
     psalms |-> IF b.bbb = "PSA" THEN SetToSeq((1..150) \ UntitledPsalms) ELSE <<>>,
     through |-> b.bbb \notin {"PSA", "PS2", "LAM"},
     lookups |-> SetToSeq({[op |-> op, k |-> k, a |-> Lookup(op, k)] : op \in Ops, k \in TextsOf(i)} \ {x \in {[op |-> "USFM", k |-> k, a |-> Lookup("USFM", k)] : k \in TextsOf(i)} : Len(x.k) # 3})]
\* the code systems as lists: one entry per code, with the first book that bears it
FirstBearing(f, i) == \A j \in 1..(i - 1) : D.b[j].own[f] # D.b[i].own[f]
Triples(nf) == SelectSeq([i \in 1..N |-> <<D.b[i].own.USFM, D.b[i].own[nf], D.b[i].bbb>>],
                         LAMBDA t : t[1] # "" /\ t[2] # "" /\ \A j \in 1..(Ix[t[3]] - 1) : ~(D.b[j].own.USFM = t[1] /\ D.b[j].own[nf] # ""))
Lists == [bbbs |-> [i \in 1..N |-> D.b[i].bbb], seq |-> LET s == SortSeq([i \in 1..N |-> i], LAMBDA x, y : D.b[x].seq < D.b[y].seq) IN [j \in 1..N |-> D.b[s[j]].bbb],
          singles |-> SelectSeq([i \in 1..N |-> IF D.b[i].ch = <<"1">> THEN D.b[i].bbb ELSE ""], LAMBDA x : x # ""),
          osisSingles |-> SelectSeq([i \in 1..N |-> IF D.b[i].ch = <<"1">> THEN D.b[i].own.OSIS ELSE ""], LAMBDA x : x # ""),
          osis |-> SetToSeq(Keys("OSIS")),
          usfm |-> SelectSeq([i \in 1..N |-> IF FirstBearing("USFM", i) THEN D.b[i].own.USFM ELSE ""], LAMBDA x : x # ""),
          usfmN |-> Triples("USFMNumber"), usxN |-> Triples("USXNumber"), bibleditN |-> Triples("BibleditNumber")]

\* ---- putting books and references into order
R(S) == RandomElement(S)
Before(x, y) == D.b[Ix[x]].seq < D.b[Ix[y]].seq
RECURSIVE Pick(_, _)
Pick(S, n) == IF n = 0 \/ S = {} THEN <<>> ELSE LET x == TLCEval(R(S)) IN <<x>> \o Pick(S \ {x}, n - 1)
RefNum(r) == <<D.b[Ix[r.b]].num, r.c, r.v, IF r.s = "b" THEN 1 ELSE 0>>
RECURSIVE Less(_, _, _)
Less(x, y, i) == i <= Len(x) /\ (x[i] < y[i] \/ (x[i] = y[i] /\ Less(x, y, i + 1)))
ARef(n) == [b |-> R({"GEN", "EXO", "PSA", "PRO", "MAL", "MAT", "JDE", "REV", R(BBBs)}), c |-> R({1, 2, 9, 10, 99, 100, 101, 119, 150, R(1..150)}), v |-> R({0, 1, 2, 149, 150, 151, 176, R(1..176)}),
         to |-> IF R(1..5) = 1 THEN R({2, 3, 177}) ELSE 0, s |-> IF R(1..6) = 1 THEN R({"a", "b"}) ELSE ""]
AQuestion(n) == CASE n % 2 = 0 -> [k |-> "books", xs |-> Pick(BBBs, R({0, 1, 2, 3, 10, 66})), tuples |-> R({TRUE, FALSE})]
               [] OTHER -> [k |-> "refs", rs |-> TLCEval([i \in 1..R({1, 2, 3, 8}) |-> ARef(i)])]
\* books: the sorted list itself; references: their places in order, ties in the order given
Answer(q) == IF q.k = "books" THEN [xs |-> SortSeq(q.xs, Before)]
             ELSE [order |-> SortSeq([i \in 1..Len(q.rs) |-> i], LAMBDA x, y : Less(RefNum(q.rs[x]), RefNum(q.rs[y]), 1) \/ (RefNum(q.rs[x]) = RefNum(q.rs[y]) /\ x < y))]

CInit == qs = <<>> /\ as = <<>> /\ what \in IF Mode = "facts" THEN 0..N ELSE {0}
Tell == /\ Mode = "facts" /\ qs = <<>> /\ qs' = <<"told">> /\ UNCHANGED <<what, as>>
        /\ (Emit => PrintT("@@" \o ToJson(IF what = 0 THEN Lists ELSE Facts(what))))
Ask == /\ Mode = "ask" /\ Len(qs) < MaxQ /\ UNCHANGED what
       /\ qs' = Append(qs, AQuestion(R(1..2))) /\ as' = Append(as, Answer(qs'[Len(qs')]))
       /\ ((Emit /\ Len(qs') = MaxQ) => PrintT("@@" \o ToJson([qs |-> qs', as |-> as'])))
CNext == Tell \/ Ask
CSpec == CInit /\ [][CNext]_cvars

\* ---- the properties
\* every code leads back to its book; numbers and places in the sequence are used once
Back == (Mode = "facts" /\ qs # <<>> /\ what # 0) => LET b == D.b[what] IN
    /\ Lookup("text", b.bbb) = <<b.bbb>> /\ Lookup("is", b.bbb) = <<b.bbb>>
    /\ \A f \in Fields : b.up[f] # "" => \E j \in 1..Len(Find(f, b.up[f])) : Find(f, b.up[f])[j] = b.bbb
    /\ \A j \in 1..N : j # what => D.b[j].num # b.num /\ D.b[j].seq # b.seq /\ D.b[j].bbb # b.bbb
    \* a text never names a book that no system, name or part of it suggests
    /\ \A k \in AllKeys : Len(OfText(k)) <= 1
Sorted == (Mode = "ask" /\ qs # <<>>) => LET q == qs[Len(qs)] a == as[Len(as)] IN
    IF q.k = "books" THEN /\ {a.xs[i] : i \in 1..Len(a.xs)} = {q.xs[i] : i \in 1..Len(q.xs)} /\ Len(a.xs) = Len(q.xs)
                          /\ \A i \in 1..(Len(a.xs) - 1) : Before(a.xs[i], a.xs[i + 1])
    ELSE /\ {a.order[i] : i \in 1..Len(a.order)} = 1..Len(q.rs)
         /\ \A i \in 1..(Len(a.order) - 1) : ~Less(RefNum(q.rs[a.order[i + 1]]), RefNum(q.rs[a.order[i]]), 1)
Exact == Back /\ Sorted
==============================================================================
