------------------------------ MODULE OrgSystems ------------------------------
(* Organisational systems: which definition a name stands for, which values a   *)
(* definition selects (its own, or those of the texts it uses or is derived     *)
(* from), the books they hold and the walk through them, absolute verse numbers,*)
(* and the book orders themselves.                                             *)
(* D.org[name] = [type, v |-> [value name |-> value]], D.index[short name] =   *)
(* names, D.alt[book] = alternative books, D.codes = every book code.          *)
EXTENDS Tables
CONSTANTS Mode, MaxQ, Emit     \* Mode: "systems", "orders", "numbers" (told one by one), "ask", "valid", "match" (simulated histories)
VARIABLES what, qs, as
ovars == <<what, qs, as>>

Types == <<"edition", "revision", "translation", "original">>
OrgNames == DOMAIN D.org
ShortNames == DOMAIN D.index
None == "none"
Resolve(name) == CASE name \in OrgNames -> name
                   [] name \notin OrgNames /\ name \in ShortNames ->
                        IF Len(D.index[name]) = 1 THEN D.index[name][1]
                        ELSE LET ts == SelectSeq(Types, LAMBDA t : (name \o "_" \o t) \in OrgNames) IN
                             IF ts = <<>> THEN None ELSE name \o "_" \o ts[1]
                   [] OTHER -> None
Has(x) == [has |-> TRUE, val |-> x]
Hasnt == [has |-> FALSE, val |-> <<>>]
Own(n, v) == IF n # None /\ v \in DOMAIN D.org[n].v THEN Has(D.org[n].v[v]) ELSE Hasnt
Uses(n) == LET u == Own(n, "usesText") IN IF u.has THEN u.val ELSE <<>>
\* a text that says it uses a text of its own name means the most basic other one
Namesakes(n) == LET ts == SelectSeq(<<"original", "translation", "revision", "edition">>,
                                    LAMBDA t : LET m == D.org[n].v.referenceAbbreviation \o "_" \o t IN m \in OrgNames /\ m # n)
                IN [i \in 1..Len(ts) |-> D.org[n].v.referenceAbbreviation \o "_" \o ts[i]]
\* the value that a text has or takes from the texts that it uses (asked for under the name asked)
RECURSIVE Basic(_, _), FirstBasic(_, _, _, _)
Basic(asked, v) == LET n == Resolve(asked) o == Own(n, v) IN
    IF n = None THEN Hasnt ELSE IF o.has THEN o ELSE FirstBasic(asked, n, v, Uses(n))
FirstBasic(asked, n, v, us) ==
    IF us = <<>> THEN Hasnt
    ELSE LET xs == IF Head(us) = asked THEN Namesakes(n) ELSE <<Head(us)>>
             found == SelectSeq([i \in 1..Len(xs) |-> Basic(xs[i], v)], LAMBDA r : r.has)
         IN IF found # <<>> THEN found[1] ELSE FirstBasic(asked, n, v, Tail(us))
\* the value that an organisational system works with
RECURSIVE UsedValue(_, _)
UsedValue(us, v) == IF us = <<>> THEN Hasnt ELSE LET r == Basic(Head(us), v) IN IF r.has THEN r ELSE UsedValue(Tail(us), v)
Value(name, v) == LET n == Resolve(name) o == Own(n, v) u == UsedValue(Uses(n), v) df == Own(n, "derivedFrom") IN
    IF n = None THEN Hasnt ELSE IF o.has THEN o
    ELSE IF D.org[n].type = "original" THEN Hasnt
    ELSE IF u.has THEN u
    ELSE IF df.has THEN Basic(df.val[1], v) ELSE Hasnt

OBooks(name) == LET r == Value(name, "includesBooks") IN IF r.has THEN r.val ELSE <<>>
OVers(name) == LET r == Value(name, "versificationSystem") IN IF r.has /\ r.val \in VSystems THEN r.val ELSE None
OOrder(name) == LET r == Value(name, "bookOrderSystem") IN IF r.has /\ r.val \in OSystems THEN r.val ELSE None
InBooks(bs, b) == \E i \in 1..Len(bs) : bs[i] = b
\* the books of the system in its order
Walk(name) == LET bs == OBooks(name) IN IF OOrder(name) = None THEN <<>> ELSE SelectSeq(D.order[OOrder(name)], LAMBDA b : InBooks(bs, b))
NextIn(walk, o, b) == LET w == {i \in 1..Len(walk) : Pos(o, walk[i]) > Pos(o, b)} IN IF w = {} THEN None ELSE walk[Min(w)]
PrevIn(walk, o, b) == LET w == {i \in 1..Len(walk) : Pos(o, walk[i]) < Pos(o, b)} IN IF w = {} THEN None ELSE walk[Max(w)]
Alternative(name, b) == LET bs == OBooks(name) xs == IF b \in DOMAIN D.alt THEN SelectSeq(D.alt[b], LAMBDA x : InBooks(bs, x)) ELSE <<>> IN
                        IF InBooks(bs, b) THEN b ELSE IF xs = <<>> THEN None ELSE xs[1]

\* ---- absolute verse numbers: <<book, chapter, first number, last number>> in order
NumberedBooks(name) == SelectSeq(OBooks(name), LAMBDA b : HasBook(OVers(name), b))
RECURSIVE ChapterNumbers(_, _, _, _), AllNumbers(_, _, _, _)
ChapterNumbers(b, ch, i, n) == IF i > Len(ch) THEN <<>> ELSE <<<<b, ch[i][1], n + 1, n + ch[i][2]>>>> \o ChapterNumbers(b, ch, i + 1, n + ch[i][2])
AllNumbers(s, bs, i, n) == IF i > Len(bs) THEN <<>>
                           ELSE ChapterNumbers(bs[i], Tab(s, bs[i]).ch, 1, n) \o AllNumbers(s, bs, i + 1, n + Total(Tab(s, bs[i]).ch, 1))
Numbers(name) == IF OVers(name) = None THEN <<>> ELSE AllNumbers(OVers(name), NumberedBooks(name), 1, 0)
RECURSIVE Before(_, _, _), ChBefore(_, _, _)
Before(s, bs, b) == IF Head(bs) = b THEN 0 ELSE Total(Tab(s, Head(bs)).ch, 1) + Before(s, Tail(bs), b)
ChBefore(ch, i, c) == IF ch[i][1] = c THEN 0 ELSE ch[i][2] + ChBefore(ch, i + 1, c)
NumberOf(name, b, c, v) == LET s == OVers(name) bs == NumberedBooks(name) IN
    IF s = None \/ ~InBooks(bs, b) \/ ~HasChapter(s, b, c) \/ v \notin 1..NumVerses(s, b, c) THEN 0
    ELSE Before(s, bs, b) + ChBefore(Tab(s, b).ch, 1, c) + v
RECURSIVE VerseAt(_, _, _, _, _)
NoVerse == <<"none", 0, 0>>
VerseAt(s, bs, i, j, n) ==  \* the n-th verse from the j-th chapter of the i-th book on
    IF n < 1 \/ i > Len(bs) THEN NoVerse
    ELSE LET ch == Tab(s, bs[i]).ch IN
         IF j > Len(ch) THEN VerseAt(s, bs, i + 1, 1, n)
         ELSE IF n <= ch[j][2] THEN <<bs[i], ch[j][1], n>> ELSE VerseAt(s, bs, i, j + 1, n - ch[j][2])
VerseOf(name, n) == IF OVers(name) = None THEN NoVerse ELSE VerseAt(OVers(name), NumberedBooks(name), 1, 1, n)

\* ---- matching an order of books against the systems
RECURSIVE Embeds(_, _, _)
Embeds(xs, o, from) == xs = <<>> \/ (Pos(o, Head(xs)) >= from /\ Pos(o, Head(xs)) > 0 /\ Embeds(Tail(xs), o, Pos(o, Head(xs))))
OrderMatches(xs) == Cardinality({o \in OSystems : Embeds(xs, D.order[o], 1)})

\* ---- what is told about everything
ValueNames == <<"type", "name", "languageCode", "publicationDate", "versificationSystem", "punctuationSystem", "bookOrderSystem", "booksNamesSystem", "includesBooks">>
SystemFacts(name) ==
    LET w == Walk(name) o == IF OOrder(name) = None THEN <<>> ELSE D.order[OOrder(name)] IN
    [name |-> name, is |-> Resolve(name), vals |-> [i \in 1..Len(ValueNames) |-> <<ValueNames[i], Value(name, ValueNames[i])>>],
     boss |-> [i \in 1..Len(ValueNames) |-> Basic(name, ValueNames[i])],
     order |-> OOrder(name), vers |-> OVers(name), walk |-> w,
     next |-> [i \in 1..Len(o) |-> NextIn(w, o, o[i])], prev |-> [i \in 1..Len(o) |-> PrevIn(w, o, o[i])], ord |-> o,
     alt |-> [i \in 1..Len(D.codes) |-> Alternative(name, D.codes[i])]]
OrderFacts(o) == LET bs == D.order[o] IN
    [name |-> o, books |-> bs, next |-> [i \in 1..Len(bs) |-> NextOf(bs, bs[i])], prev |-> [i \in 1..Len(bs) |-> PrevOf(bs, bs[i])],
     pos |-> [i \in 1..Len(bs) |-> Pos(bs, bs[i])], not |-> SelectSeq(D.codes, LAMBDA b : ~InBooks(bs, b))]
NumberFacts(name) == [name |-> name, vers |-> OVers(name), ranges |-> Numbers(name)]

\* ---- questions
R(S) == RandomElement(S)
SeqSet(s) == {s[i] : i \in 1..Len(s)}
Numbered == {n \in OrgNames : OVers(n) # None /\ NumberedBooks(n) # <<>>}
RECURSIVE Thin(_, _)
Thin(s, k) == IF s = <<>> THEN <<>> ELSE (IF R(1..k) = 1 THEN <<Head(s)>> ELSE <<>>) \o Thin(Tail(s), k)
AQuestion(ns) ==
    LET n == R(ns) s == OVers(n) bs == NumberedBooks(n) b == R(SeqSet(bs)) ch == Tab(s, b).ch c == ch[R(1..Len(ch))] IN
    CASE R(1..2) = 1 -> [k |-> "number", n |-> n, b |-> IF R(1..12) = 1 THEN R(SeqSet(D.codes)) ELSE b, c |-> IF R(1..12) = 1 THEN c[1] + 1 ELSE c[1],
                         v |-> CASE R(1..5) = 1 -> 1 [] R(1..4) = 1 -> c[2] [] R(1..8) = 1 -> c[2] + 1 [] R(1..8) = 1 -> 0 [] OTHER -> R(1..(c[2] + 1))]
      [] OTHER -> [k |-> "verse", n |-> n, x |-> R(0..36000)]
\* is a reference valid in a system: a book of its order, and a place that its versification has
OValid(n, b, c, v, ext) == InBooks(D.order[OOrder(n)], b) /\ ValidRef(OVers(n), b, c, v, ext)
Both == {n \in OrgNames : OVers(n) # None /\ OOrder(n) # None}
Tabled(s) == DOMAIN D.vers[s].tab
AValidity(ns) ==
    CHOOSE q \in UNION {UNION {UNION {
        {[k |-> "valid", n |-> n, b |-> b, c |-> IF R(1..10) = 1 THEN R({-1, 0, ch[i][1] + 1, 151}) ELSE ch[i][1],
          v |-> CASE om # <<>> /\ R(1..4) = 1 -> om[R(1..Len(om))][2] [] R(1..5) = 1 -> -1 [] R(1..5) = 1 -> 0 [] R(1..4) = 1 -> ch[i][2] + R(0..1)
                  [] R(1..9) = 1 -> 199 + R(0..1) [] OTHER -> R(1..(ch[i][2] + 2)),
          ext |-> R(BOOLEAN)]}
        : ch \in {Tab(OVers(n), b).ch}, om \in {Tab(OVers(n), b).om}, i \in {IF Tab(OVers(n), b).om # <<>> /\ R(1..2) = 1
              THEN CHOOSE k \in 1..Len(Tab(OVers(n), b).ch) : Tab(OVers(n), b).ch[k][1] = Tab(OVers(n), b).om[1][1] ELSE R(1..Len(Tab(OVers(n), b).ch))}}
        : b \in {LET out == Tabled(OVers(n)) \ SeqSet(D.order[OOrder(n)])
                        omits == {x \in Tabled(OVers(n)) : Tab(OVers(n), x).om # <<>>} IN
                    CASE out # {} /\ R(1..4) = 1 -> R(out) [] omits # {} /\ R(1..3) = 1 -> R(omits) [] OTHER -> R(Tabled(OVers(n)))}}
        : n \in {R(ns)}} : TRUE
\* (random choices are bound by sets of one, which TLC evaluates once; and the parameter keeps it from evaluating them once for all)
AnOrder(n) == CHOOSE q \in UNION {UNION {UNION {
      {[k |-> "match", xs |-> CASE n % 2 = 0 -> xs
                                [] n % 8 = 1 -> [xs EXCEPT ![i] = xs[j], ![j] = xs[i]]
                                [] n % 8 = 3 -> [xs EXCEPT ![i] = R(SeqSet(D.codes) \ SeqSet(xs))]
                                [] n % 8 = 5 -> Append(xs, R(SeqSet(D.codes) \ SeqSet(xs)))
                                [] OTHER -> xs \o <<xs[j]>>]}
          : i \in {R(1..Len(xs))}, j \in {R(1..Len(xs))}}
       : xs \in {IF t = <<>> THEN <<o[R(1..Len(o))]>> ELSE t : t \in {Thin(o, R({1, 2, 5, 20}))}}}
     : o \in {D.order[R(OSystems)]}} : TRUE
Answer(q) == CASE q.k = "number" -> [n |-> NumberOf(q.n, q.b, q.c, q.v)]
               [] q.k = "verse" -> [v |-> VerseOf(q.n, q.x)]
               [] q.k = "valid" -> [ok |-> OValid(q.n, q.b, q.c, q.v, q.ext)]
               [] q.k = "match" -> [n |-> OrderMatches(q.xs)]

OInit == /\ qs = <<>> /\ as = <<>>
         /\ what \in CASE Mode = "systems" -> OrgNames \cup ShortNames
                       [] Mode = "orders" -> OSystems
                       [] Mode = "numbers" -> OrgNames
                       [] Mode \in {"ask", "valid"} -> {{"x"}}   \* the systems of this history, chosen in the first step
                       [] OTHER -> {"any"}
Tell == /\ Mode \in {"systems", "orders", "numbers"} /\ qs = <<>> /\ qs' = <<"told">> /\ UNCHANGED <<what, as>>
        /\ (Emit => PrintT("@@" \o ToJson(CASE Mode = "systems" -> SystemFacts(what) [] Mode = "orders" -> OrderFacts(what) [] OTHER -> NumberFacts(what))))
Ask == /\ Mode \in {"ask", "valid", "match"} /\ Len(qs) < MaxQ
       /\ what' = IF Mode # "match" /\ qs = <<>> THEN (IF Mode = "ask" THEN {R(Numbered), R(Numbered), R(Numbered)} ELSE {R(Both), R(Both), R(Both)}) ELSE what
       /\ qs' = Append(qs, CASE Mode = "match" -> AnOrder(R(1..16)) [] Mode = "ask" -> AQuestion(what') [] OTHER -> AValidity(what'))
       /\ as' = Append(as, Answer(qs'[Len(qs')]))
       /\ ((Emit /\ Len(qs') = MaxQ) => PrintT("@@" \o ToJson([qs |-> qs', as |-> as'])))
ONext == Tell \/ Ask
OSpec == OInit /\ [][ONext]_ovars

\* ---- the properties
\* C17: numbers are given without gap or repeat, and number and verse are each other's inverse
Consecutive == (Mode = "numbers" /\ qs # <<>>) => LET rs == Numbers(what) IN
    /\ \A i \in 1..Len(rs) : rs[i][3] = (IF i = 1 THEN 1 ELSE rs[i - 1][4] + 1)
    /\ \A i \in {j \in 1..Len(rs) : j % 97 = 1} : rs[i][4] >= rs[i][3] =>
          /\ NumberOf(what, rs[i][1], rs[i][2], 1) = rs[i][3]
          /\ VerseOf(what, rs[i][3]) = <<rs[i][1], rs[i][2], 1>> /\ VerseOf(what, rs[i][4]) = <<rs[i][1], rs[i][2], rs[i][4] - rs[i][3] + 1>>
RoundTrip == (Mode = "ask" /\ qs # <<>>) => LET i == Len(qs) IN   \* (every question is the last one once)
    /\ (qs[i].k = "number" /\ as[i].n > 0) => VerseOf(qs[i].n, as[i].n) = <<qs[i].b, qs[i].c, qs[i].v>>
    /\ (qs[i].k = "verse" /\ as[i].v # NoVerse) => NumberOf(qs[i].n, as[i].v[1], as[i].v[2], as[i].v[3]) = qs[i].x
\* C18: one position per book; next and previous undo each other
OrderExact == (Mode = "orders" /\ qs # <<>>) => LET o == D.order[what] IN
    /\ Cardinality(SeqSet(o)) = Len(o) /\ PrevOf(o, o[1]) = None /\ NextOf(o, o[Len(o)]) = None
    /\ \A i \in 1..Len(o) : Pos(o, o[i]) = i /\ (i < Len(o) => NextOf(o, o[i]) = o[i + 1] /\ PrevOf(o, NextOf(o, o[i])) = o[i])
\* C19: the walk is exactly the included books that the order has, and the two directions are inverse
WalkExact == (Mode = "systems" /\ qs # <<>>) => LET w == Walk(what) o == IF OOrder(what) = None THEN <<>> ELSE D.order[OOrder(what)] IN
    /\ SeqSet(w) = (SeqSet(OBooks(what)) \cap SeqSet(o)) /\ Cardinality(SeqSet(w)) = Len(w)
    /\ \A i \in 1..Len(w) : /\ NextIn(w, o, w[i]) = (IF i = Len(w) THEN None ELSE w[i + 1])
                            /\ PrevIn(w, o, w[i]) = (IF i = 1 THEN None ELSE w[i - 1])
\* C19: a valid reference is in a book of the system's order, and everything valid stays valid when headings count too
ValidExact == (Mode = "valid" /\ qs # <<>>) => LET q == qs[Len(qs)] IN
    /\ as[Len(as)].ok => (q.b \in SeqSet(D.order[OOrder(q.n)]) /\ OValid(q.n, q.b, q.c, q.v, TRUE))
    /\ (~as[Len(as)].ok /\ ~q.ext) => (q.v = 0 \/ q.c = -1 \/ ~OValid(q.n, q.b, q.c, q.v, TRUE))
Exact == ValidExact /\ Consecutive /\ RoundTrip /\ OrderExact /\ WalkExact
==============================================================================
