---------------------------- MODULE Versification ----------------------------
(* Histories of questions about the chapter and verse tables: ranges, validity, *)
(* counts, which system a set of books fits.                                   *)
EXTENDS Tables
CONSTANTS MaxQ, Kinds, Sim, Emit
VARIABLES sys, book, qs, as
vvars == <<sys, book, qs, as>>

\* ---- questions
R(S) == RandomElement(S)
ARef(s, b) == LET b1 == IF HasBook(s, b) THEN b ELSE R({Books(s)[i] : i \in 1..Len(Books(s))})
                  ch == Tab(s, b1).ch
                  i == R(1..Len(ch))
              IN CASE R(1..8) = 1 -> [b |-> b, c |-> R(-1..(Len(ch) + 2)), v |-> R(-1..60)]   \* may not exist
                   [] R(1..5) = 1 -> [b |-> b1, c |-> ch[i][1], v |-> -1]
                   [] R(1..4) = 1 -> [b |-> b1, c |-> ch[i][1], v |-> ch[i][2]]
                   [] OTHER -> [b |-> b1, c |-> ch[i][1], v |-> R(1..(ch[i][2] + (IF ch[i][2] = 0 THEN 1 ELSE 0)))]
BookSet(s) == {Books(s)[i] : i \in 1..Len(Books(s))}
Near(o, b) == LET i == Pos(o, b) IN IF i = 0 THEN b ELSE LET j == i + R(0..(IF R(1..6) = 1 THEN 30 ELSE 4)) IN IF j > Len(o) THEN b ELSE o[j]
AQuestion(k) ==
    CASE k = "expand" ->
            LET s == R(VSystems) o == R(OSystems) b1 == R(BookSet(s)) x == ARef(s, b1)
                b2 == IF R(1..3) = 1 THEN b1 ELSE Near(D.order[o], b1)
                y0 == ARef(s, b2)
                y == IF b2 = b1 /\ R(1..3) = 1 THEN [y0 EXCEPT !.b = x.b, !.c = x.c] ELSE y0
            IN [k |-> k, s |-> s, o |-> o, x |-> x, y |-> y]
      [] k = "valid" -> LET s == R(VSystems) b == R(BookSet(s) \cup {"GEN", "PRF", "LBA", "MAT"}) IN [k |-> k, s |-> s, x |-> ARef(s, b), ext |-> R(BOOLEAN)]
      [] k = "count" -> LET s == R(VSystems) b == R(BookSet(s) \cup {"GEN", "PRF", "LBA", "MAT"}) IN [k |-> k, s |-> s, x |-> [ARef(s, b) EXCEPT !.b = b]]
      [] k = "match" -> LET s == R(VSystems) n == R(1..3)
                            bs == TLCEval([i \in 1..n |-> R(BookSet(s))])
                            sch == TLCEval(FlattenSeq([i \in 1..n |-> IF \E j \in 1..(i - 1) : bs[j] = bs[i] THEN <<>> ELSE [j \in 1..Len(Tab(s, bs[i]).ch) |-> <<bs[i], Tab(s, bs[i]).ch[j][1], Tab(s, bs[i]).ch[j][2]>>]]))
                            m == R(1..Len(sch))
                        IN [k |-> k, s |-> s, sch |-> IF R(1..3) = 1 THEN [sch EXCEPT ![m] = <<sch[m][1], sch[m][2], sch[m][3] + 1>>] ELSE sch]
Answer(q) ==
    CASE q.k = "expand" -> Expand(q.s, D.order[q.o], q.x.b, q.x.c, q.x.v, q.y.b, q.y.c, q.y.v)
      [] q.k = "valid" -> [ok |-> ValidRef(q.s, q.x.b, q.x.c, q.x.v, q.ext)]
      [] q.k = "count" -> [n |-> NumVerses(q.s, q.x.b, q.x.c)]
      [] q.k = "match" -> [n |-> Matching(q.sch)]

VInit == /\ IF Sim THEN sys = "any" /\ book = "any" ELSE sys \in VSystems /\ book \in BookSet(sys)
         /\ qs = <<>> /\ as = <<>>
Ask == /\ Sim /\ Len(qs) < MaxQ
       /\ LET q == AQuestion(R(Kinds)) IN qs' = Append(qs, q) /\ as' = Append(as, Answer(qs'[Len(qs')]))
       /\ UNCHANGED <<sys, book>>
       /\ ((Emit /\ Len(qs') = MaxQ) => PrintT("@@" \o ToJson([qs |-> qs', as |-> as'])))
Tell == /\ ~Sim /\ qs = <<>> /\ qs' = <<"told">> /\ UNCHANGED <<sys, book, as>> /\ (Emit => PrintT("@@" \o ToJson(Facts(sys, book))))
VNext == Ask \/ Tell
VSpec == VInit /\ [][VNext]_vvars

\* ---- the property
\* the runs are in order, disjoint, and hold no omitted verse
After(o, r1, r2) == \/ r1[1] # r2[1] /\ Pos(o, r1[1]) < Pos(o, r2[1])
                    \/ r1[1] = r2[1] /\ (r1[2] < r2[2] \/ (r1[2] = r2[2] /\ r1[4] < r2[3]))
RECURSIVE Length(_)
Length(rs) == IF rs = <<>> THEN 0 ELSE Head(rs)[4] - Head(rs)[3] + 1 + Length(Tail(rs))
ExpandSound == \A i \in 1..Len(qs) : (Sim /\ qs[i].k = "expand" /\ as[i].ok) =>
    LET rs == as[i].runs q == qs[i] o == D.order[q.o] IN
    /\ Len(rs) > 0 /\ \A j \in 1..(Len(rs) - 1) : After(o, rs[j], rs[j + 1])
    /\ \A j \in 1..Len(rs) : rs[j][3] <= rs[j][4] /\ rs[j][4] <= NumVerses(q.s, rs[j][1], rs[j][2])
    \* starts and ends where it was asked to
    /\ (q.x.v # -1 => rs[1][1] = q.x.b /\ rs[1][2] = q.x.c /\ rs[1][3] = q.x.v)
    /\ (q.y.v # -1 => rs[Len(rs)][1] = q.y.b /\ rs[Len(rs)][2] = q.y.c /\ rs[Len(rs)][4] = q.y.v)
    \* nothing between is missing: within one book, the number of verses is what the table says
    /\ (q.x.b = q.y.b => Length(rs) = Cardinality({<<c, v>> \in UNION {{<<Tab(q.s, q.x.b).ch[m][1], v>> : v \in 1..Tab(q.s, q.x.b).ch[m][2]} : m \in 1..Len(Tab(q.s, q.x.b).ch)} :
                              /\ <<c, v>> \notin OmittedSet(q.s, q.x.b)
                              /\ (c > q.x.c \/ (c = q.x.c /\ v >= q.x.v)) /\ (c < q.y.c \/ (c = q.y.c /\ (q.y.v = -1 \/ v <= q.y.v)))}))
\* the table agrees with itself
FactsAgree == (~Sim /\ qs # <<>>) => LET t == Tab(sys, book) om == OmittedSet(sys, book) IN
    /\ \A i \in 1..Len(t.ch) : NumVerses(sys, book, t.ch[i][1]) = t.ch[i][2]
    /\ \A i \in 1..Len(t.om) : ~ValidRef(sys, book, t.om[i][1], t.om[i][2], TRUE) /\ t.om[i][2] \in 1..NumVerses(sys, book, t.om[i][1])
    /\ \A i \in 1..Len(t.ch) : \A v \in {-1, 0, 1, 2, t.ch[i][2], t.ch[i][2] + 1} : \A e \in BOOLEAN :
           ValidRef(sys, book, t.ch[i][1], v, e) <=> (v = -1 \/ VerseOK(om, t.ch[i][1], t.ch[i][2], v, e))
    /\ Total(t.ch, 1) >= Cardinality(om)
==============================================================================
