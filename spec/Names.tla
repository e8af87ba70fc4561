------------------------------- MODULE Names --------------------------------
(* Entering a book or division by name.  D.sys[name] = [div, lead, book]:      *)
(* div = sequence of [id, books, in], lead = sequence of <<leader, others>>,   *)
(* book = sequence of [id, name, abbr, in], `in' the texts that may be entered *)
(* (upper case).  A publication is a system and the list of its books.         *)
EXTENDS Codes

Systems == DOMAIN D.sys
SeqSet(s) == {s[i] : i \in 1..Len(s)}
\* ---- texts
IsDigit(ch) == ch \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
AllDigits(s) == \A i \in 1..Len(s) : IsDigit(SubSeq(s, i, i))
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
RECURSIVE Replace(_, _, _)
Replace(s, x, y) == IF Len(s) < Len(x) THEN s ELSE IF StartsWith(s, x) THEN y \o Replace(SubSeq(s, Len(x) + 1, Len(s)), x, y)
                    ELSE SubSeq(s, 1, 1) \o Replace(SubSeq(s, 2, Len(s)), x, y)
\* what is left when spaces are taken out one after the other
RECURSIVE DropOne(_)
DropOne(s) == IF Len(s) = 0 THEN s ELSE IF SubSeq(s, 1, 1) = " " THEN SubSeq(s, 2, Len(s)) ELSE SubSeq(s, 1, 1) \o DropOne(SubSeq(s, 2, Len(s)))
RECURSIVE Closer(_)
Closer(s) == {s} \cup (IF DropOne(s) = s THEN {} ELSE Closer(DropOne(s)))
\* the leading parts that may stand for the whole
Parts(s) == {p \in {SubSeq(s, 1, i) : i \in 1..Len(s)} : ~AllDigits(p) /\ SubSeq(p, Len(p), Len(p)) # " "}
Forms(lead, s) == {s} \cup UNION {{Replace(s, lead[i][1], y) : y \in SeqSet(lead[i][2])} : i \in {j \in 1..Len(lead) : StartsWith(s, lead[j][1])}}
Short(lead, fields) == UNION {UNION {UNION {Closer(p) : p \in Parts(f)} : f \in Forms(lead, s)} : s \in SeqSet(fields)}
\* every system's books and divisions with what may be entered for them
BookOf == TLCEval([s \in Systems |-> [b \in {D.sys[s].book[i].id : i \in 1..Len(D.sys[s].book)} |-> D.sys[s].book[CHOOSE i \in 1..Len(D.sys[s].book) : D.sys[s].book[i].id = b]]])
DivOf == TLCEval([s \in Systems |-> [d \in {D.sys[s].div[i].id : i \in 1..Len(D.sys[s].div)} |-> D.sys[s].div[CHOOSE i \in 1..Len(D.sys[s].div) : D.sys[s].div[i].id = d]]])

\* ---- a publication: its books, the divisions that have any of them
Has(s, bs) == {b \in SeqSet(bs) : b \in DOMAIN BookOf[s]}
Divs(s, bs) == {d \in DOMAIN DivOf[s] : SeqSet(DivOf[s][d].books) \cap SeqSet(bs) # {}}
\* owners: text -> everything it could stand for
Owners(of, T) == [t \in T |-> {o \in DOMAIN of : t \in of[o]}]
Pub(s, bs) ==
    LET B == Has(s, bs) V == Divs(s, bs) lead == D.sys[s].lead
        bl == TLCEval([b \in B |-> SeqSet(BookOf[s][b].in)])   dl == TLCEval([d \in V |-> SeqSet(DivOf[s][d].in)])
        bx == TLCEval([b \in B |-> Short(lead, BookOf[s][b].in)]) dx == TLCEval([d \in V |-> Short(lead, DivOf[s][d].in)])
        T == TLCEval(UNION {bl[b] \cup bx[b] : b \in B} \cup UNION {dl[d] \cup dx[d] : d \in V})
        bo == TLCEval(Owners(bl, T)) do == TLCEval(Owners(dl, T)) bxo == TLCEval(Owners(bx, T)) dxo == TLCEval(Owners(dx, T))
        \* leading parts are not accepted when they are listed for a division or stand for several of either kind
        clear(t) == bo[t] = {} /\ do[t] = {} /\ Cardinality(bxo[t]) <= 1 /\ Cardinality(dxo[t]) <= 1
        one(S) == IF Cardinality(S) = 1 THEN SetToSeq(S) ELSE <<>>
    IN [t \in T |-> [book |-> IF bo[t] # {} THEN one(bo[t]) ELSE IF clear(t) THEN one(bxo[t]) ELSE <<>>,
                     div |-> IF do[t] # {} THEN one(do[t]) ELSE IF clear(t) THEN one(dxo[t]) ELSE <<>>]]
\* what is not a name here may still be a code or an English name known everywhere
Answered(p, t) == Either(p[t].book, OfText(t))

\* ---- book lists of all sorts, chosen by number
ListNames == <<"all", "OT39", "NT27", "66", "81", "one in three", "one in five", "another third", "every seventh">>
Listed(s, l) == LET all == D.sys[s].book[1].all IN
    CASE l = "all" -> all
      [] l \in DOMAIN D.lists -> SelectSeq(D.lists[l], LAMBDA b : b \in DOMAIN BookOf[s])
      [] l = "one in three" -> SelectSeq(all, LAMBDA b : D.b[Ix[b]].num % 3 = 1)
      [] l = "another third" -> SelectSeq(Reverse(all), LAMBDA b : D.b[Ix[b]].num % 3 = 2)
      [] l = "one in five" -> SelectSeq(all, LAMBDA b : D.b[Ix[b]].num % 5 = 3)
      [] l = "every seventh" -> SelectSeq(Reverse(all), LAMBDA b : D.b[Ix[b]].num % 7 = 4)
NInit == qs = <<>> /\ as = <<>> /\ what \in {<<s, l>> : s \in Systems, l \in {ListNames[i] : i \in (IF MaxQ = 0 THEN 1..Len(ListNames) ELSE 1..MaxQ)}}
NTell == /\ qs = <<>> /\ qs' = Listed(what[1], what[2]) /\ UNCHANGED what
         /\ qs' # <<>> /\ as' = Pub(what[1], qs')
         /\ (Emit => PrintT("@@" \o ToJson([sys |-> what[1], list |-> what[2], books |-> qs', t |-> [t \in DOMAIN as' |-> [b |-> Answered(as', t), d |-> as'[t].div]],
                                            divs |-> SetToSeq(Divs(what[1], qs'))])))
NSpec == NInit /\ [][NTell]_cvars
\* ---- the property: full names and listed texts of one book only give that book, everything accepted is a leading part
\* of something that may be entered for it and of nothing that may be entered for another book
NamesExact == qs # <<>> => LET s == what[1] B == Has(s, qs) lead == D.sys[s].lead IN
    /\ \A b \in B : \A t \in SeqSet(BookOf[s][b].in) : (\A c \in B : c # b => t \notin SeqSet(BookOf[s][c].in)) => as[t].book = <<b>>
    /\ \A t \in DOMAIN as : as[t].book # <<>> => as[t].book[1] \in B
==============================================================================
