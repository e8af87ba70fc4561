---------------------------- MODULE VerseFiles ----------------------------
(* Bibles kept one verse to a line: CSV, VPL, YET, Unbound, Drupal and Forge (SwordSearcher) files.
   The state is a Bible that grows verse by verse.  For each format there is the file which holds it (File),
   the machine that reads such a file line by line (Read), and what must be in the Bible then (Want).
   For the three formats the library also writes there is the export of a marked-up Bible (Export). *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Names,      \* the books in their order: records [b, gen, forge, num, ub, dr, vpl, name, fb (the VPL export's), ps]
          Kinds,      \* the kinds of text
          MaxV,       \* verses in all
          CS, VS,     \* the chapter and verse numbers
          Dups,       \* BOOLEAN: verses that come again
          Sim, Emit
VARIABLES recs        \* <<[b: book, c, v, k: kind of text, d: "new" | "same" | "other", i: the text's number]>>
vars == <<recs>>
NB == Len(Names)
S(n) == ToString(n)
Front(s) == SubSeq(s, 1, Len(s) - 1)
End(s) == s[Len(s)]
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))

(* ------------------------------------------------------------ the Bible grows *)
R(b, c, v, k, d, i) == [b |-> b, c |-> c, v |-> v, k |-> k, d |-> d, i |-> i]
N == Len(recs)
Nexts(k) ==
  IF N = 0 THEN {R(b, c, v, k, "new", 1) : b \in 1 .. NB, c \in CS, v \in VS}
  ELSE LET l == End(recs) IN
       {R(l.b, l.c, v, k, "new", N + 1) : v \in {x \in VS : x > l.v}}
       \cup {R(l.b, c, v, k, "new", N + 1) : c \in {x \in CS : x > l.c}, v \in VS}
       \cup {R(b, c, v, k, "new", N + 1) : b \in (l.b + 1) .. NB, c \in CS, v \in VS}
       \cup (IF Dups /\ l.k \notin {"empty", "para", "title", "refrain", "tiny"} THEN {R(l.b, l.c, l.v, l.k, "same", l.i), R(l.b, l.c, l.v, k, "other", N + 1)} ELSE {})
Init == recs = <<>>
Pick(x) == \* a likely next verse
  LET k == RandomElement(Kinds) l == End(recs) near == [R(l.b, l.c, l.v + 1, k, "new", N + 1) EXCEPT !.v = @]
      all == Nexts(k) dup == {r \in all : r.d # "new"} bk == {r \in all : N > 0 /\ r.b # l.b} ch == {r \in all : N > 0 /\ r.b = l.b /\ r.c # l.c}
      p == RandomElement(1 .. 12)
  IN IF N = 0 THEN RandomElement(all)
     ELSE IF p <= 6 /\ near \in all THEN near
     ELSE IF p = 7 /\ dup # {} THEN RandomElement(dup)
     ELSE IF p \in 8 .. 9 /\ ch # {} THEN RandomElement({r \in ch : \A z \in ch : r.c <= z.c})
     ELSE IF p \in 10 .. 11 /\ bk # {} THEN RandomElement({r \in bk : r.c = 1 /\ r.v = 1})
     ELSE RandomElement(all)
Next == /\ N < MaxV
        /\ IF Sim THEN /\ Nexts("plain") # {}
                       /\ \E x \in {Pick(N)} : recs' = Append(recs, x)
                  ELSE \E k \in Kinds : \E x \in Nexts(k) : recs' = Append(recs, x)
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------ the formats *)
Formats == <<"csvq", "csvb", "csvx", "tsv", "tsvref", "vpl1", "vpl2", "vpl3", "vpl5", "yet", "ub4", "ub6", "ub9", "drupal", "forge">>
Has(f) ==
  CASE f = "csvq" -> {"plain", "comma", "refrain", "tiny", "hex", "quote", "empty"}
    [] f \in {"csvb", "csvx", "tsv", "tsvref"} -> {"plain", "comma", "refrain", "tiny", "hex", "empty"}
    [] f = "vpl1" -> {"plain", "comma", "refrain", "tiny", "add", "wj", "two", "para", "title", "empty"}
    [] f \in {"vpl2", "vpl3"} -> {"plain", "comma", "refrain", "tiny", "space", "para", "empty"}
    [] f = "vpl5" -> {"plain", "comma", "refrain", "tiny", "contin"}
    [] f = "yet" -> {"plain", "comma", "refrain", "tiny", "add", "wj", "two", "para", "mid", "poetry", "note", "xref", "head", "heads", "empty"}
    [] f \in {"ub4", "ub6", "ub9"} -> {"plain", "comma", "refrain", "tiny", "edges", "empty"}
    [] f = "drupal" -> {"plain", "comma", "refrain", "tiny", "it", "two", "empty"}
    [] f = "forge" -> {"plain", "comma", "refrain", "tiny", "add", "wj", "two", "para", "note", "scr", "empty"}
K(f, r) == IF r.k \in Has(f) /\ (r.k = "title" => Names[r.b].ps /\ r.v = 1) THEN r.k ELSE "plain"
W(r) == "Word" \o S(r.i)
(* the text of a verse as the file has it *)
Text(f, r) ==
  LET w == W(r) k == K(f, r) IN
  CASE k = "plain" -> w \o " and more."
    [] k = "comma" -> w \o ", then; \"so\" 'it' was: 5."
    [] k = "hex" -> "Jos\\'e9 \\ldblquote " \o w \o "\\rdblquote \\emdash \\u250? x"
    [] k = "quote" -> w \o " \"said\" it"
    [] k = "refrain" -> "And so it was."
    [] k = "tiny" -> "I"
    [] k = "empty" -> ""
    [] k = "add" -> IF f = "yet" THEN "@@In @9big@7 " \o w ELSE "In [big] " \o w
    [] k = "wj" -> CASE f = "yet" -> "@@In @6red@5 " \o w [] f = "forge" -> "In +r/red-r/ " \o w [] OTHER -> "In <red> " \o w
    [] k = "two" -> CASE f = "yet" -> "@@@9one@7 @9two@7 " \o w [] f = "drupal" -> "<one> <two> " \o w [] OTHER -> "[one] [two] " \o w
    [] k = "it" -> "In <big> " \o w
    [] k = "para" -> IF f = "yet" THEN "@@@^" \o w ELSE "¶ " \o w
    [] k = "mid" -> "@@" \o w \o " a@^b " \o w \o "@8c"
    [] k = "poetry" -> "@@@1" \o w \o "@2two@3three@4four"
    [] k = "note" -> IF f = "yet" THEN "@@" \o w \o "@<f1@>@/ more@<f2@>@/." ELSE w \o "{a note} more{another}."
    [] k = "xref" -> "@@" \o w \o "@<x1@>@/ more@<x2@>@/."
    [] k = "scr" -> w \o " (<scripref>Pr 2:7</scripref>) more"
    [] k \in {"head", "heads"} -> w \o " under it"
    [] k = "space" -> w \o " , and ( so [ it ] ) . “ Yes ! ”"
    [] k = "contin" -> w \o " goes"
    [] k = "edges" -> "  " \o w \o "  x "
    [] k = "title" -> "«A title " \o S(r.i) \o "» " \o w
(* a file is a sequence of lines, a line is a sequence of fields; a verse's line knows its record *)
Ln(fs) == [f |-> fs, r |-> 0]
Vs(fs, j) == [f |-> fs, r |-> j]
P3(n) == IF n < 10 THEN "00" \o S(n) ELSE IF n < 100 THEN "0" \o S(n) ELSE S(n)
P2(n) == IF n < 10 THEN "0" \o S(n) ELSE S(n)
(* the verses that a file of the format can hold *)
RECURSIVE Kept5(_, _)
Kept5(rs, l) == \* VPL5: verses follow each other; a number at the start of a line may not be the next verse's
  IF rs = <<>> THEN <<>>
  ELSE LET r == Head(rs) IN
       IF r.d = "new" /\ (l = <<>> \/ r.b # l[1].b \/ r.c # l[1].c \/ r.v = l[1].v + 1) THEN <<r>> \o Kept5(Tail(rs), <<r>>) ELSE Kept5(Tail(rs), l)
Five == LET rs == Kept5(recs, <<>>) IN IF \E j \in 1 .. Len(rs) : rs[j].c = 1 THEN rs ELSE <<>> \* a file is known for one of these by a line "Chapter 1"
InFile(f) == IF f = "vpl5" THEN Five ELSE IF f = "yet" THEN SelectSeq(recs, LAMBDA r : r.d = "new") ELSE recs
NewBook(rs, j) == j = 1 \/ rs[j - 1].b # rs[j].b
NewChap(rs, j) == NewBook(rs, j) \/ rs[j - 1].c # rs[j].c
VerseLines(f, rs, j) ==
  LET r == rs[j] n == Names[r.b] t == Text(f, r) c == S(r.c) v == S(r.v) k == K(f, r) IN
  CASE f \in {"csvq", "tsv"} -> <<Vs(<<S(n.num), c, v, t>>, j)>>
    [] f \in {"csvb", "csvx"} -> <<Vs(<<n.gen, c, v, t>>, j)>>
    [] f = "tsvref" -> <<Vs(<<n.name \o " " \o c \o ":" \o v, t>>, j)>>
    [] f = "vpl1" -> <<Vs(<<n.vpl, c \o ":" \o v, t>>, j)>> \o (IF r.i % 7 = 3 THEN <<Ln(<<>>)>> ELSE <<>>)
    [] f \in {"vpl2", "vpl3"} -> <<Vs(<<P2(n.num) \o P3(r.c) \o P3(r.v), t>>, j)>>
    [] f = "vpl5" -> (IF NewBook(rs, j) THEN <<Ln(<<>>), Ln(<<>>), Ln(<<n.name>>), Ln(<<>>)>> ELSE IF NewChap(rs, j) THEN <<Ln(<<>>)>> ELSE <<>>)
                     \o (IF NewChap(rs, j) THEN <<Ln(<<"Chapter", c>>), Ln(<<>>)>> ELSE <<>>)
                     \o <<Vs(<<v, t>>, j)>> \o (IF k = "contin" THEN <<Ln(<<"on", "and", "on.">>)>> ELSE <<>>)
    [] f = "yet" -> <<Vs(<<"verse", S(n.num), c, v, t>>, j)>>
    [] f = "ub4" -> <<Vs(<<n.ub, c, v, t>>, j)>>
    [] f = "ub6" -> <<Vs(<<n.ub, c, v, IF r.d = "other" THEN "b" ELSE "", S(j * 10), t>>, j)>>
    [] f = "ub9" -> <<Vs(<<n.ub, c, v, n.ub, c, v, "", S(j * 10), t>>, j)>>
    [] f = "drupal" -> <<Vs(<<n.dr, c, v, "", t>>, j)>>
    [] f = "forge" -> <<Ln(<<"$$", n.forge \o " " \o c \o ":" \o v>>)>> \o <<Vs(<<t>>, j)>> \o (IF r.i % 5 = 2 THEN <<Ln(<<>>)>> ELSE <<>>)
BooksIn(rs) == SelectSeq([j \in 1 .. Len(rs) |-> j], LAMBDA j : NewBook(rs, j))
Before(f, rs) ==
  LET bs == BooksIn(rs) IN
  CASE f = "csvq" -> <<Ln(<<"Book", "Chapter", "Verse", "Scripture">>)>>
    [] f = "csvb" -> <<Ln(<<"Book", "Chapter", "Verse", "Text">>)>>
    [] f = "csvx" -> <<Ln(<<"Book", "Chapter", "Verse", "Text">>)>>
    [] f = "vpl3" -> <<Ln(<<"# language_name:", "English">>), Ln(<<"# closest ISO 639-3:", "eng">>), Ln(<<"# whatever:", "x">>), Ln(<<>>)>>
    [] f = "vpl5" -> <<Ln(<<"The", "Bible">>), Ln(<<>>), Ln(<<"This", "Bible", "is", "free.">>), Ln(<<>>)>>
    [] f = "yet" -> <<Ln(<<"info", "shortName", "T">>), Ln(<<"info", "longName", "Test">>)>> \o [x \in 1 .. Len(bs) |-> Ln(<<"book_name", S(Names[rs[bs[x]].b].num), Names[rs[bs[x]].b].name>>)]
    [] f \in {"ub4", "ub6", "ub9"} -> <<Ln(<<"#THE UNBOUND BIBLE (www.unboundbible.org)">>), Ln(<<"#name", "Test">>), Ln(<<"#note">>)>>
    [] f = "drupal" -> <<Ln(<<"*Bible">>), Ln(<<"#shortname fullname language">>), Ln(<<"T", "Test", "en">>), Ln(<<>>), Ln(<<"*Chapter">>), Ln(<<"#book,fullname,shortname,chap-count">>)>>
                       \o [x \in 1 .. Len(bs) |-> LET n == Names[rs[bs[x]].b] IN Ln(<<n.dr, n.name, n.dr, "4">>)] \o <<Ln(<<>>), Ln(<<"*Context">>), Ln(<<"#Book,Chapter,Verse,LineMark,Context">>)>>
    [] f = "forge" -> <<Ln(<<"; TITLE: Test">>), Ln(<<"; ABBREVIATION: TST">>), Ln(<<"; HAS ITALICS">>), Ln(<<"; whatever">>), Ln(<<"$$", "{AUTHORDETAIL}">>), Ln(<<"<p>Me</p>">>), Ln(<<"and myself">>), Ln(<<>>)>>
    [] OTHER -> <<>>
After(f, rs) ==
  IF f # "yet" THEN <<>>
  ELSE Cat([j \in 1 .. Len(rs) |-> LET r == rs[j] at == <<S(Names[r.b].num), S(r.c), S(r.v)>> IN
         CASE r.k = "note" -> <<Ln(<<"footnote">> \o at \o <<"1", "A @9fine@7 note.">>), Ln(<<"footnote">> \o at \o <<"2", "Another.">>)>>
           [] r.k = "xref" -> <<Ln(<<"xref">> \o at \o <<"1", "@<ta:1443598@>Mrk. 7:14@/">>), Ln(<<"xref">> \o at \o <<"2", "@<ta:1049354@>Gen. 2:10@/">>)>>
           [] r.k = "head" -> <<Ln(<<"pericope">> \o at \o <<"Heading " \o S(r.i)>>)>>
           [] r.k = "heads" -> <<Ln(<<"pericope">> \o at \o <<"Heading " \o S(r.i)>>), Ln(<<"parallel", "Luk. 3:23-38">>), Ln(<<"parallel", "Jhn. 3:2-7">>)>>
           [] OTHER -> <<>>])
File(f) == LET rs == TLCEval(InFile(f)) IN Before(f, rs) \o Cat([j \in 1 .. Len(rs) |-> VerseLines(f, rs, j)]) \o After(f, rs)

(* ------------------------------------------------------------ what has to be in the Bible *)
L(m, t) == <<m, t>>
(* the lines of one verse: those before its number, then the verse *)
Pre(f, r) == CASE K(f, r) = "para" /\ f \in {"vpl1", "vpl2", "vpl3", "forge", "yet"} -> <<L("p", "")>>
               [] K(f, r) = "poetry" -> <<L("q1", "")>>
               [] K(f, r) = "title" -> <<L("d", "A title " \o S(r.i))>>
               [] OTHER -> <<>>
Heading(f, r) == CASE K(f, r) = "head" -> <<L("s1", "Heading " \o S(r.i))>>
                   [] K(f, r) = "heads" -> <<L("s1", "Heading " \o S(r.i)), L("r", "(Luk. 3:23-38; Jhn. 3:2-7)")>>
                   [] OTHER -> <<>>
Body(f, r) ==
  LET w == W(r) k == K(f, r) t == Text(f, r) v == L("v", S(r.v)) One(x) == <<v, L("v~", x)>> IN
  CASE k \in {"plain", "comma", "refrain", "tiny", "head", "heads"} -> One(t)
    [] k = "hex" -> One("José “ " \o w \o "” — ú x")
    [] k = "quote" -> One(w \o " \"said\" it")
    [] k = "empty" -> <<v>>
    [] k = "add" -> One("In \\add big\\add* " \o w)
    [] k = "wj" -> One("In \\wj red\\wj* " \o w)
    [] k = "two" -> IF f = "drupal" THEN One("\\it one\\it* \\it two\\it* " \o w) ELSE One("\\add one\\add* \\add two\\add* " \o w)
    [] k = "it" -> One("In \\it big\\it* " \o w)
    [] k \in {"para", "title"} -> One(w)
    [] k = "mid" -> One(w \o " a") \o <<L("p", ""), L("p~", "b " \o w), L("m", ""), L("p~", "c")>>
    [] k = "poetry" -> One(w) \o <<L("q2", ""), L("p~", "two"), L("q3", ""), L("p~", "three"), L("q4", ""), L("p~", "four")>>
    [] k = "note" -> IF f = "yet" THEN One(w \o "\\f + \\ft A \\it fine\\it* note.\\f* more\\f + \\ft Another.\\f*.")
                     ELSE LET n == "\\f + \\fr " \o S(r.c) \o ":" \o S(r.v) \o " \\ft " IN One(w \o n \o "a note\\f* more" \o n \o "another\\f*.")
    [] k = "xref" -> One(w \o "\\x - \\xt Mrk. 7:14\\x* more\\x - \\xt Gen. 2:10\\x*.")
    [] k = "scr" -> One(w \o " \\x - \\xt Pr 2:7\\x* more")
    [] k = "space" -> One(w \o ", and (so [it]). “Yes!”")
    [] k = "contin" -> One(t \o " on and on.")
    [] k = "edges" -> One(w \o "  x")
(* verses the reader keeps: no line that says the same verse again, and where a line without text says nothing, none of those *)
Dedupes(f) == f \notin {"drupal", "yet", "vpl5"}
NoEmpty(f) == f \in {"forge", "ub4", "ub6", "ub9"}
Kept(f) == SelectSeq(InFile(f), LAMBDA r : ~(Dedupes(f) /\ r.d = "same") /\ ~(NoEmpty(f) /\ K(f, r) = "empty"))
OfBook(rs, b) == SelectSeq(rs, LAMBDA r : r.b = b)
BookLines(f, rs) == Cat([j \in 1 .. Len(rs) |-> Heading(f, rs[j]) \o (IF NewChap(rs, j) THEN <<L("c", S(rs[j].c))>> ELSE <<>>) \o Pre(f, rs[j]) \o Body(f, rs[j])])
Want(f) == LET rs == TLCEval(Kept(f)) bs == TLCEval(BooksIn(rs)) IN [x \in 1 .. Len(bs) |-> [b |-> Names[rs[bs[x]].b].b, lines |-> BookLines(f, OfBook(rs, rs[bs[x]].b))]]

(* ------------------------------------------------------------ the machine that reads *)
St0 == [b |-> 0, c |-> 0, v |-> 0, t |-> "", out |-> <<>>]
HeadOf(f, r) == Heading(f, r)
Take(f, st, r) == \* one verse's line
  LET t == Text(f, r) IN
  IF NoEmpty(f) /\ t = "" THEN st
  ELSE LET nb == st.b # r.b nc == nb \/ st.c # r.c
           out1 == IF nb THEN Append(st.out, [b |-> Names[r.b].b, lines |-> <<>>]) ELSE st.out
           put(o, ls) == [o EXCEPT ![Len(o)].lines = @ \o ls]
           out2 == put(put(out1, HeadOf(f, r)), IF nc THEN <<L("c", S(r.c))>> ELSE <<>>)
           again == Dedupes(f) /\ ~nc /\ st.v = r.v /\ st.t = t
       IN [b |-> r.b, c |-> r.c, v |-> r.v, t |-> t, out |-> IF again THEN out2 ELSE put(out2, Pre(f, r) \o Body(f, r))]
RECURSIVE Run(_, _, _, _)
Run(f, rs, st, ls) == IF ls = <<>> THEN st.out ELSE IF Head(ls).r = 0 THEN Run(f, rs, st, Tail(ls)) ELSE Run(f, rs, Take(f, st, rs[Head(ls).r]), Tail(ls))
Read(f) == LET rs == TLCEval(InFile(f)) fl == TLCEval(File(f)) IN Run(f, rs, St0, fl)

(* ------------------------------------------------------------ the library's own exports *)
(* the Bible in markers, of the verses that come once; headings, paragraphs, introductions and second lines of poetry about them *)
XKinds == {"plain", "add", "it", "note", "para", "mid", "head", "empty"}
XK(r) == CASE r.k \in {"two", "wj"} -> "it" [] r.k \in {"poetry", "contin"} -> "mid" [] r.k = "heads" -> "head" [] r.k \in XKinds -> r.k [] OTHER -> "plain"
XRecs == SelectSeq(recs, LAMBDA r : r.d = "new")
XText(r) == LET w == W(r) k == XK(r) IN
  CASE k = "add" -> "In \\add big\\add* " \o w
    [] k = "it" -> "In \\it big\\it* " \o w
    [] k = "note" -> w \o "\\f + \\ft A note.\\f* more"
    [] k = "empty" -> ""
    [] OTHER -> w \o " and more."
XVerse(rs, j) == LET r == rs[j] k == XK(r) IN
  (IF NewChap(rs, j) THEN <<L("c", S(r.c))>> ELSE <<>>)
  \o (IF k = "head" THEN <<L("s1", "Heading " \o S(r.i))>> ELSE <<>>)
  \o (IF NewChap(rs, j) \/ k \in {"para", "head"} THEN <<L("p", "")>> ELSE <<>>)
  \o <<L("v", S(r.v) \o (IF XText(r) = "" THEN "" ELSE " " \o XText(r)))>>
  \o (IF k = "mid" THEN <<L("q1", "second line"), L("q2", "line")>> ELSE <<>>)
XBook(b) == LET rs == TLCEval(OfBook(XRecs, b)) n == Names[b] IN
  <<L("id", n.id \o " - Test"), L("h", n.name), L("mt1", n.name), L("ip", "About it.")>> \o Cat([j \in 1 .. Len(rs) |-> XVerse(rs, j)])
XBooks == LET rs == TLCEval(XRecs) bs == TLCEval(BooksIn(rs)) IN [x \in 1 .. Len(bs) |-> rs[bs[x]].b]
Plainly(r) == LET w == W(r) k == XK(r) IN
  CASE k \in {"add", "it"} -> "In big " \o w [] k = "note" -> w \o " more" [] k = "empty" -> "" [] k = "mid" -> w \o " and more. second line line" [] OTHER -> w \o " and more."
Angled(r) == IF XK(r) \in {"add", "it"} THEN "In <big> " \o W(r) ELSE Plainly(r)
Export(x) ==
  LET rs == XRecs IN
  CASE x = "swordsearcher" -> Cat([j \in 1 .. Len(rs) |-> LET r == rs[j] IN <<"$$ " \o Names[r.b].ss \o " " \o S(r.c) \o ":" \o S(r.v)>> \o (IF XK(r) = "empty" THEN <<>> ELSE <<Plainly(r)>>)])
    [] x = "drupal" -> Cat([j \in 1 .. Len(rs) |-> LET r == rs[j] IN IF XK(r) = "empty" THEN <<>> ELSE <<Names[r.b].dr \o "|" \o S(r.c) \o "|" \o S(r.v) \o "||" \o Angled(r)>>])
VplFile(b) == LET rs == OfBook(XRecs, b) IN
  Cat([j \in 1 .. Len(rs) |-> LET r == rs[j] p == NewChap(rs, j) \/ XK(r) \in {"para", "head"} IN
       <<"$$ " \o Names[b].fb \o " " \o S(r.c) \o ":" \o S(r.v)>> \o (IF XK(r) = "empty" /\ ~p THEN <<>> ELSE <<IF ~p THEN Plainly(r) ELSE IF XK(r) = "empty" THEN "¶" ELSE "¶ " \o Plainly(r)>>)])
(* and what comes back from them *)
Back(x, rs0) ==
  LET rs == SelectSeq(rs0, LAMBDA r : XK(r) # "empty" \/ x = "vpl")
      T(r) == IF x = "drupal" /\ XK(r) \in {"add", "it"} THEN "In \\it big\\it* " \o W(r) ELSE Plainly(r)
      P(j) == x = "vpl" /\ LET all == rs IN (NewChap(all, j) \/ XK(rs[j]) \in {"para", "head"})
  IN Cat([j \in 1 .. Len(rs) |-> (IF NewChap(rs, j) THEN <<L("c", S(rs[j].c))>> ELSE <<>>)
          \o (IF P(j) THEN <<L("p", "")>> ELSE <<>>)
          \o (IF XK(rs[j]) = "empty" THEN (IF P(j) THEN <<L("v", S(rs[j].v))>> ELSE <<>>) ELSE <<L("v", S(rs[j].v)), L("v~", T(rs[j]))>>)])
Backs(x) == SelectSeq([y \in 1 .. Len(XBooks) |-> [b |-> Names[XBooks[y]].b, lines |-> Back(x, OfBook(XRecs, XBooks[y]))]], LAMBDA z : z.lines # <<>>)

(* ------------------------------------------------------------ what holds *)
FS == {Formats[j] : j \in 1 .. Len(Formats)}
Done == ~Sim \/ N = MaxV \/ Nexts("plain") = {}
Reads == Done => \A f \in FS : Read(f) = Want(f)
(* each kept verse is there once, under its chapter, in the order of the file *)
Nums(ls) == SelectSeq(ls, LAMBDA l : l[1] \in {"c", "v"})
Verses(f) == LET w == TLCEval(Want(f)) IN Cat([x \in 1 .. Len(w) |-> [y \in 1 .. Len(Nums(w[x].lines)) |-> <<w[x].b>> \o Nums(w[x].lines)[y]]])
Whole == Done => \A f \in FS : LET vs == TLCEval(SelectSeq(Verses(f), LAMBDA l : l[2] = "v")) ks == TLCEval(Kept(f))
                       IN Len(vs) = Len(ks) /\ \A j \in 1 .. Len(ks) : vs[j] = <<Names[ks[j].b].b, "v", S(ks[j].v)>>
Same == \* what one format keeps of plain verses the others keep too
  Done /\ (\A j \in 1 .. N : recs[j].k = "plain" /\ recs[j].d = "new") => \A f, g \in FS \ {"vpl5"} : Want(f) = Want(g)
NoLoss == Done => \* every verse with text comes back from an export
  \A x \in {"swordsearcher", "drupal", "vpl"} : LET b == TLCEval(Backs(x)) IN
     Len(SelectSeq(Cat([y \in 1 .. Len(b) |-> b[y].lines]), LAMBDA l : l[1] = "v~")) = Len(SelectSeq(XRecs, LAMBDA r : XK(r) # "empty"))
Rec == [n |-> N, files |-> [j \in 1 .. Len(Formats) |-> LET f == Formats[j] IN [fmt |-> f, lines |-> LET fl == TLCEval(File(f)) IN [x \in 1 .. Len(fl) |-> fl[x].f], want |-> Want(f)]],
        bible |-> LET xb == TLCEval(XBooks) IN [y \in 1 .. Len(XBooks) |-> [b |-> Names[XBooks[y]].b, lines |-> XBook(XBooks[y])]],
        ss |-> Export("swordsearcher"), dr |-> Export("drupal"), vpl |-> [y \in 1 .. Len(XBooks) |-> VplFile(XBooks[y])],
        backs |-> [ss |-> Backs("swordsearcher"), dr |-> Backs("drupal"), vpl |-> Backs("vpl")]]
Emitting == (Emit /\ N > 0 /\ Done) => PrintT("@@" \o ToJson(Rec))
=============================================================================
