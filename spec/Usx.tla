--------------------------------- MODULE Usx ----------------------------------
(* A finished book is written as a USX file and the file is read back.         *)
(* The file is the sequence of its parts in document order: [k, m, n, x] with  *)
(* k = book, chapter, chapterend, verse, verseend, open, close, text, or       *)
(* flat/empty for a paragraph that is closed at once.                          *)
EXTENDS Book

CONSTANT Shift        \* which line gets which of the rich texts

VARIABLES file, again \* what is written; the lines of the book read back from it
uvars == <<vars, file, again>>

Rich == << "", " \\nd LORD\\nd* said", "\\f + \\fr 1:1 \\ft a & note\\f*", " & — “quoted” 'it' \"so\" <not>", " \\add some\\add* words\\x b \\xo 1:2 \\xt Gen 3:4\\x* more",
           " \\qs Selah\\qs*", " \\w word|lemma=\"w\"\\w* x", ", (and) so; on...\\f + \\ft x\\f* y\\f a \\ft z\\f*", " \\bd \\+nd Both\\+nd* bold\\bd*", " & \\w one|strong=\"H1\"\\w* \\add \\+w two|strong=\"H2\" lemma=\"b\"\\+w* c\\add* d" >>
\* ... and the same as XML
RichXml == << "", " <char style=\"nd\">LORD</char> said",
              "<note caller=\"+\" style=\"f\"><char closed=\"false\" style=\"fr\">1:1 </char><char closed=\"false\" style=\"ft\">a &amp; note</char></note>",
              " &amp; — “quoted” 'it' \"so\" &lt;not&gt;",
              " <char style=\"add\">some</char> words<note caller=\"b\" style=\"x\"><char closed=\"false\" style=\"xo\">1:2 </char><char closed=\"false\" style=\"xt\"><ref loc=\"GEN 3:4\">Gen 3:4</ref></char></note> more",
              " <char style=\"qs\">Selah</char>", " <char lemma=\"w\" style=\"w\">word</char> x",
              ", (and) so; on...<note caller=\"+\" style=\"f\"><char closed=\"false\" style=\"ft\">x</char></note> y<note caller=\"a\" style=\"f\"><char closed=\"false\" style=\"ft\">z</char></note>",
              " <char style=\"bd\"><char style=\"nd\">Both</char> bold</char>",
              " &amp; <char strong=\"H1\" style=\"w\">one</char> <char style=\"add\"><char lemma=\"b\" strong=\"H2\" style=\"w\">two</char> c</char> d" >>
RichTxt(i) == "t" \o ToString(i) \o Rich[((i * 7 + Shift) % Len(Rich)) + 1]
Xml(x) == IF Len(x) < 5 THEN x
          ELSE IF \E k \in 2..Len(Rich) : Len(x) > Len(Rich[k]) /\ SubSeq(x, Len(x) - Len(Rich[k]) + 1, Len(x)) = Rich[k]
               THEN LET k == CHOOSE k \in 2..Len(Rich) : Len(x) > Len(Rich[k]) /\ SubSeq(x, Len(x) - Len(Rich[k]) + 1, Len(x)) = Rich[k]
                    IN SubSeq(x, 1, Len(x) - Len(Rich[k])) \o RichXml[k]
               ELSE x

----------------------------------------------------------------------------
Hidden == {"headers", "intro", "ilist", "chapters", "list", "v=", "c#", "vp#"}
ParaOpen == (ParaSplit \ {"b"}) \cup {"d"}
E(k, m, n, x) == [k |-> k, m |-> m, n |-> n, x |-> x]

\* st = [out, open, inv, c, v]: open: a paragraph is open; inv: a verse is; c, v: where we are
Put(st, e) == [st EXCEPT !.out = Append(@, e)]
CloseP(st) == IF st.open THEN [Put(st, E("close", "", "", "")) EXCEPT !.open = FALSE] ELSE st
At(st) == st.c \o ":" \o st.v
WriteLine(st, l) ==
  LET mk == IF l.o # "" THEN l.o ELSE l.m
      vid == IF st.inv THEN At(st) ELSE ""
  IN CASE l.m = "/v" -> [Put(st, E("verseend", "", At(st), "")) EXCEPT !.inv = FALSE]
       [] l.m = "/c" -> Put(CloseP(st), E("chapterend", "", st.c, ""))
       [] (IsEnd(l.m) \/ l.m \in Hidden) -> st
       [] l.m = "id" -> Put(st, E("book", "", "", l.t))
       [] l.m = "c" -> [Put(CloseP(st), E("chapter", "", l.t, "")) EXCEPT !.c = l.t, !.v = "0"]
       [] l.m = "v" -> [Put(st, E("verse", "", st.c \o ":" \o l.t, "")) EXCEPT !.inv = TRUE, !.v = l.t]
       [] l.m \in {"v~", "p~", "c~"} -> Put(st, E("text", "", "", l.t))
       [] l.m \in ParaOpen -> LET s == [Put(CloseP(st), E("open", mk, vid, "")) EXCEPT !.open = TRUE]
                              IN IF l.t = "" THEN s ELSE Put(s, E("text", "", "", l.t))
       [] l.m \in {"b", "ib"} -> Put(CloseP(st), E("flat", mk, vid, ""))
       [] OTHER -> Put(CloseP(st), E("flat", mk, "", l.t))
RECURSIVE WriteFrom(_, _, _)
WriteFrom(st, s, i) == IF i > Len(s) THEN CloseP(st).out ELSE WriteFrom(WriteLine(st, s[i]), s, i + 1)
Write(s) == WriteFrom([out |-> <<>>, open |-> FALSE, inv |-> FALSE, c |-> "-1", v |-> "-1"], s, 1)

\* the source lines that a file stands for
AfterColon(s) == LET i == CHOOSE i \in 1..Len(s) : SubSeq(s, i, i) = ":" IN SubSeq(s, i + 1, Len(s))
ReadPart(out, e) ==
  CASE e.k = "book" -> Append(out, [m |-> "id", n |-> "", x |-> e.x])
    [] e.k = "chapter" -> Append(out, [m |-> "c", n |-> e.n, x |-> ""])
    [] e.k = "verse" -> Append(out, [m |-> "v", n |-> AfterColon(e.n), x |-> ""])
    [] e.k \in {"open", "flat"} -> Append(out, [m |-> e.m, n |-> "", x |-> e.x])
    [] e.k = "text" -> [out EXCEPT ![Len(out)].x = @ \o e.x]
    [] OTHER -> out
RECURSIVE LinesFrom(_, _, _)
LinesFrom(out, f, i) == IF i > Len(f) THEN out ELSE LinesFrom(ReadPart(out, f[i]), f, i + 1)
RECURSIVE RawFrom(_, _, _)
RawFrom(st, fs, i) == IF i > Len(fs) THEN st ELSE RawFrom(RawStep(st, fs[i]), fs, i + 1)
RECURSIVE NestFrom(_, _, _)
NestFrom(st, s, i) == IF i > Len(s) THEN st ELSE NestFrom(NestStep(st, s, i), s, i + 1)
Read(f) == VerseStart(NestFinish(NestFrom(NestInit, RawFrom(RawInit, LinesFrom(<<>>, f, 1), 1).out, 1)).out, 1)

UInit == Init /\ file = <<>> /\ again = <<>>
\* a book with chapters has at least one
Export == /\ phase = "done"
          /\ ChapterBook => \E i \in 1..Len(ls) : ls[i].m = "c"
          /\ file' = Write(ls) /\ again' = Read(file')
          /\ phase' = "written"
          /\ UNCHANGED <<raw, cN, vN, suf, rs, ns, ls, is, j, Idx>>
XmlFile == [i \in 1..Len(file) |-> [file[i] EXCEPT !.x = Xml(@)]]
Tell == /\ phase = "written" /\ Emit
        /\ PrintT("@@" \o ToJson([raw |-> raw, lines |-> ls, file |-> XmlFile, again |-> again]))
        /\ phase' = "told"
        /\ UNCHANGED <<raw, cN, vN, suf, rs, ns, ls, is, j, Idx, file, again>>
UNext == ((Add \/ End \/ Nest \/ Start \/ Index \/ Finish) /\ UNCHANGED <<file, again>>) \/ Export \/ Tell
USpec == UInit /\ [][UNext]_uvars

----------------------------------------------------------------------------
Done == phase = "written"
Look2(s) == [i \in 1..Len(s) |-> <<s[i].m, s[i].t>>]
NoPrint(s) == SelectSeq(s, LAMBDA e : e.m # "c#")
\* the same markers, numbers and texts come back (chapter 1 made explicit then has its printing place)
SameBook == Done => \/ Look2(again) = Look2(ls)
                    \/ Inserted /\ Look2(NoPrint(again)) = Look2(NoPrint(ls))
\* what comes back is written as the same file
FixedPoint == Done => Write(again) = file
\* no text is lost, added or moved
FileText == LET f == SelectSeq(file, LAMBDA e : e.x # "") IN [i \in 1..Len(f) |-> f[i].x]
RawText2 == LET f == SelectSeq(raw, LAMBDA e : e.x # "") IN [i \in 1..Len(f) |-> f[i].x]
TextWritten == Done => FileText = RawText2
\* paragraphs are opened and closed in turn, and no chapter begins or ends inside one: the file is a tree
InPara(i) == LET o == {h \in 1..i : file[h].k \in {"open", "close"}} IN o # {} /\ LET z == CHOOSE h \in o : \A g \in o : g <= h IN file[z].k = "open"
Nested == Done => /\ \A i \in 1..Len(file) : CASE file[i].k = "close" -> InPara(i - 1)
                                               [] file[i].k \in {"book", "chapter", "chapterend", "open", "flat"} -> ~InPara(i - 1)
                                               [] OTHER -> TRUE
                  /\ ~InPara(Len(file))
\* verses and chapters begin and end in turn, an end naming what began
Turns(b, e) == LET f == SelectSeq(file, LAMBDA x : x.k \in {b, e})
               IN /\ Len(f) % 2 = 0
                  /\ \A i \in 1..Len(f) : IF i % 2 = 1 THEN f[i].k = b ELSE f[i].k = e /\ f[i].n = f[i - 1].n
Milestones == Done => Turns("verse", "verseend") /\ Turns("chapter", "chapterend")
=============================================================================
