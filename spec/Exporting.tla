------------------------------ MODULE Exporting -------------------------------
(* A finished book is written as a USFM file and the file is read back.        *)
(* A line of the file is [m, n, x]: marker, number and text; Show is how it    *)
(* is spelt.  Read is Processing's treatment of a source, so that the promise  *)
(* about the file is a statement about the two together.                       *)
EXTENDS Book

CONSTANTS Usfm3,      \* TRUE: USFM 3 is written, else USFM 2
          NoBridges   \* TRUE: bridged verses are written as separate ones

VARIABLES file, again \* what is written; the lines of the book read back from it
evars == <<vars, file, again>>

\* texts of the kinds of thing a text may contain
Rich == << "", " \\nd LORD\\nd* said", "\\f + \\fr 1:1 \\ft a note\\f*", " — “quoted” & <so>", " \\add some\\add* words\\x - \\xo 1:2 \\xt Gen 3:4\\x* more",
           " \\qs Selah\\qs*", " \\w word|lemma=\"w\"\\w*", ", (and) so; on...", " \\bd \\+nd Both\\+nd* bold\\bd*" >>
CONSTANT Shift
RichTxt(i) == "t" \o ToString(i) \o Rich[((i * 5 + Shift) % Len(Rich)) + 1]

----------------------------------------------------------------------------
Hidden == {"headers", "intro", "ilist", "chapters", "list", "v=", "c#", "vp#"}
F(m, n, x) == [m |-> m, n |-> n, x |-> x]

Small == 0..60
IsNum(s) == \E i \in Small : ToString(i) = s
NumOf(s) == CHOOSE i \in Small : ToString(i) = s
Dash(s) == IF \E i \in 1..Len(s) : SubSeq(s, i, i) = "-" THEN CHOOSE i \in 1..Len(s) : SubSeq(s, i, i) = "-" ELSE 0
Owed(s) == \* the verses after the first one of a bridge
  LET d == Dash(s) a == SubSeq(s, 1, d - 1) b == SubSeq(s, d + 1, Len(s))
  IN IF d = 0 THEN <<>>
     ELSE IF IsNum(a) /\ IsNum(b) THEN [i \in 1..(NumOf(b) - NumOf(a)) |-> F("v", ToString(NumOf(a) + i), "")] ELSE <<>>
FirstOf(s) == LET d == Dash(s) IN IF d = 0 THEN s ELSE SubSeq(s, 1, d - 1)

\* st = [out, owed, usfm]
WriteLine(st, l) ==
  IF IsEnd(l.m) \/ l.m \in Hidden THEN st
  ELSE LET a == IF Usfm3 /\ l.m \notin {"id", "usfm"} /\ ~st.usfm
                THEN [st EXCEPT !.out = Append(@, F("usfm", "", "3.0")), !.usfm = TRUE]
                ELSE IF l.m = "usfm" THEN [st EXCEPT !.usfm = TRUE] ELSE st
           b == IF l.m \in {"v", "c"} THEN [a EXCEPT !.out = @ \o a.owed, !.owed = <<>>] ELSE a
           n == Len(b.out)
       IN CASE l.m \in {"v~", "p~", "c~"} -> [b EXCEPT !.out[n].x = IF @ = "" THEN l.t ELSE @ \o " " \o l.t]
            [] l.m = "v" /\ NoBridges -> [b EXCEPT !.out = Append(@, F("v", FirstOf(l.t), "")), !.owed = Owed(l.t)]
            [] l.m \in {"c", "v"} -> [b EXCEPT !.out = Append(@, F(l.m, l.t, ""))]
            [] l.m = "cl$" -> [b EXCEPT !.out = Append(@, F("cl", "", l.t))]
            [] OTHER -> [b EXCEPT !.out = Append(@, F(l.m, "", l.t))]
RECURSIVE WriteFrom(_, _, _)
WriteFrom(st, s, i) == IF i > Len(s) THEN st.out \o st.owed ELSE WriteFrom(WriteLine(st, s[i]), s, i + 1)
Write(s) == WriteFrom([out |-> <<>>, owed |-> <<>>, usfm |-> FALSE], s, 1)

Show(f) == "\\" \o f.m \o (IF f.n = "" THEN "" ELSE " " \o f.n \o (IF f.m = "v" THEN " " ELSE ""))
                \o (IF f.x = "" THEN "" ELSE IF f.m = "v" THEN f.x ELSE " " \o f.x)
\* ... but a verse added for a bridge has no space after its number
ShowFile(fs) == [i \in 1..Len(fs) |-> Show(fs[i])]

RECURSIVE RawFrom(_, _, _)
RawFrom(st, fs, i) == IF i > Len(fs) THEN st ELSE RawFrom(RawStep(st, fs[i]), fs, i + 1)
RECURSIVE NestFrom(_, _, _)
NestFrom(st, s, i) == IF i > Len(s) THEN st ELSE NestFrom(NestStep(st, s, i), s, i + 1)
Read(fs) == VerseStart(NestFinish(NestFrom(NestInit, RawFrom(RawInit, fs, 1).out, 1)).out, 1)

ExInit == Init /\ file = <<>> /\ again = <<>>
Export == /\ phase = "done"
          /\ file' = Write(ls) /\ again' = Read(file')
          /\ phase' = "written"
          /\ UNCHANGED <<raw, cN, vN, suf, rs, ns, ls, is, j, Idx>>
\* how far a line is indented in the listing of a processed book
Depth(s, i) == Len(OpenAfter(s, i))
Tell == /\ phase = "written" /\ Emit
        /\ PrintT("@@" \o ToJson([raw |-> raw, lines |-> ls, file |-> ShowFile(file), again |-> again, depth |-> [i \in 1..Len(ls) |-> Depth(ls, i - 1)]]))
        /\ phase' = "told"
        /\ UNCHANGED <<raw, cN, vN, suf, rs, ns, ls, is, j, Idx, file, again>>
ExNext == ((Add \/ End \/ Nest \/ Start \/ Index \/ Finish) /\ UNCHANGED <<file, again>>) \/ Export \/ Tell
ESpec == ExInit /\ [][ExNext]_evars

----------------------------------------------------------------------------
Done == phase = "written"
Look2(s) == LET f == SelectSeq(s, LAMBDA e : e.m # "usfm") IN [i \in 1..Len(f) |-> <<f[i].m, f[i].t>>]
\* the same markers, numbers and texts come back (chapter 1 made explicit then has its printing place)
SameBook == (Done /\ ~NoBridges) => \/ Look2(again) = Look2(ls)
                                    \/ Inserted /\ Look2(SelectSeq(again, LAMBDA e : e.m # "c#")) = Look2(SelectSeq(ls, LAMBDA e : e.m # "c#"))
\* what comes back is written as the same file
FixedPoint == Done => Write(again) = file
\* no text is lost, added or moved
FileText == LET f == SelectSeq(file, LAMBDA e : e.x # "" /\ e.m # "usfm") IN [i \in 1..Len(f) |-> f[i].x]
RawText2 == LET f == SelectSeq(raw, LAMBDA e : e.x # "" /\ e.m # "usfm") IN [i \in 1..Len(f) |-> f[i].x]
TextWritten == Done => FileText = RawText2
\* every verse of a bridge has its own line when bridges are taken apart, in order
RECURSIVE Expand(_)
Expand(s) == IF s = <<>> THEN <<>> ELSE << FirstOf(s[1]) >> \o [i \in 1..Len(Owed(s[1])) |-> Owed(s[1])[i].n] \o Expand(SubSeq(s, 2, Len(s)))
VersesWritten == Done => LET f == SelectSeq(file, LAMBDA e : e.m = "v") n == [i \in 1..Len(f) |-> f[i].n]
                         IN n = IF NoBridges THEN Expand(RawNumbers("v")) ELSE RawNumbers("v")
=============================================================================
