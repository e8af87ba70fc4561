------------------------------- MODULE SFMFile -------------------------------
(* Standard-format files.  A file is written line by line - marker lines,      *)
(* continuation lines, blank lines, comments - and what each reader makes of   *)
(* it is given as it grows: the pairs of the USFM reader, of the ESFM reader   *)
(* and of the plain SFM reader, and the records of the record reader.          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Marks,   \* markers
          Texts,   \* texts after a marker and a space (anything at all)
          Afters,  \* what may stand right after a marker: it starts with a backslash but not with \*
          Conts,   \* lines that start neither with a backslash nor with #, and are not empty
          Notes,   \* comment lines, and blank ones
          Opts,    \* [ign: ignored markers, key: record marker or "", ent: ignored entries, chg: sequence of <<from, to>>]
          MinLines, MaxLines, Emit, Sim
VARIABLES opt, file, usfm, esfm, sfm, drop, edrop, sdrop, recs, rec, key, failed, done
vars == <<opt, file, usfm, esfm, sfm, drop, edrop, sdrop, recs, rec, key, failed, done>>
Init == /\ opt \in Opts /\ file = <<>> /\ usfm = <<>> /\ esfm = <<>> /\ sfm = <<>> /\ drop = TRUE /\ edrop = TRUE /\ sdrop = TRUE
        /\ recs = <<>> /\ rec = <<>> /\ key = opt.key /\ failed = FALSE /\ done = FALSE
Pair(m, t) == [m |-> m, t |-> t]
Lengthen(l, t) == [l EXCEPT ![Len(l)].t = @ \o " " \o t]
Keep(l, m, t) == IF m \in opt.ign THEN l ELSE Append(l, Pair(m, t))
Changed(m) == IF \E i \in 1..Len(opt.chg) : opt.chg[i][1] = m
              THEN opt.chg[CHOOSE i \in 1..Len(opt.chg) : opt.chg[i][1] = m /\ \A j \in 1..i-1 : opt.chg[j][1] # m][2] ELSE m
Stripped(r) == SelectSeq(r, LAMBDA p : p.m \notin opt.ign)
Saved(rs, r) == IF r = <<>> THEN rs ELSE IF r[1].t \in opt.ent \/ Stripped(r) = <<>> THEN rs ELSE Append(rs, Stripped(r))
\* a marker line, which is the pair u to the USFM reader and s to the others
Mark(line, u, s) ==
  LET m == Changed(s.m)
      k == IF key = "" /\ m \notin opt.ign THEN m ELSE key IN
  /\ file' = Append(file, line)
  /\ usfm' = Keep(usfm, u.m, u.t) /\ esfm' = Keep(esfm, u.m, u.t) /\ sfm' = Keep(sfm, s.m, s.t)
  /\ drop' = (u.m \in opt.ign) /\ edrop' = (u.m \in opt.ign) /\ sdrop' = (s.m \in opt.ign)
  /\ key' = k
  /\ IF m = k THEN recs' = Saved(recs, rec) /\ rec' = <<Pair(m, s.t)>> ELSE recs' = recs /\ rec' = Append(rec, Pair(m, s.t))
  /\ UNCHANGED failed
RECURSIVE Led(_)
Led(t) == IF t # "" /\ SubSeq(t, 1, 1) = " " THEN Led(SubSeq(t, 2, Len(t))) ELSE t
Joined(t) ==   \* joined to the marker line before it (if that is not ignored); before the first marker line it belongs to nothing
  /\ file' = Append(file, t)
  /\ usfm' = (IF drop THEN usfm ELSE Lengthen(usfm, t))
  /\ sfm' = (IF sdrop THEN sfm ELSE Lengthen(sfm, t))
  /\ IF rec = <<>> THEN failed' = TRUE /\ rec' = rec ELSE rec' = Lengthen(rec, t) /\ UNCHANGED failed
  /\ UNCHANGED <<drop, sdrop, recs, key>>
Continue(t) == /\ Joined(t) /\ UNCHANGED edrop
               /\ esfm' = (IF edrop \/ Led(t) = "" THEN esfm ELSE Lengthen(esfm, Led(t)))   \* the ESFM reader drops leading spaces
\* an indented marker line is a line like others to the ESFM reader only
Indented(m, t) == /\ Joined("  \\" \o m \o " " \o t)
                  /\ esfm' = Keep(esfm, m, t) /\ edrop' = (m \in opt.ign)
Skip(t) == file' = Append(file, t) /\ UNCHANGED <<usfm, esfm, sfm, drop, edrop, sdrop, recs, rec, key, failed>>
\* the marker up to a space or backslash, and the rest: what the plain reader sees of m followed by t
RECURSIVE Find(_, _, _)
Find(t, cs, i) == IF i > Len(t) THEN 0 ELSE IF SubSeq(t, i, i) \in cs THEN i ELSE Find(t, cs, i + 1)
Plain(t) == LET i == Find(t, {" ", "\\"}, 1) IN
            IF i = 0 THEN Pair(t, "") ELSE Pair(SubSeq(t, 1, i - 1), SubSeq(t, IF SubSeq(t, i, i) = " " THEN i + 1 ELSE i, Len(t)))
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
Write ==
  \/ \E m \in Pick(Marks) : Mark("\\" \o m, Pair(m, ""), Pair(m, ""))
  \/ \E m \in Pick(Marks), t \in Pick(Texts) : Mark("\\" \o m \o " " \o t, Pair(m, t), Pair(m, t))
  \/ \E m \in Pick(Marks), t \in Pick(Texts) : Sim /\ Mark("\\" \o m \o " " \o t, Pair(m, t), Pair(m, t))   \* more often
  \/ Afters # {} /\ \E m \in Pick(Marks), t \in Pick(Afters) : Mark("\\" \o m \o t, Pair(m, t), Pair(m, t))
  \/ \E m \in Pick(Marks), t \in Pick(Texts) : Mark("\\" \o m \o "\\*" \o t, Pair(m \o "\\*", t), Pair(m, "\\*" \o t))   \* self-closed
  \/ \E m \in Pick(Marks), t \in Pick(Texts) : Mark("\\" \o m \o "*" \o t, Pair(m \o "*", t), Plain(m \o "*" \o t))        \* a stray closing marker
  \/ \E m \in Pick(Marks), t \in Pick(Texts) : Indented(m, t)
  \/ \E t \in Pick(Conts) : Continue(t)
  \/ \E t \in Pick(Notes) : Skip(t)
Next == \/ ~done /\ Len(file) < MaxLines /\ Write /\ UNCHANGED <<opt, done>>
        \/ ~done /\ Len(file) >= MinLines /\ done' = TRUE /\ UNCHANGED <<opt, file, usfm, esfm, sfm, drop, edrop, sdrop, recs, rec, key, failed>>
Spec == Init /\ [][Next]_vars
Records == Saved(recs, rec)
----------------------------------------------------------------------------
\* a reader of single lines, to check the pieces against: the marker ends before a space (which is dropped),
\* with a star, or before a backslash (with it if that starts \*)
Split(l) == LET r == SubSeq(l, 2, Len(l)) IN LET i == Find(r, {" ", "*", "\\"}, 1) IN
  IF i = 0 THEN Pair(r, "")
  ELSE LET c == SubSeq(r, i, i) IN
       CASE c = " " -> Pair(SubSeq(r, 1, i - 1), SubSeq(r, i + 1, Len(r)))
         [] c = "*" -> Pair(SubSeq(r, 1, i), SubSeq(r, i + 1, Len(r)))
         [] OTHER -> IF i < Len(r) /\ SubSeq(r, i, i + 1) = "\\*" THEN Pair(SubSeq(r, 1, i + 1), SubSeq(r, i + 2, Len(r))) ELSE Pair(SubSeq(r, 1, i - 1), SubSeq(r, i, Len(r)))
IsMark(l) == l # "" /\ SubSeq(l, 1, 1) = "\\"
\* the whole file read again line by line gives the same pairs
RECURSIVE ReadAll(_, _, _)
ReadAll(k, out, d) == IF k > Len(file) THEN out
  ELSE LET l == file[k] IN
       IF l = "" \/ SubSeq(l, 1, 1) = "#" THEN ReadAll(k + 1, out, d)
       ELSE IF IsMark(l) THEN ReadAll(k + 1, Keep(out, Split(l).m, Split(l).t), Split(l).m \in opt.ign)
       ELSE ReadAll(k + 1, IF d THEN out ELSE Lengthen(out, l), d)
ReadsBack == usfm = ReadAll(1, <<>>, TRUE)
\* one pair for each marker line that is not ignored, in order
Counted == opt.ign = {} => (Len(usfm) = Cardinality({i \in 1..Len(file) : IsMark(file[i])}) /\ Len(sfm) = Len(usfm) /\ Len(esfm) >= Len(usfm))
RECURSIVE Flat(_)
Flat(rs) == IF rs = <<>> THEN <<>> ELSE rs[1] \o Flat(SubSeq(rs, 2, Len(rs)))
\* the records together are the lines of the file (nothing lost, moved or doubled), and only the first may start otherwise than with the key
NoLoss == (opt.ent = {} /\ opt.chg = <<>> /\ ~failed) => Flat(Records) = sfm
Divided == \A i \in 1..Len(Records) : \A j \in 1..Len(Records[i]) : (Records[i][j].m = key) => (j = 1)
Emitting == (Emit /\ done) => PrintT("@@" \o ToJson([file |-> file, ign |-> opt.ign, key |-> opt.key, ent |-> opt.ent, chg |-> opt.chg, usfm |-> usfm, esfm |-> esfm, sfm |-> sfm, recs |-> Records, k |-> key, failed |-> failed]))
=============================================================================
