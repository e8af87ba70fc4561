------------------------------ MODULE Lifecycle ------------------------------
(* The life of a Bible object over a folder of files: books are loaded when    *)
(* first needed, all at once, again when asked to or when the library itself   *)
(* rewrote their file, and are asked about in between.  The file of a book     *)
(* has versions; what the Bible answers must be what the version of the book   *)
(* in memory says, whatever happened before.                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Books,     \* the books with a file, in canonical order
          Never,     \* a book of which the folder never had a file
          Starts,    \* what a file may be at the start: 1, Blank, Gone
          Ops,       \* the operations used
          MaxOps, MaxVer, Emit, Sim
VARIABLES disk,      \* book -> version of its file; Blank, Gone (deleted after the folder was listed)
          mem,       \* book -> version in memory (0: not loaded)
          tried, needs, \* book -> loading was tried; the library changed the file since
          reads,     \* book -> number of times its file was opened
          asked,     \* book -> number of times its loading was explicitly asked for again or became necessary
          disc,      \* the survey of the books: <<>> not made, else sequence of [b, v]
          start, hist
vars == <<disk, mem, tried, needs, reads, asked, disc, start, hist>>
Blank == 0 - 1
Gone == 0 - 2
B == {Books[i] : i \in 1..Len(Books)}
All == B \cup {Never}
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
\* ------- content
NCh(v) == 1 + (v % 3)
NV(v, c) == 2 + ((v + c) % 3)
Text(b, v, c, x) == b \o " v" \o ToString(v % 3) \o " chapter" \o ToString(c) \o " verse" \o ToString(x) \o " " \o (IF v > 1 THEN "after" ELSE "before") \o "."
File(b, v) == [c \in 1..NCh(v) |-> [x \in 1..NV(v, c) |-> Text(b, v, c, x)]]
\* ------- loading
Loadable(b) == disk[b] > 0
Want(b) == needs[b] \/ (mem[b] = 0 /\ ~tried[b])
\* the state after the books in S (a set) are read
AfterLoad(S) == /\ mem' = [b \in All |-> IF b \in S /\ Loadable(b) THEN disk[b] ELSE mem[b]]
                /\ tried' = [b \in All |-> tried[b] \/ b \in S]
                /\ needs' = [b \in All |-> needs[b] /\ b \notin S]
                /\ reads' = [b \in All |-> reads[b] + (IF b \in S /\ b # Never THEN 1 ELSE 0)]
Excuse(b) == asked' = [asked EXCEPT ![b] = @ + 1]
Init == /\ start \in [B -> Starts]
        /\ \E b \in B : start[b] = 1
        /\ disk = [b \in All |-> IF b = Never THEN Gone ELSE start[b]]
        /\ mem = [b \in All |-> 0] /\ tried = [b \in All |-> FALSE] /\ needs = tried /\ reads = mem /\ asked = mem
        /\ disc = <<>> /\ hist = <<>>
Loaded == SelectSeq(Books, LAMBDA b : mem'[b] > 0)
See == [mem |-> [b \in B |-> mem'[b]], reads |-> [b \in B |-> reads'[b]], disc |-> disc',
        current |-> disc' # <<>> /\ {disc'[i].b : i \in 1..Len(disc')} = {b \in B : mem'[b] > 0} /\ \A i \in 1..Len(disc') : disc'[i].v = mem'[disc'[i].b]]
Log(op, args, exc, ans) == hist' = Append(hist, [op |-> op, args |-> args, exc |-> exc, ans |-> ans, seen |-> See])
Use(op) == op \in Ops /\ Len(hist) < MaxOps
\* load all the books that are not yet in memory; one whose file is gone stops it
LoadAll == /\ Use("load") /\ \A b \in B : disk[b] # Gone
           /\ AfterLoad({b \in B : Want(b)}) /\ UNCHANGED <<disk, disc, start, asked>>
           /\ Log("load", <<>>, "", "")
LoadBook == /\ Use("loadBook") /\ \E b \in Pick(All) :
                   /\ AfterLoad(IF Want(b) THEN {b} ELSE {}) /\ UNCHANGED <<disk, disc, start, asked>>
                   /\ Log("loadBook", <<b>>, IF Want(b) /\ disk[b] = Gone THEN "FileNotFoundError" ELSE "", "")
IfNecessary == /\ Use("loadBookIfNecessary") /\ \E b \in Pick(All) :
                   /\ AfterLoad(IF Want(b) THEN {b} ELSE {}) /\ UNCHANGED <<disk, disc, start, asked>>
                   /\ Log("loadBookIfNecessary", <<b>>, "", "")
\* the survey of a book is made again when the book is processed again
Survey(b, m) == IF disc = <<>> \/ m = 0 THEN disc
                ELSE IF \E i \in 1..Len(disc) : disc[i].b = b THEN [i \in 1..Len(disc) |-> IF disc[i].b = b THEN [b |-> b, v |-> m] ELSE disc[i]]
                ELSE Append(disc, [b |-> b, v |-> m])
Reload == /\ Use("reloadBook") /\ \E b \in Pick(All) :
                   /\ AfterLoad({b}) /\ Excuse(b) /\ UNCHANGED <<disk, start>>
                   /\ disc' = Survey(b, mem'[b])
                   /\ Log("reloadBook", <<b>>, "", "")
ReProcess == /\ Use("reProcessBook") /\ \E b \in Pick(All) :
                   /\ disc' = Survey(b, mem[b]) /\ UNCHANGED <<disk, mem, tried, needs, reads, asked, start>>
                   /\ Log("reProcessBook", <<b>>, "", "")
Discover == /\ Use("discover") /\ \E b \in B : mem[b] > 0
            /\ disc' = [i \in 1..Cardinality({b \in B : mem[b] > 0}) |-> LET L == SelectSeq(Books, LAMBDA b : mem[b] > 0) IN [b |-> L[i], v |-> mem[L[i]]]]
            /\ UNCHANGED <<disk, mem, tried, needs, reads, asked, start>>
            /\ Log("discover", <<>>, "", "")
\* another program writes a new version of a book's file
Edit == /\ Use("edit") /\ \E b \in Pick(B) : disk[b] > 0 /\ disk[b] < MaxVer
                   /\ disk' = [disk EXCEPT ![b] = @ + 1]
                   /\ UNCHANGED <<mem, tried, needs, reads, asked, disc, start>>
                   /\ Log("edit", <<b, disk'[b]>>, "", "")
\* the library writes a new version of the files of some books: only their verse texts change ("before" becomes "after"),
\* so the version 1 book becomes version 4 (the same chapters and verses)
Replace == /\ Use("replace") /\ \A b \in B : disk[b] # Gone
           /\ \E S \in Pick((SUBSET B) \ {{}}) : LET R == {b \in S : disk[b] = 1} IN
                   /\ disk' = [b \in All |-> IF b \in R THEN 4 ELSE disk[b]]
                   /\ needs' = [b \in All |-> needs[b] \/ b \in R]
                   /\ asked' = [b \in All |-> asked[b] + (IF b \in R THEN 1 ELSE 0)]
                   /\ UNCHANGED <<mem, tried, reads, disc, start>>
                   /\ Log("replace", SelectSeq(Books, LAMBDA b : b \in S), "", SelectSeq(Books, LAMBDA b : b \in R))
\* questions load the books they are about
None == "None"
NumChapters == /\ Use("getNumChapters") /\ \E b \in Pick(All) :
                   /\ AfterLoad(IF Want(b) THEN {b} ELSE {}) /\ UNCHANGED <<disk, disc, start, asked>>
                   /\ Log("getNumChapters", <<b>>, "", IF mem'[b] = 0 THEN None ELSE ToString(NCh(mem'[b])))
NumVerses == /\ Use("getNumVerses") /\ \E b \in Pick(All), c \in Pick(1..3) :
                   /\ AfterLoad(IF Want(b) THEN {b} ELSE {}) /\ UNCHANGED <<disk, disc, start, asked>>
                   /\ mem'[b] > 0 => c <= NCh(mem'[b])
                   /\ Log("getNumVerses", <<b, c>>, "", IF mem'[b] = 0 THEN None ELSE ToString(NV(mem'[b], c)))
VerseText == /\ Use("getVerseText") /\ \E b \in Pick(All), c \in Pick(1..3), x \in Pick(1..4) :
                   /\ AfterLoad(IF Want(b) THEN {b} ELSE {}) /\ UNCHANGED <<disk, disc, start, asked>>
                   /\ mem'[b] > 0 => c <= NCh(mem'[b]) /\ x <= NV(mem'[b], c)
                   /\ Log("getVerseText", <<b, c, x>>, "", IF mem'[b] = 0 THEN None ELSE Text(b, mem'[b], c, x))
\* the texts of all verses from one verse to another in a later book: all books in between are needed
RECURSIVE Verses(_, _, _, _, _)
\* from chapter c, verse x of version v of book b to chapter d, verse y
Verses(b, v, cx, d, y) == LET c == cx[1] x == cx[2] IN
  IF c > d \/ (c = d /\ x > y) THEN <<>>
  ELSE IF x > NV(v, c) THEN (IF c + 1 > NCh(v) THEN <<>> ELSE Verses(b, v, <<c + 1, 1>>, d, y))
  ELSE <<Text(b, v, c, x)>> \o Verses(b, v, <<c, x + 1>>, d, y)
RECURSIVE Join(_)
Join(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Join(Tail(ss))
Span == /\ Use("range") /\ \E i \in Pick(1..Len(Books)), j \in Pick(1..Len(Books)) : i < j
                   /\ LET ends == {k \in {i, j} : Want(Books[k])}
                     there == \A k \in {i, j} : IF Want(Books[k]) THEN Loadable(Books[k]) ELSE mem[Books[k]] > 0
                     S == {Books[k] : k \in ends} \cup (IF there THEN {Books[k] : k \in {k \in i..j : Want(Books[k])}} ELSE {}) IN
                 /\ AfterLoad(S) /\ UNCHANGED <<disk, disc, start, asked>>
                 /\ Log("range", <<Books[i], 1, 2, Books[j], 1, 1>>, "",
                        IF ~there THEN <<None>>
                        ELSE Join([k \in 1..(j - i + 1) |-> LET b == Books[i + k - 1] m == mem'[b] IN
                               IF m = 0 THEN <<>>
                               ELSE IF k = 1 THEN Verses(b, m, <<1, 2>>, 99, 99) ELSE IF k = j - i + 1 THEN <<Text(b, m, 1, 1)>> ELSE Verses(b, m, <<1, 1>>, 99, 99)]))
\* ask for what the Bible has without loading anything; the answer is in seen
Look == /\ Use("look") /\ UNCHANGED <<disk, mem, tried, needs, reads, asked, disc, start>> /\ Log("look", <<>>, "", "")
\* searching looks at the books in memory only
Find == /\ Use("find") /\ UNCHANGED <<disk, mem, tried, needs, reads, asked, disc, start>>
        /\ Log("find", <<>>, "", [b \in B |-> IF mem[b] = 1 THEN NV(1, 1) + NV(1, 2) ELSE 0])
Next == LoadAll \/ LoadBook \/ IfNecessary \/ Reload \/ ReProcess \/ Discover \/ Edit \/ Replace \/ NumChapters \/ NumVerses \/ VerseText \/ Span \/ Look \/ Find
Spec == Init /\ [][Next]_vars
\* ------- the property
\* a file is opened at most once, and once more for each explicit reload or change by the library
ReadOnce == \A b \in All : reads[b] <= 1 + asked[b]
\* what is in memory was read from the file, never of a later version than the file's, and a book that cannot be loaded stays absent
InMemory == \A b \in All : /\ mem[b] > 0 => tried[b] /\ (IF needs[b] THEN mem[b] <= disk[b] ELSE TRUE)
                           /\ disk[b] < 0 => mem[b] = 0
\* a book never goes away
Stays == [][\A b \in All : mem[b] > 0 => mem'[b] > 0]_vars
\* a question answers from memory, and reads the file only when that is necessary
Necessary == [][\A b \in All : reads'[b] > reads[b] => Want(b) \/ hist'[Len(hist')].op = "reloadBook"]_vars
Emitting == Len(hist) = MaxOps => (Emit => PrintT("@@" \o ToJson([start |-> start, ops |-> hist])))
==============================================================================
