-------------------------------- MODULE Saves --------------------------------
(* Saving a Bible for fast loading, and loading it back.  A place on disk may   *)
(* hold one Bible saved as a folder of files, zip files of Bibles (one for each *)
(* abbreviation), and a Bible saved as one object.  What is loaded from there,  *)
(* book by book in any order, or all at once by one process or several, must be *)
(* what was saved there last.                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Pool,      \* the books a Bible may have
          Shapes,    \* the forms a book may have (a number of bits)
          Places, Levels, Abbrs,
          Ops, MaxOps, MaxBooks, Emit, Sim
VARIABLES mem,       \* the Bible in memory: [abbr, books], books a sequence of [b, s]
          disk,      \* place -> [folder, object, zips]
          rd,        \* the Bible being read: [on, kind, src, loaded, tried, pre]
          hist
vars == <<mem, disk, rd, hist>>
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
\* ------- books.  Bits of a shape: 1 two chapters, 2 a note, 4 a bridge, 8 a heading and poetry, 16 all its names
Bit(s, k) == (s \div k) % 2 = 1
Plain(b) == b \in {"FRT", "GLS"}                   \* books without chapters
Single(b) == b = "JDE"
NCh(k) == IF Bit(k.s, 1) /\ ~Single(k.b) THEN 2 ELSE 1
NV(k, c) == 2 + c
Id(k) == k.b \o ToString(k.s)
Verse(k, c, v) == Id(k) \o " says " \o ToString(c) \o " and " \o ToString(v) \o "."
Note(k, c) == IF Bit(k.s, 2) THEN "\\f + \\fr " \o ToString(c) \o ":1 \\ft Noted in " \o Id(k) \o ".\\f*" ELSE ""
L(m, t) == [m |-> m, t |-> t]
RECURSIVE Join(_)
Join(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Join(Tail(ss))
VerseLines(k, c, v) ==
  IF Bit(k.s, 4) /\ v = 2 THEN <<L("v", "2-3 " \o Verse(k, c, 2))>>
  ELSE IF Bit(k.s, 4) /\ v = 3 THEN <<>>
  ELSE <<L("v", ToString(v) \o " " \o Verse(k, c, v) \o (IF v = 1 THEN Note(k, c) ELSE ""))>>
       \o (IF Bit(k.s, 8) /\ v = 2 THEN <<L("q1", "More of " \o Id(k)), L("p", "")>> ELSE <<>>)
ChapterLines(k, c) == <<L("c", ToString(c))>> \o (IF Bit(k.s, 8) THEN <<L("s1", "Heading " \o ToString(c))>> ELSE <<>>) \o <<L("p", "")>>
                      \o Join([v \in 1..NV(k, c) |-> VerseLines(k, c, v)])
Long(k) == "The Book of " \o Id(k)
Lines(k) == <<L("id", k.b \o " test"), L("h", "Name" \o Id(k))>>
            \o (IF Bit(k.s, 16) THEN <<L("toc1", Long(k)), L("toc2", "Short " \o Id(k)), L("toc3", "Ab" \o Id(k))>> ELSE <<>>)
            \o <<L("mt1", "Title " \o Id(k))>>
            \o (IF Plain(k.b) THEN <<L("ip", "Some words of " \o Id(k))>> ELSE Join([c \in 1..NCh(k) |-> ChapterLines(k, c)]))
\* ------- state
Codes(bb) == {bb.books[i].b : i \in 1..Len(bb.books)}
The(bb, b) == CHOOSE k \in {bb.books[i] : i \in 1..Len(bb.books)} : k.b = b
None == [abbr |-> "", books |-> <<>>]
NoReader == [on |-> FALSE, kind |-> "", place |-> "", src |-> None, level |-> 0, loaded |-> <<>>, tried |-> {}, pre |-> FALSE]
Nothing == [folder |-> None, flevel |-> 0, object |-> None, zips |-> [a \in Abbrs |-> None], zlevel |-> [a \in Abbrs |-> 0]]
Perms == {f \in UNION {[1..n -> Pool] : n \in 1..MaxBooks} : \A i, j \in DOMAIN f : i # j => f[i] # f[j]}
Init == /\ mem = None /\ disk = [p \in Places |-> Nothing] /\ rd = NoReader /\ hist = <<>>
Loaded == {rd.loaded[i] : i \in 1..Len(rd.loaded)}
See == [loaded |-> rd'.loaded, saved |-> rd'.src.books, pre |-> rd'.pre, kind |-> rd'.kind, abbr |-> rd'.src.abbr]
Log(op, args, exc, ans) == hist' = Append(hist, [op |-> op, args |-> args, exc |-> exc, ans |-> ans, seen |-> See])
Use(op) == op \in Ops /\ Len(hist) < MaxOps
\* ------- the Bible in memory
Makes == Cardinality({i \in 1..Len(hist) : hist[i].op = "make"})
Make == /\ (Use("remake") /\ Makes < 3 /\ (mem = None \/ disk # [p \in Places |-> Nothing])) \/ (Use("make") /\ mem = None)
        /\ \E a \in Pick(Abbrs), f \in Pick(Perms) : \E s \in Pick([DOMAIN f -> Shapes]) :
             mem' = [abbr |-> a, books |-> [i \in DOMAIN f |-> [b |-> f[i], s |-> s[i]]]]
        /\ UNCHANGED <<disk, rd>>
        /\ Log("make", <<mem'.abbr, [i \in 1..Len(mem'.books) |-> [b |-> mem'.books[i].b, k |-> Id(mem'.books[i]), lines |-> Lines(mem'.books[i])]]>>, "", "")
\* what is done with a Bible before it is saved changes nothing in it
Touch == /\ Use("touch") /\ mem # None /\ \E t \in Pick({"discover", "export", "sections", "find"}) :
              /\ t = "sections" => \A b \in Codes(mem) : ~Plain(b)
              /\ UNCHANGED <<mem, disk, rd>> /\ Log("touch", <<t>>, "", "")
\* what was loaded becomes the Bible that is saved next
Adopt == /\ Use("adopt") /\ rd.on /\ rd.pre /\ rd.loaded # <<>>
         /\ mem' = [abbr |-> rd.src.abbr, books |-> [i \in 1..Len(rd.loaded) |-> The(rd.src, rd.loaded[i])]]
         /\ rd' = NoReader /\ UNCHANGED disk /\ Log("adopt", <<>>, "", "")
\* ------- saving
Save == /\ Use("save") /\ mem # None
        /\ \E p \in Pick(Places), form \in Pick({"folder", "zip"}), l \in Pick(Levels) :
             /\ form = "zip" => disk[p].folder = None
             /\ disk' = [disk EXCEPT ![p].folder = IF form = "folder" THEN mem ELSE @, ![p].flevel = IF form = "folder" THEN l ELSE @,
                                     ![p].zips[mem.abbr] = mem, ![p].zlevel[mem.abbr] = l]
             \* a Bible being read from files that are now overwritten is given up
             /\ rd' = IF rd.place = p /\ (rd.kind = form \/ (rd.kind = "zip" /\ rd.src.abbr = mem.abbr)) THEN NoReader ELSE rd
             /\ UNCHANGED mem /\ Log("save", <<p, form, l>>, "", "")
SaveObject == /\ Use("saveObject") /\ mem # None /\ \E p \in Pick(Places) :
                   /\ disk' = [disk EXCEPT ![p].object = mem]
                   /\ UNCHANGED <<mem, rd>> /\ Log("saveObject", <<p>>, "", "")
\* ------- reading
Reader(kind, p, src, level) == [NoReader EXCEPT !.on = TRUE, !.place = p, !.kind = kind, !.src = src, !.level = level]
Order(src) == [i \in 1..Len(src.books) |-> src.books[i].b]
All(r) == [r EXCEPT !.loaded = @ \o SelectSeq(Order(r.src), LAMBDA b : b \notin {r.loaded[i] : i \in 1..Len(r.loaded)}), !.tried = @ \cup Codes(r.src), !.pre = TRUE]
OpenFolder == /\ Use("open") /\ \E p \in Pick(Places) : /\ disk[p].folder # None
                   /\ rd' = Reader("folder", p, disk[p].folder, disk[p].flevel)
                   /\ UNCHANGED <<mem, disk>> /\ Log("openFolder", <<p>>, "", [books |-> Order(rd'.src), level |-> rd'.level])
OpenZip == /\ Use("open") /\ \E p \in Pick(Places), a \in Pick(Abbrs) : /\ disk[p].zips[a] # None
                   /\ rd' = Reader("zip", p, disk[p].zips[a], disk[p].zlevel[a])
                   /\ UNCHANGED <<mem, disk>> /\ Log("openZip", <<p, a>>, "", [books |-> Order(rd'.src), level |-> rd'.level])
OpenObject == /\ Use("openObject") /\ \E p \in Pick(Places) : /\ disk[p].object # None
                   /\ rd' = All(Reader("object", p, disk[p].object, 0))
                   /\ UNCHANGED <<mem, disk>> /\ Log("openObject", <<p>>, "", "")
\* a folder is looked through for saved Bibles; the zip file beside a Bible saved as a folder is that Bible again
Zips(p) == {a \in Abbrs : disk[p].zips[a] # None}
Found(p) == IF disk[p].folder # None THEN {[k |-> "folder", p |-> p, a |-> disk[p].folder.abbr]}
            ELSE {[k |-> "zip", p |-> p, a |-> a] : a \in Zips(p)}
Look == /\ Use("check") /\ \E where \in Pick({{p} : p \in Places} \cup {Places}), how \in Pick({"count", "load", "books"}) :
          LET all == UNION {Found(p) : p \in where} n == Cardinality(all) IN
          LET one == CHOOSE x \in all : TRUE IN
          LET r == IF one.k = "folder" THEN Reader("folder", one.p, disk[one.p].folder, disk[one.p].flevel) ELSE Reader("zip", one.p, disk[one.p].zips[one.a], disk[one.p].zlevel[one.a]) IN
          /\ rd' = IF how = "count" \/ n # 1 THEN rd ELSE IF how = "load" THEN [r EXCEPT !.pre = TRUE] ELSE All(r)
          /\ UNCHANGED <<mem, disk>>
          /\ Log("check", <<IF Cardinality(where) = 1 THEN CHOOSE p \in where : TRUE ELSE "", how>>, "", IF n = 0 THEN "None" ELSE IF how = "count" \/ n # 1 THEN ToString(n) ELSE "Bible")
\* the list of what zip files there are
Details == /\ Use("details") /\ \E p \in Pick(Places) :
             /\ UNCHANGED <<mem, disk, rd>>
             /\ Log("details", <<p>>, "", [a \in Zips(p) |-> [books |-> Order(disk[p].zips[a]), level |-> disk[p].zlevel[a]]])
Saved == rd.on /\ rd.kind # "object"
Preload == /\ Use("preload") /\ Saved /\ ~rd.pre /\ rd' = [rd EXCEPT !.pre = TRUE]
           /\ UNCHANGED <<mem, disk>> /\ Log("preload", <<>>, "", "")
\* the state after book b is needed
With(b) == IF b \in rd.tried THEN rd
           ELSE [rd EXCEPT !.tried = @ \cup {b}, !.loaded = IF b \in Codes(rd.src) THEN Append(@, b) ELSE @]
LoadBook == /\ Use("loadBook") /\ Saved /\ rd.pre /\ \E b \in Pick(Pool) :
              /\ rd' = With(b) /\ UNCHANGED <<mem, disk>>
              /\ Log("loadBook", <<b>>, IF b \notin rd.tried /\ b \notin Codes(rd.src) THEN "FileNotFoundError" ELSE "", "")
LoadAll == /\ Use("loadAll") /\ Saved /\ \E n \in Pick({1, 3}) :
              /\ rd' = All(rd) /\ UNCHANGED <<mem, disk>> /\ Log("loadAll", <<n>>, "", "")
\* questions load the books they are about
Has(b) == b \in {rd'.loaded[i] : i \in 1..Len(rd'.loaded)}
Ask == /\ Use("ask") /\ rd.on /\ rd.pre /\ \E b \in Pick(Pool), c \in Pick(1..2), v \in Pick(1..4) :
              /\ ~Plain(b)
              /\ rd' = With(b) /\ UNCHANGED <<mem, disk>>
              /\ LET k == The(rd.src, b) IN
                 /\ Has(b) => c <= NCh(k) /\ v <= NV(k, c) /\ (Bit(k.s, 4) => v # 3) /\ (Bit(k.s, 8) => v > 2)
                 /\ Log("ask", <<b, c, v>>, "", IF Has(b) THEN <<ToString(NCh(k)), ToString(NV(k, c)), Verse(k, c, v)>> ELSE <<"None", "None", "None">>)
\* names come with the book
Names == /\ Use("names") /\ rd.on /\ rd.pre /\ \E b \in Pick(Pool) :
              /\ UNCHANGED <<mem, disk, rd>>
              /\ Log("names", <<b>>, "", IF b \in Loaded /\ Bit(The(rd.src, b).s, 16) THEN Long(The(rd.src, b)) ELSE IF b \in Loaded THEN "-" ELSE "None")
Discover == /\ Use("discover") /\ rd.on /\ rd.pre /\ rd.loaded # <<>>
              /\ UNCHANGED <<mem, disk, rd>> /\ Log("discover", <<>>, "", "")
Next == Make \/ Touch \/ Adopt \/ Save \/ SaveObject \/ OpenFolder \/ OpenZip \/ OpenObject \/ Look \/ Details \/ Preload \/ LoadBook \/ LoadAll \/ Ask \/ Names \/ Discover
Spec == Init /\ [][Next]_vars
\* ------- the property
\* only books of the saved Bible are ever loaded, each once, and all of them when all are asked for
OnlySaved == /\ Loaded \subseteq Codes(rd.src)
             /\ \A i, j \in 1..Len(rd.loaded) : i # j => rd.loaded[i] # rd.loaded[j]
             /\ (hist # <<>> /\ hist[Len(hist)].op = "loadAll") => Loaded = Codes(rd.src)
\* loading all the books of a Bible just opened gives them in the order in which they were saved
SavedOrder == [][hist'[Len(hist')].op = "loadAll" /\ rd.loaded = <<>> => rd'.loaded = Order(rd.src)]_vars
\* what was saved is later found as it was saved, until something else is saved there; reading changes nothing
Kept == [][hist'[Len(hist')].op \notin {"save", "saveObject"} => disk' = disk]_vars
Emitting == Len(hist) = MaxOps => (Emit => PrintT("@@" \o ToJson([ops |-> hist])))
==============================================================================
