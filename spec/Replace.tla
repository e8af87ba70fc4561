-------------------------------- MODULE Replace -------------------------------
(* Find and replace over the files of the books of a Bible.  The user is shown   *)
(* each place where the text is found, in order, and answers  N(o), Y(es),       *)
(* A(ll the rest), S(top here) or U(ndo everything).  Only at the end are the     *)
(* changed files written (the previous file becomes the newest of its backups).  *)
(* One character here is one character there; z is any other letter, 1 no letter, *)
(* w a letter outside ASCII, q a character that Latin-1 does not have.           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Books,       \* the books, in order
          Pieces,      \* what the texts are made of
          PiecesMax,
          RunsMax,     \* find-and-replaces, one after the other
          Plain,       \* texts searched for
          Patterns,    \* regular expressions searched for
          Repls,       \* what they are replaced by
          Sim

VARIABLES phase, disk, bak, run, opt, before, b, text, ix, auto, saved, edits, res, log, hist,
          latin   \* are the files Latin-1?
vars == <<phase, disk, bak, run, opt, before, b, text, ix, auto, saved, edits, res, log, hist, latin>>

----------------------------------------------------------------------------
Chr(s, i) == SubSeq(s, i, i)
From(s, i) == SubSeq(s, i, Len(s))
Has(t, c) == \E i \in 1..Len(t) : Chr(t, i) = c
IsAlpha(c) == c \in {"x", "y", "z", "w", "i", "d", "c", "p", "v", "m"} \cup {Chr("GENRUTJODXL", k) : k \in 1..11}
Least(S) == CHOOSE i \in S : \A k \in S : i <= k
\* the lines before the text of a book (no letter that is searched for)
Head1(k) == "\\id " \o Books[k] \o "\n\\c 1\n\\p\n\\v 1 "

\* the place <<first, behind, groups>> found from i on; <<>> if there is none
At(t, f, i) == i + Len(f) - 1 <= Len(t) /\ SubSeq(t, i, i + Len(f) - 1) = f
Alone(t, i, k, m) == \* i..k-1
  LET p == i = 1 \/ ~IsAlpha(Chr(t, i - 1))
      n == k > Len(t) \/ ~IsAlpha(Chr(t, k))
  IN CASE m = "Any" -> TRUE [] m = "Whole" -> p /\ n [] m = "Begins" -> p [] m = "EndsWord" -> n
       [] m = "EndsLine" -> k > Len(t) \/ Chr(t, k) = "\n"
RECURSIVE RunOf(_, _, _)
RunOf(t, c, i) == IF i <= Len(t) /\ Chr(t, i) = c THEN RunOf(t, c, i + 1) ELSE i
FirstOf(S, t, k(_), g(_)) == IF S = {} THEN <<>> ELSE LET i == Least(S) IN <<i, k(i), g(i)>>
FindPlain(t, f, m, j) == LET S == {i \in j..Len(t) : At(t, f, i) /\ Alone(t, i, i + Len(f), m)}
                         IN FirstOf(S, t, LAMBDA i : i + Len(f), LAMBDA i : <<>>)
FindPattern(t, p, j) ==
  CASE p = "x+" -> FirstOf({i \in j..Len(t) : Chr(t, i) = "x"}, t, LAMBDA i : RunOf(t, "x", i), LAMBDA i : <<>>)
    [] p = "x(?=y)" -> FirstOf({i \in j..Len(t) : At(t, "xy", i)}, t, LAMBDA i : i + 1, LAMBDA i : <<>>)
    [] p = "(?<=y)x" -> FirstOf({i \in j..Len(t) : Chr(t, i) = "x" /\ i > 1 /\ Chr(t, i - 1) = "y"}, t, LAMBDA i : i + 1, LAMBDA i : <<>>)
    [] p = "(x)(y)" -> FirstOf({i \in j..Len(t) : At(t, "xy", i)}, t, LAMBDA i : i + 2, LAMBDA i : <<"x", "y">>)
    [] p = "x(y|z)" -> FirstOf({i \in j..Len(t) : At(t, "xy", i) \/ At(t, "xz", i)}, t, LAMBDA i : i + 2, LAMBDA i : << Chr(t, i + 1) >>)
    [] p = "x$" -> FirstOf({i \in j..Len(t) : Chr(t, i) = "x" /\ (i = Len(t) \/ (i = Len(t) - 1 /\ Chr(t, Len(t)) = "\n"))}, t, LAMBDA i : i + 1, LAMBDA i : <<>>)
    [] p = "(?m)x$" -> FirstOf({i \in j..Len(t) : Chr(t, i) = "x" /\ (i = Len(t) \/ Chr(t, i + 1) = "\n")}, t, LAMBDA i : i + 1, LAMBDA i : <<>>)
    [] p = "x*(?=y)" -> FirstOf({i \in j..Len(t) : LET k == RunOf(t, "x", i) IN k <= Len(t) /\ Chr(t, k) = "y"}, t, LAMBDA i : RunOf(t, "x", i), LAMBDA i : <<>>)
    [] p = "x*" -> FirstOf(j..(Len(t) + 1), t, LAMBDA i : RunOf(t, "x", i), LAMBDA i : <<>>)
Groups(p) == CASE p = "(x)(y)" -> 2 [] p = "x(y|z)" -> 1 [] OTHER -> 0
Find(t, o, j) == IF o.regex THEN FindPattern(t, o.find, j) ELSE FindPlain(t, o.find, o.mode, j)

\* what stands in the place of what was found
RECURSIVE Fill(_, _, _)
Fill(ps, w, g) == IF ps = <<>> THEN "" ELSE (CASE ps[1] = "g0" -> w [] ps[1] = "g1" -> g[1] [] ps[1] = "g2" -> g[2] [] OTHER -> ps[1]) \o Fill(Tail(ps), w, g)
Bad(o) == o.regex /\ \E i \in 1..Len(o.repl) : (o.repl[i] = "g1" /\ Groups(o.find) < 1) \/ (o.repl[i] = "g2" /\ Groups(o.find) < 2)

\* the text with the places <<first, behind, new>> replaced (by the definition of it, not by going through it)
RECURSIVE Splice(_, _, _)
Splice(t, es, i) == IF es = <<>> THEN From(t, i) ELSE SubSeq(t, i, es[1][1] - 1) \o es[1][3] \o Splice(t, Tail(es), es[1][2])

----------------------------------------------------------------------------
Some(S) == IF Sim THEN {RandomElement(S)} ELSE S
N == Len(Books)
RECURSIVE Rnd(_)
Rnd(n) == IF n = 0 THEN "" ELSE RandomElement(Pieces) \o Rnd(n - 1)
RECURSIVE All(_)
All(n) == IF n = 0 THEN {""} ELSE {s \o p : s \in All(n - 1), p \in Pieces}
Texts(k) == IF Sim THEN {Head1(k) \o Rnd(RandomElement(0..PiecesMax)) \o RandomElement({"", "\n"})} ELSE {Head1(k) \o s : s \in UNION {All(n) : n \in 0..PiecesMax}}
File(t, e) == [t |-> t, crlf |-> e]
Res0 == [finds |-> 0, replaces |-> 0, searched |-> <<>>, found |-> <<>>, replaced |-> <<>>, aborted |-> FALSE, badre |-> FALSE, fails |-> FALSE]

RECURSIVE Discs(_)
Discs(k) == IF k = 0 THEN {<<>>} ELSE {Append(d, File(t, e)) : d \in Discs(k - 1), t \in Texts(k), e \in IF Sim THEN {RandomElement(BOOLEAN)} ELSE {FALSE}}
Init == /\ phase = "idle" /\ disk \in Discs(N) /\ bak = [k \in 1..N |-> <<>>] /\ run = 0 /\ opt = <<>> /\ before = <<>> /\ b = 0 /\ text = "" /\ ix = 1
        /\ auto = FALSE /\ saved = {} /\ edits = [k \in 1..N |-> <<>>] /\ res = Res0 /\ log = <<>> /\ hist = <<>>
        /\ latin \in (IF (\E k \in 1..N : Has(disk[k].t, "q")) \/ ~Sim THEN {FALSE} ELSE {RandomElement(BOOLEAN)})

Options == IF Sim THEN
    {LET re == RandomElement(1..3) = 1 IN
     [regex |-> re, find |-> IF re THEN RandomElement(Patterns) ELSE RandomElement(Plain), repl |-> RandomElement({r \in Repls : re \/ \A i \in 1..Len(r) : r[i] \notin {"g0", "g1", "g2"}}),
      mode |-> RandomElement({"Any", "Any", "Any", "Whole", "Begins", "EndsWord", "EndsLine"}), ctx |-> RandomElement({0, 1, 5, 60}),
      books |-> RandomElement({{}, {}} \cup SUBSET (1..N)), bk |-> RandomElement(1..3) > 1, latin |-> latin]}
  ELSE {[regex |-> r.re, find |-> r.f, repl |-> r.r, mode |-> "Any", ctx |-> 2, books |-> {}, bk |-> TRUE, latin |-> FALSE]
        : r \in {[re |-> FALSE, f |-> f, r |-> x] : f \in Plain, x \in Repls} \cup {[re |-> TRUE, f |-> f, r |-> x] : f \in Patterns, x \in Repls}}
In(k) == opt.books = {} \/ k \in opt.books     \* {} stands for all the books

Start == /\ phase = "idle" /\ run < RunsMax
         /\ \E o \in Options : opt' = (IF o.mode # "Any" /\ (\E i \in 1..Len(o.find) : ~IsAlpha(Chr(o.find, i))) THEN [o EXCEPT !.mode = "Any"] ELSE o)
         /\ run' = run + 1 /\ before' = disk /\ phase' = "next" /\ b' = 0 /\ text' = "" /\ ix' = 1 /\ auto' = FALSE /\ saved' = {}
         /\ edits' = [k \in 1..N |-> <<>>] /\ res' = Res0 /\ log' = <<>>
         /\ UNCHANGED <<latin, disk, bak, hist>>
\* the next of the books asked for
Next1 == /\ phase = "next" /\ b < N
         /\ b' = b + 1
         /\ IF In(b + 1) THEN /\ phase' = "book" /\ text' = disk[b + 1].t /\ ix' = 1
                              /\ res' = [res EXCEPT !.searched = Append(@, b + 1)]
            ELSE UNCHANGED <<phase, text, ix, res>>
         /\ UNCHANGED <<latin, disk, bak, run, opt, before, auto, saved, edits, log, hist>>
Add(s, k) == IF \E i \in 1..Len(s) : s[i] = k THEN s ELSE Append(s, k)
Found(r) == [r EXCEPT !.finds = @ + 1, !.found = Add(@, b)]
Replaced(m, r, w) == /\ text' = SubSeq(text, 1, m[1] - 1) \o w \o From(text, m[2])
                     /\ ix' = m[1] + Len(w) + (IF m[1] = m[2] THEN 1 ELSE 0)
                     /\ res' = [Found(res) EXCEPT !.replaces = @ + 1, !.replaced = Add(@, b)]
                     /\ saved' = saved \cup {b}
Max(x, y) == IF x > y THEN x ELSE y
Min(x, y) == IF x < y THEN x ELSE y
Seek == /\ phase = "book"
        /\ LET m == Find(text, opt, ix) IN
           IF m = <<>> THEN phase' = "next" /\ UNCHANGED <<text, ix, auto, saved, edits, res, log>>
           ELSE IF Bad(opt) THEN phase' = "end" /\ res' = [res EXCEPT !.aborted = TRUE, !.badre = TRUE] /\ UNCHANGED <<text, ix, auto, saved, edits, log>>
           ELSE LET w == Fill(opt.repl, SubSeq(text, m[1], m[2] - 1), m[3])
                    pre == SubSeq(text, Max(1, m[1] - opt.ctx), m[1] - 1)
                    post == SubSeq(text, m[2], Min(Len(text), m[2] + opt.ctx - 1))
                    e == <<Len(before[b].t) - Len(From(text, m[1])) + 1, Len(before[b].t) - Len(From(text, m[2])) + 1, w>>   \* places in the text as it was
                IN IF auto THEN Replaced(m, opt.repl, w) /\ edits' = [edits EXCEPT ![b] = Append(@, e)] /\ UNCHANGED <<phase, auto, log>>
                   ELSE \E a \in IF Sim THEN {RandomElement({1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15})} ELSE {1, 6, 12, 14, 15} :
                     LET ans == IF a <= 5 THEN "N" ELSE IF a <= 11 THEN "Y" ELSE IF a <= 13 THEN "A" ELSE IF a = 14 THEN "S" ELSE "U" IN
                     /\ log' = Append(log, [b |-> b, pre |-> pre, f |-> SubSeq(text, m[1], m[2] - 1), post |-> post, new |-> w, undo |-> res.replaces > 0, a |-> ans])
                     /\ IF ans \in {"Y", "A"} THEN Replaced(m, opt.repl, w) /\ edits' = [edits EXCEPT ![b] = Append(@, e)] /\ auto' = (ans = "A") /\ UNCHANGED phase
                        ELSE IF ans = "N" THEN ix' = m[1] + 1 /\ res' = Found(res) /\ UNCHANGED <<phase, text, auto, saved, edits>>
                        ELSE /\ phase' = "end" /\ UNCHANGED <<text, ix, auto>>
                             /\ IF ans = "S" THEN res' = [Found(res) EXCEPT !.aborted = TRUE] /\ UNCHANGED <<saved, edits>>
                                ELSE res' = [Found(res) EXCEPT !.aborted = TRUE, !.replaces = 0, !.replaced = <<>>] /\ saved' = {} /\ edits' = [k \in 1..N |-> <<>>]
        /\ UNCHANGED <<latin, disk, bak, run, opt, before, b, hist>>
\* the files are written, all of them or none
New(k) == Splice(before[k].t, edits[k], 1)
Save == /\ phase \in {"end", "next"} /\ (phase = "next" => b = N)
        /\ LET fails == opt.latin /\ \E k \in saved : Has(New(k), "q")
           IN /\ disk' = IF fails THEN disk ELSE [k \in 1..N |-> IF k \in saved THEN File(New(k), TRUE) ELSE disk[k]]
              /\ bak' = IF fails \/ ~opt.bk THEN bak ELSE [k \in 1..N |-> IF k \in saved THEN SubSeq(<<disk[k]>> \o bak[k], 1, Min(5, Len(bak[k]) + 1)) ELSE bak[k]]
              /\ hist' = Append(hist, [from |-> before, o |-> opt, q |-> log, res |-> [res EXCEPT !.fails = fails], after |-> disk', bak |-> bak'])
        /\ phase' = "idle"
        /\ UNCHANGED <<latin, run, opt, before, b, text, ix, auto, saved, edits, res, log>>
Finish == phase = "idle" /\ run = RunsMax /\ phase' = "done" /\ UNCHANGED <<latin, disk, bak, run, opt, before, b, text, ix, auto, saved, edits, res, log, hist>>
          /\ PrintT("@@" \o ToJson(hist))
Next == Start \/ Next1 \/ Seek \/ Save \/ Finish
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
\* while a book is gone through: its text is the old one with the confirmed places replaced, nothing else
Working == phase = "book" => text = New(b)
\* the confirmed places lie in order, apart from each other, and in the text as it was
Apart == phase # "idle" => \A k \in 1..N : \A i \in 1..Len(edits[k]) :
           LET e == edits[k][i] IN /\ 1 <= e[1] /\ e[1] <= e[2] /\ e[2] <= Len(before[k].t) + 1
                                   /\ (i < Len(edits[k]) => e[2] <= edits[k][i + 1][1])
                                   /\ (~opt.regex => SubSeq(before[k].t, e[1], e[2] - 1) = opt.find /\ e[3] = opt.repl[1])
\* nothing on the disk changes before the end
Untouched == phase \in {"next", "book", "end"} => disk = before
LastAns(l) == IF l = <<>> THEN "" ELSE l[Len(l)].a
Yes(l) == Cardinality({i \in 1..Len(l) : l[i].a = "Y"})
\* as many replacements as were confirmed; none after an undo; all the rest after A
Confirmed == phase = "idle" /\ hist # <<>> =>
  LET h == hist[Len(hist)] IN
    /\ (LastAns(h.q) = "U" => h.after = before /\ h.res.replaces = 0)
    /\ (LastAns(h.q) \notin {"U", "A"} => h.res.replaces = Yes(h.q))
    /\ (LastAns(h.q) = "A" => h.res.replaces > Yes(h.q))
    /\ \A k \in 1..N : (h.after[k].t # before[k].t => ~h.res.fails /\ \E i \in 1..Len(h.res.replaced) : h.res.replaced[i] = k)
\* no occurrence of a plain text, anywhere in it, is passed over: after A from the start nothing is left except what the replacements make
NoneLeft == phase = "idle" /\ hist # <<>> /\ ~opt.regex /\ Len(log) = 1 /\ log[1].a = "A" =>
  \A k \in 1..N : In(k) => \A i \in 1..Len(before[k].t) : (At(before[k].t, opt.find, i) /\ Alone(before[k].t, i, i + Len(opt.find), opt.mode)
                      => \E n \in 1..Len(edits[k]) : edits[k][n][1] < i + Len(opt.find) /\ i < edits[k][n][2])
\* what was on the disk is the newest backup
Kept == phase = "idle" /\ hist # <<>> /\ opt.bk => \A k \in 1..N : disk[k] # before[k] => bak[k][1] = before[k]
===============================================================================
