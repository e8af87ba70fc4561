-------------------------------- MODULE Search --------------------------------
(* Searching the loaded books.  Books processed as in Book; each line's text is  *)
(* given contents (words, perhaps with a note among them), and a search is a     *)
(* text and options.  The answer: every occurrence, in order, each once.        *)
(* One character here stands for one character there:                            *)
(*   @ e acute, % E acute, & ae ligature, $ AE ligature                          *)
EXTENDS Lookup

CONSTANTS Searches,    \* searches per bible
          BooksMax,    \* books in the bible
          Words,       \* words of contents
          Finds,       \* texts searched for (Exhaust)
          Exhaust      \* TRUE: instead of random contents, the fixed text of a single line and every search of it

VARIABLES bible,       \* sequence of books: contents of the lines of each
          ans          \* the answers

svars == <<phase, raw, cN, vN, suf, rs, ns, ls, is, j, Idx, log, bible, ans>>

----------------------------------------------------------------------------
Up == "ABCDEFGHIJKLMNOPQRSTUVWXYZ%$"
Lo == "abcdefghijklmnopqrstuvwxyz@&"
Ups == {Chr(Up, i) : i \in 1..Len(Up)}
LowerOf == [c \in Ups |-> Chr(Lo, PosOf(Up, c, 1))]
Alphas == Ups \cup {Chr(Lo, i) : i \in 1..Len(Lo)}
IsAlpha(ch) == ch \in Alphas
LowCh(ch) == IF ch \in Ups THEN LowerOf[ch] ELSE ch
BareCh(ch) == CASE ch = "@" -> "e" [] ch = "%" -> "E" [] ch = "&" -> "ae" [] ch = "$" -> "AE" [] OTHER -> ch
RECURSIVE LowerS(_)
LowerS(s) == IF s = "" THEN "" ELSE LowCh(Chr(s, 1)) \o LowerS(SubSeq(s, 2, Len(s)))
RECURSIVE BareS(_)
BareS(s) == IF s = "" THEN "" ELSE BareCh(Chr(s, 1)) \o BareS(SubSeq(s, 2, Len(s)))
Norm(s, q) == LET b == IF q.bare THEN BareS(s) ELSE s IN IF q.nocase THEN LowerS(b) ELSE b
\* where (in s) the characters of the normalised text come from
RECURSIVE Froms(_, _, _)
Froms(s, i, q) == IF i > Len(s) THEN <<>>
                  ELSE (IF q.bare /\ Len(BareCh(Chr(s, i))) = 2 THEN <<i, i>> ELSE <<i>>) \o Froms(s, i + 1, q)

RECURSIVE PosOfS(_, _, _)
PosOfS(s, f, i) == IF i + Len(f) - 1 > Len(s) THEN 0 ELSE IF SubSeq(s, i, i + Len(f) - 1) = f THEN i ELSE PosOfS(s, f, i + 1)
Alone(T, i, k, q) == \* is the occurrence i..k of the kind asked for?
  LET before == i = 1 \/ ~IsAlpha(Chr(T, i - 1))
      after == k = Len(T) \/ ~IsAlpha(Chr(T, k + 1))
  IN CASE q.mode = "Any" -> TRUE [] q.mode = "Whole" -> before /\ after [] q.mode = "Begins" -> before
       [] q.mode = "EndsWord" -> after [] q.mode = "EndsLine" -> k = Len(T)
\* the occurrences <<first, last>> in the normalised text
RECURSIVE Occurs(_, _, _, _)
Occurs(T, F, i, q) == IF i + Len(F) - 1 > Len(T) THEN <<>>
  ELSE (IF SubSeq(T, i, i + Len(F) - 1) = F /\ Alone(T, i, i + Len(F) - 1, q) THEN << <<i, i + Len(F) - 1>> >> ELSE <<>>) \o Occurs(T, F, i + 1, q)

\* patterns: letters, . and [..], the last one perhaps repeated (+)
RECURSIVE Atoms(_)
Atoms(p) == IF p = "" \/ p = "+" THEN <<>>
            ELSE IF Chr(p, 1) = "[" THEN LET k == PosOf(p, "]", 1) IN << SubSeq(p, 2, k - 1) >> \o Atoms(SubSeq(p, k + 1, Len(p)))
            ELSE << Chr(p, 1) >> \o Atoms(SubSeq(p, 2, Len(p)))
Hits(ch, a) == a = "." \/ PosOf(a, ch, 1) > 0
RECURSIVE More(_, _, _)
More(T, k, a) == IF k < Len(T) /\ Hits(Chr(T, k + 1), a) THEN More(T, k + 1, a) ELSE k
RECURSIVE Matches(_, _, _, _)
Matches(T, A, plus, i) ==
  IF i + Len(A) - 1 > Len(T) THEN <<>>
  ELSE IF \A h \in 1..Len(A) : Hits(Chr(T, i + h - 1), A[h])
       THEN LET k == IF plus THEN More(T, i + Len(A) - 1, A[Len(A)]) ELSE i + Len(A) - 1 IN << <<i, k>> >> \o Matches(T, A, plus, k + 1)
       ELSE Matches(T, A, plus, i + 1)

Found(text, q) == \* << first, last >> in the text itself
  LET T == Norm(text, q) from == Froms(text, 1, q)
      o == IF q.regex THEN Matches(T, Atoms(Norm(q.find, q)), Chr(q.find, Len(q.find)) = "+", 1) ELSE Occurs(T, Norm(q.find, q), 1, q)
  IN [h \in 1..Len(o) |-> <<from[o[h][1]], from[o[h][2]]>>]

----------------------------------------------------------------------------
(* The text of a line that is searched.                                        *)
Token(t) == IF Len(t) > 1 /\ Chr(t, 1) = "t" /\ IsDigits(SubSeq(t, 2, Len(t))) THEN Lead(SubSeq(t, 2, Len(t))) ELSE 0
NoNote == [k |-> "", t |-> ""]
Plainly(s) == [a |-> s, note |-> NoNote, z |-> ""]
Content(l, words) == IF Token(l.t) = 0 THEN Plainly(l.t) ELSE words[Token(l.t)]
Written(n) == IF n.k = "f" THEN "+ \\ft " \o n.t ELSE "- \\xt " \o n.t
Inside(n) == IF n.k = "f" THEN "+ \\ft " \o n.t ELSE "+ \\xt " \o n.t   \* the note by itself (its caller made a plain one)
Clean(x) == x.a \o x.z
Full(x) == x.a \o (IF x.note = NoNote THEN "" ELSE "\\" \o x.note.k \o " " \o Written(x.note) \o "\\" \o x.note.k \o "*") \o x.z
Paras == ParaSplit \ {"b"}
MainLines == {"v~", "p~"} \cup Paras
Searched(l, x, q) ==
  LET main == IF l.m \in MainLines /\ ~q.main /\ q.only = <<>>
              THEN (IF q.extras /\ x.note # NoNote THEN (IF q.markers THEN "\\" \o x.note.k \o " " ELSE "") \o Inside(x.note) ELSE "")
              ELSE IF q.extras THEN Full(x) ELSE Clean(x)
  IN IF q.markers THEN "\\" \o l.m \o " " \o main ELSE main

Skipped == {"headers", "intro", "chapters"}
Among(s, x) == \E i \in 1..Len(s) : s[i] = x
Before(v) == LET h == PosOf(v, "-", 1) IN IF h = 0 THEN v ELSE SubSeq(v, 1, h - 1)
Trim(n) == IF n > 0 THEN n ELSE 0
RECURSIVE SearchBook(_, _, _, _, _, _, _)
SearchBook(lines, i, words, q, c, v, lastPara) ==
  IF i > Len(lines) THEN <<>>
  ELSE LET l == lines[i]
           para == IF i > 1 /\ lines[i - 1].m \in Paras THEN lines[i - 1].m ELSE lastPara IN
    IF IsEnd(l.m) \/ l.m \in Skipped THEN SearchBook(lines, i + 1, words, q, c, v, para)
    ELSE LET c1 == IF l.m = "c" THEN l.t ELSE c
             v1 == IF l.m = "c" THEN "0" ELSE IF l.m = "v" THEN l.t ELSE IF c = "-1" THEN ToString(IntOf(v) + 1) ELSE v
             wanted == /\ (IF q.only = <<>> THEN (c1 # "-1" \/ q.intro) ELSE (Among(q.std, l.m) \/ (l.m \in {"v~", "p~"} /\ Among(q.std, para))))
                       /\ q.chapters = <<>> \/ Among(q.chapters, c1)
             text == Searched(l, Content(l, words), q)
             hits == IF wanted THEN Found(text, q) ELSE <<>>
         IN [h \in 1..Len(hits) |-> [c |-> c1, v |-> Before(v1), at |-> hits[h][1] - 1, o |-> l.o,
               word |-> SubSeq(text, hits[h][1], hits[h][2]),
               before |-> SubSeq(text, Trim(hits[h][1] - q.ctx - 1) + 1, hits[h][1] - 1),
               after |-> SubSeq(text, hits[h][2] + 1, IF hits[h][2] + q.ctx > Len(text) THEN Len(text) ELSE hits[h][2] + q.ctx)]]
            \o SearchBook(lines, i + 1, words, q, c1, v1, para)
\* the answer, book by book
AnswerTo(b, q) == [k \in 1..Len(b) |-> IF Among(q.books, k) THEN SearchBook(ls, 1, b[k], q, "-1", "-1", "") ELSE <<>>]

----------------------------------------------------------------------------
RandomWords(n) == LET RECURSIVE W(_) W(i) == IF i = 0 THEN "" ELSE RandomElement(Words) \o (IF i = 1 THEN "" ELSE RandomElement({" ", " ", ", ", "-"})) \o W(i - 1) IN W(n)
RandomContent(i) ==
  LET noted == RandomElement(1..3) = 1 /\ raw[i].m \in {"v", "p", "q", "q1", "s1", "ip", "m"}
  IN IF noted THEN [a |-> RandomWords(RandomElement(1..2)) \o RandomElement({"", " "}), note |-> [k |-> RandomElement({"f", "x"}), t |-> RandomWords(RandomElement(1..2))], z |-> RandomWords(RandomElement(1..2))]
     ELSE Plainly(RandomWords(RandomElement(1..3)))
RandomBible(n) == [k \in 1..n |-> [i \in 1..Len(raw) |-> RandomContent(i)]]
Somewhere(s) == LET a == RandomElement(1..Len(s)) IN SubSeq(s, a, LET z == a + RandomElement(0..3) IN IF z > Len(s) THEN Len(s) ELSE z)
Opts == {"Any", "Any", "Whole", "Begins", "EndsWord", "EndsLine"}
Standard(m) == Std(m)
FreeQuestion(n) ==
  LET words == bible[RandomElement(1..Len(bible))][RandomElement(1..Len(raw))]
      mode == RandomElement(Opts)
      f0 == IF RandomElement(1..5) = 1 THEN RandomElement({"\\p", "\\v~ a", "\\f", "ft", "\\s1 ", "None", "one", "a", " ", "\\l", "\\c#"})
           ELSE IF RandomElement(1..4) = 1 THEN RandomElement(Words) ELSE Somewhere(IF words.note # NoNote /\ RandomElement(1..3) = 1 THEN words.note.t ELSE Clean(words))
      f == f0
      only == IF RandomElement(1..4) > 1 THEN <<>> ELSE RandomElement({<<"p">>, <<"q", "p">>, <<"s">>, <<"s1", "q1">>, <<"ip">>, <<"mt1">>, <<"m">>})
      bare == RandomElement(1..3) = 1
      flag == [b \in 1..4 |-> only = <<>> /\ RandomElement(1..3) > 1]
      re == RandomElement(1..5) = 1
  IN [find |-> IF re THEN RandomElement({"a", "[ab]", "A.", ".B", "b[ @]", "[aA]b+", "a+", "@", "&", "[AB].", "E[ab]+", ". ", "[a%]+"}) ELSE f,
      regex |-> re, mode |-> mode, nocase |-> RandomElement(BOOLEAN), bare |-> bare,
      intro |-> flag[1] \/ (only # <<>> /\ RandomElement(BOOLEAN)), main |-> flag[2] \/ (only # <<>> /\ RandomElement(BOOLEAN)),
      markers |-> only = <<>> /\ RandomElement(1..3) = 1, extras |-> only = <<>> /\ RandomElement(BOOLEAN),
      ctx |-> RandomElement({0, 3, 3, 30}), only |-> only, std |-> [i \in 1..Len(only) |-> Standard(only[i])],
      books |-> LET S == RandomElement({{1}, 1..Len(bible), 1..Len(bible), {Len(bible)}}) IN Asc(S),
      chapters |-> RandomElement({<<>>, <<>>, <<"1">>, <<"2">>, <<"1", "2">>, <<"-1">>})]

\* every search of one line
AllQuestions(F) ==
  {[find |-> f, regex |-> FALSE, mode |-> m, nocase |-> n, bare |-> b, intro |-> TRUE, main |-> TRUE, markers |-> FALSE, extras |-> FALSE,
    ctx |-> 3, only |-> <<>>, std |-> <<>>, books |-> <<1>>, chapters |-> <<"1">>]
     : f \in F, m \in {"Any", "Whole", "Begins", "EndsWord", "EndsLine"}, n \in BOOLEAN, b \in BOOLEAN}

Fill == /\ phase = "done" /\ bible = <<>>
        /\ bible' = RandomBible(RandomElement(1..BooksMax))
        /\ UNCHANGED <<vars, log, ans>>
FillAll == /\ phase = "done" /\ bible = <<>> /\ Exhaust
           /\ \E w \in Words : bible' = << [i \in 1..Len(raw) |-> Plainly(w)] >>
           /\ UNCHANGED <<vars, log, ans>>
AskOne == /\ phase = "done" /\ bible # <<>> /\ Len(log) < Searches
          /\ log' = Append(log, FreeQuestion(Len(log)))
          /\ UNCHANGED <<vars, bible, ans>>
AskEach == /\ Exhaust /\ phase = "done" /\ bible # <<>> /\ log = <<>>
           /\ \E f \in Finds : log' = SetToSeq(AllQuestions({f}))
           /\ UNCHANGED <<vars, bible, ans>>
TellSearch == /\ phase = "done" /\ bible # <<>> /\ Len(log) = Searches
              /\ ans' = [i \in 1..Len(log) |-> AnswerTo(bible, log[i])]
              /\ PrintT("@@" \o ToJson([raw |-> raw, bible |-> bible, qs |-> log, as |-> ans']))
              /\ phase' = "told"
              /\ UNCHANGED <<raw, cN, vN, suf, rs, ns, ls, is, j, Idx, log, bible>>
SearchInit == Init /\ log = <<>> /\ bible = <<>> /\ ans = <<>>
SearchNext == \/ ((Add \/ End \/ Nest \/ Start \/ Index \/ Finish) /\ UNCHANGED <<log, bible, ans>>)
              \/ (~Exhaust /\ Fill) \/ FillAll \/ (~Exhaust /\ AskOne) \/ AskEach \/ TellSearch
SearchSpec == SearchInit /\ [][SearchNext]_svars

----------------------------------------------------------------------------
(* What a user relies on: what is found is what was asked for, in its context.  *)
Sound == phase = "told" => \A i \in 1..Len(log) : \A k \in 1..Len(bible) : LET q == log[i] a == ans[i][k] IN
   /\ \A h \in 1..Len(a) :
        /\ (q.regex \/ PosOfS(Norm(a[h].word, q), Norm(q.find, q), 1) > 0)
        /\ (q.chapters = <<>> \/ Among(q.chapters, a[h].c))
        /\ Len(a[h].before) <= q.ctx /\ Len(a[h].after) <= q.ctx
   /\ (~Among(q.books, k) => a = <<>>)
\* narrower kinds of search find some of what the wider ones find, and case or accents only ever restrict
Narrower == phase = "told" /\ Exhaust => \A i, k \in 1..Len(log) :
   LET a == log[i] b == log[k] IN
   (a.nocase = b.nocase /\ a.bare = b.bare /\ b.mode = "Any") \/ (a.mode = b.mode /\ ~a.nocase /\ b.nocase /\ a.bare = b.bare)
   => LET x == ans[i][1] y == ans[k][1] IN \A h \in 1..Len(x) : \E g \in 1..Len(y) : x[h] = y[g]
=============================================================================
