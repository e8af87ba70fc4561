------------------------------ MODULE VerseKeys ------------------------------
(* Verse keys (Reference/VerseReferences.py).                                  *)
(* A key is a book, a sequence of points (chapter, verse, suffix) and the      *)
(* joins between the points:  ","  next verse of the same chapter              *)
(*                            ";"  next verse with a chapter of its own        *)
(*                            "-"  up to a verse of the same chapter           *)
(*                            "--" up to a verse with a chapter of its own     *)
(* or it is a whole chapter (no points), or one verse with an index into it.   *)
(* The text of a key is a sequence of tokens; Parse is the reader.  The state  *)
(* machine builds keys, writes them down and spoils their texts.               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, Randomization

CONSTANTS BookSet,      \* book codes used here
          Osis,         \* [book code -> OSIS code] for some of the book codes
          FirstOf,      \* [OSIS code -> book code] the book an OSIS code is read as
          Chapters, Verses, Suffixes, Indexes,   \* texts
          Noise,        \* further tokens used to spoil texts
          MaxPoints, MaxSpoil, Sim, Emit

Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
Range(f) == {f[x] : x \in DOMAIN f}
NumStr == {ToString(i) : i \in 1..199}
VerseStr == {ToString(i) : i \in 1..222}
Val == TLCEval([n \in VerseStr |-> CHOOSE i \in 1..222 : ToString(i) = n])
Digit == {ToString(i) : i \in 0..9}
IdxStr == Digit \cup {a \o b : a \in Digit, b \in Digit} \cup {a \o b \o c : a \in Digit, b \in Digit, c \in Digit}
Letters == <<"", "a", "b", "c", "d", "e", "f">>
LVal == [l \in Range(Letters) |-> CHOOSE i \in 1..7 : Letters[i] = l]
EnDash == "--"
LastVerse == 222      \* nobody knows how many verses a chapter has
AllBooks == BookSet \cup DOMAIN Osis \cup Range(FirstOf)

\* ------------------------------------------------------------------- keys
P(c, v, s) == [c |-> c, v |-> v, s |-> s]
None == [b |-> "", ch |-> "", pts |-> <<>>, js |-> <<>>, ix |-> "", bare |-> FALSE]
Key(b, ch, pts, js, ix) == [b |-> b, ch |-> ch, pts |-> pts, js |-> js, ix |-> ix, bare |-> FALSE]

Before(p, q) == \/ Val[p.c] < Val[q.c]
                \/ (p.c = q.c /\ Val[p.v] < Val[q.v])
                \/ (p.c = q.c /\ p.v = q.v /\ LVal[p.s] < LVal[q.s])
RangesAscend(k) == \A i \in 1..Len(k.js) : k.js[i] \in {"-", EnDash} => Before(k.pts[i], k.pts[i+1])

All(js, j) == \A i \in 1..Len(js) : js[i] = j
\* the mixtures of verses and ranges of one chapter that are supported
Mixed == { <<"-",",">>, <<"-",",",",">>, <<"-",",",",",",">>, <<"-",",",",",",",",">>, <<",","-">>, <<",","-",",","-">>, <<",",",","-",",","-">>,
           <<"-",",",",","-">>, <<"-",",",",",",","-">>, <<",",",","-">>, <<",",",",",","-">>, <<",",",",",",",","-">>, <<",","-",",">>, <<",",",","-",",">>,
           <<"-",",","-">>, <<"-",",","-",",">>, <<"-",",","-",",",",">>, <<"-",",","-",",","-">>, <<"-",",","-",",","-",",","-">> }
OsisMixed == { <<"-",",">>, <<",","-">>, <<",","-",",">> }

IsSimple(k) == Len(k.pts) = 1
IsVerses(k, o) == \/ (Len(k.js) \in 1..(IF o THEN 2 ELSE 8) /\ All(k.js, ","))
                  \/ (Len(k.js) \in 1..2 /\ All(k.js, ";"))
IsRange(k) == \/ k.ch # ""
              \/ (Len(k.js) = 1 /\ k.js[1] \in {"-", EnDash})
IsMixed(k, o) == k.js \in (IF o THEN OsisMixed ELSE Mixed)
Good(k) == k.b # "" /\ RangesAscend(k)
Yes(b) == IF b THEN "yes" ELSE "no"
\* what each of the four classes says to a text that was read as k: "any" = nothing is promised
Verdict(k, o) ==
   LET any == k.b # "" /\ k.bare
       odd == k.b # "" /\ ~(IsSimple(k) \/ IsVerses(k, o) \/ IsRange(k) \/ IsMixed(k, o))
   IN [simple |-> IF any THEN "any" ELSE Yes(Good(k) /\ IsSimple(k)),
       verses |-> IF any \/ (odd /\ (All(k.js, ",") \/ All(k.js, ";"))) THEN "any" ELSE Yes(Good(k) /\ IsVerses(k, o)),
       range  |-> IF any THEN "any" ELSE Yes(Good(k) /\ IsRange(k)),
       flex   |-> IF any \/ odd THEN "any" ELSE Yes(Good(k))]

\* ------------------------------------------------------------------- tokens and texts
Suf(s) == IF s = "" THEN <<>> ELSE <<"!", s>>
RECURSIVE Toks(_, _, _)
Toks(k, i, o) ==
   IF i > Len(k.pts) THEN <<>>
   ELSE LET p == k.pts[i]
            j == IF i = 1 THEN <<>> ELSE <<IF o /\ k.js[i-1] = "," THEN "." ELSE k.js[i-1]>>
            c == IF i = 1 \/ k.js[i-1] \in {";", EnDash} THEN <<p.c, IF o THEN "." ELSE ":">> ELSE <<>>
        IN j \o c \o <<p.v>> \o Suf(p.s) \o Toks(k, i+1, o)
Tokens(k, o, bsep) == <<IF o THEN Osis[k.b] ELSE k.b, bsep>> \o (IF k.ch # "" THEN <<k.ch>> ELSE Toks(k, 1, o)) \o (IF k.ix # "" THEN <<"!", k.ix>> ELSE <<>>)
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN "" ELSE (IF Head(s) = EnDash THEN "@" ELSE Head(s)) \o Cat(Tail(s))
Text(k) == Cat(Tokens(k, FALSE, "_"))

\* neighbouring numbers are one number
Digits == IdxStr \cup NumStr
RECURSIVE Merge(_)
Merge(s) == IF Len(s) < 2 THEN s
            ELSE LET t == Merge(Tail(s))
                 IN IF Head(s) \in Digits /\ Head(t) \in Digits THEN <<IF Len(Head(s)) + Len(Head(t)) <= 3 THEN Head(s) \o Head(t) ELSE "9999">> \o Tail(t)
                    ELSE IF Head(s) \in Digits /\ Head(t) = "9999" THEN t
                    ELSE IF Head(s) \in {"-", EnDash} /\ Head(t) = "-" THEN <<"bad">> \o Tail(t)
                    ELSE <<Head(s)>> \o t

\* ------------------------------------------------------------------- the reader
\* a point's verse and suffix at the front of s: [v, s, bare, rest], v = "" if there is none
NoPoint == [v |-> "", s |-> "", bare |-> FALSE, rest |-> <<>>]
ReadVS(s, o) ==
   IF s = <<>> \/ Head(s) \notin NumStr THEN NoPoint
   ELSE IF Len(s) >= 3 /\ s[2] = "!" /\ s[3] \in (IF o THEN {"a","b","c","d","e","f"} ELSE {"a","b","c","d"}) THEN [v |-> s[1], s |-> s[3], bare |-> FALSE, rest |-> SubSeq(s, 4, Len(s))]
   ELSE IF Len(s) >= 2 /\ s[2] = "!" THEN [v |-> s[1], s |-> "", bare |-> TRUE, rest |-> SubSeq(s, 3, Len(s))]
   ELSE [v |-> s[1], s |-> "", bare |-> FALSE, rest |-> Tail(s)]
RECURSIVE ReadMore(_, _, _)
ReadMore(s, k, o) ==
   IF s = <<>> THEN k
   ELSE LET j == IF o /\ Head(s) = "." THEN "," ELSE IF o /\ Head(s) = "," THEN "bad" ELSE Head(s)
            last == k.pts[Len(k.pts)].c
        IN IF j \in {",", "-"} THEN
              LET r == ReadVS(Tail(s), o) IN
              IF r.v = "" THEN None ELSE ReadMore(r.rest, [k EXCEPT !.pts = Append(@, P(last, r.v, r.s)), !.js = Append(@, j), !.bare = @ \/ r.bare], o)
           ELSE IF j \in {";", EnDash} /\ Len(s) >= 4 /\ s[2] \in NumStr /\ s[3] = (IF o THEN "." ELSE ":") THEN
              LET r == ReadVS(SubSeq(s, 4, Len(s)), o) IN
              IF r.v = "" THEN None ELSE ReadMore(r.rest, [k EXCEPT !.pts = Append(@, P(s[2], r.v, r.s)), !.js = Append(@, j), !.bare = @ \/ r.bare], o)
           ELSE None
Parse(s0, o) ==
   LET s == Merge(s0)
       b == IF s = <<>> THEN "" ELSE IF o THEN (IF s[1] \in DOMAIN FirstOf THEN FirstOf[s[1]] ELSE "") ELSE (IF s[1] \in AllBooks THEN s[1] ELSE "")
       seps == IF o THEN {".", "_"} ELSE {"_"}
   IN IF Len(s) < 3 \/ b = "" THEN None
      ELSE IF s[2] \notin seps \/ s[3] \notin NumStr THEN None
      ELSE IF Len(s) = 3 THEN Key(b, s[3], <<>>, <<>>, "")
      ELSE IF s[4] # (IF o THEN "." ELSE ":") THEN None
      ELSE LET r == ReadVS(SubSeq(s, 5, Len(s)), o)
           IN IF r.v = "" THEN None
              ELSE IF ~o /\ r.bare /\ Len(r.rest) = 1 /\ r.rest[1] \in IdxStr THEN Key(b, "", <<P(s[3], r.v, "")>>, <<>>, r.rest[1])
              ELSE ReadMore(r.rest, [Key(b, "", <<P(s[3], r.v, r.s)>>, <<>>, "") EXCEPT !.bare = r.bare], o)
\* a mixture of chapters is no key at all when a join follows a chapter join
Read(s, o) == Parse(s, o)

\* ------------------------------------------------------------------- what a key stands for
NS == TLCEval([i \in 1..400 |-> ToString(i)])
N(i) == NS[i]
RECURSIVE Between(_, _, _, _)
\* the whole verses strictly between (c,v) and (d,w)
Between(c, v, d, w) ==
   IF c = d THEN [i \in 1..(IF w > v + 1 THEN w - v - 1 ELSE 0) |-> P(N(c), N(v + i), "")]
   ELSE [i \in 1..(LastVerse - v) |-> P(N(c), N(v + i), "")] \o Between(c + 1, 0, d, w)
RECURSIVE Fold(_, _)
\* the verses of the points from i on
Fold(k, i) ==
   IF i > Len(k.pts) THEN <<>>
   ELSE IF i < Len(k.pts) /\ k.js[i] \in {"-", EnDash}
        THEN LET p == k.pts[i]  q == k.pts[i+1]
             IN <<p>> \o Between(Val[p.c], Val[p.v], Val[q.c], Val[q.v]) \o <<q>> \o Fold(k, i + 2)
        ELSE <<k.pts[i]>> \o Fold(k, i + 1)
Stands(k) == IF k.ch # "" THEN [i \in 1..LastVerse |-> P(k.ch, N(i), "")] ELSE Fold(k, 1)

ShortP(b, p, ix) == b \o " " \o p.c \o ":" \o p.v \o (IF ix # "" THEN "!" \o ix ELSE p.s)
RECURSIVE ShortF(_, _)
ShortF(k, i) ==
   IF i > Len(k.pts) THEN ""
   ELSE LET r == i < Len(k.pts) /\ k.js[i] \in {"-", EnDash}
            n == IF r THEN i + 2 ELSE i + 1
        IN ShortP(k.b, k.pts[i], k.ix) \o (IF r THEN "-" \o ShortP(k.b, k.pts[i+1], "") ELSE "") \o (IF n <= Len(k.pts) THEN ", " \o ShortF(k, n) ELSE "")
Short(k) == IF k.ch # "" THEN k.b \o " " \o k.ch \o ":1-" \o k.b \o " " \o k.ch \o ":999" ELSE ShortF(k, 1)
\* the parts of a key of the flexible class
RECURSIVE PartsF(_, _)
PartsF(k, i) ==
   IF i > Len(k.pts) THEN <<>>
   ELSE LET r == i < Len(k.pts) /\ k.js[i] \in {"-", EnDash}
            n == IF r THEN i + 2 ELSE i + 1
        IN <<Text(Key(k.b, "", SubSeq(k.pts, i, n - 1), SubSeq(k.js, i, n - 2), ""))>> \o PartsF(k, n)
Parts(k) == IF IsMixed(k, FALSE) THEN PartsF(k, 1) ELSE <<Text(k)>>

\* ------------------------------------------------------------------- the machine
VARIABLES key, toks, osis, phase, spoils, call
vars == <<key, toks, osis, phase, spoils, call>>
NoCall == <<>>
Init == key = None /\ toks = <<>> /\ osis = FALSE /\ phase = "start" /\ spoils = 0 /\ call = NoCall

Start == /\ phase = "start"
         /\ \E b \in Pick(BookSet), c \in Pick(Chapters), v \in Pick(Verses), s \in Pick(Suffixes) : key' = Key(b, "", <<P(c, v, s)>>, <<>>, "")
         /\ phase' = "build" /\ UNCHANGED <<toks, osis, spoils, call>>
Chapter == /\ phase = "start"
           /\ \E b \in Pick(BookSet), c \in Pick(Chapters) : key' = Key(b, c, <<>>, <<>>, "")
           /\ phase' = "built" /\ UNCHANGED <<toks, osis, spoils, call>>
Index == /\ phase = "start"
         /\ \E b \in Pick(BookSet), c \in Pick(Chapters), v \in Pick(Verses), x \in Pick(Indexes) : key' = Key(b, "", <<P(c, v, "")>>, <<>>, x)
         /\ phase' = "built" /\ UNCHANGED <<toks, osis, spoils, call>>
\* the class chosen with the first join restricts those that follow
Allowed(js) == \/ (All(js, ",") /\ Len(js) <= 8) \/ (All(js, ";") /\ Len(js) <= 2) \/ js = <<EnDash>> \/ js = <<"-">> \/ \E m \in Mixed : Len(js) <= Len(m) /\ SubSeq(m, 1, Len(js)) = js
Nexts(js) == {j \in {",", ";", "-", EnDash} : Allowed(Append(js, j))}
Extend == /\ phase = "build" /\ Len(key.pts) < MaxPoints /\ Nexts(key.js) # {}
          /\ \E j \in Pick(Nexts(key.js)), c \in Pick(Chapters), v \in Pick(Verses), s \in Pick(Suffixes) :
               LET last == key.pts[Len(key.pts)]
                   p == P(IF j \in {",", "-"} THEN last.c ELSE c, v, s)
               IN key' = [key EXCEPT !.pts = Append(@, p), !.js = Append(@, j)]
          /\ UNCHANGED <<toks, osis, phase, spoils, call>>
Built == phase = "build" /\ phase' = "built" /\ UNCHANGED <<key, toks, osis, spoils, call>>
\* ranges over too many chapters are only slow
Small(k) == \A i \in 1..Len(k.js) : k.js[i] = EnDash => Val[k.pts[i+1].c] <= Val[k.pts[i].c] + 2
Write(o) == /\ phase = "built" /\ Small(key)
            /\ o => (key.b \in DOMAIN Osis /\ key.ix = "")
            /\ osis' = o /\ phase' = "written"
            /\ \E bs \in (IF o THEN Pick({".", "_"}) ELSE {"_"}) : toks' = Tokens(key, o, bs)
            /\ UNCHANGED <<key, spoils, call>>
Tok == Chapters \cup Verses \cup Noise \cup {"!", ",", ";", "-", EnDash, ":", "_", "."}
Spoil == /\ phase = "written" /\ spoils < MaxSpoil /\ Len(toks) > 0
         /\ spoils' = spoils + 1
         /\ \E i \in Pick(1..Len(toks)), what \in Pick({"drop", "add", "change", "swap", "twice", "cut"}), t \in Pick(Tok) :
              toks' = CASE what = "drop" -> SubSeq(toks, 1, i-1) \o SubSeq(toks, i+1, Len(toks))
                        [] what = "add" -> SubSeq(toks, 1, i) \o <<t>> \o SubSeq(toks, i+1, Len(toks))
                        [] what = "change" -> [toks EXCEPT ![i] = t]
                        [] what = "swap" -> IF i = Len(toks) THEN <<t>> \o toks ELSE [toks EXCEPT ![i] = toks[i+1], ![i+1] = toks[i]]
                        [] what = "twice" -> SubSeq(toks, 1, i) \o SubSeq(toks, i, Len(toks))
                        [] what = "cut" -> SubSeq(toks, 1, i - 1)
         /\ UNCHANGED <<key, osis, phase, call>>
\* the other way to make a key of one verse
Odd == {"", "1234", "1:", " 1", "1,", "2.", "-2"}
Call == /\ phase = "start" /\ phase' = "called"
        /\ \E b \in Pick(BookSet \cup {"GE", "XXX", "gen", "GENE"}), c \in Pick(Chapters \cup Odd \cup {"-1"}), v \in Pick(Verses \cup {"", "1234"}), s \in Pick(Suffixes \cup Indexes \cup {"e", "ab", "1a", "-", " ", "12345", ":"}) : call' = <<b, c, v, s>>
        /\ UNCHANGED <<key, toks, osis, spoils>>
CallOK(a) == a[1] \in BookSet /\ a[2] \in (Chapters \cup {"-1"}) /\ a[3] \in Verses /\ a[4] \in Suffixes \cup Indexes \cup {"e"}

Coin(p, n) == IF p = "" THEN 0 ELSE RandomElement(1..n)
Next == IF phase = "start" /\ Sim THEN (LET r == Coin(phase, 12) IN IF r = 1 THEN Chapter ELSE IF r = 2 THEN Index ELSE IF r = 3 THEN Call ELSE Start)
        ELSE IF phase = "build" /\ Sim THEN (LET r == Coin(phase, 4) IN IF r = 1 \/ Nexts(key.js) = {} \/ Len(key.pts) >= MaxPoints THEN Built ELSE Extend)
        ELSE IF phase = "built" /\ Sim THEN (LET r == Coin(phase, 3) IN IF r = 1 /\ key.b \in DOMAIN Osis /\ key.ix = "" THEN Write(TRUE) ELSE Write(FALSE))
        ELSE Start \/ Chapter \/ Index \/ Call \/ Extend \/ Built \/ Write(TRUE) \/ Write(FALSE) \/ Spoil
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------------- checked on the model
InOsis(k) == \A i \in 1..Len(k.js) : k.js[i] # "" 
RoundTrip == phase = "written" /\ spoils = 0 =>
   LET k == Read(toks, osis) IN
   IF osis THEN k = [key EXCEPT !.b = FirstOf[Osis[key.b]]] ELSE k = key
\* reading a spoiled text and writing what was read gives the spoiled text
Faithful == phase = "written" /\ ~osis => LET k == Read(toks, FALSE) IN (k.b # "" /\ ~k.bare) => Tokens(k, FALSE, "_") = Merge(toks)
OneClass == phase = "written" => LET v == Verdict(Read(toks, osis), osis) IN Cardinality({c \in {"simple", "verses", "range"} : v[c] = "yes"}) <= 1 /\ ((\E c \in {"simple", "verses", "range"} : v[c] = "yes") => v.flex = "yes")
\* the verses of a range go forward without a gap from its start to its end
Contiguous == phase = "written" => LET k == Read(toks, osis) IN
   (Good(k) /\ IsRange(k) /\ k.ch = "" /\ Small(k)) =>
      LET s == Stands(k) IN
      /\ s[1] = k.pts[1] /\ s[Len(s)] = k.pts[2]
      /\ \A i \in 1..(Len(s)-1) : LET p == s[i]  q == s[i+1] IN
             \/ (p.c = q.c /\ q.v \in {p.v, N(Val[p.v] + 1)})
             \/ (q.v = "1" /\ p.v = N(LastVerse))

Out == IF phase = "called" THEN [kind |-> "call", args |-> call, ok |-> CallOK(call)]
       ELSE LET k == Read(toks, osis)  v == Verdict(k, osis)
            IN [kind |-> IF osis THEN "osis" ELSE "plain", text |-> Cat(toks), orig |-> IF osis THEN "" ELSE Text(key), verdict |-> v, 
                fields |-> IF v.simple = "yes" THEN <<k.b, k.pts[1].c, k.pts[1].v, k.pts[1].s, k.ix>> ELSE <<>>,
                keytext |-> IF v.flex = "yes" THEN Text(k) ELSE "", short |-> IF v.flex = "yes" THEN Short(k) ELSE "",
                parts |-> IF v.flex = "yes" THEN Parts(k) ELSE <<>>,
                osis |-> IF v.simple = "yes" /\ k.ix = "" /\ k.b \in DOMAIN Osis THEN Cat(Tokens(k, TRUE, ".")) ELSE "",
                verses |-> IF v.flex = "yes" THEN Stands(k) ELSE <<>>]
Emitting == (Emit /\ phase \in {"written", "called"} /\ (phase = "called" \/ Small(Read(toks, osis)))) => PrintT("@@" \o ToJson(Out))
=============================================================================
