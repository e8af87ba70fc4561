------------------------------ MODULE Containers ------------------------------
(* The containers of processed lines and of notes.  A store of named           *)
(* containers, each a sequence of items (objects known by number, several of   *)
(* which may have equal contents); every operation and its answer is given,    *)
(* with all the containers after it.                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Names,     \* the containers
          Items,     \* item numbers
          Content,   \* item number -> [k: search key (marker of a line, place of a note), c: number of its contents, x: it carries notes]
          Bounds,    \* indexes and slice bounds asked for (None = 99)
          Steps,     \* slice steps (None = 99)
          Lines,     \* TRUE for lines, FALSE for notes (which have == but no +)
          MaxOps, MinOps, MaxLen, Emit, Sim
VARIABLES store, text, hist
vars == <<store, text, hist>>
None == 99
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
Init == store = [n \in Names |-> <<>>] /\ text = [i \in Items |-> Content[i].c] /\ hist = <<>>
Log(op, args, ans) == hist' = Append(hist, [op |-> op, args |-> args, ans |-> ans, store |-> store', text |-> text'])
Put(n, s) == store' = [store EXCEPT ![n] = s] /\ UNCHANGED text
Ask == (Sim \/ Len(hist) + 1 = MaxOps) /\ UNCHANGED <<store, text>>   \* asking changes nothing; in the exhaustive runs only the last step asks
\* positions (from 0) of a slice, as Python counts them
Place(v, len, step, isStart) ==
  LET lo == IF step > 0 THEN 0 ELSE 0 - 1  hi == IF step > 0 THEN len ELSE len - 1 IN
  IF v = None THEN (IF (step > 0) = isStart THEN lo ELSE hi) ELSE IF v < 0 THEN Max(v + len, lo) ELSE Min(v, hi)
RECURSIVE Walk(_, _, _, _)
Walk(s, i, stop, step) == IF (IF step > 0 THEN i >= stop ELSE i <= stop) THEN <<>> ELSE <<s[i + 1]>> \o Walk(s, i + step, stop, step)
Slice(s, a, b, st) == LET step == IF st = None THEN 1 ELSE st IN Walk(s, Place(a, Len(s), step, TRUE), Place(b, Len(s), step, FALSE), step)
At(s, i) == LET p == IF i < 0 THEN i + Len(s) ELSE i IN IF p \in 0..Len(s)-1 THEN s[p + 1] ELSE 0      \* 0: no such item
FirstWith(s, k, most) == LET P == {p \in 1..Len(s) : Content[s[p]].k = k /\ (most = None \/ p <= most)} IN
                         IF P = {} THEN 0 - 1 ELSE (CHOOSE p \in P : \A q \in P : p <= q) - 1
AllWith(s, k) == SelectSeq(s, LAMBDA i : Content[i].k = k)
Keys == {Content[i].k : i \in Items}
\* operations
AppendTo(n, i) == Len(store[n]) < MaxLen /\ Put(n, Append(store[n], i)) /\ Log("append", <<n, i>>, "")
Pop(n) == LET s == store[n] IN Put(n, IF s = <<>> THEN s ELSE SubSeq(s, 1, Len(s) - 1)) /\ Log("pop", <<n>>, IF s = <<>> THEN 0 ELSE s[Len(s)])
Extend(n, m) == Len(store[n]) + Len(store[m]) <= MaxLen /\ Put(n, store[n] \o store[m]) /\ Log("extend", <<n, m>>, "")
Copy(n, m) == Put(n, store[m]) /\ Log("copy", <<n, m>>, "")               \* a new container made from another
FromList(n, m) == Put(n, store[m]) /\ Log("fromlist", <<n, m>>, "")       \* a new container made from a list
Add(n, m, o) == Lines /\ Len(store[m]) + Len(store[o]) <= MaxLen /\ Put(n, store[m] \o store[o]) /\ Log("add", <<n, m, o>>, "")
Sliced(n, m, a, b, st) == Put(n, Slice(store[m], a, b, st)) /\ Log("slice", <<n, m, a, b, st>>, "")
Item(n, i) == Ask /\ Log("item", <<n, i>>, At(store[n], i))
Search(n, k, most) == Ask /\ IF Lines THEN Log("contains", <<n, k, most>>, FirstWith(store[n], k, most)) ELSE Log("checkForIndex", <<n, k>>, AllWith(store[n], k))
\* equality of items and of note lists is that of their contents
SameItem(i, j) == text[i] = text[j]
SameList(s, t) == Len(s) = Len(t) /\ \A p \in 1..Len(s) : SameItem(s[p], t[p])
Compare(n, m) == Ask /\ ~Lines /\ Log("equal", <<n, m>>, SameList(store[n], store[m]))
CompareItems(i, j) == Ask /\ Log("same", <<i, j>>, SameItem(i, j))
SetText(i) == Lines /\ ~Content[i].x /\ UNCHANGED store /\ text' = [text EXCEPT ![i] = 1000 + i] /\ Log("settext", <<i>>, "")
Kinds == {"append", "append2", "append3", "pop", "extend", "copy", "fromlist", "add", "slice", "slice2", "item", "search", "compare", "same", "settext"}
Able(kind, n, m, o) == CASE kind = "add" -> Lines /\ Len(store[m]) + Len(store[o]) <= MaxLen [] kind = "extend" -> Len(store[n]) + Len(store[m]) <= MaxLen
                         [] kind \in {"append", "append2", "append3"} -> Len(store[n]) < MaxLen [] kind = "compare" -> ~Lines [] kind = "settext" -> Lines
                         [] kind \in {"copy", "fromlist"} -> n # m [] OTHER -> TRUE
Try(kind, n, m, o) ==
  CASE kind \in {"append", "append2", "append3"} -> \E i \in Pick(Items) : AppendTo(n, i)
    [] kind = "pop" -> Pop(n)
    [] kind = "extend" -> Extend(n, m)
    [] kind = "copy" -> n # m /\ Copy(n, m)
    [] kind = "fromlist" -> n # m /\ FromList(n, m)
    [] kind = "add" -> Add(n, m, o)
    [] kind \in {"slice", "slice2"} -> \E a \in Pick(Bounds), b \in Pick(Bounds), st \in Pick(Steps) : Sliced(n, m, a, b, st)
    [] kind = "item" -> \E i \in Pick(Bounds \ {None}) : Item(n, i)
    [] kind = "search" -> \E k \in Pick(Keys), most \in Pick(IF Sim THEN {None} \cup 0..3 ELSE {None, 1}) : Search(n, k, most)
    [] kind = "compare" -> Compare(n, m)
    [] kind = "same" -> \E i \in Pick(Items), j \in Pick(Items) : CompareItems(i, j)
    [] OTHER -> \E i \in (IF Sim THEN {RandomElement({j \in Items : ~Content[j].x})} ELSE Items) : SetText(i)
Next == /\ Len(hist) < MaxOps
        /\ IF Sim THEN \E kind \in Pick(Kinds), n \in Pick(Names), m \in Pick(Names), o \in Pick(Names) : Try(IF Able(kind, n, m, o) THEN kind ELSE IF Len(store[n]) >= MaxLen THEN "pop" ELSE "append", n, m, o)
           ELSE \E kind \in Kinds \ {"append2", "append3", "slice2"}, n \in Names, m \in Names, o \in Names :
                  /\ kind \in {"append", "pop", "item", "search"} => (m = n /\ o = n)
                  /\ kind \in {"same", "settext"} => (m = n /\ o = n /\ \A x \in Names : n = CHOOSE y \in Names : TRUE)
                  /\ kind # "add" => o = n
                  /\ Try(kind, n, m, o)
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
\* every operation changes at most the container named first; asking changes none
Local == [][hist' # hist => LET h == hist'[Len(hist')] IN \A n \in Names : (store'[n] # store[n]) => (h.op \in {"append", "pop", "extend", "copy", "fromlist", "add", "slice"} /\ h.args[1] = n)]_vars
\* a slice and its complement make the whole; reversing twice gives it back
Slices == \A n \in Names, k \in Bounds \ {None} : LET s == store[n] IN
            Slice(s, None, k, None) \o Slice(s, k, None, None) = s /\ Slice(Slice(s, None, None, 0 - 1), None, None, 0 - 1) = s
\* indexing agrees with slicing, searching with indexing
Agree == \A n \in Names : LET s == store[n] IN
           /\ \A i \in 0..Len(s)-1 : <<At(s, i)>> = Slice(s, i, i + 1, None) /\ At(s, i) = At(s, i - Len(s))
           /\ \A k \in Keys : (FirstWith(s, k, None) = 0 - 1) = (AllWith(s, k) = <<>>) /\ (AllWith(s, k) # <<>> => At(s, FirstWith(s, k, None)) = AllWith(s, k)[1])
Emitting == (Emit /\ Len(hist) >= MinOps) => PrintT("@@" \o ToJson(hist))
=============================================================================
