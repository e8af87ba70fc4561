----------------------------- MODULE CharMarkers -----------------------------
(* The markers within a text.  A text is written piece by piece - plain text, *)
(* opening, nested, closing and line markers - and what the library says of   *)
(* it is given entry by entry: the marker, where its backslash is, what kind  *)
(* it is, the marker as written, the markers open after it, which entry ends  *)
(* it and the text up to the next marker.                                     *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Texts,      \* plain pieces (which may contain backslashes that start no marker)
          Chars, Lines, \* markers: character markers, and those that start a line
          MaxPieces, MinPieces, Emit, Sim
VARIABLES pieces,     \* what was written: [k, m] with k in text open plus minus star end plusend lone plusalone
          text,       \* the text
          ents,       \* its entries, without what ends them
          open,       \* the markers open at the end
          done
vars == <<pieces, text, ents, open, done>>
Init == pieces = <<>> /\ text = "" /\ ents = <<>> /\ open = <<>> /\ done = FALSE
Butlast(s) == IF s = <<>> THEN <<>> ELSE SubSeq(s, 1, Len(s) - 1)
\* the kinds and how each is written
Written(k, m) == CASE k = "open" -> "\\" \o m \o " " [] k = "plus" -> "\\+" \o m \o " " [] k = "minus" -> "\\+" \o m \o "*"
                   [] k = "star" -> "\\" \o m \o "*" [] k = "end" -> "\\" \o m [] k = "plusend" -> "\\+" \o m
                   [] k = "lone" -> "\\" [] k = "plusalone" -> "\\+"
Next1(k) == CASE k = "open" -> " " [] k \in {"plus", "plusend", "plusalone"} -> "+" [] k = "minus" -> "-" [] k = "star" -> "*" [] OTHER -> ""
Name(k, m) == IF k \in {"lone", "plusalone"} THEN "\\" ELSE m
OpenAfter(k, m) ==   \* a line marker and a plain closing marker close everything; an opening marker closes all before it
  IF m \in Lines THEN <<>>
  ELSE CASE Next1(k) = "+" -> Append(open, Name(k, m)) [] Next1(k) = "-" -> Butlast(open) [] Next1(k) = "*" -> <<>> [] OTHER -> <<Name(k, m)>>
AddText(t) == /\ ~done /\ Len(pieces) < MaxPieces
              /\ pieces' = Append(pieces, [k |-> "text", m |-> t]) /\ text' = text \o t
              /\ ents' = IF ents = <<>> THEN ents ELSE [ents EXCEPT ![Len(ents)].t = @ \o t]
              /\ UNCHANGED <<open, done>>
AddMarker(k, m) == /\ ~done /\ Len(pieces) < MaxPieces
                   /\ pieces' = Append(pieces, [k |-> k, m |-> m]) /\ text' = text \o Written(k, m)
                   /\ open' = OpenAfter(k, m)
                   /\ ents' = Append(ents, [m |-> Name(k, m), i |-> Len(text), x |-> Next1(k), w |-> Written(k, m), cx |-> OpenAfter(k, m), t |-> ""])
                   /\ done' = (k \in {"end", "plusend", "lone", "plusalone"})   \* nothing can follow those
Finish == ~done /\ Len(pieces) >= MinPieces /\ done' = TRUE /\ UNCHANGED <<pieces, text, ents, open>>
Next == \/ \E t \in Texts : AddText(t)
        \/ \E m \in Chars, k \in {"open", "plus", "minus", "star"} : AddMarker(k, m)
        \/ \E m \in Lines : AddMarker("open", m)
        \/ Len(pieces) + 1 >= MinPieces /\ \E m \in Chars \cup Lines : AddMarker("end", m)
        \/ Len(pieces) + 1 >= MinPieces /\ \E m \in Chars : AddMarker("plusend", m)
        \/ Len(pieces) + 1 >= MinPieces /\ \E k \in {"lone", "plusalone"} : AddMarker(k, "")
        \/ Finish
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
\* what ends entry j: the first later entry after which its marker is no longer the one open at that depth,
\* or which opens a marker afresh (0 if nothing does)
RECURSIVE EndFrom(_, _, _)
EndFrom(j, k, d) == IF k > Len(ents) THEN 0
                    ELSE IF ents[k].x \in {" ", ""} \/ Len(ents[k].cx) < d \/ ents[k].cx[d] # ents[j].m THEN k
                    ELSE EndFrom(j, k + 1, d)
Ends(j) == IF ents[j].x \in {" ", "+"} /\ ents[j].cx # <<>> /\ ents[j].m \notin Lines THEN EndFrom(j, j + 1, Len(ents[j].cx)) ELSE 0
Initial == IF ents = <<>> THEN "" ELSE SubSeq(text, 1, ents[1].i)
RECURSIVE Joined(_)
Joined(k) == IF k = 0 THEN "" ELSE Joined(k - 1) \o ents[k].w \o ents[k].t
\* nothing is lost: the pieces joined are the text, and every entry is where it says
AllThere == ents # <<>> => (Initial \o Joined(Len(ents)) = text /\ \A j \in 1..Len(ents) : SubSeq(text, ents[j].i + 1, ents[j].i + Len(ents[j].w)) = ents[j].w)
InOrder == \A j \in 1..Len(ents) : j > 1 => ents[j].i >= ents[j-1].i + Len(ents[j-1].w)
\* what is open grows and shrinks by one or starts again
Stacked == \A j \in 1..Len(ents) : Len(ents[j].cx) <= 1 \/ (j > 1 /\ Len(ents[j].cx) = Len(ents[j-1].cx) + (IF ents[j].x = "+" THEN 1 ELSE IF ents[j].x = "-" THEN 0 - 1 ELSE 99))
EndsLater == \A j \in 1..Len(ents) : Ends(j) = 0 \/ Ends(j) > j
Emitting == (Emit /\ done) => PrintT("@@" \o ToJson([text |-> text, ents |-> [j \in 1..Len(ents) |-> [m |-> ents[j].m, i |-> ents[j].i, x |-> ents[j].x, w |-> ents[j].w, cx |-> ents[j].cx, t |-> ents[j].t, e |-> Ends(j)]], init |-> Initial]))
=============================================================================
