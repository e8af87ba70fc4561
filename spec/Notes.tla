-------------------------------- MODULE Notes --------------------------------
(* What is inside the text of one line.  The text is written piece by piece:  *)
(* words, character formatting, and fields that are lifted out of it - notes, *)
(* cross-references, figures, word attributes, verse labels and the like.     *)
(* What is kept is the text without the fields, the same without formatting,  *)
(* and one extra for each field, at the place where the field stood.          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Words,      \* [w, a, c] written, kept, kept without formatting (quotes, entities, spaces)
          CharMs,     \* character markers
          NestedMs,   \* whether they may be nested (\+nd)
          Callers,    \* of notes: "+", "-", letters, or none
          NoteBodies, \* sequences of [m, w, c]: marked parts of a note, as written and without markers
          OtherFields,\* <<marker, what it holds>> of figures and the like
          Attributed, \* <<word, attributes>>
          Nestable,   \* whether such words may stand within formatting
          MaxPieces, MinPieces, Line, Emit
VARIABLES text, adj, clean, extras, open, n, done
vars == <<text, adj, clean, extras, open, n, done>>
----------------------------------------------------------------------------
\* the fields: k marker, t type of extra, w as written, stay what stays in the text, s as stored, c without markers
TypeOf(m) == CASE m = "f" -> "fn" [] m = "fe" -> "en" [] m = "x" -> "xr" [] OTHER -> m
RECURSIVE PartsW(_, _)
PartsW(b, j) == IF j > Len(b) THEN "" ELSE (IF b[j].m = "" THEN "" ELSE "\\" \o b[j].m \o " ") \o b[j].w \o PartsW(b, j + 1)
RECURSIVE PartsC(_, _)
PartsC(b, j) == IF j > Len(b) THEN "" ELSE b[j].c \o PartsC(b, j + 1)
RECURSIVE RTrim(_)
RTrim(x) == IF x # "" /\ SubSeq(x, Len(x), Len(x)) = " " THEN RTrim(SubSeq(x, 1, Len(x) - 1)) ELSE x
Default(k) == IF k = "x" THEN "\\xt " ELSE "\\ft "     \* what a note that marks no part is taken to be
\* a note without a caller, or with the caller "-", gets the automatic caller
Caller(c) == IF c \in {"", "-"} THEN "+" ELSE c
\* "^" behind a caller: the first part of the note follows it without a space
NoteField(k, cc, b) == LET tight == cc \in {"+^", "-^"}
                           c == IF tight THEN SubSeq(cc, 1, 1) ELSE cc IN
  [k |-> k, t |-> TypeOf(k), stay |-> "",
   w |-> "\\" \o k \o " " \o (IF c = "" THEN "" ELSE c \o (IF tight /\ b[1].m # "" THEN "" ELSE " ")) \o PartsW(b, 1) \o "\\" \o k \o "*",
   s |-> RTrim(Caller(c) \o " " \o (IF b[1].m = "" THEN Default(k) ELSE "") \o PartsW(b, 1)),
   c |-> RTrim((IF Caller(c) = "+" THEN "" ELSE c \o " ") \o PartsC(b, 1))]
Holder(m, x) == [k |-> m, t |-> TypeOf(m), stay |-> "", w |-> "\\" \o m \o " " \o x \o "\\" \o m \o "*", s |-> x, c |-> x]
AttrField(a, nested) == LET m == IF nested THEN "+w" ELSE "w" IN
  [k |-> "w", t |-> "ww", stay |-> a[1], w |-> "\\" \o m \o " " \o a[1] \o "|" \o a[2] \o "\\" \o m \o "*", s |-> a[1] \o "|" \o a[2], c |-> a[1] \o "|" \o a[2]]
CrossRef(b) == b[1].m \in {"xo", "xt"}
\* without a caller something must be marked: the first word of a note is its caller
Written(c, b) == c # "" \/ b[1].m # ""
Fields(nested) ==
  {NoteField(k, y[1], y[2]) : k \in {"f", "fe"}, y \in {z \in Callers \X {x \in NoteBodies : ~CrossRef(x)} : Written(z[1], z[2])}}
  \cup {NoteField("x", y[1], y[2]) : y \in {z \in Callers \X {x \in NoteBodies : CrossRef(x) \/ x[1].m = ""} : Written(z[1], z[2])}}
  \cup {Holder(o[1], o[2]) : o \in OtherFields}
  \cup (IF nested /\ ~Nestable THEN {} ELSE {AttrField(a, nested) : a \in Attributed})
----------------------------------------------------------------------------
FPlain == Fields(FALSE)
FNested == Fields(TRUE)
Init == text = "" /\ adj = "" /\ clean = "" /\ extras = <<>> /\ open = <<>> /\ n = 0 /\ done = FALSE
More == ~done /\ n < MaxPieces /\ n' = n + 1 /\ UNCHANGED done
Word(w) == More /\ (n = 0 => SubSeq(w.w, 1, 1) # " ") /\ text' = text \o w.w /\ adj' = adj \o w.a /\ clean' = clean \o w.c /\ UNCHANGED <<extras, open>>
\* formatting stays in the text and is not in the clean text
Opening(m) == "\\" \o (IF open = <<>> THEN "" ELSE "+") \o m \o " "
OpenC(m) == /\ More /\ Len(open) < (IF NestedMs THEN 2 ELSE 1) /\ (\A i \in 1..Len(open) : open[i] # m)
            /\ text' = text \o Opening(m) /\ adj' = adj \o Opening(m) /\ open' = Append(open, m) /\ UNCHANGED <<clean, extras>>
Closing == "\\" \o (IF Len(open) = 1 THEN "" ELSE "+") \o open[Len(open)] \o "*"
CloseC == /\ ~done /\ open # <<>> /\ n' = n + 1 /\ UNCHANGED done
          /\ text' = text \o Closing /\ adj' = adj \o Closing /\ open' = SubSeq(open, 1, Len(open) - 1) /\ UNCHANGED <<clean, extras>>
\* a field leaves an extra behind; the word that carries attributes stays
Field(f) == /\ More /\ (\A i \in 1..Len(open) : open[i] # "w") /\ (f.k = "vp" => Line = "v" /\ \A i \in 1..Len(extras) : extras[i].t # "vp")
            /\ text' = text \o f.w /\ adj' = adj \o f.stay /\ clean' = clean \o f.stay
            /\ extras' = Append(extras, [t |-> f.t, i |-> Len(adj) + Len(f.stay), s |-> f.s, c |-> f.c, w |-> f.w, stay |-> Len(f.stay)])
            /\ UNCHANGED open
Finish == ~done /\ n >= MinPieces /\ open = <<>> /\ done' = TRUE /\ UNCHANGED <<text, adj, clean, extras, open, n>>
Next == (\E w \in Words : Word(w)) \/ (\E m \in CharMs : OpenC(m)) \/ CloseC \/ (\E f \in IF open = <<>> THEN FPlain ELSE FNested : Field(f)) \/ Finish
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
RECURSIVE PutBack(_, _)   \* every extra written back where it says it stood
PutBack(k, a) == IF k = 0 THEN a
                 ELSE PutBack(k - 1, SubSeq(a, 1, extras[k].i - extras[k].stay) \o extras[k].w \o SubSeq(a, extras[k].i + 1, Len(a)))
Plain == \A w \in Words : w.w = w.a
Restores == Plain => PutBack(Len(extras), adj) = text
InOrder == \A i \in 1..Len(extras) : extras[i].i <= Len(adj) /\ (i > 1 => extras[i-1].i <= extras[i].i)
\* what is kept ends without spaces
Adj == RTrim(adj)
Clean == SubSeq(clean, 1, Len(clean) - (Len(adj) - Len(Adj)))
NoFieldLeft == \A m \in {"\\f ", "\\f*", "\\x ", "\\x*", "\\fig", "\\ww"} : \A i \in 1..(Len(adj) - Len(m) + 1) : SubSeq(adj, i, i + Len(m) - 1) # m
Emitting == (Emit /\ done) => PrintT("@@" \o ToJson([text |-> text, adj |-> Adj, clean |-> Clean, extras |-> [i \in 1..Len(extras) |-> [t |-> extras[i].t, i |-> extras[i].i, s |-> extras[i].s, c |-> extras[i].c]]]))
=============================================================================
