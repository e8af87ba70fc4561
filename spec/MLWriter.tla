------------------------------ MODULE MLWriter ------------------------------
(* The markup writer: which document a history of calls writes.                *)
(* State: the options, the stack of open elements, the calls made so far and   *)
(* the document (a sequence of events: open, close, text, comment) they stand  *)
(* for.  The layout (indentation, line breaks) is no part of the document.     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Ops,       \* the calls to use
          Tags, Texts, Attrs, Options,
          MaxCalls, MinCalls, Sim, Emit
VARIABLES opt, calls, stack, doc, status
vars == <<opt, calls, stack, doc, status>>

\* ---- what special characters become in the file
ESC(c) == CASE c = "&" -> "&amp;" [] c = "<" -> "&lt;" [] c = ">" -> "&gt;" [] c = "\"" -> "&quot;" [] OTHER -> c
RECURSIVE Escape(_)
Escape(s) == IF s = "" THEN "" ELSE ESC(SubSeq(s, 1, 1)) \o Escape(SubSeq(s, 2, Len(s)))
\* reading an escaped text back
UNESC == [e \in {"&amp;", "&lt;", "&gt;", "&quot;"} |-> CASE e = "&amp;" -> "&" [] e = "&lt;" -> "<" [] e = "&gt;" -> ">" [] OTHER -> "\""]
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
RECURSIVE Unescape(_)
Unescape(s) == IF s = "" THEN ""
               ELSE IF \E e \in DOMAIN UNESC : StartsWith(s, e)
                    THEN LET e == CHOOSE e \in DOMAIN UNESC : StartsWith(s, e) IN UNESC[e] \o Unescape(SubSeq(s, Len(e) + 1, Len(s)))
                    ELSE SubSeq(s, 1, 1) \o Unescape(SubSeq(s, 2, Len(s)))
ASSUME \A x \in Texts : Unescape(Escape(x)) = x /\ \A i \in 1..Len(Escape(x)) : SubSeq(Escape(x), i, i) \notin {"<", ">", "\""}

\* is a text fit to be written as it is: special characters only as entities
Entities == {"quot", "apos", "lt", "gt", "amp"}
RECURSIVE Until(_)   \* the part of a text before its first semicolon (all of it if there is none)
Until(s) == IF s = "" \/ SubSeq(s, 1, 1) = ";" THEN "" ELSE SubSeq(s, 1, 1) \o Until(SubSeq(s, 2, Len(s)))
Fit(s) == \A i \in 1..Len(s) :
            LET c == SubSeq(s, i, i)
                rest == SubSeq(s, i + 1, Len(s))
            IN /\ c \notin {"<", ">", "\""}
               /\ c = "&" => (Until(rest) \in Entities /\ Len(Until(rest)) < Len(rest))
ASSUME \A x \in Texts : Fit(Escape(x))

\* ---- the document a call adds
O(t, a) == [e |-> "open", t |-> t, a |-> a]
C(t) == [e |-> "close", t |-> t, a |-> <<>>]
X(s) == [e |-> "text", t |-> s, a |-> <<>>]
K(s) == [e |-> "comment", t |-> s, a |-> <<>>]
Adds(c) == CASE c.o = "open"      -> <<O(c.t, c.a)>>
             [] c.o = "opentext"  -> <<O(c.t, c.a), X(c.x)>>
             [] c.o = "openclose" -> <<O(c.t, c.a), X(c.x), C(c.t)>>
             [] c.o = "markup"    -> <<O(c.t, c.a), X(c.x), O("i", <<>>), X("in"), C("i"), C(c.t)>>  \* text that already holds markup
             [] c.o = "selfclose" -> <<O(c.t, c.a), C(c.t)>>
             [] c.o = "text"      -> <<X(c.x)>>
             [] c.o = "comment"   -> <<K(c.x)>>
             [] c.o = "close"     -> <<C(stack[Len(stack)])>>
             [] OTHER             -> <<>>          \* newline, removenl, position, section, human
Stacks(c) == CASE c.o \in {"open", "opentext"} -> Append(stack, c.t)
               [] c.o = "close" -> SubSeq(stack, 1, Len(stack) - 1)
               [] OTHER -> stack
Enabled(c) == /\ stack = <<>> => (c.o \in {"newline", "position", "section", "human", "comment"} \/ (c.o \in {"open"} /\ ~\E i \in 1..Len(doc) : doc[i].e = "open"))
              /\ (c.o = "close") => stack # <<>>

Needs == [o \in Ops |-> CASE o \in {"open", "selfclose"} -> {"t", "a"} [] o \in {"opentext", "openclose", "markup"} -> {"t", "a", "x"} [] o \in {"text", "comment"} -> {"x"} [] OTHER -> {}]
AnyTag == CHOOSE t \in Tags : TRUE
NoAttr == <<>>
AnyText == CHOOSE t \in Texts : TRUE
CallsOf(o) == {c \in [o : {o}, t : (IF "t" \in Needs[o] THEN Tags ELSE {AnyTag}), a : (IF "a" \in Needs[o] THEN Attrs ELSE {NoAttr}),
                  x : (IF "x" \in Needs[o] THEN Texts ELSE {AnyText})] : TRUE}
ACall(o) == [o |-> o, t |-> (IF "t" \in Needs[o] THEN RandomElement(Tags) ELSE AnyTag), a |-> (IF "a" \in Needs[o] THEN RandomElement(Attrs) ELSE NoAttr),
             x |-> (IF "x" \in Needs[o] THEN RandomElement(Texts) ELSE AnyText)]
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S

Init == /\ opt \in Pick(Options) /\ calls = <<>> /\ stack = <<>> /\ doc = <<>> /\ status = "Open"
Do == /\ status = "Open" /\ Len(calls) < MaxCalls
      /\ \E o \in (IF Sim THEN {RandomElement(Ops)} ELSE Ops) :
         \E c \in (IF Sim THEN {ACall(o)} ELSE CallsOf(o)) :
           /\ Enabled(c)
           /\ calls' = Append(calls, c) /\ doc' = doc \o Adds(c) /\ stack' = Stacks(c)
      /\ UNCHANGED <<opt, status>>
Skip == Sim /\ status = "Open" /\ UNCHANGED vars
RECURSIVE ClosesOf(_)
ClosesOf(st) == IF st = <<>> THEN <<>> ELSE <<C(st[Len(st)])>> \o ClosesOf(SubSeq(st, 1, Len(st) - 1))
Finish == /\ status = "Open" /\ Len(calls) >= MinCalls /\ Len(calls) > 0 /\ \E i \in 1..Len(doc) : doc[i].e = "open"
          /\ \E how \in {"auto"} \cup (IF stack = <<>> THEN {"finish", "finishnl"} ELSE {}) :
               /\ calls' = Append(calls, [o |-> how, t |-> AnyTag, a |-> NoAttr, x |-> AnyText])
               /\ doc' = doc \o ClosesOf(stack)
               /\ stack' = <<>> /\ status' = "Closed"
               /\ (Emit => PrintT("@@" \o ToJson([opt |-> opt, calls |-> calls', doc |-> doc'])))
          /\ UNCHANGED opt
Done == status # "Open" /\ UNCHANGED vars
\* a mistake that would make the document ill-formed is refused (where the writer was told to stop at errors):
\* closing an element that isn't the innermost open one, ending while elements are open, or a text that isn't escaped
Wrong == {[o |-> "badclose", t |-> t, a |-> NoAttr, x |-> AnyText] :
             t \in IF stack = <<>> THEN Tags ELSE (Tags \cup {stack[i] : i \in 1..Len(stack)}) \ {stack[Len(stack)]}}
         \cup (IF stack # <<>> THEN {[o |-> "badfinish", t |-> AnyTag, a |-> NoAttr, x |-> AnyText]} ELSE {})
Refuse == /\ status = "Open" /\ Len(calls) >= MinCalls /\ Len(calls) > 0 /\ Wrong # {}
          /\ \E c \in Pick(Wrong) :
               /\ calls' = Append(calls, c) /\ status' = "Refused"
               /\ (Emit => PrintT("@@" \o ToJson([opt |-> opt, calls |-> calls', doc |-> doc])))
          /\ UNCHANGED <<opt, stack, doc>>
Next == Do \/ Skip \/ Finish \/ Refuse \/ Done
Spec == Init /\ [][Next]_vars

\* ---- the property, on the document
Run(s, e) == IF s.st = <<"BAD">> THEN s
             ELSE IF e.e = "open" THEN [st |-> Append(s.st, e.t), roots |-> s.roots + (IF s.st = <<>> THEN 1 ELSE 0)]
             ELSE IF e.e = "close" THEN [s EXCEPT !.st = IF @ # <<>> /\ @[Len(@)] = e.t THEN SubSeq(@, 1, Len(@) - 1) ELSE <<"BAD">>]
             ELSE IF e.e = "text" /\ s.st = <<>> THEN [s EXCEPT !.st = <<"BAD">>] ELSE s
RECURSIVE Read(_, _, _)
Read(d, i, s) == IF i > Len(d) THEN s ELSE Read(d, i + 1, Run(s, d[i]))
WellFormed == (Len(calls) % 8 = 0 \/ status = "Closed") =>
              LET r == Read(doc, 1, [st |-> <<>>, roots |-> 0]) IN r.st = stack /\ r.roots <= 1 /\ (status = "Closed" => r.st = <<>> /\ r.roots = 1)
=============================================================================
