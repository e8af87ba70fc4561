------------------------------- MODULE Markers -------------------------------
(* The classes of USFM markers the library distinguishes when it processes a  *)
(* book.  In this specification an end marker is written "/x" (the library    *)
(* writes the not sign), and the whole-book chapter label "cl$".              *)
EXTENDS Sequences, Naturals, TLC

Numbered(root, n) == {root \o ToString(i) : i \in 1..n}

\* markers that mean level 1 when they carry no level
StdMap == [q |-> "q1", s |-> "s1", ms |-> "ms1", mt |-> "mt1", is |-> "is1", io |-> "io1", ili |-> "ili1",
           li |-> "li1", pi |-> "pi1", ph |-> "ph1", qm |-> "qm1", imt |-> "imt1", iq |-> "iq1", mte |-> "mte1", imte |-> "imte1",
           lim |-> "lim1", sd |-> "sd1"]
Std(m) == IF m \in DOMAIN StdMap THEN StdMap[m] ELSE m

IntroPlain == {"ip", "ipi", "im", "imi", "ipq", "imq", "ipr", "iot", "iex", "iqt"}
IntroMarkers == IntroPlain \cup Numbered("imt", 4) \cup Numbered("imte", 4) \cup Numbered("is", 4)
                \cup Numbered("iq", 4) \cup Numbered("io", 4) \cup Numbered("ili", 4)
Outline == Numbered("io", 4)
IntroList == Numbered("ili", 4)
Heading == Numbered("s", 4) \cup Numbered("is", 4) \cup {"sr", "mr", "qa", "qc"}
HeadingBlock == Numbered("ms", 4)
MainList == Numbered("li", 4)
\* paragraph markers that contain verses and so get an end marker
Para == {"p", "pc", "pr", "m", "mi", "pm", "pmo", "pmc", "pmr", "cls", "qr"} \cup Numbered("pi", 4)
        \cup Numbered("ph", 4) \cup Numbered("q", 4) \cup Numbered("qm", 4) \cup MainList
\* paragraph markers whose text is split off into a p~ line
ParaSplit == Para \cup {"po", "nb", "lh", "lf", "qd", "b"} \cup Numbered("lim", 4)
NeverText == {"ib", "nb", "b", "pb", "sd1"}
AllBiblePara == Para \cup (IntroPlain) \cup Numbered("iq", 4) \cup Numbered("io", 4) \cup Numbered("ili", 4)
                \cup {"p", "q", "pi", "ph", "qm", "li"}

\* containers the verse index remembers as context
NestingMarkers == {"c", "v", "headers", "intro", "ilist", "chapters", "list", "iot"} \cup Para \cup Numbered("ms", 3)
ContextMarkers == (NestingMarkers \cup HeadingBlock) \ {"v"}
EndMarkers == {"/" \o m : m \in NestingMarkers \cup HeadingBlock}
IsEnd(m) == Len(m) > 1 /\ SubSeq(m, 1, 1) = "/"
EndOf(m) == SubSeq(m, 2, Len(m))
=============================================================================
