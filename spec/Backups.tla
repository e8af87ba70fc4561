------------------------------- MODULE Backups -------------------------------
(* A file and its numbered backups, and what a backup taken before the file is *)
(* overwritten does.  file: the content of the file ("" = no such file),       *)
(* bak[k]: content of the k-th backup.  Each write makes a new content.        *)
(* A backup is a sequence of small steps, and may be cut off at any of them.   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxN,        \* number of backups asked for: 1..MaxN
          Slots,       \* backup places looked at
          MaxEvents, Crashes, Sim, Emit
VARIABLES file, bak, next, hist, start, keep
vars == <<file, bak, next, hist, start, keep>>
K == 1..Slots
None == 0

\* ---- the whole of a backup
AfterBackup(f, b, n) == IF f = None THEN b
                        ELSE [k \in K |-> IF k > n THEN b[k] ELSE IF k = 1 THEN f ELSE IF b[k - 1] # None \/ k < n THEN b[k - 1] ELSE b[k]]
\* ---- the same in small steps: places n, n-1, .. 1 in turn, <<f, b>> after the first s places were served
RECURSIVE Steps(_, _, _, _)
Steps(f, b, k, s) == IF f = None \/ s = 0 \/ k = 0 THEN <<f, b>>
                     ELSE IF k = 1 THEN (IF f = None THEN <<f, b>> ELSE <<None, [b EXCEPT ![1] = f]>>)
                     ELSE IF b[k - 1] = None THEN Steps(f, b, k - 1, s - 1)
                     ELSE Steps(f, [b EXCEPT ![k] = b[k - 1], ![k - 1] = None], k - 1, s - 1)
\* generations newest first
RECURSIVE Gens(_, _, _)
Gens(b, k, n) == IF k > n THEN <<>> ELSE (IF b[k] = None THEN <<>> ELSE <<b[k]>>) \o Gens(b, k + 1, n)
Generations(f, b, n) == (IF f = None THEN <<>> ELSE <<f>>) \o Gens(b, 1, n)
\* what no crash may lose: the file and all but the oldest place of the backups asked for
MustKeep(f, b, n) == IF f = None THEN Gens(b, 1, n) ELSE Generations(f, b, n - 1)
RECURSIVE IsSubseqOf(_, _)
IsSubseqOf(s, t) == IF s = <<>> THEN TRUE ELSE IF t = <<>> THEN FALSE
                    ELSE IsSubseqOf(IF s[1] = t[1] THEN SubSeq(s, 2, Len(s)) ELSE s, SubSeq(t, 2, Len(t)))

Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
Init == /\ \E present \in Pick([0..Slots -> BOOLEAN]) :
             /\ bak = [k \in K |-> IF present[k] THEN 100 + k ELSE None]
             /\ file = IF present[0] THEN 100 ELSE None
             /\ start = <<file, bak>>
        /\ next = 1 /\ hist = <<>> /\ keep = <<>>
Add(h) == hist' = Append(hist, h)
Write == file' = next /\ next' = next + 1 /\ keep' = <<>> /\ Add([e |-> "write", n |-> next]) /\ UNCHANGED <<bak, start>>
Remove == file # None /\ file' = None /\ keep' = <<>> /\ Add([e |-> "remove", n |-> 0]) /\ UNCHANGED <<bak, next, start>>
Backup == \E n \in Pick(1..MaxN) :
            /\ bak' = AfterBackup(file, bak, n) /\ file' = None /\ keep' = MustKeep(file, bak, n)
            /\ Add([e |-> "backup", n |-> n]) /\ UNCHANGED <<next, start>>
\* cut off: nothing more happens; what must be there still is the answer
Crash == \E n \in Pick(1..MaxN) : \E s \in Pick(0..n) :
            /\ Crashes /\ LET r == Steps(file, bak, n, s) IN file' = r[1] /\ bak' = r[2]
            /\ keep' = MustKeep(file, bak, n) /\ Add([e |-> "crash", n |-> n]) /\ UNCHANGED <<next, start>>
Over == Len(hist) > 0 /\ hist[Len(hist)].e \in {"crash", "end"}
End == /\ ~Over /\ Len(hist) > 0 /\ Add([e |-> "end", n |-> 0]) /\ UNCHANGED <<file, bak, next, start, keep>>
       /\ (Emit => PrintT("@@" \o ToJson([start |-> start, hist |-> hist, file |-> file, bak |-> bak, keep |-> keep])))
Next == \/ ~Over /\ Len(hist) < MaxEvents /\ (Write \/ Remove \/ Backup \/ (Crash /\ (Emit => PrintT("@@" \o ToJson([start |-> start, hist |-> hist', file |-> file, bak |-> bak, keep |-> keep'])))))
        \/ End
        \/ Over /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

\* ---- the property
LastWas(e) == Len(hist) > 0 /\ hist[Len(hist)].e = e
\* the newest generations are still there, in order, wherever the backup was cut off
NewestKept == (LastWas("crash") \/ LastWas("backup")) => LET n == hist[Len(hist)].n IN IsSubseqOf(keep, Generations(file, bak, Slots))
\* the finished backup is what all its small steps do
StepsAgree == \A n \in 1..MaxN : file # None => Steps(file, bak, n, n) = <<None, AfterBackup(file, bak, n)>>
\* the latest backup is what the file held; only places up to n change
NewestIsFirst == [][LastWas("backup") \/ Len(hist') = Len(hist) \/ hist'[Len(hist')].e # "backup"
                    \/ (file = None /\ bak' = bak) \/ (bak'[1] = file /\ \A k \in K : k > hist'[Len(hist')].n => bak'[k] = bak[k])]_vars
==============================================================================
