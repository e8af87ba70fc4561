------------------------------ MODULE Parallel ------------------------------
(* Loading the books of a Bible with several worker processes: the books that *)
(* have to be read are given out in folder order to workers, who finish in any *)
(* order; when all are finished their books are put into the Bible in folder   *)
(* order.  The outcome is that of reading them one after another.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Books,     \* the books of the folder in order
          Starts,    \* what a file may be at the start: 1, Blank
          Replacing, \* whether the library's replacing is among the operations before
          Workers,   \* possible numbers of workers (a set)
          MaxPre,    \* most operations before
          Emit, Sim
VARIABLES disk, mem, tried, needs, reads,    \* as in Lifecycle
          start, pre, phase, nw, queue, busy, done, order, final
vars == <<disk, mem, tried, needs, reads, start, pre, phase, nw, queue, busy, done, order, final>>
B == {Books[i] : i \in 1..Len(Books)}
Blank == 0 - 1
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
Want(b) == needs[b] \/ (mem[b] = 0 /\ ~tried[b])
Init == /\ start \in Pick([B -> Starts]) /\ disk = start /\ mem = [b \in B |-> 0] /\ tried = [b \in B |-> FALSE] /\ needs = tried /\ reads = mem
        /\ pre = <<>> /\ phase = "before" /\ nw \in Pick(Workers) /\ queue = <<>> /\ busy = [w \in 1..nw |-> ""] /\ done = <<>> /\ order = <<>> /\ final = <<>>
Loaded(S) == /\ mem' = [b \in B |-> IF b \in S /\ disk[b] # Blank THEN disk[b] ELSE mem[b]]
             /\ tried' = [b \in B |-> tried[b] \/ b \in S]
             /\ needs' = [b \in B |-> needs[b] /\ b \notin S]
             /\ reads' = [b \in B |-> reads[b] + (IF b \in S THEN 1 ELSE 0)]
\* the order of the books in the Bible: as first put there
Put(S) == order' = order \o SelectSeq(Books, LAMBDA b : b \in S /\ disk[b] # Blank /\ mem[b] = 0)
Before == phase = "before" /\ Len(pre) < MaxPre
Rest == UNCHANGED <<start, phase, nw, queue, busy, done, final>>
LoadBook == /\ Before /\ \E b \in Pick(B) : Want(b) /\ Loaded({b}) /\ Put({b}) /\ UNCHANGED disk /\ Rest /\ pre' = Append(pre, [op |-> "loadBook", b |-> b, v |-> 0])
Edit == /\ Before /\ \E b \in Pick(B) : disk[b] > 0 /\ disk[b] < 3 /\ disk' = [disk EXCEPT ![b] = @ + 1] /\ UNCHANGED <<mem, tried, needs, reads, order>> /\ Rest
                                        /\ pre' = Append(pre, [op |-> "edit", b |-> b, v |-> disk'[b]])
Replace == /\ Before /\ Replacing /\ \E b \in Pick(B) : disk[b] = 1 /\ disk' = [disk EXCEPT ![b] = 4] /\ needs' = [needs EXCEPT ![b] = TRUE] /\ UNCHANGED <<mem, tried, reads, order>> /\ Rest
                                        /\ pre' = Append(pre, [op |-> "replace", b |-> b, v |-> 4])
\* what loading one after another would give
Sequential == [b \in B |-> IF Want(b) /\ disk[b] # Blank THEN disk[b] ELSE mem[b]]
Go == /\ phase = "before" /\ (Sim => (Len(pre) = MaxPre \/ RandomElement(1..3) = 1))
      /\ phase' = "work" /\ queue' = SelectSeq(Books, Want) /\ final' = Sequential
      /\ UNCHANGED <<disk, mem, tried, needs, reads, start, pre, nw, busy, done, order>>
\* the idle workers are alike, so the first takes the next book
Take == /\ phase = "work" /\ queue # <<>>
        /\ \E w \in 1..nw : busy[w] = "" /\ (\A x \in 1..w-1 : busy[x] # "") /\ busy' = [busy EXCEPT ![w] = queue[1]]
        /\ queue' = Tail(queue) /\ UNCHANGED <<disk, mem, tried, needs, reads, start, pre, phase, nw, done, order, final>>
\* a worker finishes only when no idle worker could take another book (taking is immediate)
Finish == /\ phase = "work" /\ (queue = <<>> \/ \A w \in 1..nw : busy[w] # "")
          /\ \E w \in Pick({w \in 1..nw : busy[w] # ""}) :
                /\ done' = Append(done, busy[w]) /\ busy' = [busy EXCEPT ![w] = ""]
          /\ UNCHANGED <<disk, mem, tried, needs, reads, start, pre, phase, nw, queue, order, final>>
Stash == /\ phase = "work" /\ queue = <<>> /\ \A w \in 1..nw : busy[w] = ""
         /\ LET S == {done[i] : i \in 1..Len(done)} IN Loaded(S) /\ Put(S)
         /\ phase' = "after" /\ UNCHANGED <<disk, start, pre, nw, queue, busy, done, final>>
Next == LoadBook \/ Edit \/ Replace \/ Go \/ (phase = "work" /\ ENABLED Take /\ Take) \/ Finish \/ Stash
Spec == Init /\ [][Next]_vars
Same == phase = "after" => mem = final
OnceEach == phase = "after" => /\ \A i, j \in 1..Len(order) : order[i] = order[j] => i = j
                               /\ {order[i] : i \in 1..Len(order)} = {b \in B : mem[b] > 0}
NothingLeft == phase = "after" => \A b \in B : ~Want(b)
Emitting == phase = "after" => (Emit => PrintT("@@" \o ToJson([start |-> start, pre |-> pre, nw |-> nw, done |-> done, mem |-> mem, order |-> order, reads |-> reads])))
=============================================================================
