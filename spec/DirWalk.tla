------------------------------ MODULE DirWalk ------------------------------
(***************************************************************************)
(* The algorithm of util.DirWalker: a queue of directories, one token per  *)
(* queued directory, workers, a wait group and the walking main process.   *)
(* The tree is chosen by TLC: directories 1..ND, directory 1 the root,     *)
(* parent[d] < d, and files[d] files in each.  Directory `bad` cannot be   *)
(* read; handlers ask for a stop as long as `stops` allows.                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS ND, NF, W, STOPS

Dirs == 1..ND
Workers == 1..W
VARIABLES parent, files, bad, \* the world
          queue, tokens,      \* queued directories; pending senders of newJob
          wg, pc, dir, rest,  \* wait group; per worker: state, directory, work left in it
          handled,            \* bag of handled things: <<d, 0>> the directory, <<d, i>> its files
          main, fin, err,     \* main process, fin closed, error
          stops               \* stop requests left
vars == <<parent, files, bad, queue, tokens, wg, pc, dir, rest, handled, main, fin, err, stops>>
world == <<parent, files, bad>>

Kids(d) == {e \in Dirs : e > 1 /\ parent[e] = d}
RECURSIVE SetToSeq(_)
SetToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o SetToSeq(S \ {x})
\* what is left to do in a directory: its files, then its sub-directories (their order does not matter here)
Work(d) == [i \in 1..files[d] |-> <<"file", i>>] \o [i \in 1..Cardinality(Kids(d)) |-> <<"dir", SetToSeq(Kids(d))[i]>>]

Init == /\ parent \in {p \in [Dirs -> 0..ND] : p[1] = 0 /\ \A d \in Dirs \ {1} : p[d] \in 1..(d - 1)}
        /\ files \in [Dirs -> 0..NF]
        /\ bad \in {0} \cup Dirs
        /\ queue = <<>> /\ tokens = 0 /\ wg = 0
        /\ pc = [w \in Workers |-> "idle"] /\ dir = [w \in Workers |-> 0] /\ rest = [w \in Workers |-> <<>>]
        /\ handled = [x \in Dirs \X (0..NF) |-> 0]
        /\ main = "start" /\ fin = FALSE /\ err = FALSE
        /\ stops \in 0..STOPS

(* ---- main ---- *)
Start == /\ main = "start" /\ main' = "send" /\ wg' = wg + 1 /\ queue' = Append(queue, 1)
         /\ UNCHANGED <<world, tokens, pc, dir, rest, handled, fin, err, stops>>
AllDone == /\ main = "wait" /\ wg = 0 /\ main' = "end"
           /\ UNCHANGED <<world, queue, tokens, wg, pc, dir, rest, handled, fin, err, stops>>
End == /\ main = "end" /\ fin' = TRUE /\ main' = "returned"
       /\ UNCHANGED <<world, queue, tokens, wg, pc, dir, rest, handled, err, stops>>

(* ---- workers ---- *)
\* receive a token from main or from a pending sender
Take(w) == /\ pc[w] = "idle"
           /\ \/ main = "send" /\ main' = "wait" /\ UNCHANGED tokens
              \/ tokens > 0 /\ tokens' = tokens - 1 /\ UNCHANGED main
           /\ pc' = [pc EXCEPT ![w] = "check"]
           /\ UNCHANGED <<world, queue, wg, dir, rest, handled, fin, err, stops>>
Check(w) == /\ pc[w] = "check"
            /\ IF fin THEN /\ pc' = [pc EXCEPT ![w] = "gone"] /\ UNCHANGED <<queue, dir>>
               ELSE /\ pc' = [pc EXCEPT ![w] = "read"]
                    /\ dir' = [dir EXCEPT ![w] = Head(queue)] /\ queue' = Tail(queue)
            /\ UNCHANGED <<world, tokens, wg, rest, handled, main, fin, err, stops>>
Quit(w) == /\ pc[w] = "idle" /\ fin /\ pc' = [pc EXCEPT ![w] = "gone"]
           /\ UNCHANGED <<world, queue, tokens, wg, dir, rest, handled, main, fin, err, stops>>
Read(w) == /\ pc[w] = "read"
           /\ IF dir[w] = bad THEN pc' = [pc EXCEPT ![w] = "stopbad"] /\ UNCHANGED <<rest, handled>>
              ELSE /\ pc' = [pc EXCEPT ![w] = "work"]
                   /\ rest' = [rest EXCEPT ![w] = Work(dir[w])]
                   /\ handled' = [handled EXCEPT ![<<dir[w], 0>>] = @ + 1]
           /\ UNCHANGED <<world, queue, tokens, wg, dir, main, fin, err, stops>>
\* a stop is received by the waiting main process, or given up when the walk has ended
StopBad(w) == /\ pc[w] = "stopbad"
              /\ \/ main = "wait" /\ main' = "end" /\ err' = TRUE
                 \/ fin /\ UNCHANGED <<main, err>>
              /\ pc' = [pc EXCEPT ![w] = "gone"]
              /\ UNCHANGED <<world, queue, tokens, wg, dir, rest, handled, fin, stops>>
StopReq(w) == /\ pc[w] = "work" /\ stops > 0 /\ stops' = stops - 1 /\ pc' = [pc EXCEPT ![w] = "stopping"]
              /\ UNCHANGED <<world, queue, tokens, wg, dir, rest, handled, main, fin, err>>
Stopping(w) == /\ pc[w] = "stopping"
               /\ \/ main = "wait" /\ main' = "end" /\ err' = TRUE
                  \/ fin /\ UNCHANGED <<main, err>>
               /\ pc' = [pc EXCEPT ![w] = "work"]
               /\ UNCHANGED <<world, queue, tokens, wg, dir, rest, handled, fin, stops>>
Work1(w) == /\ pc[w] = "work" /\ rest[w] # <<>>
            /\ LET x == Head(rest[w]) IN
               IF x[1] = "file" THEN handled' = [handled EXCEPT ![<<dir[w], x[2]>>] = @ + 1] /\ UNCHANGED <<queue, tokens, wg>>
               ELSE queue' = Append(queue, x[2]) /\ wg' = wg + 1 /\ tokens' = tokens + 1 /\ UNCHANGED handled
            /\ rest' = [rest EXCEPT ![w] = Tail(@)]
            /\ UNCHANGED <<world, pc, dir, main, fin, err, stops>>
Finish(w) == /\ pc[w] = "work" /\ rest[w] = <<>> /\ wg' = wg - 1 /\ pc' = [pc EXCEPT ![w] = "idle"]
             /\ UNCHANGED <<world, queue, tokens, dir, rest, handled, main, fin, err, stops>>

WorkerStep(w) == Take(w) \/ Check(w) \/ Quit(w) \/ Read(w) \/ StopBad(w) \/ StopReq(w) \/ Stopping(w) \/ Work1(w) \/ Finish(w)
Next == Start \/ AllDone \/ End \/ \E w \in Workers : WorkerStep(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(Start \/ AllDone \/ End) /\ \A w \in Workers : WF_vars(WorkerStep(w))

Once == \A x \in DOMAIN handled : handled[x] <= 1
Complete == main = "returned" /\ ~err => \A d \in Dirs : handled[<<d, 0>>] = 1 /\ \A i \in 1..files[d] : handled[<<d, i>>] = 1
QueueOk == \A w \in Workers : pc[w] = "check" /\ ~fin => queue # <<>>
Reported == main = "returned" /\ bad # 0 /\ (\A w \in Workers : pc[w] = "gone") => err
Returns == <>(main = "returned")
NoLeak == <>[](\A w \in Workers : pc[w] = "gone")
=============================================================================
