------------------------------ MODULE DirTrace ------------------------------
(***************************************************************************)
(* What a walk of a directory tree may look like from outside: the handler *)
(* is started (S) and ends (E) for each path, a stop is asked for (X), the *)
(* walk returns (R).  Recorded traces are checked against it: a trace is   *)
(* accepted if all its events are possible and the walk is complete.       *)
(*                                                                         *)
(* A trace is a record: tree (sequence of nodes [dir, par, prev]: is it a  *)
(* directory, its directory, the file handled before it in that directory, *)
(* 0 if none), workers, errs (a directory is unreadable), events           *)
(* (sequence of <<name, node>>).                                           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Traces

VARIABLES tr, i, run, done, stopped, returned, doneAtR
vars == <<tr, i, run, done, stopped, returned, doneAtR>>

T == TraceSeq[tr]
N == Len(T.tree)

Init == /\ tr \in 1..Len(TraceSeq) /\ i = 1 /\ run = {} /\ done = {} /\ stopped = FALSE /\ returned = FALSE /\ doneAtR = {}

\* the node whose handler runs in the worker that handles this node's directory
Group(n) == IF T.tree[n].dir THEN n ELSE T.tree[n].par

StartOk(n) ==
  /\ n \in 1..N                                          \* a path of the tree
  /\ n \notin (run \cup done)
  /\ Cardinality(run) < T.workers
  /\ \A m \in run : Group(m) # Group(n)                 \* one worker handles a directory and its files, one after the other
  /\ T.tree[n].par # 0 => T.tree[n].par \in done         \* a directory before what it contains
  /\ (~T.tree[n].dir /\ T.tree[n].prev # 0) => T.tree[n].prev \in done  \* files in order
  /\ returned => /\ stopped
                 /\ T.tree[n].dir => T.tree[n].par \in doneAtR \cup {0}  \* nothing that was not scheduled
ReturnOk(e) == IF e = "R" THEN ~T.errs /\ run = {} /\ done = 1..N        \* without an error: all of it
               ELSE stopped \/ T.errs                                     \* with an error: somebody asked for it

Event == T.events[i]
Step ==
  /\ i <= Len(T.events)
  /\ i' = i + 1
  /\ UNCHANGED tr
  /\ CASE Event[1] = "S" -> StartOk(Event[2]) /\ run' = run \cup {Event[2]} /\ UNCHANGED <<done, stopped, returned, doneAtR>>
       [] Event[1] = "E" -> Event[2] \in run /\ run' = run \ {Event[2]} /\ done' = done \cup {Event[2]} /\ UNCHANGED <<stopped, returned, doneAtR>>
       [] Event[1] = "X" -> stopped' = TRUE /\ UNCHANGED <<run, done, returned, doneAtR>>
       [] Event[1] \in {"R", "RE"} -> ReturnOk(Event[1]) /\ ~returned /\ returned' = TRUE /\ doneAtR' = done
                                      /\ stopped' = (stopped \/ T.errs) /\ UNCHANGED <<run, done>>
Next == Step
Spec == Init /\ [][Next]_vars

Accept == (i > Len(T.events) /\ returned /\ run = {}) => PrintT(<<"A", ToString(tr)>>)
\* for diagnosis: how far each trace goes
Far == i > 1 => PrintT(<<"F", ToString(tr) \o " " \o ToString(i)>>)
=============================================================================
