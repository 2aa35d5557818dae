----------------------------- MODULE ParseCache -----------------------------
(***************************************************************************)
(* The parse cache (parseutil.ParseCache): requests for keys, at most one  *)
(* parse per key, every request answered with the parse of its key.  The   *)
(* harness replays every complete schedule into the real cache, whose      *)
(* parser it controls.                                                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS NReq, NKeys

VARIABLES key,    \* the key each request asks for (0: not asked yet)
          got,    \* requests that have received their answer
          store,  \* per key: "none", "running", "done"
          parses, \* per key: number of parses started
          h       \* the schedule so far
vars == <<key, got, store, parses, h>>

Reqs == 1..NReq
Keys == 1..NKeys

Init == /\ key = [r \in Reqs |-> 0] /\ got = {} /\ store = [k \in Keys |-> "none"]
        /\ parses = [k \in Keys |-> 0] /\ h = <<>>

\* requests are symmetric: they are made in the order of their numbers
Request(r, k) ==
  /\ key[r] = 0 /\ \A q \in Reqs : q < r => key[q] # 0
  /\ key' = [key EXCEPT ![r] = k]
  /\ IF store[k] = "none" THEN /\ store' = [store EXCEPT ![k] = "running"]
                               /\ parses' = [parses EXCEPT ![k] = @ + 1]
     ELSE UNCHANGED <<store, parses>>
  /\ h' = Append(h, "q" \o ToString(r) \o " " \o ToString(k))
  /\ UNCHANGED got
Done(k) ==
  /\ store[k] = "running"
  /\ store' = [store EXCEPT ![k] = "done"]
  /\ h' = Append(h, "d0 " \o ToString(k))
  /\ UNCHANGED <<key, got, parses>>
Receive(r) ==
  /\ key[r] # 0 /\ r \notin got /\ store[key[r]] = "done"
  /\ got' = got \cup {r}
  /\ h' = Append(h, "r" \o ToString(r) \o " " \o ToString(key[r]))
  /\ UNCHANGED <<key, store, parses>>

Next == (\E r \in Reqs, k \in Keys : Request(r, k)) \/ (\E k \in Keys : Done(k)) \/ (\E r \in Reqs : Receive(r))
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

OneParse == \A k \in Keys : parses[k] <= 1
Parsed == \A r \in got : parses[key[r]] = 1 /\ store[key[r]] = "done"
AllAnswered == <>(got = Reqs)
Emit == (got = Reqs) => PrintT(<<"H", ToString(h), ToString(parses)>>)
=============================================================================
