-------------------------------- MODULE Lru --------------------------------
(***************************************************************************)
(* The bounded cache (util.LruCache) and the ordered map (util.OrderedMap) *)
(* as sequential machines.  `st` is the sequence of live <<key, value>>    *)
(* pairs, least recently stored first.  Every transition is printed; the   *)
(* harness drives the real containers along all paths of the printed       *)
(* graph, and checks recorded concurrent histories of the cache against it *)
(* (a history must be one of its sequential paths).                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS NKeys, NVals, MaxCap, KINDS

VARIABLES kind, cap, clr, st
vars == <<kind, cap, clr, st>>

Keys == 1..NKeys
Vals == 1..NVals
Has(s, k) == \E i \in 1..Len(s) : s[i][1] = k
Val(s, k) == LET i == CHOOSE i \in 1..Len(s) : s[i][1] = k IN s[i][2]
Del(s, k) == SelectSeq(s, LAMBDA e : e[1] # k)
Min(a, b) == IF a < b THEN a ELSE b

\* how many elements are cleared when the cache is full
Eff == LET d == IF clr = 0 \/ clr > cap THEN cap \div 3 ELSE clr IN IF d < 1 THEN 1 ELSE d
Trim(s) == IF Len(s) + 1 > cap THEN SubSeq(s, Min(Eff, Len(s)) + 1, Len(s)) ELSE s

Say(op, k, v, t) == PrintT(<<"T", kind \o "|" \o ToString(cap) \o "|" \o ToString(clr) \o "|" \o ToString(st) \o "|" \o op \o "|" \o ToString(k) \o "|" \o ToString(v) \o "|" \o ToString(t)>>)

CacheSet(k, v) ==
  /\ kind = "lru"
  /\ LET t == IF Has(st, k) THEN Append(Del(st, k), <<k, v>>) ELSE Append(Trim(st), <<k, v>>) IN
     /\ Say("set", k, v, t)
     /\ st' = t
MapSet(k, v) ==
  /\ kind = "map"
  /\ LET t == Append(Del(st, k), <<k, v>>) IN Say("set", k, v, t) /\ st' = t
MapRemove(k) ==
  /\ kind = "map"
  /\ LET t == Del(st, k) IN Say("del", k, 0, t) /\ st' = t

Init == /\ kind \in KINDS
        /\ cap \in (IF kind = "lru" THEN 1..MaxCap ELSE {0})
        /\ clr \in (IF kind = "lru" THEN 0..(cap + 1) ELSE {0})
        /\ st = <<>>
Next == /\ \/ \E k \in Keys, v \in Vals : CacheSet(k, v) \/ MapSet(k, v)
           \/ \E k \in Keys : MapRemove(k)
        /\ UNCHANGED <<kind, cap, clr>>
Spec == Init /\ [][Next]_vars

(* ---- what the property says, checked on this machine ---- *)
Bounded == kind = "lru" => Len(st) <= cap
Unique == \A i, j \in 1..Len(st) : st[i][1] = st[j][1] => i = j
KeyOf(s) == [i \in 1..Len(s) |-> s[i][1]]
\* a set stores its value last; nothing is lost unless the cache was full, and then the least recently stored first
IsSuffix(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, Len(b) - Len(a) + 1, Len(b))
Stores == [][ \E k \in Keys :
                \/ /\ Len(st') > 0 /\ st'[Len(st')][1] = k
                   /\ LET old == Del(st, k)
                          new == SubSeq(st', 1, Len(st') - 1) IN
                      /\ IsSuffix(new, old)
                      /\ (kind = "map" \/ Has(st, k) \/ Len(st) < cap) => new = old
                \/ kind = "map" /\ st' = Del(st, k) ]_vars
=============================================================================
