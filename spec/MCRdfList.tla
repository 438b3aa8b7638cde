---------------------------- MODULE MCRdfList ----------------------------
(* Every graph of up to N list cells over the members Kinds (numbers above   *)
(* 10: kinds of terms), cells and the empty list; walked from every cell.    *)
EXTENDS RdfList, Integers, FiniteSets, TLC, Json, IOUtils, CSV
CONSTANTS N, Kinds
VARIABLES first, rest, start, cur, out, steps
vars == <<first, rest, start, cur, out, steps>>
Init == first = <<>> /\ rest = <<>> /\ start = 0 /\ cur = 0 /\ out = <<>> /\ steps = -1
Make == /\ steps = -1
        /\ \E n \in 0..N : \E f \in [1..n -> Kinds \cup 0..n] : \E r \in { q \in [1..n -> 0..n] : WellFormed(q) } :
              /\ first' = f /\ rest' = r
              /\ start' \in 0..n /\ cur' = start'
        /\ out' = <<>> /\ steps' = 0
Step == /\ steps >= 0 /\ ~Done(cur)
        /\ out' = Append(out, Yield(first, cur)) /\ cur' = Advance(rest, cur) /\ steps' = steps + 1
        /\ UNCHANGED <<first, rest, start>>
Next == Make \/ Step
Spec == Init /\ [][Next]_vars
\* the walk gives what the list denotes, and ends within the cells there are
Walked == steps >= 0 => /\ out \o Members(first, rest, cur) = Members(first, rest, start)
                        /\ steps <= Len(first)
                        /\ (Done(cur) => out = Members(first, rest, start))
\* emitted once per graph
Emit == IF steps = 0 /\ start = 0
        THEN CSVWrite("%1$s", <<ToJson([f |-> first, r |-> rest, m |-> [i \in 1..Len(first) |-> Members(first, rest, i)]])>>, IOEnv.OUT)
        ELSE TRUE
=============================================================================
