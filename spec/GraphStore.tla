----------------------------- MODULE GraphStore -----------------------------
(***************************************************************************)
(* The triple store of pymantic.primitives.Graph (properties C01, C02).    *)
(*                                                                         *)
(* State: the held set of triples and the three nested indexes the         *)
(* implementation keeps in step with it.  One action per public mutator    *)
(* call; queries are actions that leave the state alone.  `last' is the    *)
(* observation of the call (operation, arguments, outcome).                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS S, P, O,          \* terms allowed in each position
          Free,              \* the unbound position of a pattern
          Batches           \* sets of triples used for bulk operations

VARIABLES held, spo, pos, osp, last

vars == <<held, spo, pos, osp, last>>

Triples  == S \X P \X O
Patterns == (S \cup {Free}) \X (P \cup {Free}) \X (O \cup {Free})

\* ---------------------------------------------------------------- indexes
Empty == [x \in {} |-> {}]

Keys(ix, a) == IF a \in DOMAIN ix THEN ix[a] ELSE Empty
Leaf(ix, a, b) == IF a \in DOMAIN ix /\ b \in DOMAIN ix[a] THEN ix[a][b] ELSE {}

IxAdd(ix, a, b, c) == (a :> ((b :> (Leaf(ix, a, b) \cup {c})) @@ Keys(ix, a))) @@ ix

Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

IxDel(ix, a, b, c) ==
    LET leaf  == Leaf(ix, a, b) \ {c}
        inner == IF leaf = {} THEN Drop(ix[a], b) ELSE [ix[a] EXCEPT ![b] = leaf]
    IN IF inner = Empty THEN Drop(ix, a) ELSE [ix EXCEPT ![a] = inner]

\* ---------------------------------------------------------------- abstract
Fits(t, pat) == \A i \in 1..3 : pat[i] = Free \/ pat[i] = t[i]
Matching(T, pat) == { t \in T : Fits(t, pat) }
Subjects(T)   == { t[1] : t \in T }
Predicates(T) == { t[2] : t \in T }
Objects(T)    == { t[3] : t \in T }

\* what the implementation does: pick an index by the bound positions
IndexMatch(pat) ==
    LET s == pat[1]  p == pat[2]  o == pat[3] IN
    CASE s # Free /\ p # Free /\ o # Free -> held \cap {pat}
      [] s # Free /\ p # Free /\ o = Free -> { <<s, p, x>> : x \in Leaf(spo, s, p) }
      [] s # Free /\ p = Free /\ o # Free -> { <<s, x, o>> : x \in Leaf(osp, o, s) }
      [] s # Free /\ p = Free /\ o = Free -> UNION { { <<s, x, y>> : y \in Leaf(spo, s, x) } : x \in DOMAIN Keys(spo, s) }
      [] s = Free /\ p # Free /\ o # Free -> { <<x, p, o>> : x \in Leaf(pos, p, o) }
      [] s = Free /\ p # Free /\ o = Free -> UNION { { <<y, p, x>> : y \in Leaf(pos, p, x) } : x \in DOMAIN Keys(pos, p) }
      [] s = Free /\ p = Free /\ o # Free -> UNION { { <<x, y, o>> : y \in Leaf(osp, o, x) } : x \in DOMAIN Keys(osp, o) }
      [] OTHER -> held

\* ---------------------------------------------------------------- actions
\* bulk insertion and removal, one triple at a time, as the code does it
RECURSIVE AddEach(_, _), DelEach(_, _)
AddEach(st, T) == IF T = {} THEN st ELSE
    LET t == CHOOSE x \in T : TRUE IN
    AddEach([held |-> st.held \cup {t},
             spo |-> IxAdd(st.spo, t[1], t[2], t[3]),
             pos |-> IxAdd(st.pos, t[2], t[3], t[1]),
             osp |-> IxAdd(st.osp, t[3], t[1], t[2])], T \ {t})
DelEach(st, T) == IF T = {} THEN st ELSE
    LET t == CHOOSE x \in T : TRUE IN
    DelEach([held |-> st.held \ {t},
             spo |-> IxDel(st.spo, t[1], t[2], t[3]),
             pos |-> IxDel(st.pos, t[2], t[3], t[1]),
             osp |-> IxDel(st.osp, t[3], t[1], t[2])], T \ {t})

Cur == [held |-> held, spo |-> spo, pos |-> pos, osp |-> osp]
Become(st) == /\ held' = st.held /\ spo' = st.spo /\ pos' = st.pos /\ osp' = st.osp
Same == UNCHANGED <<held, spo, pos, osp>>

Init == /\ held = {} /\ spo = Empty /\ pos = Empty /\ osp = Empty
        /\ last = [op |-> "init", arg |-> {}, res |-> "self"]

Add(t) == /\ Become(AddEach(Cur, {t}))
          /\ last' = [op |-> "add", arg |-> {t}, res |-> "self"]

AddAll(T) == /\ Become(AddEach(Cur, T))
             /\ last' = [op |-> "addAll", arg |-> T, res |-> "self"]

AddSelf == /\ Become(AddEach(Cur, held))
           /\ last' = [op |-> "addSelf", arg |-> {}, res |-> "self"]

Remove(t) == /\ t \in held
             /\ Become(DelEach(Cur, {t}))
             /\ last' = [op |-> "remove", arg |-> {t}, res |-> "self"]

RemoveAbsent(t) == /\ t \notin held
                   /\ Same
                   /\ last' = [op |-> "remove", arg |-> {t}, res |-> "KeyError"]

RemoveMatches(pat) == /\ Become(DelEach(Cur, IndexMatch(pat)))
                      /\ last' = [op |-> "removeMatches", arg |-> {pat}, res |-> "self"]

\* merge with a graph holding T; the run goes on with the result, the operands stay
Merge(T) == /\ Become(AddEach([held |-> {}, spo |-> Empty, pos |-> Empty, osp |-> Empty], held \cup T))
            /\ last' = [op |-> "merge", arg |-> T, res |-> "new"]

Next == \/ \E t \in Triples : Add(t) \/ Remove(t) \/ RemoveAbsent(t)
        \/ \E T \in Batches : AddAll(T) \/ Merge(T)
        \/ \E pat \in Patterns : RemoveMatches(pat)
        \/ AddSelf

Spec == Init /\ [][Next]_vars

\* ---------------------------------------------------------------- properties
TypeOK == held \subseteq Triples

\* C01: the indexes never disagree with the held set
IndexAgrees ==
    /\ held = UNION { UNION { { <<s, p, o>> : o \in spo[s][p] } : p \in DOMAIN spo[s] } : s \in DOMAIN spo }
    /\ held = UNION { UNION { { <<s, p, o>> : s \in pos[p][o] } : o \in DOMAIN pos[p] } : p \in DOMAIN pos }
    /\ held = UNION { UNION { { <<s, p, o>> : p \in osp[o][s] } : s \in DOMAIN osp[o] } : o \in DOMAIN osp }

\* C02: index-driven matching is exact, and the index keys are the listings
MatchExact == \A pat \in Patterns : IndexMatch(pat) = Matching(held, pat)
ListingsExact == /\ DOMAIN spo = Subjects(held)
                 /\ DOMAIN pos = Predicates(held)
                 /\ DOMAIN osp = Objects(held)

\* C01: action properties
Effect == [][ LET a == last' IN
    CASE a.op = "add" \/ a.op = "addAll" -> held' = held \cup a.arg
      [] a.op = "remove" /\ a.res = "self" -> held' = held \ a.arg
      [] a.op = "remove" /\ a.res = "KeyError" -> held' = held /\ a.arg \cap held = {}
      [] a.op = "removeMatches" -> held' = { t \in held : \A q \in a.arg : ~Fits(t, q) }
      [] a.op = "merge" -> held' = held \cup a.arg
      [] OTHER -> held' = held ]_vars
=============================================================================
