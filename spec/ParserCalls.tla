---------------------------- MODULE ParserCalls ----------------------------
(* Parse calls on shared parser objects.  A scenario is a sequence of       *)
(* calls [thr, kind, doc, sink]: doc is a sequence of lines, a line is      *)
(* [bad, st] with st its statements, a statement a sequence of term         *)
(* occurrences [t, v]: t = "l" (blank node label v), "a" (anonymous) or     *)
(* "c" (constant v).  kind "lines" takes effect line by line, "text" all at *)
(* once.  Calls of one thread follow each other, except that a call may be   *)
(* made within another one (by the stream it reads): within is the number   *)
(* of that call, or 0.  Those of different threads interleave line by line. *)
(*                                                                          *)
(* The first part says what calls must amount to; the machine below models  *)
(* the mechanism (a stack of label maps per thread, one per call) and TLC   *)
(* checks that under every interleaving it amounts to that.                 *)
EXTENDS Naturals, Sequences, FiniteSets

Ran(q) == { q[i] : i \in 1..Len(q) }

FirstBad(call) == LET B == { i \in 1..Len(call.doc) : call.doc[i].bad }
                  IN IF B = {} THEN 0 ELSE CHOOSE i \in B : \A j \in B : i <= j
Rejected(call) == FirstBad(call) # 0
\* the lines whose statements reach the sink
Lines(call) == IF ~Rejected(call) THEN 1..Len(call.doc)
               ELSE IF call.kind = "lines" THEN 1..(FirstBad(call) - 1) ELSE {}
\* <<call, line, statement>> that the calls put into a sink
Effect(cs, sink) ==
    { p \in UNION { UNION { { <<c, i, j>> : j \in 1..Len(cs[c].doc[i].st) } : i \in Lines(cs[c]) }
                    : c \in 1..Len(cs) } : cs[p[1]].sink = sink }
\* occurrence = <<call, line, statement, position>>: when do two denote the same node?
Occ(cs, o) == cs[o[1]].doc[o[2]].st[o[3]][o[4]]
Key(cs, o) == LET x == Occ(cs, o)
              IN CASE x.t = "c" -> <<"c", x.v>> [] x.t = "l" -> <<"l", x.v, o[1]>> [] OTHER -> <<"a", o>>
SameNode(cs, o1, o2) == Key(cs, o1) = Key(cs, o2)

-----------------------------------------------------------------------------
CONSTANTS Scenarios, Labels, Constants
VARIABLES sc, calls, pc, tls, buf, sinks, fresh, hist
vars == <<sc, calls, pc, tls, buf, sinks, fresh, hist>>
Calls == calls
None == 0          \* label not seen
Init == /\ sc \in 1..Len(Scenarios) /\ calls = Scenarios[sc]
        /\ pc = [c \in 1..Len(Calls) |-> 0]           \* -1 done: Len(doc)+2; failed: Len(doc)+3
        /\ tls = [t \in {Calls[c].thr : c \in 1..Len(Calls)} |-> <<>>]
        /\ buf = [c \in 1..Len(Calls) |-> {}]
        /\ sinks = [k \in {Calls[c].sink : c \in 1..Len(Calls)} |-> {}]
        /\ fresh = 1 /\ hist = <<>>
Over(c) == pc[c] > Len(Calls[c].doc) + 1
Failed(c) == pc[c] = Len(Calls[c].doc) + 3
MayBegin(c) == /\ pc[c] = 0
               /\ \A d \in 1..(c - 1) : Calls[d].thr = Calls[c].thr /\ d # Calls[c].within => Over(d)
               /\ Calls[c].within # 0 => pc[Calls[c].within] > 0
\* no call made within this one is under way
OnTop(c) == \A d \in 1..Len(Calls) : Calls[d].within = c => pc[d] = 0 \/ Over(d)
Top(t) == tls[t][Len(tls[t])]
Pop(t) == SubSeq(tls[t], 1, Len(tls[t]) - 1)

Begin(c) == /\ MayBegin(c)
            /\ tls' = [tls EXCEPT ![Calls[c].thr] = Append(@, [x \in Labels |-> None])]
            /\ pc' = [pc EXCEPT ![c] = 1]
            /\ UNCHANGED <<buf, sinks, fresh>>

\* the nodes of a line's occurrences, in order, given the label map
RECURSIVE Name(_, _, _)
Name(occ, map, n) ==      \* -> [nodes, map, n]
    IF occ = <<>> THEN [nodes |-> <<>>, map |-> map, n |-> n]
    ELSE LET x == Head(occ)
             isNew == x.t = "a" \/ (x.t = "l" /\ map[x.v] = None)
             node == IF x.t = "c" THEN <<"c", x.v>> ELSE <<"n", IF isNew THEN n ELSE map[x.v]>>
             r == Name(Tail(occ), IF x.t = "l" /\ isNew THEN [map EXCEPT ![x.v] = n] ELSE map,
                       IF isNew THEN n + 1 ELSE n)
         IN [r EXCEPT !.nodes = <<node>> \o @]
RECURSIVE Flat(_)
Flat(sts) == IF sts = <<>> THEN <<>> ELSE Head(sts) \o Flat(Tail(sts))
RECURSIVE Start(_, _)
Start(sts, j) == IF j = 1 THEN 0 ELSE Start(sts, j - 1) + Len(sts[j - 1])

Line(c) ==
    LET i == pc[c] line == Calls[c].doc[i] IN
    /\ i \in 1..Len(Calls[c].doc) /\ OnTop(c)
    /\ IF line.bad
       THEN /\ pc' = [pc EXCEPT ![c] = Len(Calls[c].doc) + 3]
            /\ tls' = [tls EXCEPT ![Calls[c].thr] = Pop(Calls[c].thr)]
            /\ UNCHANGED <<buf, sinks, fresh>>
       ELSE LET r == Name(Flat(line.st), Top(Calls[c].thr), fresh)
                new == { <<c, i, j, SubSeq(r.nodes, Start(line.st, j) + 1, Start(line.st, j) + Len(line.st[j]))>>
                         : j \in 1..Len(line.st) }
            IN /\ tls' = [tls EXCEPT ![Calls[c].thr] = Append(Pop(Calls[c].thr), r.map)]
               /\ fresh' = r.n
               /\ IF Calls[c].kind = "lines"
                  THEN sinks' = [sinks EXCEPT ![Calls[c].sink] = @ \cup new] /\ UNCHANGED buf
                  ELSE buf' = [buf EXCEPT ![c] = @ \cup new] /\ UNCHANGED sinks
               /\ pc' = [pc EXCEPT ![c] = i + 1]
Finish(c) == /\ pc[c] = Len(Calls[c].doc) + 1 /\ OnTop(c)
             /\ sinks' = [sinks EXCEPT ![Calls[c].sink] = @ \cup buf[c]]
             /\ pc' = [pc EXCEPT ![c] = Len(Calls[c].doc) + 2]
             /\ tls' = [tls EXCEPT ![Calls[c].thr] = Pop(Calls[c].thr)]
             /\ UNCHANGED <<buf, fresh>>
Next == \E c \in 1..Len(Calls) : /\ (Begin(c) \/ Line(c) \/ Finish(c))
                                 /\ hist' = Append(hist, c) /\ UNCHANGED <<sc, calls>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

AllOver == \A c \in 1..Len(Calls) : Over(c)
Held == UNION { sinks[k] : k \in DOMAIN sinks }
Scoped == \A a, b \in Held : \A i \in 1..Len(a[4]), j \in 1..Len(b[4]) :
            (a[4][i] = b[4][j]) <=> SameNode(Calls, <<a[1], a[2], a[3], i>>, <<b[1], b[2], b[3], j>>)
Effective == AllOver => \A k \in DOMAIN sinks : { SubSeq(a, 1, 3) : a \in sinks[k] } = Effect(Calls, k)
Rejects == \A c \in 1..Len(Calls) : Over(c) => (Failed(c) <=> Rejected(Calls[c]))
NothingEarly == \A c \in 1..Len(Calls) : Calls[c].kind = "text" /\ pc[c] # Len(Calls[c].doc) + 2 =>
                    \A a \in Held : a[1] # c
Terminates == <>AllOver
=============================================================================
