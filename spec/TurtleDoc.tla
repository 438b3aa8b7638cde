----------------------------- MODULE TurtleDoc -----------------------------
(* What a Turtle document, given as code points, means: the terminals of    *)
(* TurtleLex read by the machine of Turtle, with references resolved as in  *)
(* RFC3986.                                                                 *)
EXTENDS Naturals, Sequences
R == INSTANCE RFC3986
L == INSTANCE TurtleLex
T == INSTANCE Turtle WITH Resolve <- R!Resolve
Read(base, text) == LET x == L!Lex(text) m == T!Meaning(T!Run(base, x.toks))
                    IN [ok |-> m.ok, amb |-> x.amb, out |-> m.out]
=============================================================================
