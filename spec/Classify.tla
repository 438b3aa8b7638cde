------------------------------ MODULE Classify ------------------------------
(* The registry of Python classes and the classification of nodes.           *)
(* reg: type -> class or "none"; a node has a set of types; Above(c): c and  *)
(* the classes it derives from.                                              *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANT Above(_)
ClassesFor(reg, types) == { reg[t] : t \in { u \in types : u \in DOMAIN reg } } \ {"none"}
\* a classified node is an instance of exactly these classes
InstanceOf(reg, types) == UNION { Above(c) : c \in ClassesFor(reg, types) }

(* The implementation's way: drop the classes others derive from, make a     *)
(* combined class when several are left, and keep it under a key.            *)
Minimal(reg, types) == { c \in ClassesFor(reg, types) : ~\E d \in ClassesFor(reg, types) : d # c /\ c \in Above(d) }
Key(reg, types) == <<types, Minimal(reg, types)>>
Made(reg, types) == UNION { Above(c) : c \in Minimal(reg, types) }
=============================================================================
