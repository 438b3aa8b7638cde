----------------------------- MODULE MCIriNorm -----------------------------
(* All short IRIs over pieces chosen to reach every case of the encoding;    *)
(* the specification's own laws, and every answer for replay.                *)
EXTENDS IriNorm, TLC, Json, IOUtils, CSV
CONSTANTS N, Deep
VARIABLES w, n
P(h, l) == <<37, h, l>>
U(b) == P(HexUp(b \div 16), HexUp(b % 16))
Bytes == { 65, 126, 47, 37, 32, 10, 127, 60, 195, 169, 226, 130, 172, 237, 160, 128, 192 }
         \cup (IF Deep THEN { 240, 159, 152, 144, 244, 143, 193, 245, 255, 224 } ELSE {240, 159})
Pieces == { U(b) : b \in Bytes } \cup { P(50, 102), P(99, 51), P(48, 97), P(97, 57) }   \* lower case
          \cup { <<97>>, <<47>>, <<233>>, <<8364>> } \cup (IF Deep THEN { <<65>>, <<57>>, <<128512>> } ELSE {})
Init == w = <<>> /\ n = 0
Next == n < N /\ n' = n + 1 /\ \E p \in Pieces : w' = w \o p
Spec == Init /\ [][Next]_<<w, n>>
Laws == /\ WellFormed(w) /\ WellFormed(Norm(w))
        /\ Norm(Norm(w)) = Norm(w)
        /\ LegalUri(Quote(w)) /\ LegalUri(Quote(Norm(w)))
        /\ Canon(Quote(Norm(w))) = Canon(Quote(w))
Emit == CSVWrite("%1$s", <<ToJson(<<w, Norm(w), Quote(w)>>)>>, IOEnv.OUT)
=============================================================================
