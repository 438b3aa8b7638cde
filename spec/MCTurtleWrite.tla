--------------------------- MODULE MCTurtleWrite ---------------------------
(* Every text can be written in each of the quoting styles, and as local     *)
(* name or IRI, and is read back as itself: a check of TurtleLex.            *)
EXTENDS TurtleLex, TLC
VARIABLE txt
CONSTANT N
Chars == {34, 39, 92, 10, 13, 97, 37, 46, 95, 58, 233, 128512, 48, 45}
Init == txt = <<>>
Next == Len(txt) < N /\ \E c \in Chars : txt' = Append(txt, c)
Spec == Init /\ [][Next]_txt
RECURSIVE Each(_, _)
Hex8(c) == LET h(n) == LET d == (c \div n) % 16 IN IF d < 10 THEN 48 + d ELSE 55 + d
           IN <<92, 85, h(268435456), h(16777216), h(1048576), h(65536), h(4096), h(256), h(16), h(1)>>
Ech(c) == CASE c = 10 -> <<92, 110>> [] c = 13 -> <<92, 114>> [] c \in {34, 39, 92} -> <<92, c>> [] OTHER -> <<c>>
Esc(style, c) == CASE style = "u" -> Hex8(c)
                   [] style = "local" -> IF PnU(c) \/ Digit(c) \/ c = 58 THEN <<c>> ELSE <<92, c>>
                   [] style = "raw" -> IF c = 92 THEN <<92, 92>> ELSE <<c>>
                   [] OTHER -> Ech(c)
Each(style, t) == IF t = <<>> THEN <<>> ELSE Esc(style, Head(t)) \o Each(style, Tail(t))
Only(k, v, w, text) == LET r == Lex(text) IN r.toks = <<Tok(k, v, w)>> /\ ~r.amb
Plain == <<"", <<>>>>
Quotes == \A q \in {<<34>>, <<39>>, <<34, 34, 34>>, <<39, 39, 39>>} : \A style \in {"e", "u"} :
              Only("lit", txt, Plain, q \o Each(style, txt) \o q)
\* unescaped in long quotes, where no quote meets another or the end
Long == \A q \in {34, 39} : (\A i \in 1..Len(txt) : txt[i] = q => i < Len(txt) /\ txt[i + 1] # q)
              => Only("lit", txt, Plain, <<q, q, q>> \o Each("raw", txt) \o <<q, q, q>>)
Iris == (\A i \in 1..Len(txt) : IriChar(txt[i])) => Only("rel", txt, <<>>, <<60>> \o Each("u", txt) \o <<62>>)
              /\ Only("rel", txt, <<>>, <<60>> \o txt \o <<62>>)
Locals == (txt # <<>> /\ \A i \in 1..Len(txt) : txt[i] \notin {34, 92, 10, 13}) => Only("pn", <<97>>, txt, <<97, 58>> \o Each("local", txt))
Tagged == Only("lit", txt, <<"lang", <<97>>>>, <<34>> \o Each("e", txt) \o <<34, 64, 97>>)
=============================================================================
