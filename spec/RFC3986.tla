------------------------------ MODULE RFC3986 ------------------------------
(* References and their resolution (RFC 3986, sections 3, 5.2 and 5.3) over  *)
(* texts as sequences of code points.  Written from the RFC.                 *)
EXTENDS Naturals, Sequences

\* the first position from i on whose character is in S, or Len + 1
RECURSIVE Find(_, _, _)
Find(t, i, S) == IF i > Len(t) \/ t[i] \in S THEN i ELSE Find(t, i + 1, S)

Opt(has, v) == [has |-> has, v |-> v]
No == Opt(FALSE, <<>>)
Yes(v) == Opt(TRUE, v)
From(t, i) == SubSeq(t, i, Len(t))

(* scheme ":" "//" authority path "?" query "#" fragment *)
Split(t) ==
    LET f == Find(t, 1, {35})
        frag == IF f > Len(t) THEN No ELSE Yes(From(t, f + 1))
        t1 == SubSeq(t, 1, f - 1)
        q == Find(t1, 1, {63})
        query == IF q > Len(t1) THEN No ELSE Yes(From(t1, q + 1))
        t2 == SubSeq(t1, 1, q - 1)
        s == Find(t2, 1, {58, 47})
        scheme == IF s > Len(t2) \/ s = 1 THEN No ELSE IF t2[s] = 58 THEN Yes(SubSeq(t2, 1, s - 1)) ELSE No
        t3 == IF scheme.has THEN From(t2, s + 1) ELSE t2
        auth == Len(t3) >= 2 /\ t3[1] = 47 /\ t3[2] = 47
        a == Find(From(t3, 3), 1, {47})
    IN [scheme |-> scheme,
        authority |-> IF auth THEN Yes(SubSeq(From(t3, 3), 1, a - 1)) ELSE No,
        path |-> IF auth THEN From(From(t3, 3), a) ELSE t3,
        query |-> query, fragment |-> frag]

Join(r) == (IF r.scheme.has THEN r.scheme.v \o <<58>> ELSE <<>>)
        \o (IF r.authority.has THEN <<47, 47>> \o r.authority.v ELSE <<>>)
        \o r.path
        \o (IF r.query.has THEN <<63>> \o r.query.v ELSE <<>>)
        \o (IF r.fragment.has THEN <<35>> \o r.fragment.v ELSE <<>>)

Prefix(p, t) == Len(p) <= Len(t) /\ SubSeq(t, 1, Len(p)) = p
\* everything before the last slash
RECURSIVE Chop(_, _)
Chop(o, n) == IF n = 0 THEN <<>> ELSE IF o[n] = 47 THEN SubSeq(o, 1, n - 1) ELSE Chop(o, n - 1)
RECURSIVE LastSlash(_, _)
LastSlash(o, n) == IF n = 0 THEN 0 ELSE IF o[n] = 47 THEN n ELSE LastSlash(o, n - 1)

(* 5.2.4, the five steps in their order *)
RECURSIVE Dots(_, _)
Dots(i, o) ==
    CASE i = <<>> -> o
      [] Prefix(<<46, 46, 47>>, i) -> Dots(From(i, 4), o)
      [] Prefix(<<46, 47>>, i) -> Dots(From(i, 3), o)
      [] Prefix(<<47, 46, 47>>, i) -> Dots(From(i, 3), o)
      [] i = <<47, 46>> -> Dots(<<47>>, o)
      [] Prefix(<<47, 46, 46, 47>>, i) -> Dots(From(i, 4), Chop(o, Len(o)))
      [] i = <<47, 46, 46>> -> Dots(<<47>>, Chop(o, Len(o)))
      [] i \in {<<46>>, <<46, 46>>} -> o
      [] OTHER -> LET n == Find(i, 2, {47}) IN Dots(From(i, n), o \o SubSeq(i, 1, n - 1))
RemoveDots(p) == Dots(p, <<>>)

(* the same for absolute paths, by whole segments *)
RECURSIVE Segments(_)
Segments(p) == IF p = <<>> THEN <<>> ELSE LET n == Find(p, 2, {47}) IN <<SubSeq(p, 2, n - 1)>> \o Segments(From(p, n))
RECURSIVE Stack(_, _)
Stack(ss, st) ==
    IF ss = <<>> THEN st
    ELSE LET h == Head(ss) t == Tail(ss)
             up == IF st = <<>> THEN st ELSE SubSeq(st, 1, Len(st) - 1)
             end(x) == IF t = <<>> THEN Append(x, <<>>) ELSE x
         IN Stack(t, CASE h = <<46>> -> end(st) [] h = <<46, 46>> -> end(up) [] OTHER -> Append(st, h))
RECURSIVE Unsegment(_)
Unsegment(ss) == IF ss = <<>> THEN <<>> ELSE <<47>> \o Head(ss) \o Unsegment(Tail(ss))

Merge(b, p) == IF b.authority.has /\ b.path = <<>> THEN <<47>> \o p
               ELSE SubSeq(b.path, 1, LastSlash(b.path, Len(b.path))) \o p

(* 5.2.2; references that are absolute are taken as they are, and so is      *)
(* everything while there is no base.                                        *)
Resolve(base, ref) ==
    LET r == Split(ref) b == Split(base) IN
    IF r.scheme.has \/ base = <<>> THEN ref
    ELSE Join([scheme |-> b.scheme, fragment |-> r.fragment,
               authority |-> IF r.authority.has THEN r.authority ELSE b.authority,
               path |-> CASE r.authority.has -> RemoveDots(r.path)
                          [] r.path = <<>> -> b.path
                          [] r.path[1] = 47 -> RemoveDots(r.path)
                          [] OTHER -> RemoveDots(Merge(b, r.path)),
               query |-> IF ~r.authority.has /\ r.path = <<>> /\ ~r.query.has THEN b.query ELSE r.query])
=============================================================================
