------------------------------- MODULE Serial -------------------------------
(* Documents: what a serialised value looks like, which documents are        *)
(* readings of the value that was written, and which must be refused.        *)
(* A node is [k, names, kids, s]: kind (obj, arr, num, str, null, bool), the *)
(* names and nodes below it, and the text of a leaf.                         *)
EXTENDS Real, Sequences, Naturals, FiniteSets
Node(k, names, kids, s) == [k |-> k, names |-> names, kids |-> kids, s |-> s]
Num(s) == Node("num", <<>>, <<>>, s)
Str(s) == Node("str", <<>>, <<>>, s)
Null == Node("null", <<>>, <<>>, "")
Arr(kids) == Node("arr", <<>>, kids, "")
Obj(names, kids) == Node("obj", names, kids, "")

At(d, name) == CHOOSE i \in 1..Len(d.names) : d.names[i] = name
Named(d) == {d.names[i] : i \in 1..Len(d.names)}
Plain(d) == Cardinality(Named(d)) = Len(d.names)
\* "read": the document says what w says; "reject": it is malformed, seen from w;
\* "open": neither is demanded (names nobody asked for, a record written as a list, another number)
Worst(S) == IF "reject" \in S THEN "reject" ELSE IF "open" \in S THEN "open" ELSE "read"
RECURSIVE Verdict(_, _)
Verdict(w, d) ==
  CASE w.k = "num" -> IF d.k # "num" THEN "reject" ELSE IF REq(w.s, d.s) THEN "read" ELSE "open"
    [] w.k \in {"str", "bool"} -> IF d.k # w.k THEN "reject" ELSE IF d.s = w.s THEN "read" ELSE "open"
    [] w.k = "null" -> "open"
    [] w.k = "arr" ->
         IF d.k # "arr" THEN "reject" ELSE IF Len(d.kids) # Len(w.kids) THEN "reject"
         ELSE Worst({Verdict(w.kids[i], d.kids[i]) : i \in 1..Len(w.kids)})
    [] w.k = "obj" ->
         IF d.k = "arr" THEN (IF Len(d.kids) < Len(w.kids) THEN "reject" ELSE "open")
         ELSE IF d.k # "obj" THEN "reject"
         ELSE IF ~(Named(w) \subseteq Named(d)) THEN "reject"
         ELSE Worst({Verdict(w.kids[i], d.kids[At(d, w.names[i])]) : i \in 1..Len(w.kids)}
                    \cup (IF Plain(d) /\ Named(d) = Named(w) THEN {} ELSE {"open"}))
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
\* the leaves of d in the order w has them
RECURSIVE Leaves(_, _)
Leaves(w, d) ==
  CASE w.k = "arr" -> Cat([i \in 1..Len(w.kids) |-> Leaves(w.kids[i], d.kids[i])])
    [] w.k = "obj" -> Cat([i \in 1..Len(w.kids) |-> Leaves(w.kids[i], d.kids[At(d, w.names[i])])])
    [] OTHER -> <<d.s>>

\* ---- changing a document, at its root
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Reversed(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Damage(d) ==
  CASE d.k = "arr" -> {Arr(Without(d.kids, i)) : i \in 1..Len(d.kids)} \cup {Arr(Append(d.kids, x)) : x \in {Null, Num("1")}}
                      \cup (IF d.kids = <<>> THEN {} ELSE {Arr(<<Head(d.kids)>> \o d.kids)}) \cup {Null, Num("1"), Obj(<<>>, <<>>)}
    [] d.k = "obj" -> {Obj(Without(d.names, i), Without(d.kids, i)) : i \in 1..Len(d.names)} \cup {Null, Num("1"), Str("x")}
    [] OTHER -> {Null, Str(d.s), Arr(<<>>), Obj(<<>>, <<>>)}
Reorder(d) == IF d.k = "obj" THEN {Obj(Reversed(d.names), Reversed(d.kids))} ELSE {d}
\* ... and anywhere in it
RECURSIVE Anywhere(_, _)
Anywhere(Op(_), d) == Op(d) \cup UNION {{[d EXCEPT !.kids[i] = x] : x \in Anywhere(Op, d.kids[i])} : i \in 1..Len(d.kids)}
=============================================================================
