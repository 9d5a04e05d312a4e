---------------------------- MODULE TraceSerial ----------------------------
(* Recorded writings and readings against Serial.  cur: what was written     *)
(* last (its document and its leaves).                                       *)
EXTENDS Serial, TraceBase
VARIABLE cur
Finite(v) == \A i \in 1..Len(v) : v[i] \notin {"inf", "-inf", "NaN"}
Is(r, v) == RIsSeq(r) /\ r = v
Says(r, m) == ~RIsSeq(r) /\ r = m
\* a range of integers with no last one, or no number of points, among the i64
Overflows(e) == /\ e.site = "uniform<i64>"
                /\ \/ RLe("9223372036854775807", e.args[2])
                   \/ RLt("9223372036854775807", e.args[1] ++ e.args[2])
BeginLaws(e) ==
  { <<"built", e.site, Len(e.orig) = Len(e.args) /\ \A i \in 1..Len(e.args) : REq(e.orig[i], e.args[i])>>,
    <<"same-in-binary", e.site, Is(e.binary, e.orig)>>,
    <<"same-in-binary", e.site \o " by width", Is(e.varint, e.orig)>>,
    <<"same-through-distribution", e.site, Says(e.via, "-") \/ Overflows(e) \/ Is(e.via, e.orig)>> }
  \cup (IF ~Finite(e.orig) THEN {} ELSE
  { <<"same-as-value", e.site, Is(e.value, e.orig)>>,
    <<"same-as-text", e.site, Is(e.text, e.orig) /\ Is(e.pretty, e.orig)>> })
BytesLaws(e) ==
  { <<"truncated", e.site, e.accepted = <<>>>>, <<"extended", e.site, Says(e.longer, "rejected")>> }
ReadLaws(e) ==
  LET v == Verdict(cur.doc, e.doc)
  IN { <<"malformed", e.site, v # "reject" \/ (Says(e.value, "rejected") /\ Says(e.text, "rejected"))>>,
       <<"same-reordered", e.site, v # "read" \/ (Is(e.value, cur.orig) /\ Is(e.text, cur.orig))>> }
Laws(e) == CASE e.ev = "begin" -> BeginLaws(e) [] e.ev = "bytes" -> BytesLaws(e) [] e.ev = "read" -> ReadLaws(e)
Init == l = 1 /\ cur = [doc |-> Null, orig |-> <<>>]
Next == /\ Consume(Broken(Laws(Ev)))
        /\ cur' = IF Ev.ev = "begin" THEN [doc |-> Ev.doc, orig |-> Ev.orig] ELSE cur
=============================================================================
