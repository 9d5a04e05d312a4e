---------------------------- MODULE MC_Sampling ----------------------------
(* All histories of requests up to a length; pos is the position of the      *)
(* generator, got what has been handed out so far.                           *)
EXTENDS Sampling, TLC, Json, IOUtils, SequencesExt, FiniteSets
CONSTANTS Depth, Counts
VARIABLES ops, pos, got
Stream == [i \in 1..(Depth * 5) |-> i]
Op == {[k |-> "one", n |-> 1]} \cup {[k |-> k, n |-> c] : k \in {"n", "iter"}, c \in Counts}
Init == ops = << >> /\ pos = 0 /\ got = << >>
Draw(op) == /\ Len(ops) < Depth
            /\ ops' = Append(ops, op)
            /\ pos' = pos + Size(op)
            /\ got' = Append(got, SubSeq(Stream, pos + 1, pos + Size(op)))
Next == \E op \in Op : Draw(op)
Consumed == pos = Total(ops)
OneAtATime == got = Returned(ops, Stream)
RECURSIVE Cat(_)
Cat(ss) == IF Len(ss) = 0 THEN << >> ELSE Head(ss) \o Cat(Tail(ss))
NothingLostOrRepeated == Cat(got) = SubSeq(Stream, 1, pos)
Histories == UNION {[1..n -> Op] : n \in 1..Depth}
ASSUME ndJsonSerialize(IOEnv.VERIF_OUT \o "/hist.in", SetToSeq({[ops |-> h] : h \in Histories}))
=============================================================================
