---- MODULE Rules ----
(* Shared by every contract module: a rule is a condition that belongs to one or more
   properties of properties.jsonl. A run evaluates the rules of the properties in Props
   and names the ones that fail. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Props
\* register 7: where in the input the run is (only for messages)
ASSUME TLCSet(7, <<0, 0>>)
R(ps, name, cond) ==
    IF ps \cap Props = {} THEN TRUE
    ELSE IF cond THEN TRUE
    ELSE PrintT(<<"RULE", TLCGet(7), name, ps>>) /\ FALSE
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Has(e, f) == f \in DOMAIN e
====
