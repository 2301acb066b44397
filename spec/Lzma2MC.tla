---- MODULE Lzma2MC ----
(* The chunk grammar of Lzma2 (a state machine) against its meaning: a chunk may rely only on what an earlier chunk
   of the stream established after the last dictionary reset. All sequences of chunk kinds up to MaxLen. *)
EXTENDS Lzma2, FiniteSets
CONSTANTS MaxLen, Bug     \* Bug: a seeded defect, "none" for none
Kinds == {0, 1, 2, 3, 127, 128, 160, 192, 224}
VARIABLES seq, g, ok, open      \* the chunks so far, the state machine, whether it accepted all of them, no end marker yet
vars == <<seq, g, ok, open>>
IsLzma(c) == c >= 128
NewProps(c) == IsLzma(c) /\ Mode(c) >= 2
NewState(c) == IsLzma(c) /\ Mode(c) >= 1
\* defects: a dictionary reset by a copy chunk keeps the old properties; new properties without a state reset
After(h, c) == IF Bug = "copy_keeps_props" /\ c = 1 THEN [h EXCEPT !.dict = FALSE]
               ELSE IF Bug = "props_only" /\ NewProps(c) THEN [GAfter(h, c) EXCEPT !.state = h.state \/ ResetsDict(c)]
               ELSE GAfter(h, c)
Init == seq = <<>> /\ g = G0 /\ ok = TRUE /\ open = TRUE
Next == \E c \in Kinds :
          /\ Len(seq) < MaxLen /\ ok /\ open
          /\ seq' = Append(seq, c) /\ ok' = GLegal(g, c) /\ g' = After(g, c) /\ open' = (c # 0)
Spec == Init /\ [][Next]_vars

\* meaning
LastReset(k) == IF \E i \in 1..k : ResetsDict(seq[i]) THEN CHOOSE i \in 1..k : ResetsDict(seq[i]) /\ \A j \in i + 1..k : ~ResetsDict(seq[j]) ELSE 0
Established(k, P(_)) == \E i \in 1..k : i >= LastReset(k) /\ P(seq[i])
LegalAt(k) == LET c == seq[k] IN
    \/ c = 0
    \/ /\ c \in {1, 2} \/ c >= 128
       /\ LastReset(k) > 0                                             \* matches and copies have a dictionary
       /\ IsLzma(c) => Established(k, NewProps) /\ Established(k, NewState)  \* properties and state are known
Meaning == ok <=> \A k \in 1..Len(seq) : LegalAt(k)
\* nothing is needed before a full reset, everything is needed at first
Sane == GLegal(g, 224) /\ GLegal(g, 1) /\ GLegal(g, 0) /\ (Len(seq) = 0 => \A c \in Kinds : GLegal(g, c) <=> c \in {0, 1, 224})
====
