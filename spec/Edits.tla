-------------------------------- MODULE Edits --------------------------------
(* Texts near the grammar: every text that is EDITS token-level edits (cut,   *)
(* delete, repeat, replace, insert, swap) away from a base text.              *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Input == ndJsonDeserialize(IOEnv.EDITS_INPUT)[1]     \* [bases |-> <<<<token, ..>>, ..>>, vocab |-> <<token, ..>>]
Max == atoi(IOEnv.EDITS)
VARIABLES base, toks, n
vars == <<base, toks, n>>

Init == /\ base \in 1..Len(Input.bases) /\ toks = Input.bases[base] /\ n = 0
L == Len(toks)
Cut(k) == toks' = SubSeq(toks, 1, k)
Tail0(k) == toks' = SubSeq(toks, k + 1, L)
Delete(k) == toks' = SubSeq(toks, 1, k - 1) \o SubSeq(toks, k + 1, L)
Repeat(k) == toks' = SubSeq(toks, 1, k) \o SubSeq(toks, k, L)
Replace(k, v) == v # toks[k] /\ toks' = [toks EXCEPT ![k] = v]
Insert(k, v) == toks' = SubSeq(toks, 1, k) \o <<v>> \o SubSeq(toks, k + 1, L)
Swap(k) == k < L /\ toks[k] # toks[k + 1] /\ toks' = [toks EXCEPT ![k] = toks[k + 1], ![k + 1] = toks[k]]
Edit == \/ \E k \in 0..L - 1 : Cut(k) \/ Tail0(k)
        \/ \E k \in 1..L : \/ Delete(k) \/ Repeat(k) \/ Swap(k)
                           \/ \E v \in 1..Len(Input.vocab) : Replace(k, Input.vocab[v])
        \/ \E k \in 0..L : \E v \in 1..Len(Input.vocab) : Insert(k, Input.vocab[v])
\* one edit, drawn at random (for texts several edits away)
Draw == \E k \in {RandomElement(1..L)}, w \in {RandomElement(1..Len(Input.vocab))}, x \in {RandomElement(1..12)} : LET v == Input.vocab[w] IN
        CASE x = 1 -> Cut(k - 1) [] x = 2 -> Tail0(k - 1) [] x \in {3, 4, 5} -> Delete(k) [] x = 6 -> Repeat(k)
          [] x = 7 /\ k < L -> toks' = [toks EXCEPT ![k] = toks[k + 1], ![k + 1] = toks[k]]
          [] x \in {8, 9, 10} -> toks' = [toks EXCEPT ![k] = v] [] OTHER -> Insert(k, v)
NextRandom == n < Max /\ n' = n + 1 /\ base' = base /\ L > 0 /\ Draw
Next == n < Max /\ n' = n + 1 /\ base' = base /\ Edit
Out == (n > 0 \/ Max = 0) => PrintT("TEXT|" \o ToString(n) \o "|" \o ToString(base) \o "|" \o ToJson(toks))
=============================================================================
