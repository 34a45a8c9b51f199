------------------------------- MODULE MC_Id -------------------------------
(* Announced lengths: 0 to 6 ids; acceptance is monotone in the bytes that   *)
(* follow; a copy does not change when the buffer does.                       *)
EXTENDS ConsensusId, TLC
Zeros(n) == [i \in 1..n |-> 0]
Bufs == {<<m>> \o Zeros(n) : m \in {0, 1, 4, 8, 16, 128, 136, 248, 255}, n \in {0, 31, 32, 33, 63, 64, 96, 191, 192, 193}}
Init == IdInit
Next == \/ \E b \in Bufs : New(b)
        \/ MakeCopy
        \/ CopyCopy
        \/ buf # <<>> /\ Scribble([i \in 1..Len(buf) |-> 85])
Spec == Init /\ [][Next]_idvars
Bounded == id[2] <= Len(buf) /\ (id[1] => (id[2] - 1) % 32 = 0 /\ id[2] \in 33..193)
CopyStable == [][(copy # <<>> /\ copy' # <<>> /\ buf' # buf) => copy' = copy]_idvars
ASSUME \A b \in Bufs : Accepts(b) => Accepts(b \o <<1>>) /\ Content(b \o <<1>>) = Content(b)
ASSUME \A b \in Bufs : Accepts(b) => ~Accepts(SubSeq(b, 1, Len(Content(b)) - 1))
=============================================================================
