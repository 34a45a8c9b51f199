---------------------------- MODULE ConsensusId ----------------------------
(* A consensus id: a magic byte announcing 32-byte ids by its bits 7 to 4    *)
(* and a shard range of two ids by bit 3; bits 0 to 2 are reserved.           *)
EXTENDS Integers, Sequences
BitOf(m, b) == (m \div b) % 2
Announced(m) == 32 * (BitOf(m, 128) + BitOf(m, 64) + BitOf(m, 32) + BitOf(m, 16) + 2 * BitOf(m, 8))
Accepts(b) == /\ b # <<>>
              /\ b[1] # 0 /\ b[1] % 8 = 0
              /\ Len(b) >= 1 + Announced(b[1])
Content(b) == SubSeq(b, 1, 1 + Announced(b[1]))

VARIABLES buf,   \* the buffer given, as it is now
          id,    \* whether there is an id made of it, and its length
          copy   \* the bytes of the copy, or <<>>
idvars == <<buf, id, copy>>
IdInit == buf = <<>> /\ id = <<FALSE, 0>> /\ copy = <<>>
New(b) == /\ buf' = b /\ copy' = <<>>
          /\ id' = IF Accepts(b) THEN <<TRUE, Len(Content(b))>> ELSE <<FALSE, 0>>
Exposed == SubSeq(buf, 1, id[2])
MakeCopy == id[1] /\ copy' = Exposed /\ UNCHANGED <<buf, id>>
CopyCopy == copy # <<>> /\ UNCHANGED idvars
(* the owner of the buffer overwrites it *)
Scribble(newbuf) == buf' = newbuf /\ UNCHANGED <<id, copy>>
=============================================================================
