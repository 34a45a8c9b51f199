------------------------------- MODULE Codec -------------------------------
(* The byte layout of keys, values, records, schemes and consensus times     *)
(* (design.md and the interface comments of src/util), and its decoders.      *)
(*                                                                            *)
(* key:    sequence of sub keys (byte sequences); <<>> is the empty key       *)
(* value:  <<"n", <<>>>> nil, <<"p", bytes>>, <<"a", values>>, <<"l", records>> *)
(* record: <<key, value, scheme value, time (8 bytes) or <<>>,                *)
(*          signature (64 bytes) or <<>>>>                                    *)
(* scheme: <<<<has, domain>>, <<has, tablet>>, <<has, buckets>>>>             *)
(* A decoder gives <<ok, consumed bytes, item>>.                              *)
EXTENDS Integers, Sequences, SequencesExt

Byte == 0..255
MaxKey == 4096
MaxValue == 57344
MaxScheme == 1024
MaxContent == 65535

Fail == <<FALSE, 0, <<>>>>

(* unsigned base-128 number, least significant group first *)
RECURSIVE Uvarint(_)
Uvarint(n) == IF n < 128 THEN <<n>> ELSE <<128 + (n % 128)>> \o Uvarint(n \div 128)

RECURSIVE DecUv(_, _, _, _)
DecUv(b, i, mult, acc) ==          \* from position i
  IF i > Len(b) \/ mult > 16777216 THEN Fail
  ELSE IF b[i] < 128 THEN <<TRUE, i, acc + b[i] * mult>>
  ELSE DecUv(b, i + 1, mult * 128, acc + (b[i] - 128) * mult)
DecUvarint(b) == DecUv(b, 1, 1, 0)

(* concatenation of a sequence of sequences, by halves *)
RECURSIVE Join(_, _, _)
Join(ss, i, j) == IF i > j THEN <<>> ELSE IF i = j THEN ss[i]
                  ELSE LET k == (i + j) \div 2 IN Join(ss, i, k) \o Join(ss, k + 1, j)
Flat(ss) == Join(ss, 1, Len(ss))

From(b, p) == SubSeq(b, p + 1, Len(b))         \* without the first p bytes
Varchar(s) == Uvarint(Len(s)) \o s
DecVarchar(b) ==
  LET u == DecUvarint(b)
  IN IF ~u[1] \/ u[3] > Len(b) - u[2] THEN Fail
     ELSE <<TRUE, u[2] + u[3], SubSeq(b, u[2] + 1, u[2] + u[3])>>

Varchars(ss) == Flat([i \in 1..Len(ss) |-> Varchar(ss[i])])
RECURSIVE DecVarchars(_, _, _, _)
DecVarchars(b, p, n, out) ==
  IF n = 0 THEN <<TRUE, p, out>>
  ELSE LET v == DecVarchar(From(b, p))
       IN IF ~v[1] THEN Fail ELSE DecVarchars(b, p + v[2], n - 1, Append(out, v[3]))

DecList(b) == LET u == DecUvarint(b)
              IN IF ~u[1] \/ u[3] > Len(b) - u[2] THEN Fail
                 ELSE DecVarchars(b, u[2], u[3], <<>>)

-----------------------------------------------------------------------------
EncKey(k) == Uvarint(Len(k)) \o Varchars(k)
DecKey(b) == IF b = <<>> THEN <<TRUE, 0, <<>>>> ELSE DecList(b)

(* length of the encoding, without building it *)
UvLen(n) == IF n < 128 THEN 1 ELSE IF n < 16384 THEN 2 ELSE IF n < 2097152 THEN 3 ELSE 4
KeyLen(k) == FoldLeft(LAMBDA acc, s : acc + UvLen(Len(s)) + Len(s), UvLen(Len(k)), k)
KeyFits(k) == KeyLen(k) <= MaxKey

-----------------------------------------------------------------------------
Opt(p, x) == IF p[1] THEN x ELSE <<>>
Bit(p, b) == IF p[1] THEN b ELSE 0
EncScheme(s) == <<Bit(s[1], 128) + Bit(s[2], 64) + Bit(s[3], 32)>>
                \o Opt(s[1], Varchar(s[1][2]))
                \o Opt(s[2], Varchar(s[2][2]))
                \o Opt(s[3], Uvarint(Len(s[3][2])) \o Varchars(s[3][2]))
Has(b, bit) == ((b \div bit) % 2) = 1
Absent == <<FALSE, <<>>>>
DecScheme(b) ==
  IF b = <<>> THEN Fail
  ELSE LET d == IF Has(b[1], 128) THEN DecVarchar(From(b, 1)) ELSE <<TRUE, 0, <<>>>>
           p1 == 1 + d[2]
           t == IF Has(b[1], 64) THEN DecVarchar(From(b, p1)) ELSE <<TRUE, 0, <<>>>>
           p2 == p1 + t[2]
           u == IF Has(b[1], 32) THEN DecList(From(b, p2)) ELSE <<TRUE, 0, <<>>>>
           Part(bit, x) == IF Has(b[1], bit) THEN <<TRUE, x[3]>> ELSE Absent
       IN IF ~d[1] \/ ~t[1] \/ ~u[1] THEN Fail
          ELSE <<TRUE, p2 + u[2], <<Part(128, d), Part(64, t), Part(32, u)>>>>

-----------------------------------------------------------------------------
NilVal == <<"n", <<>>>>

(* Empty byte strings, arrays and lists are all the nil value. *)
RECURSIVE NormVal(_), NormRec(_)
NormVal(v) ==
  IF v[1] = "n" \/ v[2] = <<>> THEN NilVal
  ELSE CASE v[1] = "p" -> v
         [] v[1] = "a" -> <<"a", [i \in 1..Len(v[2]) |-> NormVal(v[2][i])]>>
         [] v[1] = "l" -> <<"l", [i \in 1..Len(v[2]) |-> NormRec(v[2][i])]>>
NormRec(r) == <<r[1], NormVal(r[2]), NormVal(r[3]), r[4],
                IF r[4] = <<>> THEN <<>> ELSE r[5]>>      \* no signature without a time

(* sizes of encodings *)
LenField(n) == IF n = 0 THEN 0 ELSE IF n < 256 THEN 1 ELSE 2
RECURSIVE ValLen(_), RecLen(_), SumVal(_), SumRec(_)
SumVal(vs) == FoldLeft(LAMBDA acc, v : acc + ValLen(v), 0, vs)
SumRec(rs) == FoldLeft(LAMBDA acc, r : acc + RecLen(r), 0, rs)
ContentLen(v) == CASE v[1] = "n" -> 0
                   [] v[1] = "p" -> Len(v[2])
                   [] v[1] = "a" -> SumVal(v[2])
                   [] v[1] = "l" -> SumRec(v[2])
ValLen(v) == LET c == ContentLen(v)
             IN 1 + LenField(c) + c + (IF v[1] \in {"a", "l"} THEN LenField(Len(v[2])) ELSE 0)
PartLen(v) == IF v = NilVal THEN 0 ELSE ValLen(v)
RecLen(r) == 1 + (IF r[1] = <<>> THEN 0 ELSE KeyLen(r[1])) + PartLen(r[2]) + PartLen(r[3])
             + Len(r[4]) + Len(r[5])

(* whether an item is within all its limits, nested ones included *)
RECURSIVE ValFits(_), RecFits(_)
ValFits(v) == /\ ContentLen(v) <= MaxContent
              /\ v[1] = "a" => \A i \in 1..Len(v[2]) : ValFits(v[2][i])
              /\ v[1] = "l" => \A i \in 1..Len(v[2]) : RecFits(v[2][i])
RecFits(r) == /\ KeyFits(r[1])
              /\ ValFits(r[2]) /\ PartLen(r[2]) <= MaxValue
              /\ ValFits(r[3]) /\ PartLen(r[3]) <= MaxScheme

(* encodings of normalised items *)
Count(n) == IF n = 0 THEN <<>> ELSE IF n < 256 THEN <<n>> ELSE <<n \div 256, n % 256>>
RECURSIVE EncVal(_), EncRec(_), ConcatVal(_), ConcatRec(_)
ConcatVal(vs) == Flat([i \in 1..Len(vs) |-> EncVal(vs[i])])
ConcatRec(rs) == Flat([i \in 1..Len(rs) |-> EncRec(rs[i])])
EncVal(v) ==
  LET c == CASE v[1] = "n" -> <<>>
             [] v[1] = "p" -> v[2]
             [] v[1] = "a" -> ConcatVal(v[2])
             [] v[1] = "l" -> ConcatRec(v[2])
      n == IF v[1] \in {"a", "l"} THEN Len(v[2]) ELSE 0
      kind == IF v[1] = "a" THEN 64 ELSE 16
  IN <<LenField(n) * kind + LenField(Len(c))>> \o Count(n) \o Count(Len(c)) \o c
PartEnc(v) == IF v = NilVal THEN <<>> ELSE EncVal(v)
Flag(c, b) == IF c THEN b ELSE 0
RecMagic(r) == Flag(r[1] # <<>>, 64) + Flag(r[2] # NilVal, 32) + Flag(r[3] # NilVal, 16)
               + Flag(r[4] # <<>>, 4) + Flag(r[5] # <<>>, 2)
EncRec(r) == <<RecMagic(r)>> \o (IF r[1] = <<>> THEN <<>> ELSE EncKey(r[1]))
             \o PartEnc(r[2]) \o PartEnc(r[3]) \o r[4] \o r[5]

(* decoders *)
DecCount(b, p, width) ==
  IF width = 3 \/ Len(b) < p + width THEN Fail
  ELSE <<TRUE, p + width, IF width = 0 THEN 0 ELSE IF width = 1 THEN b[p + 1]
                          ELSE b[p + 1] * 256 + b[p + 2]>>
RECURSIVE DecVal(_), DecRec(_), DecVals(_, _, _, _), DecRecs(_, _, _, _)
DecVals(b, p, n, out) ==
  IF n = 0 THEN IF p = Len(b) THEN <<TRUE, p, out>> ELSE Fail
  ELSE LET v == DecVal(From(b, p))
       IN IF ~v[1] THEN Fail ELSE DecVals(b, p + v[2], n - 1, Append(out, v[3]))
DecRecs(b, p, n, out) ==
  IF n = 0 THEN IF p = Len(b) THEN <<TRUE, p, out>> ELSE Fail
  ELSE LET v == DecRec(From(b, p))
       IN IF ~v[1] THEN Fail ELSE DecRecs(b, p + v[2], n - 1, Append(out, v[3]))
DecVal(b) ==
  IF b = <<>> THEN Fail
  ELSE LET ab == b[1] \div 64
           lb == (b[1] \div 16) % 4
           n == DecCount(b, 1, IF ab # 0 THEN ab ELSE lb)
           c == DecCount(b, n[2], b[1] % 4)
           body == SubSeq(b, c[2] + 1, c[2] + c[3])
           e == IF ab # 0 THEN DecVals(body, 0, n[3], <<>>) ELSE DecRecs(body, 0, n[3], <<>>)
       IN IF (ab # 0 /\ lb # 0) \/ ((b[1] \div 4) % 4) # 0 THEN Fail
          ELSE IF ~n[1] THEN Fail ELSE IF ~c[1] THEN Fail
          ELSE IF c[2] + c[3] > Len(b) THEN Fail
          ELSE IF ab = 0 /\ lb = 0
               THEN <<TRUE, c[2] + c[3], IF body = <<>> THEN NilVal ELSE <<"p", body>>>>
          ELSE IF ~e[1] THEN Fail
          ELSE <<TRUE, c[2] + c[3], <<IF ab # 0 THEN "a" ELSE "l", e[3]>>>>
DecRec(b) ==
  IF b = <<>> THEN Fail
  ELSE LET k == IF Has(b[1], 64) THEN DecList(From(b, 1)) ELSE <<TRUE, 0, <<>>>>
           p1 == 1 + k[2]
           v == IF Has(b[1], 32) THEN DecVal(From(b, p1)) ELSE <<TRUE, 0, NilVal>>
           p2 == p1 + v[2]
           s == IF Has(b[1], 16) THEN DecVal(From(b, p2)) ELSE <<TRUE, 0, NilVal>>
           p3 == p2 + s[2]
           t == IF Has(b[1], 4) THEN 8 ELSE 0
           g == IF Has(b[1], 2) THEN 64 ELSE 0
       IN IF ~k[1] THEN Fail ELSE IF ~v[1] THEN Fail ELSE IF ~s[1] THEN Fail
          ELSE IF Len(b) < p3 + t + g THEN Fail
          ELSE <<TRUE, p3 + t + g,
                 <<k[3], v[3], s[3], SubSeq(b, p3 + 1, p3 + t), SubSeq(b, p3 + t + 1, p3 + t + g)>>>>

-----------------------------------------------------------------------------
(* consensus times: kind 1 has one field, kind 2 three; a field is the two   *)
(* 16-bit halves of a 32-bit number                                           *)
Half(x) == <<x \div 256, x % 256>>
RECURSIVE EncFields(_, _)
EncFields(fs, i) == IF i > Len(fs) THEN <<>>
                    ELSE Half(fs[i][1]) \o Half(fs[i][2]) \o EncFields(fs, i + 1)
EncTime(kind, fs) == <<kind>> \o EncFields(fs, 1)
=============================================================================
