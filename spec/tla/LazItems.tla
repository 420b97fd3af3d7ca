------------------------------ MODULE LazItems ------------------------------
(* The items of the LASzip format: types, sizes, versions, which ones each   *)
(* point format is made of, and the record of the LASzip VLR, byte by byte.  *)
(* An item is <<type, size, version>>.                                       *)
EXTENDS Integers, Sequences, FiniteSets

Byte == 0        Point10 == 6   GpsTime11 == 7   RGB12 == 8   Wave13 == 9
Point14 == 10    RGB14 == 11    RGBNIR14 == 12   Wave14 == 13 Byte14 == 14

KnownTypes == {Byte} \cup (Point10..Byte14)
PointWiseTypes == {Byte, Point10, GpsTime11, RGB12, Wave13}

(* the size of an item, 0 for the types of any size                          *)
SizeOf(t) == CASE t = Point10 -> 20 [] t = GpsTime11 -> 8 [] t = RGB12 -> 6
               [] t = Wave13 -> 29 [] t = Point14 -> 30 [] t = RGB14 -> 6
               [] t = RGBNIR14 -> 8 [] t = Wave14 -> 29 [] OTHER -> 0

(* the versions this library implements (a version 2 of Wave13 does not      *)
(* exist in LASzip; older versions of this library wrote it, meaning 1)      *)
Versions(t) == IF t \in PointWiseTypes THEN {1, 2} ELSE {3, 4}

SizeFits(it) == SizeOf(it[1]) = 0 \/ it[2] = SizeOf(it[1])
Supported(it) == it[1] \in KnownTypes /\ it[3] \in Versions(it[1]) /\ SizeFits(it)

(* ---- point formats ------------------------------------------------------ *)
Formats == 0..10
HasGps(f) == f \in {1, 3, 4, 5}
HasRgb(f) == f \in {2, 3, 5, 7}
HasNir(f) == f \in {8, 10}
HasWave(f) == f \in {4, 5, 9, 10}

If(b, s) == IF b THEN s ELSE <<>>

(* extra bytes come last; version 2 of Wave13 does not exist                 *)
ItemsOf(f, ver, eb) ==
  IF f < 6
  THEN <<<<Point10, 20, ver>>>> \o If(HasGps(f), <<<<GpsTime11, 8, ver>>>>)
       \o If(HasRgb(f), <<<<RGB12, 6, ver>>>>) \o If(HasWave(f), <<<<Wave13, 29, 1>>>>)
       \o If(eb > 0, <<<<Byte, eb, ver>>>>)
  ELSE <<<<Point14, 30, ver>>>> \o If(HasRgb(f), <<<<RGB14, 6, ver>>>>)
       \o If(HasNir(f), <<<<RGBNIR14, 8, ver>>>>) \o If(HasWave(f), <<<<Wave14, 29, ver>>>>)
       \o If(eb > 0, <<<<Byte14, eb, ver>>>>)

VersionsOf(f) == IF f < 6 THEN {1, 2} ELSE {3, 4}
DefaultVersion(f) == IF f < 6 THEN 2 ELSE 3
CompressorOf(ver) == IF ver < 3 THEN 2 ELSE 3

RECURSIVE SumSizes(_)
SumSizes(l) == IF l = <<>> THEN 0 ELSE Head(l)[2] + SumSizes(Tail(l))

(* the size of a record of the point format in the LAS specification         *)
RecordSize(f) == CASE f = 0 -> 20 [] f = 1 -> 28 [] f = 2 -> 26 [] f = 3 -> 34 [] f = 4 -> 57
                   [] f = 5 -> 63 [] f = 6 -> 30 [] f = 7 -> 36 [] f = 8 -> 38 [] f = 9 -> 59
                   [] f = 10 -> 67

(* ---- the record of the VLR ---------------------------------------------- *)
(* compressor u16, coder u16, version u8 u8 u16, options u32, chunk size u32,*)
(* special EVLRs i64, their offset i64, number of items u16, then the items. *)
U16(n) == <<n % 256, n \div 256>>
At16(b, k) == b[k] + 256 * b[k + 1]

RECURSIVE ItemBytes(_)
ItemBytes(l) == IF l = <<>> THEN <<>>
                ELSE U16(Head(l)[1]) \o U16(Head(l)[2]) \o U16(Head(l)[3]) \o ItemBytes(Tail(l))

MaxU32 == <<255, 255, 255, 255>>
Zero4 == <<0, 0, 0, 0>>
Minus1 == <<255, 255, 255, 255, 255, 255, 255, 255>>

Encode(comp, version, cs, l) ==
  U16(comp) \o U16(0) \o version \o Zero4 \o cs \o Minus1 \o Minus1 \o U16(Len(l)) \o ItemBytes(l)

(* decoding: "err", or the fields                                            *)
Readable(b) ==
  /\ Len(b) >= 34
  /\ At16(b, 1) \in 0..3
  /\ LET n == At16(b, 33) IN
     /\ Len(b) >= 34 + 6 * n
     /\ \A k \in 1..n : At16(b, 35 + 6 * (k - 1)) \in KnownTypes

DecodedItems(b) == [k \in 1..At16(b, 33) |-> LET p == 35 + 6 * (k - 1)
                                             IN <<At16(b, p), At16(b, p + 2), At16(b, p + 4)>>]
DecodedChunk(b) == SubSeq(b, 13, 16)
(* a chunk size of 0 is the mark of variable-size chunks                     *)
Normal(cs) == IF cs = Zero4 THEN MaxU32 ELSE cs
IsVariable(cs) == Normal(cs) = MaxU32

(* what is written for a VLR that was read                                   *)
Rewritten(b) == LET n == At16(b, 33)
                IN SubSeq(b, 1, 12) \o Normal(DecodedChunk(b)) \o SubSeq(b, 17, 34 + 6 * n)
=============================================================================
