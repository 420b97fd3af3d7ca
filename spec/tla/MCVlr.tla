-------------------------------- MODULE MCVlr --------------------------------
(* The VLR record: what is encoded is decoded, and what is decoded and       *)
(* written again decodes to the same.  Emits scenarios for the real code.    *)
EXTENDS LazItems, TLC, Json

CONSTANTS Emit, ExtraBytes, Chunks

VARIABLES f, ver, eb, cs, todo
vars == <<f, ver, eb, cs, todo>>

Init == /\ f \in Formats /\ eb \in ExtraBytes /\ cs \in Chunks
        /\ ver \in 0..6
        /\ todo = TRUE

Allowed == ver \in {0, 5, 6} \/ ver \in VersionsOf(f)

Say(x) == IF Emit THEN PrintT("SCRIPT " \o ToJson(x)) ELSE TRUE

RealVer == IF ver \in {0, 5, 6} THEN DefaultVersion(f) ELSE ver

Next ==
  /\ todo /\ todo' = FALSE /\ UNCHANGED <<f, ver, eb, cs>>
  /\ Allowed =>
     /\ (cs = CHOOSE x \in Chunks : TRUE) => Say([op |-> "items", fmt |-> f, ver |-> ver, eb |-> eb])
     /\ ver \in VersionsOf(f) =>
        /\ \A how \in 0..3 : Say([op |-> "build", fmt |-> f, ver |-> ver, eb |-> eb, how |-> how,
                                   chunk |-> cs, mark |-> FALSE])
        /\ Say([op |-> "build", fmt |-> f, ver |-> ver, eb |-> eb, how |-> 1, chunk |-> cs, mark |-> TRUE])

Spec == Init /\ [][Next]_vars

V == <<2, 2, 0, 0>>
Enc == Encode(CompressorOf(RealVer), V, cs, ItemsOf(f, RealVer, eb))
RoundTrip ==
  Allowed =>
    /\ Readable(Enc)
    /\ DecodedItems(Enc) = ItemsOf(f, RealVer, eb)
    /\ DecodedChunk(Enc) = cs
    /\ Rewritten(Rewritten(Enc)) = Rewritten(Enc)
    /\ Readable(Rewritten(Enc))
    /\ IsVariable(cs) <=> IsVariable(DecodedChunk(Rewritten(Enc)))
    /\ \A k \in 0..(Len(Enc) - 1) : ~Readable(SubSeq(Enc, 1, k))
ItemsRight ==
  Allowed => LET l == ItemsOf(f, RealVer, eb)
             IN /\ SumSizes(l) = RecordSize(f) + eb
                /\ \A k \in 1..Len(l) : Supported(l[k])
=============================================================================
