"""Which properties are claimed, by which method, and what each check assures."""
MC = "model_checking"
T = "TLA+ model checked with TLC; its behaviours replayed on the real code and the recorded traces validated against the specification"
TRUST = (" Trusted: TLC, the harness that records events (independent parser of the chunk table), and that points are told apart by "
         "their bytes.")
Q = "Quint specification of the LASzip codec (coder, fields, chunk), executed by Quint and compared bit by bit with the real code in both directions"
CLAIMS = {
    "C01": (Q + "; TLA+ model of streams (LazAbs) whose behaviours are replayed, for long sequences", MC, "Sampled over point data (every format, version, "
            "several profiles of field values, extra bytes), with a corpus of chunks made by the specification that reaches the rare branches; round trips of "
            "longer sequences sampled." + TRUST),
    "C02": (Q, MC, "Sampled over point data; the specification itself is validated on files written by LASzip. Trusted: Quint's evaluator, and the "
            "specification where no file of LASzip is at hand (versions 1, 3 and 4 of some items)."),
    "C18": ("Quint specification of the arithmetic coder (coder, codergen: its invariant is that what it codes can be decoded): its behaviours are "
            "replayed on the real encoder and decoder, the bytes compared", MC, "Sampled over sequences of coding calls, steered towards rescaling, carry "
            "chains, buffer boundaries and every width. Trusted: Quint's evaluator."),
    "C03": (T + " (LazAbs, Writers)", MC, "Exhaustive over histories of the Writers model within its bounds (calls, chunk sizes), "
            "sampled over layouts, data and larger chunks." + TRUST),
    "C04": (T + " (LazAbs, Writers, ParJobs: all start orders of chunk jobs enforced)", MC, "Exhaustive over histories and over the start orders "
            "of up to 4 (thorough 5) jobs of one call; sampled over layouts, data, thread counts." + TRUST),
    "C05": (T + " (LazAbs, ParReader)", MC, "Every transition of the ParReader model is executed on the real code; sampled over layouts, "
            "data and larger streams." + TRUST),
    "C06": (T + " (LazAbs, SeqReader)", MC, "Every transition of the SeqReader model is executed on the real code; sampled over layouts, "
            "data and larger streams." + TRUST),
    "C07": (T + " (LazAbs, ParReader)", MC, "Every transition of the ParReader model whose history has a seek is executed on the real code; "
            "sampled over layouts, data and larger streams." + TRUST),
    "C08": (T + " (LazAbs, Writers)", MC, "Exhaustive over histories of groups within the model's bounds; sampled beyond." + TRUST),
    "C09": (T + " (LazAbs, Writers, ChunkTables)", MC, "Exhaustive over histories of the Writers model and of operations on a table within their "
            "bounds; sampled over values, sizes and positions." + TRUST),
    "C10": (T + " (LazAbs, Writers with appends)", MC, "Exhaustive over histories with up to two appends within the model's bounds; sampled beyond." + TRUST),
    "C11": (T + " (LazAbs, Selective, SeqReader, ParReader)", MC, "Exhaustive over the Selective model and (thorough) over all selections of "
            "each format's fields; sampled over data and histories." + TRUST),
    "C12": ("TLA+ specification of the VLR record and the items of every point format (LazItems, MCVlr) checked with TLC, its scenarios run on the "
            "real code and each observation judged by TLC (VlrTrace)", MC, "Exhaustive over formats, versions and the listed extra bytes and chunk "
            "sizes; sampled over records." + TRUST),
    "C13": ("TLA+ enumeration of descriptions of points with one thing changed (MCRefuse), given to every entry point of the real code, "
            "each outcome judged by TLC (RefuseTrace)", MC, "Exhaustive over the descriptions of the model; quick: a sample of the entry points for "
            "each." + TRUST),
    "C14": (T + " (LazAbs, Crash, Writers)", MC, "Crash points: after and inside every device write of model histories; truncation: every length of "
            "small streams, sampled for larger ones. The 8-byte offset field counts as written at once." + TRUST),
    "C15": (T + " (LazAbs, Writers, readers, fault enumeration over every device operation)", MC, "A device error at every operation of small blocks "
            "of work; short and interrupted transfers sampled." + TRUST),
    "C16": (T + " (LazAbs, Writers, readers at various positions)", MC, "Model histories at sampled positions, including beyond 2^32." + TRUST),
    "C17": (T + " (LazAbs, LegacyReader)", MC, "Every transition of the LegacyReader model on every point-wise layout." + TRUST),
    "C19": ("TLA+ model of a LAS/LAZ file and its reader (SimpleFile, MCSimpleFile) checked with TLC, its shapes of files given to the real reader "
            "and each run judged by TLC (FileTrace)", MC, "Exhaustive over shapes of files; sampled over contents." + TRUST),
    "C20": (T + " (LazAbs with damaged chunks, SeqReader, ParReader)", MC, "Every transition of both reader models over streams with every set of "
            "damaged chunks is executed on the real code; the damage itself (which bytes, what is written over them), and damage to tables and offsets, are "
            "sampled." + TRUST),
}
NOT_APPLICABLE = []
