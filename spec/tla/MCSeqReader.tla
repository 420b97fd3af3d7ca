---------------------------- MODULE MCSeqReader ----------------------------
EXTENDS SeqReader, ReaderConfigs
=============================================================================
