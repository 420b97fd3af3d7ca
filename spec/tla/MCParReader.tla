---------------------------- MODULE MCParReader ----------------------------
EXTENDS ParReader, ReaderConfigs
=============================================================================
