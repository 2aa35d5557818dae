------------------------------- MODULE Words -------------------------------
(* The words a recognition run decides (the harness writes this module for each run). *)
EXTENDS Sequences
WordSet == {}
=============================================================================
