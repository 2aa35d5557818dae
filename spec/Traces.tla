------------------------------- MODULE Traces -------------------------------
(* Recorded traces (the harness writes this module for each run). *)
TraceSeq == <<>>
=============================================================================
