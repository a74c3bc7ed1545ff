----------------------------- MODULE TraceFormat -----------------------------
(* Records of formatting a text, judged by the relations of FormatRel.       *)
EXTENDS FormatRel, Trace
=============================================================================
