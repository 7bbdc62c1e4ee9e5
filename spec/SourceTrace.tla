----------------------------- MODULE SourceTrace -----------------------------
(* Runs over many input sources.  The record carries the run over the built-in source, checked
   event by event as in EventTrace, and same = 1 iff every other source (each buffer length, helper
   methods inherited or written anew) gave this very run; how names the first that did not. *)
EXTENDS EventTrace
Final == status = "ok" => Trace[t].same = 1
Independent == Final \/ (PrintT("MISMATCH " \o ToJson(<<t, k, "the same run from every source", Trace[t].how>>)) /\ FALSE)
=============================================================================
