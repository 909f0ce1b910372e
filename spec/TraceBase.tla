---------------------------- MODULE TraceBase ----------------------------
(* Common part of every trace specification: the recorded trace, read from *)
(* the file named by the environment variable TRACE, and the comparison of  *)
(* what the specification predicts with what was recorded.                  *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, XM
Trace == ndJsonDeserialize(IOEnv.TRACE)
\* exact agreement of a predicted with a recorded value
Agree(l, what, exp, got) ==
  IF Same(exp, got) THEN TRUE ELSE PrintT("REJECT " \o ToString(<<l, what, "spec:", exp, "code:", got>>)) /\ FALSE
\* agreement up to rounding
AgreeF(l, what, exp, got, rel, abs) ==
  IF CloseV(exp, got, rel, abs) THEN TRUE
  ELSE PrintT("REJECT " \o ToString(<<l, what, "at", DiffAt(exp, got), "spec:", exp, "code:", got>>)) /\ FALSE
Holds(l, what, cond, got) == IF cond THEN TRUE ELSE PrintT("REJECT " \o ToString(<<l, what, "code:", got>>)) /\ FALSE
==========================================================================
