----------------------------- MODULE Histories -----------------------------
(* Used by the state-machine specifications: a behaviour is recorded in a    *)
(* history variable and, when it is complete, printed as one JSON value for  *)
(* the driver that replays it into the real code.                            *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
EnvNat(name, default) == IF name \in DOMAIN IOEnv THEN atoi(IOEnv[name]) ELSE default
Steps == EnvNat("STEPS", 8)
(* the last step of every behaviour *)
Finish(h) == Len(h) = Steps /\ PrintT("TRACE " \o ToJson(h))
(* one draw per kind of operation, so that simulation does not favour those
   with many arguments *)
Choose(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
=============================================================================
