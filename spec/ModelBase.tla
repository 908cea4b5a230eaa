----------------------------- MODULE ModelBase -----------------------------
(***************************************************************************)
(* Exhaustive exploration shared by every subsystem specification.         *)
(*   Starts     - set of start descriptions (as recorded traces use them)  *)
(*   StartOf    - start description |-> abstract state                     *)
(*   OpsOf(st)  - the finite set of operations explored from st            *)
(*   StepOf     - the specification's transition function                  *)
(*   Depth      - bound on the number of operations                        *)
(* `last' (hidden by the VIEW) carries the transition just taken; Emit is  *)
(* an action constraint that prints each explored transition once, so the  *)
(* harness can replay every transition of the model in the real code.      *)
(***************************************************************************)
LOCAL INSTANCE Naturals
LOCAL INSTANCE TLC
LOCAL INSTANCE Json
LOCAL INSTANCE Sequences

CONSTANTS Starts, StartOf(_), OpsOf(_), StepOf(_, _), ObsOf(_), Depth, EmitOn

VARIABLES start, st, last, depth

mvars == <<start, st, last, depth>>
View == <<start, st>>

NoOp == [op |-> [name |-> "init"], out |-> [r |-> "init"]]

ModelInit == /\ start \in Starts
             /\ st = StartOf(start)
             /\ last = NoOp
             /\ depth = 0

ModelNext == /\ depth < Depth
             /\ \E op \in OpsOf(st) :
                  LET r == StepOf(st, op)
                  IN /\ st' = r.st
                     /\ last' = [op |-> op, out |-> r.out]
             /\ depth' = depth + 1
             /\ UNCHANGED start

Emit == EmitOn => PrintT(<<"EDGE", ToJson([start |-> start, src |-> st, op |-> last'.op,
                                 out |-> last'.out, dst |-> st', obs |-> ObsOf(st')])>>)
=============================================================================
