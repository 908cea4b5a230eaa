----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* Trace validation shared by every subsystem specification.               *)
(*                                                                         *)
(* The file named by the environment variable CASES holds one recorded     *)
(* behaviour of the real code per line:                                    *)
(*   [id, start, steps: Seq([op, out, st, bad])]                           *)
(* A subsystem binds                                                       *)
(*   StartOf(start)  - the abstract state the behaviour starts in          *)
(*   StepOf(st, op)  - [st, out] the specification allows for op in st     *)
(*   ObsOf(st)       - what of st the public API shows (and is recorded)   *)
(* and every recorded step must produce exactly that outcome and state.    *)
(* The verdict is total: each recorded step is judged and every rejected   *)
(* step is printed with the clauses (state fields, or "out") that differ.  *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets
LOCAL INSTANCE TLC
LOCAL INSTANCE Json
LOCAL INSTANCE IOUtils

CONSTANTS StartOf(_), StepOf(_, _), ObsOf(_)

VARIABLES case, pos, st

Cases == ndJsonDeserialize(IOEnv.CASES)

tvars == <<case, pos, st>>

TraceInit == /\ case \in 1 .. Len(Cases)
             /\ pos = 0
             /\ st = StartOf(Cases[case].start)

Fields(ev, out, obs) ==
  IF ev.bad # "" THEN {"unrepresentable:" \o ev.bad}
  ELSE (IF ev.out = out THEN {} ELSE {"out"})
       \cup (IF DOMAIN obs # DOMAIN ev.st THEN {"state-shape"}
             ELSE {f \in DOMAIN obs : obs[f] # ev.st[f]})

Report(ev, out, obs, fs) ==
  PrintT(<<"REJECT", ToJson([id |-> Cases[case].id, step |-> pos + 1,
             fields |-> fs, op |-> ev.op,
             want |-> [out |-> out,
                       st |-> [f \in (fs \cap DOMAIN obs) |-> obs[f]]],
             got |-> [out |-> ev.out,
                      st |-> [f \in (fs \cap DOMAIN ev.st) |-> ev.st[f]]]])>>)

TraceNext ==
  /\ pos >= 0
  /\ pos < Len(Cases[case].steps)
  /\ LET ev  == Cases[case].steps[pos + 1]
         exp == StepOf(st, ev.op)
         obs == ObsOf(exp.st)
         fs  == Fields(ev, exp.out, obs)
     IN IF fs = {}
        THEN pos' = pos + 1 /\ st' = exp.st
        ELSE Report(ev, exp.out, obs, fs) /\ pos' = -1 /\ st' = st
  /\ UNCHANGED case

TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
