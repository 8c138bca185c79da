------------------------------- MODULE TraceIso -------------------------------
(* ALONE: the histories of the objects, each recorded in a process of its own (lines k, pure, h);
   TRACE: the outcomes observed when they are mixed (lines k, o).                              *)
EXTENDS Isolation, Json, IOUtils, TLC
VARIABLE l
Alone == ndJsonDeserialize(IOEnv.ALONE)
Trace == ndJsonDeserialize(IOEnv.TRACE)
Hist == [x \in 1..Len(Alone) |-> Alone[x].h]
Pure == {x \in 1..Len(Alone) : Alone[x].pure}
TraceInit == l = 1 /\ IInit(Hist)
TraceNext == /\ l <= Len(Trace)
             /\ l' = l + 1
             /\ Observe(Hist, Pure, Trace[l].k, Trace[l].o)
TraceSpec == TraceInit /\ [][TraceNext]_<<l, done>>
Accepted == PrintT(<<"TRACE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
