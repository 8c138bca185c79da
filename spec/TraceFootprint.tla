--------------------------- MODULE TraceFootprint ---------------------------
(* A recorded execution is accepted exactly if every call stayed inside its footprint. *)
EXTENDS Footprint, Json, IOUtils, TLC
VARIABLES l, areas, inputs      \* next event; areas and input areas watched so far
Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceInit == l = 1 /\ areas = 0 /\ inputs = 0
TraceNext == /\ l <= Len(Trace)
             /\ StaysInside(Trace[l]) = TRUE
             /\ l' = l + 1
             /\ areas' = areas + Trace[l].mem.areas
             /\ inputs' = inputs + Trace[l].mem.inputs
TraceSpec == TraceInit /\ [][TraceNext]_<<l, areas, inputs>>
Accepted == PrintT(<<"TRACE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
