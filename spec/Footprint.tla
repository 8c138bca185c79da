------------------------------ MODULE Footprint ------------------------------
(* What a call may do to memory.  The caller hands over areas: input areas (const), output areas and
   its own objects.  A call may write only into output areas and into the objects it is given; it
   may read only the areas handed over (reading elsewhere shows as a fault: every area ends or
   begins at an unmapped page).                                                              *)
EXTENDS Integers, Sequences

\* m: bytes changed outside every area, in input areas, and in objects the call was not given
Contained(m) == m.outside = 0 /\ m.inchg = 0 /\ m.othchg = 0

\* how a call may end; a call that does not come back for another reason is not about memory
MemoryFaults == {"SEGV", "BUS", "ABRT", "SLACK", "INPUT"}
StaysInside(e) == e.st \notin MemoryFaults /\ Contained(e.mem)
=============================================================================
