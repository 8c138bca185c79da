------------------------------- MODULE Library -------------------------------
(* The whole library: the independent composition of its components.  The state is what the
   caller's objects hold; pure functions have no state.  An action on one object leaves every
   other object as it is - which is property C20 for calls that follow one another, that are
   nested, or that interrupt each other.                                                  *)
EXTENDS BoundedQueue, PriorityQueue, Map, Scheduler, JsonText, Base64, Sorting, Crc, ChaCha20, Text

libVars == <<qs, pqs, maps, tabs, stack, jbs, crcs, chas>>

LibInit == QEmptyState /\ PEmptyState /\ MEmptyState /\ SEmptyState /\ JEmptyState /\ CEmptyState /\ ChEmptyState

LibTypeOK == QTypeOK /\ PTypeOK /\ MTypeOK

OnlyQ == UNCHANGED <<pqs, maps, tabs, stack, jbs, crcs, chas>>
OnlyP == UNCHANGED <<qs, maps, tabs, stack, jbs, crcs, chas>>
OnlyM == UNCHANGED <<qs, pqs, tabs, stack, jbs, crcs, chas>>
OnlyS == UNCHANGED <<qs, pqs, maps, jbs, crcs, chas>>
OnlyJ == UNCHANGED <<qs, pqs, maps, tabs, stack, crcs, chas>>
OnlyC == UNCHANGED <<qs, pqs, maps, tabs, stack, jbs, chas>>
OnlyH == UNCHANGED <<qs, pqs, maps, tabs, stack, jbs, crcs>>
=============================================================================
