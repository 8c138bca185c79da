------------------------------ MODULE Isolation ------------------------------
(* Independence of objects (property C20).  Every object has a history: the sequence of outcomes its
   calls have when nothing else runs.  However calls on different objects are interleaved, nested
   in each other or interrupted by each other, what is observed is a shuffle of those histories:
   each object goes through its own history in order and nothing else happens.
   A call of a pure function is an object whose history repeats a single outcome for ever.      *)
EXTENDS Integers, Sequences

VARIABLE done           \* function: object -> number of outcomes seen so far

\* hist: function object -> sequence of outcomes; pure: set of the pure-function objects
IInit(hist) == done = [k \in DOMAIN hist |-> 0]

Outcome(hist, pure, k) ==
    IF k \in pure THEN hist[k][(done[k] % Len(hist[k])) + 1] ELSE hist[k][done[k] + 1]

Observe(hist, pure, k, o) ==
    /\ k \in DOMAIN hist
    /\ k \in pure \/ done[k] < Len(hist[k])
    /\ Outcome(hist, pure, k) = o
    /\ done' = [done EXCEPT ![k] = @ + 1]
=============================================================================
