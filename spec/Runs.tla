-------------------------------- MODULE Runs --------------------------------
(* Long histories in short form.  Run-length encoded lists of integers: <<first, count>> stands for
   first, first+step, ..., count values.  Numbered elements: element number t of size e holds t in
   its first (at most four) bytes, least significant first; the rest follows from t.  An element of
   2^20 bytes or more is written down as these four bytes alone.                                 *)
EXTENDS Integers, Sequences, SequencesExt
RunsFlat(rs, step) ==
    FoldLeft(LAMBDA acc, r : acc \o [k \in 1..r[2] |-> r[1] + step * (k - 1)], <<>>, rs)

TokByte(t, k) == IF k < 4 THEN (t \div 256^k) % 256 ELSE (t * 7 + k * 13 + 5) % 256
TokBytes(t, e) == [k \in 1..(IF e >= 1048576 THEN 4 ELSE e) |-> TokByte(t, k - 1)]
\* the number an element gives back: what its first four bytes hold
TokSeen(t, e) == IF e >= 4 THEN t ELSE t % (256^e)
=============================================================================
