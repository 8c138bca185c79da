------------------------------- MODULE MC_Decimal -------------------------------
(* Utils_stringToUint32 as utils.c computes it - a power of ten per digit, the last digit of a number
   of the longest length set apart for the overflow check - scaled down to numbers of at most Digits
   digits and largest value Limit, for every string of up to Longest characters: the verdict and value
   are those of the number the string denotes, and no intermediate value ever exceeds Limit, so that
   nothing wraps.  The real sizes are Digits = 10, Limit = 4294967295.                          *)
EXTENDS Integers, Sequences, TLC

CONSTANTS Digits, Limit, Longest

VARIABLES str, i, acc, ok, pc, top           \* top: ghost, largest intermediate value
vars == <<str, i, acc, ok, pc, top>>

Chars == 0..9 \cup {-1}                      \* -1: a character that is not a digit
Init == /\ str \in UNION {[1..n -> Chars] : n \in 1..Longest}
        /\ i = 0 /\ acc = 0 /\ ok = TRUE /\ pc = "digits" /\ top = 0

Body == IF Len(str) = Digits THEN Len(str) - 1 ELSE Len(str)
Pow(e) == 10^e
Max(x, y) == IF x > y THEN x ELSE y
Digit == /\ pc = "digits"
         /\ IF ~(i < Body /\ ok) THEN pc' = "last" /\ UNCHANGED <<i, acc, ok, top>>
            ELSE IF str[i + 1] = -1 THEN ok' = FALSE /\ UNCHANGED <<i, acc, pc, top>>
            ELSE \E e \in {Body - (i + 1)} :
                 IF e >= Digits THEN ok' = FALSE /\ i' = i + 1 /\ UNCHANGED <<acc, pc, top>>    \* quickUint32Pow10 refuses
                 ELSE /\ acc' = acc + str[i + 1] * Pow(e)
                      /\ top' = Max(top, Max(acc', Pow(e)))
                      /\ i' = i + 1 /\ UNCHANGED <<ok, pc>>
         /\ UNCHANGED str
Last == /\ pc = "last" /\ pc' = "done"
        /\ IF ~(Len(str) = Digits /\ ok) THEN UNCHANGED <<acc, ok, top>>
           ELSE IF str[Digits] = -1 THEN ok' = FALSE /\ UNCHANGED <<acc, top>>
           ELSE IF acc > Limit \div 10 \/ (acc = Limit \div 10 /\ str[Digits] > Limit % 10) THEN ok' = FALSE /\ UNCHANGED <<acc, top>>
           ELSE acc' = acc * 10 + str[Digits] /\ top' = Max(top, acc') /\ UNCHANGED ok
        /\ UNCHANGED <<str, i>>
Next == Digit \/ Last
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Value == LET v[k \in 0..Len(str)] == IF k = 0 THEN 0 ELSE v[k - 1] * 10 + str[k] IN v[Len(str)]
Denotes == /\ Len(str) <= Digits /\ (\A k \in 1..Len(str) : str[k] # -1) /\ Value <= Limit
Right == pc = "done" => ok = Denotes /\ (ok => acc = Value)
NoWrap == top <= Limit
Returns == <>(pc = "done")

(* and the reference operators at the real size *)
T == INSTANCE Text
Asc(s) == [k \in 1..Len(s) |-> s[k] + 48]
ASSUME RealLimit == /\ T!S2U(Asc(<<4, 2, 9, 4, 9, 6, 7, 2, 9, 5>>), TRUE, <<65535, 65535>>)
                    /\ T!S2U(Asc(<<4, 2, 9, 4, 9, 6, 7, 2, 9, 6>>), FALSE, <<0, 0>>)
                    /\ T!S2U(Asc(<<9, 9, 9, 9, 9, 9, 9, 9, 9, 9>>), FALSE, <<0, 0>>)
                    /\ T!S2U(Asc(<<0, 0, 0, 0, 0, 0, 0, 0, 0, 7>>), TRUE, <<0, 7>>)
                    /\ T!S2U(Asc(<<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1>>), FALSE, <<0, 0>>)
                    /\ T!Pow10(9, TRUE, <<15258, 51712>>) /\ T!Pow10(0, TRUE, <<0, 1>>) /\ T!Pow10(10, FALSE, <<0, 0>>)
=============================================================================
