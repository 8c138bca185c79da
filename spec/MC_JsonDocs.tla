------------------------------ MODULE MC_JsonDocs ------------------------------
(* Lookup in flat JSON objects.  Documents are produced from the grammar, so what their members are is
   known by construction; checked are: JsonText's reader finds exactly these members, a document
   cut short has the members that precede the cut, and the scanning loop of json.c - modelled
   statement by statement, one loop turn per step - answers every lookup as JsonText says, reads
   only inside the text and always moves forward.  The documents become lookups on the real code. *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANT Deep
VARIABLES jbs,                                  \* not used here (JsonText)
          doc, members, whole, key, max,        \* the question
          pc, index, found, value, ret          \* the loop

J == INSTANCE JsonText

a == <<97>>
ab == <<97, 98>>
QUERIES == {<<>>, a, ab, <<98>>}
KEYS == {<<>>, a, ab}
Str(v) == [k |-> <<>>, str |-> TRUE, v |-> v]
Raw == [k |-> <<>>, str |-> FALSE, v |-> <<>>]
VALUES == {Str(<<>>), Str(a), Str(<<58>>), Str(ab), Raw}
RAW == <<49>>
WS == {<<>>, <<32>>, <<10, 9>>}

Q(s) == <<34>> \o s \o <<34>>
Val(m) == IF m.str THEN Q(m.v) ELSE RAW
\* w: white space at each place between the tokens
Member(m, w) == w \o Q(m.k) \o w \o <<58>> \o w \o Val(m) \o w
Text(ms, w) == w \o <<123>> \o (IF ms = <<>> THEN w ELSE
                 LET j[k \in 1..Len(ms)] == IF k = 1 THEN Member(ms[1], w) ELSE j[k - 1] \o <<44>> \o Member(ms[k], w) IN j[Len(ms)]) \o <<125>> \o w
\* white space at one place only, in documents of one member
At(p, q) == IF p = q THEN <<13, 32>> ELSE <<>>
PLACES == {[d |-> At(1, q) \o <<123>> \o At(2, q) \o Q(m.k) \o At(3, q) \o <<58>> \o At(4, q) \o Val(m) \o At(5, q) \o <<125>> \o At(6, q),
            ms |-> <<m>>] : q \in 1..6, m \in {[k |-> a, str |-> TRUE, v |-> ab], [k |-> a, str |-> FALSE, v |-> <<>>]}}
With(k, m) == [m EXCEPT !.k = k]
M1 == {With(k, m) : k \in KEYS, m \in VALUES}
M3 == {With(k, m) : k \in {a, <<98>>}, m \in {Str(a), Str(<<44>>), Raw}}
LISTS == {<<>>} \cup {<<m>> : m \in M1} \cup {<<m, n>> : m \in M1, n \in M1}
         \cup (IF Deep THEN {<<m, n, o>> : m \in M3, n \in M3, o \in M3} ELSE {<<m, n, o>> : m \in M3, n \in {With(a, Str(<<98>>)), With(<<98>>, Raw)}, o \in M3})

Init == /\ jbs = <<>>
        /\ \/ \E ms \in LISTS, w \in (IF Deep THEN WS ELSE {<<>>}) : doc = Text(ms, w) /\ members = ms
           \/ ~Deep /\ \E ms \in {l \in LISTS : Len(l) < 2}, w \in WS : doc = Text(ms, w) /\ members = ms
           \/ \E x \in PLACES : doc = x.d /\ members = x.ms
        /\ whole = TRUE
        /\ pc = "doc" /\ key = <<>> /\ max = 0 /\ index = 0 /\ found = FALSE /\ value = <<>> /\ ret = FALSE

\* the document may be cut short (deep: every document, otherwise those of at most one member and a few longer)
Cut == /\ pc = "doc" /\ whole
       /\ IF Deep \/ Len(members) < 2 THEN TRUE ELSE members[1] = With(a, Str(ab)) /\ members[2].k = a
       /\ \E n \in 0..(Len(doc) - 1) : doc' = SubSeq(doc, 1, n)
       /\ whole' = FALSE
       /\ UNCHANGED <<jbs, members, key, max, pc, index, found, value, ret>>
Ask == /\ pc = "doc"
       /\ key' \in QUERIES /\ max' \in {0, 1, 2, 3}
       /\ pc' = "scan"
       /\ UNCHANGED <<jbs, doc, members, whole, index, found, value, ret>>

\* the helpers of json.c, positions counted from 0
RECURSIVE FindChar(_, _)
FindChar(i, c) == IF i < Len(doc) /\ doc[i + 1] # c THEN FindChar(i + 1, c) ELSE i
RECURSIVE SkipWhite(_)
SkipWhite(i) == IF i < Len(doc) /\ doc[i + 1] \in {32, 9, 10, 13} THEN SkipWhite(i + 1) ELSE i

Scan == /\ pc = "scan"
        /\ IF ~(index < Len(doc) /\ ~found) THEN pc' = "value" /\ UNCHANGED <<index, found>>
           ELSE /\ UNCHANGED pc
                /\ IF doc[index + 1] # 34 THEN index' = index + 1 /\ UNCHANGED found
                   ELSE \E end \in {FindChar(index + 1, 34)} : \E i1 \in {SkipWhite(end + 1)} :
                        IF ~(i1 < Len(doc) /\ doc[i1 + 1] = 58) THEN index' = i1 /\ UNCHANGED found
                        ELSE \E i2 \in {SkipWhite(i1 + 1)} :
                             IF SubSeq(doc, index + 2, end) = key THEN index' = i2 /\ found' = TRUE
                             ELSE /\ UNCHANGED found
                                  /\ index' = IF i2 < Len(doc) /\ doc[i2 + 1] = 34 THEN FindChar(i2 + 1, 34) + 1 ELSE i2
        /\ UNCHANGED <<jbs, doc, members, whole, key, max, value, ret>>
Value == /\ pc = "value"
         /\ IF found /\ index < Len(doc) /\ doc[index + 1] = 34 THEN pc' = "copy" /\ index' = index + 1 ELSE pc' = "done" /\ UNCHANGED index
         /\ UNCHANGED <<jbs, doc, members, whole, key, max, found, value, ret>>
\* value: the bytes written to the output, so far
Copy == /\ pc = "copy"
        /\ IF ~(index < Len(doc) /\ Len(value) < max) THEN pc' = "done" /\ UNCHANGED <<index, value, ret>>
           ELSE IF doc[index + 1] = 34 THEN pc' = "done" /\ ret' = TRUE /\ value' = Append(value, 0) /\ UNCHANGED index
           ELSE value' = Append(value, doc[index + 1]) /\ index' = index + 1 /\ UNCHANGED <<pc, ret>>
        /\ UNCHANGED <<jbs, doc, members, whole, key, max, found>>
Next == Cut \/ Ask \/ Scan \/ Value \/ Copy
vars == <<jbs, doc, members, whole, key, max, pc, index, found, value, ret>>
Spec == Init /\ [][Next]_vars

\* the reader of the specification against the grammar
Reads == pc = "doc" => LET r == J!Document(doc) IN
            /\ r.ok
            /\ IF whole THEN r.mem = members ELSE Len(r.mem) <= Len(members) /\ r.mem = SubSeq(members, 1, Len(r.mem))
\* the loop against the reader, and the property said directly
Answers == pc = "done" => J!Lookup(doc, key, max, ret, ret => value[Len(value)] = 0, SubSeq(value, 1, Len(value) - 1))
Says == pc = "done" /\ whole =>
          ret = \E k \in 1..Len(members) : /\ members[k].k = key /\ members[k].str /\ Len(members[k].v) < max
                                           /\ \A j \in 1..(k - 1) : members[j].k # key
                                           /\ ret => value = Append(members[k].v, 0)
Fits == Len(value) <= max
Forward == [][pc = "scan" /\ pc' = "scan" => index' > index \/ found']_vars

Emit == pc' = "scan" /\ pc = "doc" => PrintT("DOC " \o ToJson(<<doc, key', max'>>))
=============================================================================
