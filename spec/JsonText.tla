------------------------------ MODULE JsonText ------------------------------
(* JSON builder and lookup (json.h).  Text is a sequence of byte values.
   `jbs` holds, per buffer being built, the text it contains.                *)
EXTENDS Integers, Sequences

VARIABLE jbs            \* function: buffer id -> [size, txt]

QUOTE == 34
COMMA == 44
COLON == 58
OPEN  == 123
CLOSE == 125

JEmptyState == jbs = <<>>
JTypeOK == \A i \in DOMAIN jbs : Len(jbs[i].txt) < jbs[i].size \/ jbs[i].txt = <<>>

JBuf(i, size, txt) ==
    jbs' = [x \in DOMAIN jbs \cup {i} |-> IF x = i THEN [size |-> size, txt |-> txt] ELSE jbs[x]]

\* one builder call: `new` is the text it is to produce, n the size the caller states
JWrite(i, n, new, ret, txt) ==
    /\ ret = (Len(new) + 1 <= n)
    /\ jbs' = IF ret THEN [jbs EXCEPT ![i].txt = new] ELSE jbs
    /\ txt = jbs'[i].txt

JStart(i, n, ret, txt) == JWrite(i, n, <<OPEN>>, ret, txt)

JSep(old) == IF old # <<>> /\ old[Len(old)] = QUOTE THEN <<COMMA>> ELSE <<>>
JPair(k, v) == <<QUOTE>> \o k \o <<QUOTE, COLON, QUOTE>> \o v \o <<QUOTE>>
JAdd(i, n, k, v, ret, txt) ==
    LET old == jbs[i].txt IN JWrite(i, n, old \o JSep(old) \o JPair(k, v), ret, txt)

JEnd(i, n, ret, txt) == JWrite(i, n, Append(jbs[i].txt, CLOSE), ret, txt)

(* ---- reading: the members of a flat object, or of a cut-short beginning of one ---- *)
White == {9, 10, 13, 32}
RECURSIVE SkipWhite(_, _)
SkipWhite(s, i) == IF i <= Len(s) /\ s[i] \in White THEN SkipWhite(s, i + 1) ELSE i
StrEnd(s, i) ==                 \* index of the closing quote of the string starting at i; Len+1: none
    LET q == {k \in i..Len(s) : s[k] = QUOTE}
    IN IF q = {} THEN Len(s) + 1 ELSE CHOOSE k \in q : \A j \in q : k <= j
Special == White \cup {QUOTE, COMMA, COLON, OPEN, CLOSE, 91, 93, 92}
RECURSIVE WordEnd(_, _)         \* first index after a number/true/false/null
WordEnd(s, i) == IF i <= Len(s) /\ s[i] \notin Special THEN WordEnd(s, i + 1) ELSE i

Bad == [ok |-> FALSE, mem |-> <<>>]
NoEscape(t) == \A k \in 1..Len(t) : t[k] # 92

(* Members from position i on, where a member (or, if `first`, the closing brace) is expected.
   ok: the text is a flat object or a beginning of one; mem: its complete members
   [k, str, v], in order.                                                                 *)
RECURSIVE Members(_, _, _, _)
Members(s, i0, first, mem) ==
    LET i == SkipWhite(s, i0) IN
    IF i > Len(s) THEN [ok |-> TRUE, mem |-> mem]
    ELSE IF s[i] = CLOSE THEN [ok |-> first /\ SkipWhite(s, i + 1) > Len(s), mem |-> mem]
    ELSE IF s[i] # QUOTE THEN Bad
    ELSE LET e == StrEnd(s, i + 1)
             k == SubSeq(s, i + 1, e - 1)
             c == SkipWhite(s, e + 1)
         IN IF ~NoEscape(k) THEN Bad
            ELSE IF c > Len(s) THEN [ok |-> TRUE, mem |-> mem]
            ELSE IF s[c] # COLON THEN Bad
            ELSE LET v == SkipWhite(s, c + 1)
                     str == v <= Len(s) /\ s[v] = QUOTE
                     ve == IF str THEN StrEnd(s, v + 1) ELSE WordEnd(s, v)
                     new == Append(mem, [k |-> k, str |-> str, v |-> IF str THEN SubSeq(s, v + 1, ve - 1) ELSE <<>>])
                     t == SkipWhite(s, IF str THEN ve + 1 ELSE ve)
                 IN IF v > Len(s) \/ (str /\ ve > Len(s)) THEN [ok |-> TRUE, mem |-> mem]
                    ELSE IF (str /\ ~NoEscape(SubSeq(s, v + 1, ve - 1))) \/ (~str /\ ve = v) THEN Bad
                    ELSE IF t > Len(s) THEN [ok |-> TRUE, mem |-> new]
                    ELSE IF s[t] = CLOSE THEN [ok |-> SkipWhite(s, t + 1) > Len(s), mem |-> new]
                    ELSE IF s[t] = COMMA THEN Members(s, t + 1, FALSE, new)
                    ELSE Bad

Document(s) == LET i == SkipWhite(s, 1) IN
    IF i > Len(s) THEN [ok |-> TRUE, mem |-> <<>>]
    ELSE IF s[i] = OPEN THEN Members(s, i + 1, TRUE, <<>>) ELSE Bad

\* the text of an area of n bytes: up to the first NUL
TextOf(d, n) == LET m == IF n < Len(d) THEN n ELSE Len(d)
                    nul == {x \in 1..m : d[x] = 0}
                IN IF nul = {} THEN SubSeq(d, 1, m) ELSE SubSeq(d, 1, (CHOOSE x \in nul : \A y \in nul : x <= y) - 1)

(* lookup of key k in a text with room for m bytes of value *)
Lookup(s, k, m, ret, term, v) ==
    LET doc == Document(s)
        hit == {x \in 1..Len(doc.mem) : doc.mem[x].k = k}
    IN doc.ok =>
       IF hit = {} THEN ~ret
       ELSE LET f == doc.mem[CHOOSE x \in hit : \A y \in hit : x <= y] IN
            /\ ret = (f.str /\ Len(f.v) + 1 <= m)
            /\ ret => term /\ v = f.v

JFind(i, n, k, m, ret, term, v) ==
    /\ Lookup(TextOf(jbs[i].txt, n), k, m, ret, term, v)

JDoc(d, k, m, ret, term, v) ==
    /\ Lookup(TextOf(d, Len(d)), k, m, ret, term, v)

(* what a user relies on: the pairs accepted since start are exactly the members of the text *)
Plain(t) == \A x \in 1..Len(t) : t[x] \notin {QUOTE, 92, 0}
=============================================================================
