------------------------------ MODULE Scheduler ------------------------------
(* Cooperative scheduler (scheduler.h), small-step.  A task table is a list of slots [f, a]:
   f the task in the slot (-1: none), a its active flag (0/1).  `stack` holds the passes and task
   bodies in progress: a pass over table t covers its first n slots and has reached slot `at`;
   while a task body runs anything may happen to any table, nested passes included.        *)
EXTENDS Integers, Sequences

VARIABLES tabs,         \* function: table id -> sequence of [f, a]
          stack         \* sequence of frames, innermost last

schedVars == <<tabs, stack>>

SEmptyState == tabs = <<>> /\ stack = <<>>

Live(s) == s.f # -1 /\ s.a = 1
Top == stack[Len(stack)]
CallerRuns == IF stack = <<>> THEN TRUE ELSE Top.kind = "task"    \* control is outside the scheduler

SInit(i, n, tab) ==
    /\ CallerRuns
    /\ n <= Len(tabs[i])
    /\ tabs' = [tabs EXCEPT ![i] = [k \in 1..Len(@) |-> IF k <= n THEN [f |-> -1, a |-> 0] ELSE @[k]]]
    /\ tab = tabs'[i]
    /\ UNCHANGED stack

FirstFree(t, n) == LET free == {k \in 1..n : t[k].f = -1}
                   IN IF free = {} THEN 0 ELSE CHOOSE k \in free : \A j \in free : k <= j

SAdd(i, n, f, a, ret, tab) ==
    /\ CallerRuns
    /\ LET k == FirstFree(tabs[i], n) IN
       /\ ret = (k # 0)
       /\ tabs' = IF k = 0 THEN tabs ELSE [tabs EXCEPT ![i][k] = [f |-> f, a |-> a]]
    /\ tab = tabs'[i]
    /\ UNCHANGED stack

\* the caller edits its own table
SSet(i, s, f, a, tab) ==
    /\ CallerRuns
    /\ tabs' = [tabs EXCEPT ![i][s] = [f |-> f, a |-> a]]
    /\ tab = tabs'[i]
    /\ UNCHANGED stack

STable(i, tab) ==
    /\ CallerRuns
    /\ \A k \in 1..Len(stack) : stack[k].kind = "run" => stack[k].t # i
    /\ tabs' = [x \in DOMAIN tabs \cup {i} |-> IF x = i THEN tab ELSE tabs[x]]
    /\ UNCHANGED stack

RunStart(i, n) ==
    /\ CallerRuns
    /\ n <= Len(tabs[i])
    /\ stack' = Append(stack, [kind |-> "run", t |-> i, n |-> n, at |-> 1])
    /\ UNCHANGED tabs

\* the next live slot at or after the position of the pass; 0 when there is none
NextLive(r) == LET live == {k \in r.at..r.n : Live(tabs[r.t][k])}
               IN IF live = {} THEN 0 ELSE CHOOSE k \in live : \A j \in live : k <= j

TaskStart(f) ==
    /\ stack # <<>> /\ Top.kind = "run"
    /\ LET k == NextLive(Top) IN
       /\ k # 0
       /\ tabs[Top.t][k].f = f
       /\ stack' = Append([stack EXCEPT ![Len(stack)].at = k + 1],
                          [kind |-> "task", t |-> Top.t, n |-> f, at |-> k])
    /\ UNCHANGED tabs

TaskEnd(f) ==
    /\ stack # <<>> /\ Top.kind = "task" /\ Top.n = f
    /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
    /\ UNCHANGED tabs

RunEnd(i, n, tab) ==
    /\ stack # <<>> /\ Top.kind = "run" /\ Top.t = i /\ Top.n = n
    /\ NextLive(Top) = 0
    /\ tab = tabs[i]
    /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
    /\ UNCHANGED tabs
=============================================================================
