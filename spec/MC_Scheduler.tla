----------------------------- MODULE MC_Scheduler -----------------------------
(* The scheduler as scheduler.c runs it - a loop over the slots of the caller's table, looking at each
   slot when it gets there, with the call stack made explicit - refines Scheduler.tla for every
   history of adding, editing, initialising and running, nested passes included.              *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Sizes, Tasks, MaxRuns

VARIABLES tab,          \* the table: sequence of [f, a]
          frames,       \* call stack: [kind |-> "run", n, i, in, from] (i: loop index, in: inside a task call, from:
                        \* ghost, first slot that may still be called) and [kind |-> "task", f]
          act
conc == <<tab, frames>>

AbsFrame(fr, below) == IF fr.kind = "run" THEN [kind |-> "run", t |-> 1, n |-> fr.n, at |-> fr.from]
                       ELSE [kind |-> "task", t |-> 1, n |-> fr.f, at |-> below.i + 1]
AbsStack == [k \in 1..Len(frames) |-> AbsFrame(frames[k], IF k > 1 THEN frames[k - 1] ELSE frames[k])]
Abs == INSTANCE Scheduler WITH tabs <- (1 :> tab), stack <- AbsStack

None == [f |-> -1, a |-> 0]
Lbl(op, x, y, z, ret) == act' = [op |-> op, x |-> x, y |-> y, z |-> z, ret |-> ret]
Outside == IF frames = <<>> THEN TRUE ELSE frames[Len(frames)].kind = "task"
Runs == {k \in 1..Len(frames) : frames[k].kind = "run"}
Depth == LET c[k \in 0..Len(frames)] == IF k = 0 THEN 0 ELSE c[k - 1] + (IF frames[k].kind = "run" THEN 1 ELSE 0) IN c[Len(frames)]

Init == /\ \E n \in Sizes : tab = [k \in 1..n |-> None]
        /\ frames = <<>>
        /\ act = [op |-> "start", x |-> 0, y |-> 0, z |-> 0, ret |-> TRUE]

\* the linear search of addTask
FirstFree(n) == LET s[k \in 0..n] == IF k = n THEN n ELSE IF tab[k + 1].f = -1 THEN k ELSE s[k + 1] IN s[0]
Add(f, a, n) == /\ Outside
                /\ \E i \in {FirstFree(n)} :
                   IF i < n THEN tab' = [tab EXCEPT ![i + 1] = [f |-> f, a |-> a]] /\ Lbl("add", f, a, n, TRUE)
                   ELSE UNCHANGED tab /\ Lbl("add", f, a, n, FALSE)
                /\ UNCHANGED frames
Set(s, f, a) == /\ Outside /\ tab' = [tab EXCEPT ![s] = [f |-> f, a |-> a]] /\ Lbl("set", s, f, a, TRUE) /\ UNCHANGED frames
Clear(n) == /\ Outside /\ tab' = [k \in 1..Len(tab) |-> IF k <= n THEN None ELSE tab[k]] /\ Lbl("init", n, 0, 0, TRUE)
            /\ UNCHANGED frames
Run(n) == /\ Outside /\ Depth < MaxRuns
          /\ frames' = Append(frames, [kind |-> "run", n |-> n, i |-> 0, in |-> FALSE, from |-> 1])
          /\ Lbl("run", n, 0, 0, TRUE) /\ UNCHANGED tab

\* one turn of the loop of the innermost pass
Turn == /\ ~Outside
        /\ \E r \in {frames[Len(frames)]} :
           IF r.in THEN     \* back from the task: on to the next slot
                /\ frames' = [frames EXCEPT ![Len(frames)].in = FALSE, ![Len(frames)].i = @ + 1]
                /\ Lbl("tau", 0, 0, 0, TRUE)
           ELSE IF r.i = r.n THEN
                /\ frames' = SubSeq(frames, 1, Len(frames) - 1)
                /\ Lbl("ret", r.n, 0, 0, TRUE)
           ELSE IF tab[r.i + 1].f # -1 /\ tab[r.i + 1].a = 1 THEN
                /\ frames' = Append([frames EXCEPT ![Len(frames)].in = TRUE, ![Len(frames)].from = r.i + 2], [kind |-> "task", f |-> tab[r.i + 1].f])
                /\ Lbl("start", tab[r.i + 1].f, 0, 0, TRUE)
           ELSE /\ frames' = [frames EXCEPT ![Len(frames)].i = @ + 1]
                /\ Lbl("tau", 0, 0, 0, TRUE)
        /\ UNCHANGED tab
End == /\ frames # <<>> /\ frames[Len(frames)].kind = "task"
       /\ Lbl("end", frames[Len(frames)].f, 0, 0, TRUE)
       /\ frames' = SubSeq(frames, 1, Len(frames) - 1)
       /\ UNCHANGED tab

Next == \/ \E f \in Tasks, a \in 0..1, n \in 0..Len(tab) : Add(f, a, n)
        \/ \E s \in 1..Len(tab), f \in Tasks \cup {-1}, a \in 0..1 : Set(s, f, a)
        \/ \E n \in 0..Len(tab) : Clear(n) \/ Run(n)
        \/ Turn \/ End
Spec == Init /\ [][Next]_<<conc, act>>

AbsCall(a) == CASE a.op = "add" -> Abs!SAdd(1, a.z, a.x, a.y, a.ret, tab')
                [] a.op = "set" -> Abs!SSet(1, a.x, a.y, a.z, tab')
                [] a.op = "init" -> Abs!SInit(1, a.x, tab')
                [] a.op = "run" -> Abs!RunStart(1, a.x)
                [] a.op = "start" -> Abs!TaskStart(a.x)
                [] a.op = "end" -> Abs!TaskEnd(a.x)
                [] a.op = "ret" -> Abs!RunEnd(1, a.x, tab')
                [] a.op = "tau" -> UNCHANGED <<tab, AbsStack>>
Refines == [][AbsCall(act')]_<<conc, act>>

(* What a user relies on, said of the loop directly: a pass only ever calls an occupied active slot, one
   it has not passed yet, and leaves out none that is live when its turn comes.                 *)
CallsLive == [][act'.op = "start" => LET r == frames[Len(frames)] IN
                   /\ tab[r.i + 1] = [f |-> act'.x, a |-> 1]
                   /\ \A k \in r.from..r.i : ~Abs!Live(tab[k])]_<<conc, act>>
InRange == \A k \in Runs : frames[k].i <= frames[k].n /\ (k < Len(frames) => frames[k].in)

View == conc
T(tb) == [k \in 1..Len(tb) |-> <<tb[k].f, tb[k].a>>]
F(fs) == [k \in 1..Len(fs) |-> IF fs[k].kind = "run" THEN <<fs[k].n, fs[k].i, IF fs[k].in THEN 1 ELSE 0>> ELSE <<fs[k].f>>]
Emit == PrintT("EDGE " \o ToJson([s |-> <<T(tab), F(frames)>>, a |-> <<act'.op, act'.x, act'.y, act'.z>>, t |-> <<T(tab'), F(frames')>>]))
=============================================================================
