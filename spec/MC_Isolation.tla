----------------------------- MODULE MC_Isolation -----------------------------
(* Calls on different objects, a few machine steps each, that interrupt one another: nested as an
   interrupt or a comparator nests them (Threads = FALSE), or freely interleaved as threads do
   (TRUE).  Kind says where a call keeps what it works with:
     "own"      in its own frame - the library's design
     "scratch"  in a scratch area shared by all calls
     "lazy"     own frame, and a shared table built by the first call, announced before it is filled
     "lazyend"  the same, announced once it is filled
   "own" and "lazyend" refine Isolation.tla: every object goes through its own history.  "scratch" and
   "lazy" do not, and TLC must say so: the property has teeth exactly where the design could fail. *)
EXTENDS Integers, Sequences, TLC

CONSTANTS Objects, Calls, Kind, Threads

VARIABLES pc, reg, obj, left, stack, scratch, flag, table, done
vars == <<pc, reg, obj, left, stack, scratch, flag, table, done>>

Full == 5                                       \* what the table holds once it is built
Step1(x) == 2 * x + Full                        \* what a call makes of its object
\* the history of an object alone: its values after each call
RECURSIVE After(_, _)
After(x, n) == IF n = 0 THEN x ELSE After(Step1(x), n - 1)
Hist == [o \in Objects |-> [n \in 1..Calls |-> After(o, n)]]
Iso == INSTANCE Isolation

Init == /\ pc = [o \in Objects |-> "idle"] /\ reg = [o \in Objects |-> 0]
        /\ obj = [o \in Objects |-> o] /\ left = [o \in Objects |-> Calls]
        /\ stack = <<>> /\ scratch = 0
        /\ flag = FALSE /\ table = 0
        /\ Iso!IInit(Hist)

May(o) == Threads \/ (stack # <<>> /\ stack[Len(stack)] = o)
To(o, where) == pc' = [pc EXCEPT ![o] = where]
\* the working value: in the frame or in the shared area
Work(o) == IF Kind = "scratch" THEN scratch ELSE reg[o]
SetWork(o, x) == IF Kind = "scratch" THEN scratch' = x /\ UNCHANGED reg ELSE reg' = [reg EXCEPT ![o] = x] /\ UNCHANGED scratch
Lazy == Kind \in {"lazy", "lazyend"}

Enter(o) == /\ pc[o] = "idle" /\ left[o] > 0
            /\ left' = [left EXCEPT ![o] = @ - 1]
            /\ stack' = Append(stack, o)
            /\ To(o, IF Lazy THEN "look" ELSE "load")
            /\ UNCHANGED <<reg, obj, scratch, flag, table, done>>
Look(o) == /\ pc[o] = "look" /\ May(o)
           /\ To(o, IF flag THEN "load" ELSE IF Kind = "lazy" THEN "announce" ELSE "build1")
           /\ UNCHANGED <<reg, obj, left, stack, scratch, flag, table, done>>
Announce(o) == /\ pc[o] = "announce" /\ May(o)
               /\ flag' = TRUE
               /\ To(o, IF Kind = "lazy" THEN "build1" ELSE "load")
               /\ UNCHANGED <<reg, obj, left, stack, scratch, table, done>>
\* filled in two steps that each write a value that depends on nothing but the position
Build(o) == /\ pc[o] \in {"build1", "build2"} /\ May(o)
            /\ table' = IF pc[o] = "build1" THEN (IF table = Full THEN Full ELSE 1) ELSE Full
            /\ To(o, IF pc[o] = "build1" THEN "build2" ELSE IF Kind = "lazy" THEN "load" ELSE "announce")
            /\ UNCHANGED <<reg, obj, left, stack, scratch, flag, done>>
Load(o) == /\ pc[o] = "load" /\ May(o)
           /\ SetWork(o, obj[o])
           /\ To(o, "double")
           /\ UNCHANGED <<obj, left, stack, flag, table, done>>
Double(o) == /\ pc[o] = "double" /\ May(o)
             /\ SetWork(o, 2 * Work(o))
             /\ To(o, "add")
             /\ UNCHANGED <<obj, left, stack, flag, table, done>>
Add(o) == /\ pc[o] = "add" /\ May(o)
          /\ SetWork(o, Work(o) + (IF Lazy THEN table ELSE Full))
          /\ To(o, "store")
          /\ UNCHANGED <<obj, left, stack, flag, table, done>>
Store(o) == /\ pc[o] = "store" /\ May(o)
            /\ obj' = [obj EXCEPT ![o] = Work(o)]
            /\ done' = [done EXCEPT ![o] = @ + 1]
            /\ stack' = SelectSeq(stack, LAMBDA x : x # o)
            /\ To(o, "idle")
            /\ UNCHANGED <<reg, left, scratch, flag, table>>

Next == \E o \in Objects : Enter(o) \/ Look(o) \/ Announce(o) \/ Build(o) \/ Load(o) \/ Double(o) \/ Add(o) \/ Store(o)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* a step in which a call completes is an observation of that object's next outcome
Refines == [][\E o \in Objects : Iso!Observe(Hist, {}, o, obj'[o])]_done
\* an object holds its own history, whatever else is in progress
Own == \A o \in Objects : obj[o] = After(o, done[o])
Completes == <>(\A o \in Objects : done[o] = Calls)
=============================================================================
