------------------------------ MODULE TraceLib ------------------------------
(* Conformance: a recorded execution of the real library, one JSON event per call, is accepted
   exactly if it is a behaviour of Library.tla.  Environment: TRACE the file, FOCUS the property
   whose part of the sorting contract is meant ("C10": discipline, otherwise result).       *)
EXTENDS Library, Json, IOUtils

VARIABLE l              \* next event
Trace == ndJsonDeserialize(IOEnv.TRACE)
Focus == IOEnv.FOCUS

Data(e) == IF e.gen THEN Gen(e.g) ELSE e.d
DataLen(e) == IF e.gen THEN e.g[4] ELSE Len(e.d)
IsRep(e) == e.gen /\ e.g[1] = 0 /\ e.g[3] = 0 /\ e.g[2] < 256     \* copies of one byte
Slots(tab) == [k \in 1..Len(tab) |-> [f |-> tab[k][1], a |-> tab[k][2]]]

(* How the call ended: "OK", or SLACK (a byte outside every area handed over changed), INPUT (a byte of
   a const area changed), or it did not return (SEGV, BUS, FPE, ILL, ABRT, HANG).  SLACK and INPUT are
   part of the properties that speak of memory; everywhere else they are left to C19.             *)
MemoryProps == {"C07", "C08", "C13", "C14", "C17"}
Ended(e) == e.st = "OK" \/ (e.st \in {"SLACK", "INPUT"} /\ Focus \notin MemoryProps)

(* Calls that change no object: what they report must agree with the objects as they are.  These are
   checked as an invariant of the state reached by the event.                                *)
SortCall(e) == IF Focus = "C10" THEN SortDiscipline(e.alg, e.mode, e.in, e.out, e.seen) ELSE SortResult(e.mode, e.in, e.out)
SortNCall(e) == IF Focus = "C10" THEN SortNDiscipline(e.alg, e.out) ELSE SortNResult(e.n, e.a, e.b, e.m, e.d, e.out)
SortGCall(e) == IF Focus = "C10" THEN SortGDiscipline(e.alg, e.runs) ELSE SortGResult(e.n[1] * 65536 + e.n[2], e.at[1] * 65536 + e.at[2], e.runs, e.all)
Observers == {"QFront", "QRear", "QStat", "PStat", "MGet", "MLook", "JFind", "JDoc", "JPad", "B64E", "B64RT", "B64D", "Sort", "SortN", "SortG", "Crc", "CrcG", "CTab", "CBase", "Cha", "ChaG", "HWhole", "HBack", "Caesar", "Vernam", "VernamG", "S2U", "Pow10", "Chr", "Ser", "Des", "Blob", "BlobG", "Swap", "BitTest", "Bit", "Reflect", "Rotl"}
Reports(e) ==
    CASE e.op = "QFront" -> QFront(e.id, e.nil, e.fill, e.e, e.ret)
      [] e.op = "QRear" -> QRear(e.id, e.nil, e.fill, e.e, e.ret)
      [] e.op = "QStat" -> QStat(e.id, e.full, e.empty)
      [] e.op = "PStat" -> PStat(e.id, e.empty)
      [] e.op = "MGet" -> MGet(e.id, e.k, e.fill, e.v, e.ret)
      [] e.op = "MLook" -> MLook(e.id, e.k0, e.n, e.step, e.tok)
      [] e.op = "JFind" -> JFind(e.id, e.n, e.k, e.m, e.ret, e.term, e.v)
      [] e.op = "JDoc" -> JDoc(e.doc, e.k, e.m, e.ret, e.term, e.v)
      [] e.op = "JPad" -> JDoc(e.a \o <<32>> \o e.b, e.k, e.m, e.ret, e.term, e.v)      \* white space is white space
      [] e.op = "B64E" -> B64E(Data(e), e.m, e.ok, e.term, e.o)
      [] e.op = "B64RT" -> B64RT(Data(e), e.ok, e.o)
      [] e.op = "B64D" -> B64D(Data(e), e.m, e.ok, e.o)
      [] e.op = "Sort" -> SortCall(e)
      [] e.op = "SortN" -> SortNCall(e)
      [] e.op = "SortG" -> SortGCall(e)
      [] e.op = "Crc" -> IF IsRep(e) THEN CrcRepCall(e.v, e.g[2], e.g[4], e.ret) ELSE CrcCall(e.v, Data(e), e.ret)
      [] e.op = "CrcG" -> CrcGiant(e.v, e.b, e.n, e.ret)
      [] e.op = "ChaG" -> ChaGiant(e.key, e.nonce, e.ctr, e.a, e.b, e.n, e.blk)
      [] e.op = "CTab" -> CTab(e.w, e.poly, e.tab)
      [] e.op = "CBase" -> CBase(e.w, e.poly, e.init, e.xor, e.ro, e.ri, e.fx, Data(e), e.ret)
      [] e.op = "Cha" -> Cha(e.key, e.nonce, e.ctr, LAMBDA k : IF e.gen THEN GenByte(e.g, k) ELSE e.d[k + 1], e.len, e.blk)
      [] e.op = "HWhole" -> HWhole(e.id, e.o)
      [] e.op = "HBack" -> HBack(Data(e), e.o)
      [] e.op = "Caesar" -> Caesar(e.s, e.m, e.e, e.d)
      [] e.op = "Vernam" -> Vernam(e.k, e.kl, e.m, e.r1, e.e, e.r2, e.d)
      [] e.op = "VernamG" -> VernamRefused(e.n, e.kl, e.r1, e.r2, e.same)
      [] e.op = "S2U" -> S2U(e.s, e.ret, e.v)
      [] e.op = "Pow10" -> Pow10(e.e, e.ret, e.v)
      [] e.op = "Chr" -> Chr(e.c, e.u, e.l, e.a)
      [] e.op = "Ser" -> Ser(e.w, e.be, e.v, e.b)
      [] e.op = "Des" -> Des(e.be, e.b, e.v)
      [] e.op = "Blob" -> Blob(e.be, Data(e), e.o)
      [] e.op = "BlobG" -> BlobRows(e.be, e.a, e.b, e.n, [k \in 1..Len(e.rows) |-> [row |-> e.rows[k].row, n |-> e.rows[k].n]], e.all, e.tail)
      [] e.op = "Swap" -> Swap(e.a, e.b, e.x, e.y)
      [] e.op = "BitTest" -> BitTest(e.d, e.n, e.ret, e.was, e.v)
      [] e.op = "Bit" -> Bit(e.f, e.d, e.n, e.ret, e.was, e.v)
      [] e.op = "Reflect" -> Reflect(e.d, e.n, e.v)
      [] e.op = "Rotl" -> Rotl(e.d, e.n, e.v)
      [] OTHER -> TRUE

(* Calls that change an object. *)
Step(e) ==
    CASE e.op = "QInit"  -> QInit(e.id, e.cap, e.esz, e.buf, e.ret) /\ OnlyQ
      [] e.op = "QEnq"   -> QEnq(e.id, e.nil, e.e, e.ret) /\ OnlyQ
      [] e.op = "QDeq"   -> QDeq(e.id, e.nil, e.fill, e.e, e.ret) /\ OnlyQ
      [] e.op = "QFill"  -> QFill(e.id, e.t, e.n, e.ret) /\ OnlyQ
      [] e.op = "QDrain" -> QDrain(e.id, e.n, e.fails, e.late, e.tok) /\ OnlyQ
      [] e.op = "QChurn" -> QChurn(e.id, e.t, e.n, e.tok, e.efail, e.dfail) /\ OnlyQ
      [] e.op = "PChurn" -> PChurn(e.id, e.t, e.n, e.p, e.tok, e.efail, e.dfail) /\ OnlyP
      [] e.op = "PInit"  -> PInit(e.id, e.cap, e.esz, e.items, e.ret) /\ OnlyP
      [] e.op = "PEnq"   -> PEnq(e.id, e.p, e.e, e.ret) /\ OnlyP
      [] e.op = "PDeq"   -> PDeq(e.id, e.fill, e.e, e.ret) /\ OnlyP
      [] e.op = "PFill"  -> PFill(e.id, e.t, e.n, e.pa, e.pb, e.pm, e.ret) /\ OnlyP
      [] e.op = "PDrain" -> PDrain(e.id, e.n, e.fails, e.late, e.tok) /\ OnlyP
      [] e.op = "MInit"  -> MInit(e.id, e.ks, e.vs, e.max, e.k, e.v, e.ret) /\ OnlyM
      [] e.op = "MIns"   -> MIns(e.id, e.k, e.v, e.ret) /\ OnlyM
      [] e.op = "MFill"  -> MFill(e.id, e.k0, e.n, e.v0, e.ret) /\ OnlyM
      [] e.op = "STable" -> STable(e.id, Slots(e.tab)) /\ OnlyS
      [] e.op = "SInit"  -> SInit(e.id, e.n, Slots(e.tab)) /\ OnlyS
      [] e.op = "SAdd"   -> SAdd(e.id, e.n, e.k, e.a, e.ret, Slots(e.tab)) /\ OnlyS
      [] e.op = "SSet"   -> SSet(e.id, e.s + 1, e.k, e.a, Slots(e.tab)) /\ OnlyS
      [] e.op = "RunStart"  -> RunStart(e.id, e.n) /\ OnlyS
      [] e.op = "TaskStart" -> TaskStart(e.k) /\ OnlyS
      [] e.op = "TaskEnd"   -> TaskEnd(e.k) /\ OnlyS
      [] e.op = "RunEnd"    -> RunEnd(e.id, e.n, Slots(e.tab)) /\ OnlyS
      [] e.op = "JBuf"   -> JBuf(e.id, e.n, e.txt) /\ OnlyJ
      [] e.op = "JStart" -> (e.ret => e.term) /\ JStart(e.id, e.n, e.ret, e.txt) /\ OnlyJ
      [] e.op = "JAdd"   -> e.term /\ JAdd(e.id, e.n, e.k, e.v, e.ret, e.txt) /\ OnlyJ
      [] e.op = "JEnd"   -> e.term /\ JEnd(e.id, e.n, e.ret, e.txt) /\ OnlyJ
      [] e.op = "CNew"   -> CNew(e.id, e.v) /\ OnlyC
      [] e.op = "CChunk" -> (IF IsRep(e) THEN CRepChunk(e.id, e.g[2], e.g[4], e.fin, e.ret, e.whole) ELSE CChunk(e.id, Data(e), e.fin, e.ret, e.whole)) /\ OnlyC
      [] e.op = "HNew"   -> HNew(e.id, e.key, e.nonce, e.ctr) /\ OnlyH
      [] e.op = "HPart"  -> HPart(e.id, DataLen(e), e.o) /\ OnlyH
      [] e.op \in Observers \cup {"Note"} -> UNCHANGED libVars
      [] OTHER -> FALSE

TraceInit == LibInit /\ l = 1
TraceNext == /\ l <= Len(Trace)
             /\ l' = l + 1
             /\ Ended(Trace[l]) = TRUE
             /\ Step(Trace[l])
ReportsAgree == l > 1 => Reports(Trace[l - 1])

Where == [l |-> l]      \* all that is printed of a counterexample

TraceSpec == TraceInit /\ [][TraceNext]_<<libVars, l>>

Accepted == PrintT(<<"TRACE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
