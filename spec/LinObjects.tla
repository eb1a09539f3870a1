----------------------------- MODULE LinObjects -----------------------------
(* Selects the sequential specification a LinTrace run checks against.        *)
EXTENDS Counter, FuncObj, ValsObj, ScopeObj, MeterObj, ValObj, DeltaObj, ErrNameObj, CollectorObj, ReportObj, EnvObj
CONSTANT Object

\* what an unsynchronised run must have counted once it is over
TallyStep(s, e) == {[st |-> s, res |-> <<e.want>>]}

ObjReads(e) == e.o \in {"high", "low", "cur", "stats", "cur?", "hw?", "succ?", "err?", "pan?", "st?", "ft?", "snap?",
                       "all", "anns", "stable", "list", "total?", "rate", "drate", "sum", "count", "quant", "t?", "f?", "br?", "disp", "fail", "done?", "spans?", "rep?", "numgc?", "control?", "crc?"}

ObjInit(h) == CASE Object = "counter" -> {CtrInit}
                [] Object = "func" -> {FuncInit}
                [] Object = "vals" -> {ValsInit}
                [] Object = "scope" -> {ScopeInit}
                [] Object = "meter" -> {MeterInit}
                [] Object = "val" -> {ValInit}
                [] Object = "delta" -> {DeltaInit}
                [] Object = "errname" -> {ErrNameInit}
                [] Object = "collector" -> {CollInit}
                [] Object = "report" -> {RepInit}
                [] Object = "env" -> {EnvInit(h)}
                [] Object = "tally" -> {0}
ObjStep(s, e) == CASE Object = "counter" -> CtrStep(s, e)
                   [] Object = "func" -> FuncStep(s, e)
                   [] Object = "vals" -> ValsStep(s, e)
                   [] Object = "scope" -> ScopeStep(s, e)
                   [] Object = "meter" -> MeterStep(s, e)
                   [] Object = "val" -> ValStep(s, e)
                   [] Object = "delta" -> DeltaStep(s, e)
                   [] Object = "errname" -> ErrNameStep(s, e)
                   [] Object = "collector" -> CollStep(s, e)
                   [] Object = "report" -> ReportStep(s, e)
                   [] Object = "env" -> EnvStep(s, e)
                   [] Object = "tally" -> TallyStep(s, e)
=============================================================================
