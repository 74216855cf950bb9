TRF = """---- MODULE TR ----
(* Trace specification: each recorded input/output pair must be one the oracle allows. *)
EXTENDS %(mod)s
VARIABLE ti
Log == ndJsonDeserialize(IOEnv.TRACE)
CH == %(chunk)d
TInit == ti \\in {1 + k * CH : k \\in 0..((Len(Log) - 1) \\div CH)} /\\ %(fix)s
TNext == ti %% CH # 0 /\\ ti < Len(Log) /\\ ti' = ti + 1 /\\ %(fixn)s
TOk == LET e == Expected(Log[ti]) IN
       \\/ %(match)s(e, Log[ti].out)
       \\/ PrintT(ToJson([mismatch |-> ti, expected |-> e]))
====
"""
TRM = """---- MODULE TR ----
(* Trace specification: each recorded history must be a behaviour of the machine. *)
EXTENDS %(mod)s
VARIABLE ti
Log == ndJsonDeserialize(IOEnv.TRACE)
NewIdx == {j \\in 1..Len(Log) : Log[j].n = "new"}
TInit == ti \\in NewIdx /\\ s = InitFrom(Log[ti].init) /\\ op = NoOp /\\ %(fix)s
TNext == /\\ ti < Len(Log) /\\ %(fixn)s
         /\\ Log[ti + 1].n = "op"
         /\\ LET e == Log[ti + 1]
                a == Apply(s, e.o) IN
            IF Match(a.r, e.r) /\\ Proj(a.s) = e.p
            THEN s' = a.s /\\ ti' = ti + 1 /\\ op' = NoOp
            ELSE PrintT(ToJson([mismatch |-> ti + 1, expected |-> [r |-> a.r, p |-> Proj(a.s)]])) /\\ FALSE
====
"""
