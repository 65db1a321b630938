------------------------------ MODULE MCParams ------------------------------
EXTENDS Params, Json
CONSTANTS Dev, Reg, Nam, Val, Mat
AnyDev == Dev \cup {"", "nodev"}
AnyReg == Reg \cup {"", "noreg"}
AnyNam == Nam \cup {""}
AnyVal == Val \cup {"str:"}
RegSets == {S \in SUBSET Reg : S # {}}
M0 == CHOOSE m \in Mat : TRUE

DoReset == Reset
DoCreate == \E d \in Dev \cup {""}, S \in RegSets :
               CreateDevice(d, [r \in S |-> M0], [c \in {"c1"} |-> M0])
DoDelete == \E d \in AnyDev : DeleteDevice(d)
DoSet == \E d \in AnyDev, r \in AnyReg, n \in AnyNam, v \in AnyVal : SetParam(d, r, n, v)
DoGet == \E d \in AnyDev, r \in AnyReg, n \in AnyNam : GetParam(d, r, n)
DoList == \E d \in AnyDev, r \in AnyReg : ListParam(d, r)
DoSetMat == \E d \in AnyDev, r \in AnyReg, c \in {"", "c1", "noc"}, m \in Mat \cup {""} : SetMaterial(d, r, c, m)
DoGetMat == \E d \in AnyDev, r \in AnyReg, c \in {"", "c1", "noc"} : GetMaterial(d, r, c)
DoDevs == ListDevices
Next == DoReset \/ DoCreate \/ DoDelete \/ DoSet \/ DoGet \/ DoList \/ DoSetMat \/ DoGetMat \/ DoDevs
Spec == Init /\ [][Next]_vars
View == <<dev, par>>
\* simulation: print each command, so that it can be replayed into the code
Emit == PrintT("@@" \o ToJson([l |-> TLCGet("level"), op |-> res.op, args |-> res.args,
                                regs |-> IF res.op = "create_device" /\ res.ok THEN DOMAIN dev[res.args[1]].regs ELSE {}]))
=============================================================================
