------------------------------- MODULE Params -------------------------------
(* P01: the parameter and material store of devsim.                          *)
(*                                                                           *)
(* State: the devices, each with its regions and contacts and their          *)
(* materials, and one value per (device, region, name) that was set, with "" *)
(* for "no device" / "no region".  Every public command is one action; its   *)
(* reply is the variable res.                                                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

VARIABLES dev,   \* device -> [regs: region -> material, cons: contact -> material]
          par,   \* <<device, region, name>> -> value
          res    \* last command and its reply
vars == <<dev, par, res>>

Builtin == {"direct_solver", "edge_couple_model", "edge_node0_volume_model",
            "edge_node1_volume_model", "element_edge_couple_model",
            "element_node0_volume_model", "element_node1_volume_model", "info",
            "node_volume_model", "surface_area_model", "symbolic_iteration_limit"}
BuiltinValue(n) ==
  CASE n = "direct_solver" -> "str:mkl_pardiso"
    [] n = "edge_couple_model" -> "str:EdgeCouple"
    [] n = "edge_node0_volume_model" -> "str:EdgeNodeVolume"
    [] n = "edge_node1_volume_model" -> "str:EdgeNodeVolume"
    [] n = "element_edge_couple_model" -> "str:ElementEdgeCouple"
    [] n = "element_node0_volume_model" -> "str:ElementNodeVolume"
    [] n = "element_node1_volume_model" -> "str:ElementNodeVolume"
    [] n = "info" -> "dict"
    [] n = "node_volume_model" -> "str:NodeVolume"
    [] n = "surface_area_model" -> "str:SurfaceArea"
    [] n = "symbolic_iteration_limit" -> "int:1"
CONSTANT WithBuiltin
Empty == [x \in {} |-> ""]
FreshPar == IF WithBuiltin THEN [k \in {<<"", "", n>> : n \in Builtin} |-> BuiltinValue(k[3])]
                           ELSE Empty

\* ---------------------------------------------------------------- helpers
IsDev(d)     == d \in DOMAIN dev
IsReg(d, r)  == IsDev(d) /\ r \in DOMAIN dev[d].regs
IsCon(d, c)  == IsDev(d) /\ c \in DOMAIN dev[d].cons
\* a scope that may be read or written
Scope(d, r)  == IF d = "" THEN r = "" ELSE IF r = "" THEN IsDev(d) ELSE IsReg(d, r)

\* the scopes that may supply a value, innermost first
Chain(d, r) == (IF r # "" THEN << <<d, r>> >> ELSE << >>)
               \o (IF d # "" THEN << <<d, "">> >> ELSE << >>) \o << <<"", "">> >>
VisibleIn(P, d, r, n) == \E i \in 1..Len(Chain(d, r)) : <<Chain(d, r)[i][1], Chain(d, r)[i][2], n>> \in DOMAIN P
LookupIn(P, d, r, n) ==
  LET c == Chain(d, r)
      K(i) == <<c[i][1], c[i][2], n>>
      i == CHOOSE i \in 1..Len(c) : K(i) \in DOMAIN P /\ \A j \in 1..(i - 1) : K(j) \notin DOMAIN P
  IN P[K(i)]
Visible(d, r, n) == VisibleIn(par, d, r, n)
Lookup(d, r, n)  == LookupIn(par, d, r, n)
Names(d, r) == {k[3] : k \in {k \in DOMAIN par : k[1] = d /\ k[2] = r}}

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, S)   == [x \in DOMAIN f \ S |-> f[x]]

Reply(op, args, ok, val, lst) ==
  res' = [op |-> op, args |-> args, ok |-> ok, val |-> val, lst |-> lst]
Refuse(op, args) == UNCHANGED <<dev, par>> /\ Reply(op, args, FALSE, "", {})

\* ---------------------------------------------------------------- actions
Init == dev = Empty /\ par = FreshPar
        /\ res = [op |-> "init", args |-> <<>>, ok |-> TRUE, val |-> "", lst |-> {}]

Reset == dev' = Empty /\ par' = FreshPar /\ Reply("reset", <<>>, TRUE, "", {})

CreateDevice(d, regs, cons) ==
  IF d = "" \/ IsDev(d) THEN Refuse("create_device", <<d>>)
  ELSE /\ dev' = Put(dev, d, [regs |-> regs, cons |-> cons])
       /\ UNCHANGED par
       /\ Reply("create_device", <<d>>, TRUE, "", {})

DeleteDevice(d) ==
  IF ~IsDev(d) THEN Refuse("delete_device", <<d>>)
  ELSE /\ dev' = Drop(dev, {d})
       /\ par' = Drop(par, {k \in DOMAIN par : k[1] = d})
       /\ Reply("delete_device", <<d>>, TRUE, "", {})

SetParam(d, r, n, v) ==
  IF n = "" \/ v = "str:" \/ ~Scope(d, r) THEN Refuse("set_parameter", <<d, r, n, v>>)
  ELSE /\ par' = Put(par, <<d, r, n>>, v)
       /\ UNCHANGED dev
       /\ Reply("set_parameter", <<d, r, n, v>>, TRUE, "", {})

GetParam(d, r, n) ==
  IF n = "" \/ ~Scope(d, r) \/ ~Visible(d, r, n) THEN Refuse("get_parameter", <<d, r, n>>)
  ELSE UNCHANGED <<dev, par>> /\ Reply("get_parameter", <<d, r, n>>, TRUE, Lookup(d, r, n), {})

ListParam(d, r) ==
  IF ~Scope(d, r) THEN Refuse("get_parameter_list", <<d, r>>)
  ELSE UNCHANGED <<dev, par>> /\ Reply("get_parameter_list", <<d, r>>, TRUE, "", Names(d, r))

\* a material is named for one region or one contact of an existing device;
\* with neither the request does nothing
MatTarget(d, r, c) == /\ IsDev(d)
                      /\ r = "" \/ c = ""
                      /\ r # "" => IsReg(d, r)
                      /\ c # "" => IsCon(d, c)
SetMaterial(d, r, c, m) ==
  IF m = "" \/ ~MatTarget(d, r, c) THEN Refuse("set_material", <<d, r, c, m>>)
  ELSE /\ dev' = IF r # "" THEN [dev EXCEPT ![d].regs[r] = m]
                 ELSE IF c # "" THEN [dev EXCEPT ![d].cons[c] = m] ELSE dev
       /\ UNCHANGED par
       /\ Reply("set_material", <<d, r, c, m>>, TRUE, "", {})
GetMaterial(d, r, c) ==
  IF ~MatTarget(d, r, c) THEN Refuse("get_material", <<d, r, c>>)
  ELSE UNCHANGED <<dev, par>>
       /\ Reply("get_material", <<d, r, c>>, TRUE,
                IF r # "" THEN dev[d].regs[r] ELSE IF c # "" THEN dev[d].cons[c] ELSE "", {})
ListDevices == UNCHANGED <<dev, par>> /\ Reply("get_device_list", <<>>, TRUE, "", DOMAIN dev)

\* ------------------------------------------------------------- properties
\* no parameter outlives its device, none hangs on an unknown region
NoOrphan == \A k \in DOMAIN par : Scope(k[1], k[2])

\* a command that was refused changed nothing
RefusalsChangeNothing == [][res'.ok = FALSE => UNCHANGED <<dev, par>>]_vars
\* only the addressed entry changes
OnlyAddressed ==
  [][/\ res'.op = "set_parameter" /\ res'.ok =>
          \A k \in (DOMAIN par \cup DOMAIN par') \ {<<res'.args[1], res'.args[2], res'.args[3]>>} :
             k \in DOMAIN par /\ k \in DOMAIN par' /\ par'[k] = par[k]
     /\ res'.op = "delete_device" /\ res'.ok =>
          \A k \in DOMAIN par : IF k[1] = res'.args[1] THEN k \notin DOMAIN par'
                                ELSE k \in DOMAIN par' /\ par'[k] = par[k]
     /\ res'.op = "create_device" => UNCHANGED par
     /\ res'.op \in {"get_parameter", "get_parameter_list", "get_material", "get_device_list"}
          => UNCHANGED <<dev, par>>]_vars
\* what is read after a successful set in the same scope is what was set
ReadBack ==
  [][res'.op = "set_parameter" /\ res'.ok =>
        LET d == res'.args[1]
            r == res'.args[2]
            n == res'.args[3]
        IN /\ LookupIn(par', d, r, n) = res'.args[4]
           \* a value set further out is not seen where it is shadowed
           /\ \A k \in DOMAIN par : k # <<d, r, n>> => LookupIn(par', k[1], k[2], k[3]) = par[k]]_vars
=============================================================================
