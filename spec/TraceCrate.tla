----------------------------- MODULE TraceCrate -------------------------------
(* Recorded runs of the command: what it was asked, how it ended and what the  *)
(* directory holds afterwards.                                                  *)
EXTENDS Crate, Json
CONSTANT Known
Trace == JsonDeserialize("trace.json")
VARIABLES i, l
E == Trace[i].events[l]
Asked(e) == [want |-> e.want, features |-> ToSet(e.features), served |-> e.served, args |-> e.args, blocked |-> e.blocked, include |-> e.include,
             name |-> e.name, version |-> e.version, license |-> e.license, registry |-> e.registry]
At(fs, p) == fs[CHOOSE k \in 1..Len(fs) : fs[k].path = p]
Before(t) == [p \in {t.before[k].path : k \in 1..Len(t.before)} |-> Foreign(At(t.before, p).text)]
TInit == i \in 1..Len(Trace) /\ l = 1 /\ CInit(Before(Trace[i]))
Names(ds) == {ds[k].name : k \in 1..Len(ds)}
Mentioned(e) == ToSet(e.mentions)
Holds(e, p, f) ==
  CASE f.is = "foreign"  -> At(e.files, p).text = f.text
    [] f.is = "support"  -> e.client = Trace[i].client
    [] f.is = "code"     -> e.lib = f.of /\ e.mod = f.include       \* the same code the library makes of that document
    [] f.is = "manifest" -> /\ e.package = f.package /\ f.needs \subseteq Names(e.deps)
                            /\ Cardinality(Names(e.deps)) = Len(e.deps)
TRun == /\ l <= Len(Trace[i].events) /\ E.ev = "run" /\ Run(Asked(E))
        /\ IF Refused(Asked(E)) THEN E.exit # 0 ELSE E.exit = 0 /\ Mentioned(E) \subseteq Names(E.deps)
        (* the directory, as it is found after the run, is what the machine holds *)
        /\ {E.files[k].path : k \in 1..Len(E.files)} = DOMAIN dir'
        /\ \A p \in DOMAIN dir' : Holds(E, p, dir'[p])
        /\ l' = l + 1 /\ UNCHANGED i
(* The crate compiles with the dependencies it declares.  Known deviation D50: *)
(* the builders name the query parameters' helper as if it came from a crate   *)
(* that an included client does not depend on; nothing else is wrong with it.  *)
Deviation(k) == k \in Known /\ PrintT(<<"KNOWN", k>>)
TBuild == /\ l <= Len(Trace[i].events) /\ E.ev = "build" /\ last # <<>>
          /\ IF E.compiles THEN TRUE
             ELSE /\ last[1].include /\ E.style \in {"builder", "separate"} /\ E.queries /\ E.otherwise
                  /\ Deviation("D50")
          /\ l' = l + 1 /\ UNCHANGED <<i, cvars>>
TDone == l > Len(Trace[i].events) /\ UNCHANGED <<i, l, cvars>>
TNext == TRun \/ TBuild \/ TDone
=============================================================================
