-------------------------------- MODULE Crate ---------------------------------
(* C22.  The stand-alone crate the command generates: a directory that a       *)
(* history of runs writes into.  A run is given a document (with what its      *)
(* client needs, or refused), the package's particulars and the options.       *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC
VARIABLES dir, last
cvars == <<dir, last>>

(* what the code of a client with these features needs *)
Needs(f, include) ==
  {"reqwest", "serde"}
  \cup (IF include THEN {"bytes", "futures-core", "percent-encoding", "serde_json", "serde_urlencoded"} ELSE {"progenitor-client"})
  \cup (IF "paginated" \in f THEN {"futures"} ELSE {})
  \cup (IF "websocket" \in f THEN {"base64", "rand"} ELSE {})
  \cup (IF "uuid" \in f THEN {"uuid"} ELSE {})
  \cup (IF "chrono" \in f THEN {"chrono"} ELSE {})
  \cup (IF "pattern" \in f THEN {"regress"} ELSE {})
  \cup (IF "anyjson" \in f THEN {"serde_json"} ELSE {})

(* what a run is asked to make, file by file; want stands for the code the     *)
(* library makes of that document in that style                                *)
Package(r) == [name |-> r.name, version |-> r.version, license |-> r.license, publish |-> r.registry, edition |-> "2021"]
Manifest(r) == [is |-> "manifest", package |-> Package(r), needs |-> Needs(r.features, r.include)]
Code(r) == [is |-> "code", of |-> r.want, include |-> r.include]
Support == [is |-> "support"]
Foreign(t) == [is |-> "foreign", text |-> t]
MAN == "Cargo.toml"
LIB == "src/lib.rs"
SUP == "src/progenitor_client.rs"
Made(r) == [p \in {MAN, LIB} \cup (IF r.include THEN {SUP} ELSE {}) |-> IF p = MAN THEN Manifest(r) ELSE IF p = LIB THEN Code(r) ELSE Support]
(* the document is refused, the arguments are, or the directory cannot be made *)
Refused(r) == ~r.served \/ ~r.args \/ r.blocked

(* the directory, from paths to what the files there are, and the last run     *)
(* that made something                                                          *)
CInit(before) == dir = before /\ last = <<>>
(* a refused run leaves the directory alone; any other one leaves each of its  *)
(* files exactly as asked for, whatever was there, and every other file alone  *)
Run(r) == IF Refused(r) THEN UNCHANGED cvars
          ELSE dir' = Made(r) @@ dir /\ last' = <<r>>

Complete == last # <<>> =>
  /\ {MAN, LIB} \subseteq DOMAIN dir
  /\ last[1].include => SUP \in DOMAIN dir /\ dir[SUP] = Support
  /\ Needs(last[1].features, last[1].include) \subseteq dir[MAN].needs
  /\ ("progenitor-client" \in dir[MAN].needs) = ~last[1].include
Fresh == last # <<>> => \A p \in DOMAIN Made(last[1]) : dir[p] = Made(last[1])[p]
(* what nobody asked to be written is as it was *)
Others(before) == /\ DOMAIN before \subseteq DOMAIN dir
                  /\ \A p \in DOMAIN dir \ {MAN, LIB, SUP} : p \in DOMAIN before /\ dir[p] = before[p]
=============================================================================
