--------------------------- MODULE ExportCatalog ---------------------------
(* Writes what the harness takes from the specification: the catalog, the  *)
(* frame columns, the small alphabets, and the plans of events to execute. *)
EXTENDS Catalog, Frame, SmallScope, SequencesExt

S == INSTANCE Session
O == INSTANCE ObjLife
D == INSTANCE DropNa
L == INSTANCE Laws
P == INSTANCE Schemes

Scope == [x \in Ids |-> [params |-> SetToSeq(Params(x)), bars |-> SetToSeq(BarSet(Kind_(x)))]]

ASSUME JsonSerialize(IOEnv.TA_OUT,
  <<[catalog |-> Catalog, frame |-> FrameCatalog, demanding |-> SetToSeq(Demanding), late |-> [x \in Ids |-> SetToSeq(Late(x))], scope |-> Scope,
     history |-> SetToSeq(S!Plans("history")), creep |-> SetToSeq(S!Plans("creep")), units |-> SetToSeq(S!Plans("units")),
     index |-> SetToSeq(S!IndexKinds), dtype |-> SetToSeq(S!Dtypes), narrow |-> SetToSeq(S!NarrowDtypes), narrowly |-> SetToSeq(S!NarrowMachines), layout |-> SetToSeq(S!Layouts), names |-> SetToSeq(S!NameKinds),
     schemes |-> P!Schemes, fading |-> SetToSeq(L!Fading), turning |-> SetToSeq(L!Turning),
     life |-> [k \in 1..3 |-> SetToSeq(O!Plans(5, k))],
     calls |-> SetToSeq(Calls), distractors |-> SetToSeq(Distractors),
     shapes |-> SetToSeq(D!Shapes), deeper |-> SetToSeq(D!Deeper),
     cells |-> [t \in D!Types |-> SetToSeq(D!CellsOf(t))]]>>)
==========================================================================
