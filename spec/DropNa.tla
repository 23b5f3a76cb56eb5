------------------------------ MODULE DropNa ------------------------------
(***************************************************************************)
(* utils.dropna: the rows of a frame without a missing or unusable cell.   *)
(* A cell of a number column is unusable when it is NaN, zero, infinite or *)
(* not below exp(709); a cell of any other column when it is missing.      *)
(* All other rows stay: in order, with their labels and values; columns    *)
(* stay as they are, and so does the frame that was passed in.             *)
(* Whether a negative infinity is usable is left open.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Floats == {"1.5", "-2.0", "1e-300", "8.2e307", "-1e308", "0.0", "-0.0", "nan", "inf", "8.3e307"}
Ints   == {"7", "-3", "0", "9007199254740993"}
Texts  == {"x", "", "None"}
Dates  == {"2020-01-01", "NaT"}
Bools  == {"True", "False"}                       \* not numbers: FALSE is not a zero
Spans  == {"1 days", "0 days", "NaT"}             \* neither are spans of time
Nulls  == {"7", "0", "-3", "NA"}                  \* integers of pandas' nullable kind
Labels == {"p", "q", "None"}                      \* categories
Types  == {"float", "int", "text", "date", "bool", "span", "null", "cat"}
CellsOf(t) == CASE t = "float" -> Floats [] t = "int" -> Ints [] t = "text" -> Texts [] t = "date" -> Dates
                [] t = "bool" -> Bools [] t = "span" -> Spans [] t = "null" -> Nulls [] t = "cat" -> Labels

Usable(t, x) ==
  CASE t = "float" -> x \notin {"0.0", "-0.0", "nan", "inf", "8.3e307"}
    [] t \in {"int", "null"} -> x \notin {"0", "NA"}
    [] OTHER       -> x \notin {"None", "NaT"}

\* a frame: column types and a sequence of rows
Keep(f) == {i \in DOMAIN f.rows : \A c \in DOMAIN f.types : Usable(f.types[c], f.rows[i][c])}
Kept(f) == LET ok == [i \in DOMAIN f.rows |-> \A c \in DOMAIN f.types : Usable(f.types[c], f.rows[i][c])]
           IN  SelectSeq([i \in DOMAIN f.rows |-> i], LAMBDA i : ok[i])

RowsOf(types) == {r \in [DOMAIN types -> UNION {CellsOf(types[c]) : c \in DOMAIN types}] :
                    \A c \in DOMAIN types : r[c] \in CellsOf(types[c])}
FramesOf(types, n) == {[types |-> types, rows |-> r] : r \in [1..n -> RowsOf(types)]}

Shapes == {<<<<"float">>, 0>>, <<<<"float">>, 1>>, <<<<"float">>, 2>>, <<<<"float">>, 3>>, <<<<"float", "float">>, 1>>,
           <<<<"float", "float">>, 2>>, <<<<"float", "text">>, 1>>, <<<<"float", "text">>, 2>>, <<<<"int">>, 3>>,
           <<<<"int", "float">>, 2>>, <<<<"text">>, 3>>, <<<<"text", "int", "float">>, 1>>, <<<<"date", "float">>, 2>>,
           <<<<"float", "date", "int">>, 1>>, <<<<"bool", "float">>, 2>>, <<<<"span", "int">>, 2>>, <<<<"null">>, 3>>,
           <<<<"null", "float">>, 2>>, <<<<"cat", "float">>, 2>>, <<<<"bool", "span", "cat">>, 1>>, <<<<"bool">>, 2>>,
           <<<<"int", "int">>, 2>>}
Deeper == {<<<<"float">>, 4>>, <<<<"float", "int">>, 3>>, <<<<"float", "text", "float">>, 2>>, <<<<"int", "text", "date">>, 3>>,
           <<<<"null", "bool", "float">>, 2>>, <<<<"cat", "span", "int">>, 2>>, <<<<"null", "int">>, 3>>, <<<<"int">>, 5>>}

\* f: the frame given, e: what came back (pos: original positions of the rows, by label; cells: as strings)
Fault(f, e) ==
  IF e.err # "" THEN "the call failed"
  ELSE IF ~e.frozen THEN "the input frame was modified"
  ELSE IF ~e.columns_kept THEN "columns are not kept"
  ELSE IF ~e.labels_kept THEN "a kept row has another label"
  ELSE IF e.pos # Kept(f)
       THEN IF \E i \in DOMAIN e.pos : e.pos[i] \notin Keep(f) THEN "a row with an unusable cell is kept"
            ELSE IF Len(e.pos) < Cardinality(Keep(f)) THEN "a usable row is dropped" ELSE "rows are out of order"
  ELSE IF \E i \in DOMAIN e.pos : e.cells[i] # f.rows[e.pos[i]] THEN "a kept row has other values"
  ELSE ""
==========================================================================
