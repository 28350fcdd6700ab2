----------------------------------- MODULE MCCtors -----------------------------------
(* Every way of calling every constructor: arguments by position, by name, or left out. *)
EXTENDS Ctors, Json, IOUtils, CSV
CONSTANTS MaxKw
VARIABLES c, done
None == [ctor |-> 0, pos |-> 0, kw |-> {}]
Init == done = FALSE /\ c = None
Needed(t, pos) == {i \in (pos + 1)..Len(t.params) : t.params[i].def = Req}
Next == ~done /\ done' = TRUE /\ \E i \in 1..Len(Table) : LET t == Table[i] IN
          \E pos \in 0..Len(t.params) : \E kw \in SUBSET ((pos + 1)..Len(t.params)) :
             /\ (Cardinality(kw \ Needed(t, pos)) <= MaxKw \/ kw = (pos + 1)..Len(t.params))
             /\ Callable(t, pos, kw)
             /\ c' = [ctor |-> i, pos |-> pos, kw |-> kw]
Vals(t) == [i \in 1..Len(t.params) |-> "v" \o ToString(i)]
(* what is given ends up in its attribute and nowhere else; the rest has defaults *)
Right == done => LET t == Table[c.ctor]  o == New(t, c.pos, c.kw, Vals(t)) IN
  /\ \A i \in 1..Len(t.params) : t.params[i].attr # "-" => (o[t.params[i].attr] = Vals(t)[i] <=> i \in Given(c.pos, c.kw))
  /\ \A a \in Attrs(t) : o[a] # Req
OncePerAttr == \A i \in 1..Len(Table) : LET t == Table[i] IN Cardinality(Attrs(t) \cup {"-"}) =
                  Cardinality({j \in 1..Len(t.params) : t.params[j].attr # "-"}) + Len(t.rest) + 1
Shape == ~done => OncePerAttr
Emit == done => LET t == Table[c.ctor] IN CSVWrite("%1$s", <<ToJson([ctor |-> c.ctor, cls |-> t.cls, how |-> t.how, params |-> t.params, attrs |-> Attrs(t), pos |-> c.pos, kw |-> c.kw])>>, IOEnv.CASES)
=============================================================================
