-------------------------------- MODULE SExt --------------------------------
(* Extending a compiled library: one more dependency or one more type, or a   *)
(* refusal which leaves the library as it was.                                *)
EXTENDS SLib

\* entries sorted into their place
InsDep(deps, d) == DepsSeq({ deps[i] : i \in 1..Len(deps) } \cup { d })
InsType(types, n, ty) ==
    LET f == TypesFn(types) IN TypesSeq([x \in DOMAIN f \cup {n} |-> IF x = n THEN ty ELSE f[x]])

\* the set of outcomes allowed: << outcome, kinds of refusal, library afterwards >>
Import(lib, d, max) ==
    LET ids == { lib.deps[i].id : i \in 1..Len(lib.deps) }
        names == { lib.deps[i].name : i \in 1..Len(lib.deps) }
        added == [k |-> "ok", lib |-> [lib EXCEPT !.deps = InsDep(@, d)]]
        dup == [k |-> "err", e |-> "DuplicatedDependency", lib |-> lib]
        many == [k |-> "err", e |-> "TooManyDependencies", lib |-> lib]
    IN IF d.id \in ids THEN { dup }
       \* a different library of the same name: the design does not say
       ELSE (IF d.name \in names THEN { dup } ELSE {}) \cup (IF Len(lib.deps) >= max THEN { many } ELSE { added })
Populate(lib, n, ty, max) ==
    IF \E i \in 1..Len(lib.types) : lib.types[i].n = n THEN { [k |-> "err", e |-> "DuplicateName", lib |-> lib] }
    ELSE IF Len(lib.types) >= max THEN { [k |-> "err", e |-> "TooManyTypes", lib |-> lib] }
    ELSE { [k |-> "ok", lib |-> [lib EXCEPT !.types = InsType(@, n, ty)]] }
=============================================================================
