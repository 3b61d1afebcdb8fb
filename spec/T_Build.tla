------------------------------ MODULE T_Build ------------------------------
(* Trace specification for library building: every recorded call of the       *)
(* library builder, of compilation and of conversion back to symbols must be  *)
(* a step of SLib.                                                            *)
EXTENDS SLib, Trace

VARIABLES P,     \* the program (declarations)
          lib,   \* name of the library being built
          deps,  \* dependencies given: set of [id, name, types]
          st,    \* state of the builder
          sym,   \* expected symbolic library (outcome)
          cur,   \* library most recently compiled, as observed
          seen   \* serialized objects seen in this scenario: [c: kind, v, h]
vars == << l, scn, P, lib, deps, st, sym, cur, seen >>

D == DepIds(deps)
TInit == TraceBase /\ P = << >> /\ lib = "" /\ deps = {} /\ st = Empty /\ sym = [k |-> "none"] /\ cur = [k |-> "none"] /\ seen = {}

TScn == Is("scn") /\ scn' = Ev.id /\ seen' = {} /\ UNCHANGED << P, lib, deps, st, sym, cur >>
TUniv == Is("univ") /\ P' = Ev.u /\ UNCHANGED << scn, lib, deps, st, sym, cur, seen >>
TBegin ==
    /\ Is("begin")
    /\ lib' = Ev.lib /\ st' = Empty /\ sym' = [k |-> "none"] /\ cur' = [k |-> "none"]
    /\ deps' = { [id |-> Ev.deps[i].id, name |-> Ev.deps[i].name, types |-> Range(Ev.deps[i].types)] : i \in 1..Len(Ev.deps) }
    /\ UNCHANGED << scn, P, seen >>

\* an expected refusal: where the specification does not say which, any will do
Refused(o) == o.k \in {"err", "panic"}
SameSeen(c, v, h) == \A x \in seen : x.c = c => ((x.v = v) <=> (x.h = h))
See(c, o) == IF o.k = "ok" THEN seen \cup { [c |-> c, v |-> o.v.lib, h |-> o.v.hash] } ELSE seen

TAdd ==
    /\ Is("add")
    /\ LET s2 == AddType(P, D, lib, st, Ev.i)
           y == IF s2.broken THEN [k |-> "none"] ELSE Symbols(lib, deps, s2)
           o == Ev.sym
       IN /\ st' = s2 /\ sym' = y
          /\ Chk(s2.broken => Refused(Ev.out), IF Declarable(P, D, lib, Ev.i) THEN "C01" ELSE "C03",
                 IF Declarable(P, D, lib, Ev.i) THEN "two definitions under one name accepted" ELSE "type of a library that is no dependency accepted", Ev.i)
          /\ Chk(~s2.broken => Ev.out.k = "ok", "C01", "adding a type refused", Ev.i)
          /\ (~s2.broken /\ Ev.out.k = "ok" =>
               /\ Chk(y.k = "err" => o.k # "ok", "C03", "symbols with a foreign type its dependency lacks", y)
               /\ Chk(y.k = "err" => o.k = "err" /\ o.e = y.e, "C01", "kind of refusal", << y, o >>)
               /\ Chk(y.k = "panic" => Refused(o), "C01", "library without types", o)
               /\ Chk(y.k = "ok" => o.k = "ok", "C01", "symbolic library refused", o)
               /\ (y.k = "ok" /\ o.k = "ok" =>
                     /\ Chk(o.v.lib = y.v, "C01", "symbolic library differs from the declarations", << y.v, o.v.lib >>)
                     /\ Chk(SameSeen("sym", o.v.lib, o.v.hash), "C01", "same library, different bytes", o.v.hash)))
          /\ seen' = See("sym", o)
    /\ UNCHANGED << scn, P, lib, deps, cur >>

\* judges an observed compiled library on its own
CheckLib(o) ==
    /\ Chk(o.ids = [i \in 1..Len(o.lib.types) |-> SemId(o.lib.types[i].n, o.lib.types[i].ty)], "C02", "type ids", o.ids)
    /\ Chk(o.id = LibId(o.lib), "C02", "library id", o.id)
    /\ Chk(Sound(o.lib), "C03", "dangling reference", o.lib)
Given(o) == \* recorded foreign types are ones the dependencies provide, by their right names
    \A i \in 1..Len(o.lib.ext) : \E d \in deps :
        /\ d.name = o.lib.ext[i].lib
        /\ { o.lib.ext[i].types[j].id : j \in 1..Len(o.lib.ext[i].types) } \subseteq d.types
        /\ d.id \in { o.lib.deps[k].id : k \in 1..Len(o.lib.deps) }

TCompile ==
    /\ l <= Len(Trace) /\ Ev.e \in {"compile", "compile2"} /\ Is(Ev.e)
    /\ LET x == IF sym.k = "ok" THEN Compile(sym.v) ELSE sym
           o == Ev.out
           kinds == IF x.k # "err" THEN {} ELSE IF sym.k = "ok" THEN x.e ELSE {x.e}
       IN /\ Chk(st.broken \/ (x.k = "ok" <=> o.k = "ok"), IF o.k = "ok" THEN "C03" ELSE "C01", "compile outcome", << x.k, o.k >>)
          /\ Chk(x.k = "err" => o.k = "err" /\ o.e \in kinds, "C01", "kind of refusal", << kinds, o >>)
          /\ (o.k = "ok" => CheckLib(o.v) /\ Chk(Given(o.v), "C03", "foreign type not provided by the dependency", o.v.lib.ext))
          /\ (x.k = "ok" /\ o.k = "ok" =>
                /\ Chk(o.v.lib = x.v, "C01", "compiled library", << x.v, o.v.lib >>)
                /\ Chk(SameSeen("lib", o.v.lib, o.v.hash), "C01", "same library, different bytes", o.v.hash))
          /\ cur' = IF o.k = "ok" THEN o.v ELSE cur
          /\ seen' = See("lib", o)
    /\ UNCHANGED << scn, P, lib, deps, st, sym >>

TToDep ==
    /\ Is("todep")
    /\ Chk(Ev.id = LibId(cur.lib) /\ Ev.name = cur.lib.name, "C02", "dependency record", Ev)
    /\ Chk(Range(Ev.types) = LibTypeIds(cur.lib), "C03", "types a dependency provides", Ev.types)
    /\ UNCHANGED << scn, P, lib, deps, st, sym, cur, seen >>

TToSym ==
    /\ Is("tosym")
    /\ LET x == ToSymbolic(cur.lib)
           o == Ev.out
       IN /\ Chk(o.k = "ok", "C04", "compiled library has no symbolic form", o)
          /\ (o.k = "ok" =>
                /\ Chk(x.k = "ok" => o.v.lib = x.v, "C04", "symbolic form", << x, o.v.lib >>)
                /\ Chk(sym.k = "ok" => o.v.lib = sym.v, "C04", "symbolic form differs from the origin", << sym, o.v.lib >>)
                /\ Chk(SameSeen("sym", o.v.lib, o.v.hash), "C04", "symbolic form: bytes", o.v.hash))
          /\ seen' = See("sym", o)
    /\ UNCHANGED << scn, P, lib, deps, st, sym, cur >>
TRecompile ==
    /\ Is("recompile")
    /\ LET o == Ev.out IN
       /\ Chk(o.k = "ok", "C04", "symbolic form does not compile", o)
       /\ (o.k = "ok" => CheckLib(o.v) /\ Chk(o.v = cur, "C04", "round trip", << cur, o.v >>))
    /\ UNCHANGED << scn, P, lib, deps, st, sym, cur, seen >>
TDamaged ==
    /\ Is("damaged")
    /\ LET x == ToSymbolic(Ev.lib)
           o == Ev.out
       IN /\ Chk(x.k = o.k, "C04", "symbolic form of a damaged library", << x.k, o.k >>)
          /\ Chk(x.k = "ok" /\ o.k = "ok" => x.v = o.v.lib, "C04", "symbolic form of a damaged library", << x, o.v >>)
    /\ UNCHANGED << scn, P, lib, deps, st, sym, cur, seen >>

TAbort == AbortEvent /\ UNCHANGED << scn, P, lib, deps, st, sym, cur, seen >>
TNext == TAbort \/ TScn \/ TUniv \/ TBegin \/ TAdd \/ TCompile \/ TToDep \/ TToSym \/ TRecompile \/ TDamaged
TSpec == TInit /\ [][TNext]_vars
=============================================================================
