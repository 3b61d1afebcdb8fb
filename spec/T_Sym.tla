-------------------------------- MODULE T_Sym --------------------------------
(* Trace specification for compiling symbolic libraries of any origin.        *)
EXTENDS SLib, Trace
VARIABLES sym, cur
vars == << l, scn, sym, cur >>

TInit == TraceBase /\ sym = << >> /\ cur = << >>
TScn == Is("scn") /\ scn' = Ev.id /\ UNCHANGED << sym, cur >>
\* the scenarios' libraries can all be stored
TLoad == Is("load") /\ Chk(FALSE, "C15", "symbolic library does not load", Ev.out) /\ UNCHANGED << scn, sym, cur >>

CheckLib(o) ==
    /\ Chk(o.ids = [i \in 1..Len(o.lib.types) |-> SemId(o.lib.types[i].n, o.lib.types[i].ty)], "C02", "type ids", o.ids)
    /\ Chk(o.id = LibId(o.lib), "C02", "library id", o.id)
    /\ Chk(Sound(o.lib), "C03,C19", "dangling reference", o.lib)
TCompile ==
    /\ Is("symcompile")
    /\ LET x == Compile(Ev.sym)
           o == Ev.out
       IN /\ Chk(o.k # "panic", "C19", "compilation crashed", Ev.sym)
          /\ Chk(x.k = "err" => o.k # "ok", "C19,C03", "invalid symbolic library compiled", << x, Ev.sym >>)
          /\ Chk(x.k = "ok" => o.k = "ok", "C19,C01", "valid symbolic library refused", << o, Ev.sym >>)
          /\ Chk(x.k = "err" /\ o.k = "err" => \E w \in x.why : w.e = o.e /\ w.of = o.of, "C19", "error does not name what is wrong", << x, o >>)
          /\ Chk(x.k = "ok" /\ o.k = "ok" => o.v.lib = x.v, "C19,C01", "compiled library", << x, o >>)
          /\ (o.k = "ok" => CheckLib(o.v))
          /\ sym' = Ev.sym /\ cur' = (IF o.k = "ok" THEN o.v ELSE << >>)
    /\ UNCHANGED scn
TToSym ==
    /\ Is("tosym")
    /\ LET x == ToSymbolic(cur.lib)
           o == Ev.out
       IN /\ Chk(o.k = "ok", "C04", "compiled library has no symbolic form", o)
          /\ Chk(o.k = "ok" => o.v.lib = [sym EXCEPT !.deps = cur.lib.deps], "C04", "symbolic form differs from the origin", << sym, o >>)
          /\ Chk(o.k = "ok" /\ x.k = "ok" => o.v.lib = x.v, "C04", "symbolic form", << x, o >>)
    /\ UNCHANGED << scn, sym, cur >>
TRecompile ==
    /\ Is("recompile")
    /\ Chk(Ev.out.k = "ok", "C04,C19", "symbolic form does not compile", Ev.out)
    /\ Chk(Ev.out.k = "ok" => Ev.out.v = cur, "C04,C19", "round trip", << cur, Ev.out >>)
    /\ UNCHANGED << scn, sym, cur >>
TDamaged ==
    /\ Is("damaged")
    /\ LET x == ToSymbolic(Ev.lib)
           o == Ev.out
       IN /\ Chk(x.k = o.k, "C04", "symbolic form of a damaged library", << x.k, o.k >>)
          /\ Chk(x.k = "ok" /\ o.k = "ok" => x.v = o.v.lib, "C04", "symbolic form of a damaged library", << x, o.v >>)
    /\ UNCHANGED << scn, sym, cur >>
TCount ==
    /\ Is("symcount")
    /\ LET o == Ev.out IN
       IF Ev.n > MaxLibTypes THEN Chk(o.k = "err" /\ o.e = "TooManyTypes", "C19", "too many types", o)
       ELSE Chk(o.k = "ok" /\ o.v = Ev.n, "C19,C04", "library at the limit", o)
    /\ UNCHANGED << scn, sym, cur >>
TAbort == AbortEvent /\ UNCHANGED << scn, sym, cur >>
TNext == TAbort \/ TScn \/ TLoad \/ TCompile \/ TToSym \/ TRecompile \/ TDamaged \/ TCount
TSpec == TInit /\ [][TNext]_vars
=============================================================================
