------------------------------ MODULE MViewTrace ------------------------------
(***************************************************************************)
(* Conformance: what the real macro did on recorded calls, checked against   *)
(* the machine. A case is a token sequence and what was observed of the real *)
(* macro on it; the machine runs on the same tokens and its behaviour is     *)
(* compared with the observation, aspect by aspect.                         *)
(*                                                                         *)
(* An observation is a record                                              *)
(*   out    "ok" compiled and ran | "err" the macro reported errors          *)
(*          "rustc" the macro accepted, its output does not compile          *)
(*          "panic" | "hang" | "crash"                                      *)
(*   locs   the locations of the reported errors, <<n, e>>                   *)
(*   root, clog, rlog, dom  of the run, as in MViewRun                       *)
(*   first  TRUE: only one of the errors can be seen (a call in expression     *)
(*          position, stable compiler)                                       *)
(*   digs   what repeated expansions of these tokens came to: text and errors *)
(***************************************************************************)
EXTENDS MViewRun, Json, IOUtils
CONSTANT TraceFile
Cases == ndJsonDeserialize(TraceFile)
VARIABLES cid, verdict
tvars == <<vars, cid, verdict>>

---------------------------------------------------------------------------
(* Comparing documents *)
Cat4(k) == CASE StartsWith(k, "on:") -> "event"
             [] StartsWith(k, "prop:") -> "domprop"
             [] StartsWith(k, "use:") -> "use"
             [] StartsWith(k, "ref:") -> "ref"
             [] StartsWith(k, "p:") -> "prop"
             [] StartsWith(k, "data-sp") -> "spread"
             [] OTHER -> "attr"
KeysOf(at) == {at[i][1] : i \in DOMAIN at}
ValsAt(at, k) == MapSeq(LAMBDA p : p[2], SelectSeq(at, LAMBDA p : p[1] = k))
AttrDiff(x, y) ==       \* categories in which the attributes differ
  {Cat4(k) : k \in {j \in KeysOf(x) \cup KeysOf(y) : ValsAt(x, j) # ValsAt(y, j)}}
Bag(s) == [v \in Range(s) |-> Cardinality({i \in DOMAIN s : s[i] = v})]
RECURSIVE UpTo(_, _)
UpTo(s, c) == IF s = "" \/ Ch(s, 1) = c THEN "" ELSE Ch(s, 1) \o UpTo(SubSeq(s, 2, Len(s)), c)
StyleOf(s, k) == SelectSeq(s, LAMBDA d : UpTo(d, ":") = k)
SameStyle(x, y) == \A k \in {UpTo(d, ":") : d \in Range(x) \cup Range(y)} : StyleOf(x, k) = StyleOf(y, k)
IsElement(v) == v.t = "el"
If(b, a) == IF b THEN {a} ELSE {}

\* slots and component tags are x- tags of the kit
RECURSIVE DocDiff(_, _)
NodeDiff(x, y) ==
  IF x.t # y.t THEN {"tree"}
  ELSE IF x.t = "tx" THEN If(x.s # y.s, "text")
  ELSE If(x.s # y.s, "tag") \cup If(x.ns # y.ns, "ns") \cup AttrDiff(x.at, y.at)
       \cup If(Bag(x.cls) # Bag(y.cls), "class") \cup If(~SameStyle(x.sty, y.sty), "style")
       \cup DocDiff(x.ch, y.ch)
DocDiff(xs, ys) ==
  IF Len(xs) # Len(ys) THEN {"tree"}
  ELSE UNION {NodeDiff(xs[i], ys[i]) : i \in DOMAIN xs}

\* the same evaluations, in whatever order
LogDiff(x, y, a) == If(x # y, a) \cup If(Bag(x) # Bag(y), a \o "n")

---------------------------------------------------------------------------
Locs == {<<diags[i].at.n, diags[i].at.e>> : i \in DOMAIN diags}
Judge(o) ==
  If(\E i, j \in DOMAIN o.digs : o.digs[i] # o.digs[j], "unstable") \cup
  IF o.out \in {"panic", "hang", "crash"} THEN {o.out}
  ELSE IF st = "unk" THEN If(o.out = "ok", "accepted")
  ELSE IF ~Accepted
  THEN IF o.out # "err" THEN {"accepted"}
       ELSE If(IF o.first THEN Locs \cap Range(o.locs) = {} ELSE Locs \ Range(o.locs) # {}, "unreported")
            \cup If(Tame /\ Range(o.locs) \ Locs # {}, "misplaced")
  ELSE IF \E i \in DOMAIN plan : \E j \in DOMAIN plan[i] : plan[i][j].o = "bad" THEN {"bad plan"}
  ELSE LET r == Run IN
       IF ~r.ok THEN {}
       ELSE IF o.out # "ok" THEN {IF o.out = "err" THEN "rejected" ELSE "broken"}
       ELSE If(r.root # o.root, "root") \cup LogDiff(r.clog, o.clog, "clog")
            \cup LogDiff(r.rlog, o.rlog, "rlog") \cup DocDiff(r.dom, o.dom)

TraceInit ==
  \E i \in DOMAIN Cases :
    /\ ParseInit(Cases[i].toks) /\ ExpandInit
    /\ cid = i /\ verdict = "none"
TraceStep == verdict = "none" /\ MacroNext /\ UNCHANGED <<cid, verdict>>
TraceEnd ==
  /\ verdict = "none" /\ Finished
  /\ \E b \in {Judge(Cases[cid].obs)} :
     /\ verdict' = IF b = {} THEN "conforms" ELSE "differs"
     /\ PrintT("JUDGED " \o ToJson([id |-> Cases[cid].id, bad |-> b,
            exp |-> IF Accepted THEN "ok" ELSE st,
            locs |-> IF b # {} THEN Locs ELSE {},
            run |-> IF b # {} /\ Accepted THEN Run ELSE [ok |-> FALSE]]))
  /\ UNCHANGED <<vars, cid>>
TraceNext == TraceStep \/ TraceEnd
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
