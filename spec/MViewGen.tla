------------------------------- MODULE MViewGen -------------------------------
(***************************************************************************)
(* Inputs for the machine, and the machine run on them: first a call is     *)
(* derived from the grammar (or taken from a catalogue), then it may be     *)
(* damaged, then the macro runs on it, and what it does is printed as a      *)
(* case for the real macro. The properties of the machine are checked in    *)
(* every state on the way.                                                 *)
(***************************************************************************)
EXTENDS MViewCat, Json
CONSTANTS
  Depth,     \* how deep derivations nest; the longest sequence of an enumeration
  Faults     \* how many times a derived input is damaged
VARIABLES
  done, done2,  \* the call derived so far, in both spellings
  todoG,        \* symbols still to derive
  faults,       \* damages still to do
  round,        \* 1: the call; 2: its second spelling
  first,        \* what round 1 came to
  lab           \* where the case is from

gvars == <<done, done2, todoG, faults, round, first, lab>>
allvars == <<vars, gvars>>

IsTok(x) == x.k \notin {"nt", "alt"}

RECURSIVE Tree(_)        \* [ts, rest]
Tree(flat) ==
  IF flat = <<>> THEN [ts |-> <<>>, rest |-> <<>>]
  ELSE LET t == Head(flat) IN
       IF t.k = "close" THEN [ts |-> <<>>, rest |-> Tail(flat)]
       ELSE IF t.k = "open"
       THEN LET in == Tree(Tail(flat))
                r == Tree(in.rest) IN
            [ts |-> <<[Grp(t.s, in.ts) EXCEPT !.b = t.b]>> \o r.ts, rest |-> r.rest]
       ELSE LET r == Tree(Tail(flat)) IN [ts |-> <<t>> \o r.ts, rest |-> r.rest]

\* leading symbols that need no choice
RECURSIVE Flush(_, _, _)
Flush(syms, a, b) ==
  IF syms = <<>> THEN [rest |-> <<>>, a |-> a, b |-> b]
  ELSE LET h == Head(syms) IN
       IF h.k = "nt" THEN [rest |-> syms, a |-> a, b |-> b]
       ELSE IF h.k = "alt" THEN Flush(Tail(syms), a \o h.x, b \o h.y)
       ELSE Flush(Tail(syms), Append(a, h), Append(b, h))

NoInput == /\ input = <<>> /\ stack = <<>> /\ nodes = <<>> /\ diags = <<>> /\ roots = <<>>
           /\ todo = <<>> /\ plan = <<>>
NoFirst == [run |-> [ok |-> FALSE], diags |-> {}, st |-> ""]

GenInit(syms, l) ==
  LET f == Flush(syms, <<>>, <<>>) IN
  /\ NoInput /\ st = "gen" /\ round = 1 /\ first = NoFirst /\ lab = l
  /\ done = f.a /\ done2 = f.b /\ todoG = f.rest /\ faults = Faults

\* derive the leftmost nonterminal
Derive ==
  /\ st = "gen" /\ todoG # <<>>
  /\ \E ps \in {Prods(Head(todoG))} : \E i \in {RandomElement(1..Len(ps))} :
     \E f \in {Flush(ps[i] \o Tail(todoG), done, done2)} :
     /\ done' = f.a /\ done2' = f.b /\ todoG' = f.rest
  /\ UNCHANGED <<vars, faults, round, first, lab>>

Hurt ==
  /\ st = "gen" /\ todoG = <<>> /\ faults > 0
  /\ \E i \in {RandomElement(1..(Len(done) + 1))} : \E how \in {RandomElement(1..6)} :
     \E t \in {Junk[RandomElement(1..Len(Junk))]} :
     \E d \in {IF i > Len(done) THEN Append(done, t) ELSE Damage(done, i, how, t)} :
     /\ done' = d /\ done2' = d
  /\ faults' = faults - 1
  /\ UNCHANGED <<vars, todoG, round, first, lab>>

Start ==
  /\ st = "gen" /\ todoG = <<>> /\ faults = 0
  /\ LET ts == Number(Tree(IF round = 1 THEN done ELSE done2).ts) IN
     /\ input' = ts /\ st' = "parse" /\ stack' = <<Frame(ts, CallSite, 0)>>
  /\ UNCHANGED <<nodes, diags, roots, todo, plan, gvars>>

\* the macro always comes to an end: every parser step makes progress
MacroStep ==
  /\ MacroNext
  /\ (st = "parse" /\ st' = "parse") => Assert(Measure' < Measure, "no progress")
  /\ UNCHANGED gvars

RECURSIVE Marked(_)
Marked(ts) ==
  IF ts = <<>> THEN {}
  ELSE (CASE Head(ts).b = "!" -> {Loc(Head(ts).n)} [] Head(ts).b = "!)" -> {CloseLoc(Head(ts).n)} [] OTHER -> {})
       \cup Marked(Head(ts).ts) \cup Marked(Tail(ts))
---------------------------------------------------------------------------
(* The outcome, and the case as it is handed to the real macro *)
Outcome == IF st = "unk" THEN "unk" ELSE IF Accepted THEN "ok" ELSE "err"
Result == [st |-> Outcome, diags |-> {<<d.c, d.at>> : d \in Range(diags)},
           run |-> IF Accepted THEN Run ELSE [ok |-> FALSE]]

Emit == PrintT("CASE " \o ToJson([lab |-> lab, round |-> round, exp |-> Outcome,
                                  run |-> Result.run.ok, dg |-> {d.c : d \in Range(diags)},
                                  at |-> {<<d.at.n, d.at.e>> : d \in Range(diags)},
                                  mk |-> {<<m.n, m.e>> : m \in Marked(input)}, toks |-> input]))
Finish ==
  /\ Finished
  /\ Emit
  /\ IF round = 1 /\ done # done2
     THEN /\ first' = Result /\ round' = 2 /\ st' = "gen"
          /\ input' = <<>> /\ stack' = <<>> /\ nodes' = <<>> /\ diags' = <<>> /\ roots' = <<>>
          /\ todo' = <<>> /\ plan' = <<>>
          /\ UNCHANGED <<done, done2, todoG, faults, lab>>
     ELSE /\ st' = "end"
          /\ first' = IF round = 2 THEN [first EXCEPT !.st = IF first.run = Result.run THEN "same" ELSE "differ"] ELSE first
          /\ UNCHANGED <<input, stack, nodes, diags, roots, todo, plan, done, done2, todoG, faults, round, lab>>

GenNext == Derive \/ Hurt \/ Start \/ MacroStep \/ Finish

RandomSpec == GenInit(<<NT("root", Depth, Ctx0)>>, "rnd") /\ [][GenNext]_allvars

Mine(i) == i % CatParts = CatPart
CatSpec == (\E i \in {j \in DOMAIN Catalogue : Mine(j)} : GenInit(Catalogue[i].x, Catalogue[i].l))
           /\ [][GenNext]_allvars

\* enumerations start at the parser: their tokens are trees already
EnumInit ==
  \E p \in {0, 1} : \E len \in 0..Depth :
  \E i \in {j \in 0..(Pow(Len(Alpha), len) - 1) : Mine(j)} :
    /\ (p = 1 => Prof = "E2")
    /\ \E ts \in {Number(EnumCase(p, len, i))} :
         /\ input = ts /\ st = "parse" /\ stack = <<Frame(ts, CallSite, 0)>>
    /\ nodes = <<>> /\ diags = <<>> /\ roots = <<>> /\ todo = <<>> /\ plan = <<>>
    /\ round = 1 /\ first = NoFirst /\ lab = "enum" /\ done = <<>> /\ done2 = <<>> /\ todoG = <<>> /\ faults = 0
EnumSpec == EnumInit /\ [][GenNext]_allvars

---------------------------------------------------------------------------
(* What holds of the machine on every input *)
Live == st \in {"parse", "root", "expand", "done", "abort", "unk"}
TypeOk == st \in {"gen", "parse", "root", "expand", "done", "abort", "unk", "end"}
Inv_Locs == Live => LocsValid
Inv_Stack == st = "parse" => StackOk
Inv_Dropped == NothingDropped
Inv_Order == ChildrenInOrder
Inv_Slots == SlotsPlanned
Inv_Abort == AbortSaysWhy
\* planted faults: the call is refused, and the errors are exactly where they are
Inv_Faults == (Finished /\ lab = "fault") =>
              (~Accepted /\ st # "unk" /\ {diags[i].at : i \in DOMAIN diags} = Marked(input))
\* everything else in the catalogues is accepted
Inv_Accepted == (Finished /\ lab \notin {"fault", "enum", "rnd", "kw"}) => Accepted
\* the two spellings come to the same
Inv_Same == first.st # "differ"

\* a value that is evaluated eagerly is evaluated exactly once per run of the
\* code around it; at top level that is once
RECURSIVE EagerNums(_)
EagerNums(ts) == IF ts = <<>> THEN <<>>
                 ELSE (IF Head(ts).k = "lit" /\ Head(ts).f = "int" THEN <<Head(ts).s>> ELSE <<>>)
                      \o EagerNums(Head(ts).ts) \o EagerNums(Tail(ts))
NoRepeat(s) == \A i, j \in DOMAIN s : (s[i] = s[j] /\ i # j) => FALSE
OnlyXml == \A i \in DOMAIN nodes : nodes[i].tag.kind # "Component"
Inv_Once ==
  (st = "done" /\ Accepted /\ OnlyXml) =>
    LET r == Run IN r.ok => NoRepeat(SelectSeq(r.clog \o r.rlog, LAMBDA x : x # "d:LG"))

=============================================================================
