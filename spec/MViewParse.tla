------------------------------ MODULE MViewParse ------------------------------
(***************************************************************************)
(* The parser of `mview!`, as a machine that consumes the token trees of    *)
(* one macro call. One action per decision the parser takes; the stack has  *)
(* one frame per children block that is open.                              *)
(*                                                                         *)
(* A frame holds the tokens that are left (ts), where "end of input" is     *)
(* reported (close), the element whose children these are (own, 0 = the     *)
(* macro itself), the children so far (acc), the element being parsed (el)  *)
(* and the phase of that element (ph).                                     *)
(***************************************************************************)
EXTENDS MViewTok

VARIABLES
  input,   \* the numbered token trees of the call
  st,      \* "parse" "root" "expand" "done" "abort" "unk"
  stack,   \* open children blocks
  nodes,   \* every element parsed so far; an element's id is its index
  diags,   \* the errors reported so far
  roots    \* the top-level children, once parsed

pvars == <<input, st, stack, nodes, diags, roots>>

Frame(ts, close, own) ==
  [ts |-> ts, close |-> close, own |-> own, acc |-> <<>>, el |-> 0, ph |-> "child"]
CallSite == Loc(0)

ParseInit(ts) ==
  /\ input = ts
  /\ st = "parse"
  /\ stack = <<Frame(ts, CallSite, 0)>>
  /\ nodes = <<>>
  /\ diags = <<>>
  /\ roots = <<>>

Top == stack[Len(stack)]
InPhase(ph) == st = "parse" /\ Top.ph = ph
CurLoc(f, ts) == IF ts = <<>> THEN f.close ELSE Loc(Head(ts).n)
SetTop(f) == stack' = [stack EXCEPT ![Len(stack)] = f]
D(c, at) == [c |-> c, at |-> at]
Report(dg) == diags' = diags \o dg
Node0 == [tag |-> [kind |-> "", repr |-> "", segs |-> <<>>, lead |-> FALSE, n |-> 0],
          slot |-> FALSE, kw |-> 0, sel |-> <<>>, attrs |-> <<>>, apos |-> 0,
          args |-> <<>>, body |-> FALSE, kids |-> <<>>, par |-> 0]
ValRef(v) == [c |-> "val", v |-> v, id |-> 0]
ElRef(id, slot) == [c |-> IF slot THEN "slot" ELSE "el", v |-> NoVal, id |-> id]
AddChild(f, r) == [f EXCEPT !.acc = Append(@, r), !.ph = "child", !.el = 0]
SetNode(id, n) == nodes' = [nodes EXCEPT ![id] = n]

(***************************************************************************)
(* A child could not be parsed: a semicolon is skipped, anything else gives *)
(* up on the rest of this block.                                           *)
(***************************************************************************)
ChildErr(f, ts, at, dg) ==
  LET semi == IsP(At(ts, 1), ";")
  IN /\ Report(dg \o <<D(IF semi THEN "semi" ELSE "child", at)>>)
     /\ SetTop([f EXCEPT !.ts = IF semi THEN Rest(ts, 2) ELSE <<>>, !.ph = "child", !.el = 0])

---------------------------------------------------------------------------
(* Children *)
ChildTs == IF InPhase("child") THEN Top.ts ELSE <<>>
ChildVal == Value(ChildTs)
IsSlotKw(ts) == IsIdent(At(ts, 1), "slot") /\ IsP(At(ts, 2), ":") /\ ~IsPathSep(ts, 2)
StrVal(v) == v.vk = "lit" /\ v.lit.f = "str"
NonStrLit(v) == v.vk = "neg" \/ (v.vk = "lit" /\ v.lit.f # "str")

ParseValueChild ==
  /\ ChildTs # <<>> /\ ChildVal.ok /\ ~NonStrLit(ChildVal.v)
  /\ SetTop(AddChild([Top EXCEPT !.ts = ChildVal.rest], ValRef(ChildVal.v)))
  /\ UNCHANGED <<input, st, nodes, diags, roots>>

\* only string literals are children; others are reported where they stand
ParseBadLitChild ==
  /\ ChildTs # <<>> /\ ChildVal.ok /\ NonStrLit(ChildVal.v)
  /\ Report(<<D("badlit", Loc(ChildVal.v.n))>>)
  /\ SetTop(AddChild([Top EXCEPT !.ts = ChildVal.rest], ValRef(ChildVal.v)))
  /\ UNCHANGED <<input, st, nodes, roots>>

StartTag(kw, ts) ==
  LET f == Top IN
  IF IsPathSep(ts, 1) \/ IsPathSep(ts, 2) \/ IsP(At(ts, 2), "<")
  THEN LET lead == IsPathSep(ts, 1)
           p == PathFrom(IF lead THEN Rest(ts, 3) ELSE ts, <<>>, lead) IN
       IF p.unk THEN st' = "unk" /\ UNCHANGED <<stack, nodes, diags>>
       ELSE IF ~p.ok
       THEN /\ ChildErr(f, p.rest, CurLoc(f, p.rest), <<>>)
            /\ UNCHANGED <<st, nodes>>
       ELSE /\ nodes' = Append(nodes, [Node0 EXCEPT
                  !.tag = [kind |-> "Component", repr |-> "", segs |-> p.segs,
                           lead |-> lead, n |-> At(ts, 1).n],
                  !.slot = kw # 0, !.kw = kw, !.par = f.own])
            /\ SetTop([f EXCEPT !.ts = p.rest, !.ph = "sel", !.el = Len(nodes) + 1])
            /\ UNCHANGED <<st, diags>>
  ELSE LET k == Kebab(ts) IN
       IF ~k.ok
       THEN /\ ChildErr(f, ts, CurLoc(f, ts), <<>>)
            /\ UNCHANGED <<st, nodes>>
       ELSE LET kind == TagKind(k.repr) IN
            /\ nodes' = Append(nodes, [Node0 EXCEPT
                  !.tag = [kind |-> kind, repr |-> k.repr,
                           segs |-> IF kind = "Component"
                                    THEN <<[id |-> Snake(k.repr), gen |-> <<>>, hasgen |-> FALSE]>>
                                    ELSE <<>>,
                           lead |-> FALSE, n |-> k.n],
                  !.slot = kw # 0, !.kw = kw, !.par = f.own])
            /\ Report(k.dg)
            /\ SetTop([f EXCEPT !.ts = k.rest, !.ph = "sel", !.el = Len(nodes) + 1])
            /\ UNCHANGED st

StartSlot ==
  /\ ChildTs # <<>> /\ ~ChildVal.ok /\ IsSlotKw(ChildTs)
  /\ StartTag(Head(ChildTs).n, Rest(ChildTs, 3))
  /\ UNCHANGED <<input, roots>>

StartElement ==
  /\ ChildTs # <<>> /\ ~ChildVal.ok /\ ~IsSlotKw(ChildTs)
  /\ IsId(Head(ChildTs)) \/ IsPathSep(ChildTs, 1)
  /\ StartTag(0, ChildTs)
  /\ UNCHANGED <<input, roots>>

BadChild ==
  /\ ChildTs # <<>> /\ ~ChildVal.ok /\ ~IsId(Head(ChildTs)) /\ ~IsPathSep(ChildTs, 1)
  /\ ChildErr(Top, ChildTs, Loc(Head(ChildTs).n), <<>>)
  /\ UNCHANGED <<input, st, nodes, roots>>

---------------------------------------------------------------------------
(* Selector shorthands: .class #id *)
SelKebab == IF InPhase("sel") /\ (IsP(At(Top.ts, 1), ".") \/ IsP(At(Top.ts, 1), "#"))
            THEN Kebab(Rest(Top.ts, 2)) ELSE [ok |-> FALSE]

TakeSelector ==
  /\ InPhase("sel") /\ SelKebab.ok
  /\ SetNode(Top.el, [nodes[Top.el] EXCEPT
        !.sel = Append(@, [c |-> Head(Top.ts).s, key |-> SelKebab.repr, n |-> Head(Top.ts).n])])
  /\ SetTop([Top EXCEPT !.ts = SelKebab.rest])
  /\ Report(SelKebab.dg)
  /\ UNCHANGED <<input, st, roots>>

EndSelectors ==
  /\ InPhase("sel") /\ ~SelKebab.ok
  /\ SetTop([Top EXCEPT !.ph = "attr"])
  /\ UNCHANGED <<input, st, nodes, diags, roots>>

---------------------------------------------------------------------------
(* Attributes *)

\* `{key}` in braces: exactly one kebab-case identifier
BracedKebab(g) ==
  LET k == Kebab(g.ts) IN
  [ok |-> k.ok /\ k.rest = <<>>, repr |-> k.repr, dg |-> k.dg,
   at |-> IF ~k.ok THEN IF g.ts = <<>> THEN CloseLoc(g.n) ELSE Loc(Head(g.ts).n)
          ELSE IF k.rest = <<>> THEN Loc(0) ELSE Loc(Head(k.rest).n)]
ShortVal(key, g) == [NoVal EXCEPT !.vk = "short", !.pre = Snake(key), !.n = g.n, !.g = g]

\* `= value`, where a missing value is reported and parsing goes on
AfterKey(ts) ==
  IF ~IsP(At(ts, 1), "=") THEN [val |-> NoVal, rest |-> ts, dg |-> <<>>]
  ELSE LET r == Rest(ts, 2)
           v == Value(r)
       IN IF v.ok THEN [val |-> v.v, rest |-> v.rest, dg |-> <<>>]
          ELSE LET at == IF r = <<>> THEN Loc(Head(ts).n) ELSE Loc(Head(r).n) IN
               [val |-> [NoVal EXCEPT !.vk = "missing", !.n = at.n], rest |-> r,
                dg |-> <<D("novalue", at)>>]

KvTry(ts) ==
  LET t == At(ts, 1) IN
  IF IsG(t, "{")
  THEN LET b == BracedKebab(t) IN
       [ok |-> b.ok, dg |-> b.dg, rest |-> Rest(ts, 2),
        a |-> [a |-> "kv", key |-> b.repr, n |-> t.n, val |-> ShortVal(b.repr, t)]]
  ELSE LET k == Kebab(ts)
           v == AfterKey(k.rest) IN
       [ok |-> k.ok, dg |-> k.dg \o (IF k.ok THEN v.dg ELSE <<>>),
        rest |-> IF k.ok THEN v.rest ELSE ts,
        a |-> [a |-> "kv", key |-> k.repr, n |-> k.n,
               val |-> IF v.val.vk = "none" THEN TrueVal ELSE v.val]]

IsDirective(ts) == IsId(At(ts, 1)) /\ IsP(At(ts, 2), ":")
RawName(t) == IF t.f = "r" THEN "r#" \o t.s ELSE t.s
Modifier(f, r) ==
  IF ~IsP(At(r, 1), ":") THEN [ok |-> TRUE, mod |-> "", mn |-> 0, rest |-> r, at |-> Loc(0)]
  ELSE IF IsId(At(r, 2))
  THEN [ok |-> TRUE, mod |-> RawName(At(r, 2)), mn |-> At(r, 2).n, rest |-> Rest(r, 3), at |-> Loc(0)]
  ELSE [ok |-> FALSE, mod |-> "", mn |-> 0, rest |-> r, at |-> CurLoc(f, Rest(r, 2))]

\* [ok, a, rest, dg, at]: not ok means the whole call is given up at `at`
DirTry(f, ts) ==
  LET r == Rest(ts, 3)
      u == At(r, 1)
      Mk(ks, key, kn, m, val) ==
        [a |-> "dir", dir |-> RawName(Head(ts)), dn |-> Head(ts).n, ks |-> ks, key |-> key,
         kn |-> kn, mod |-> m.mod, mn |-> m.mn, val |-> val]
      Bad(dg, at) == [ok |-> FALSE, dg |-> dg, at |-> at, rest |-> r, a |-> <<>>]
  IN IF IsG(u, "{")
     THEN LET b == BracedKebab(u)
              m == Modifier(f, Rest(r, 2)) IN
          IF ~b.ok THEN Bad(b.dg, b.at)
          ELSE IF ~m.ok THEN Bad(b.dg, m.at)
          ELSE [ok |-> TRUE, dg |-> b.dg, at |-> Loc(0), rest |-> m.rest,
                a |-> Mk("id", b.repr, Head(u.ts).n, m, ShortVal(b.repr, u))]
     ELSE LET str == u.k = "lit" /\ u.f = "str"
              k == IF str THEN [ok |-> TRUE, repr |-> u.s, rest |-> Rest(r, 2), n |-> u.n, dg |-> <<>>]
                   ELSE Kebab(r)
          IN IF ~k.ok THEN Bad(<<>>, CurLoc(f, r))
             ELSE LET m == Modifier(f, k.rest)
                      v == AfterKey(m.rest) IN
                  IF ~m.ok THEN Bad(k.dg, m.at)
                  ELSE [ok |-> TRUE, dg |-> k.dg \o v.dg, at |-> Loc(0), rest |-> v.rest,
                        a |-> Mk(IF str THEN "str" ELSE "id", k.repr, k.n, m, v.val)]

AttrTs == IF InPhase("attr") THEN Top.ts ELSE <<>>
AddAttr(a) == SetNode(Top.el, [nodes[Top.el] EXCEPT !.attrs = Append(@, a)])
IsSpread(ts) == IsG(At(ts, 1), "{") /\ IsP2(At(ts, 1).ts, 1, ".", ".")

TakeDirective ==
  /\ InPhase("attr") /\ IsDirective(AttrTs)
  /\ LET d == DirTry(Top, AttrTs) IN
     /\ d.ok
     /\ AddAttr(d.a) /\ Report(d.dg) /\ SetTop([Top EXCEPT !.ts = d.rest])
  /\ UNCHANGED <<input, st, roots>>

\* a broken directive ends the whole call
AbortDirective ==
  /\ InPhase("attr") /\ IsDirective(AttrTs)
  /\ LET d == DirTry(Top, AttrTs) IN
     /\ ~d.ok
     /\ Report(d.dg \o <<D("directive", d.at)>>)
  /\ st' = "abort"
  /\ UNCHANGED <<input, stack, nodes, roots>>

TakeKv ==
  /\ InPhase("attr") /\ AttrTs # <<>> /\ ~IsDirective(AttrTs)
  /\ LET k == KvTry(AttrTs) IN
     /\ k.ok
     /\ AddAttr(k.a) /\ Report(k.dg) /\ SetTop([Top EXCEPT !.ts = k.rest])
  /\ UNCHANGED <<input, st, roots>>

TakeSpread ==
  /\ InPhase("attr") /\ AttrTs # <<>> /\ ~IsDirective(AttrTs)
  /\ ~KvTry(AttrTs).ok /\ IsSpread(AttrTs)
  /\ AddAttr([a |-> "spread", n |-> Head(AttrTs).n, ts |-> Rest(Head(AttrTs).ts, 3)])
  /\ Report(KvTry(AttrTs).dg)
  /\ SetTop([Top EXCEPT !.ts = Rest(AttrTs, 2)])
  /\ UNCHANGED <<input, st, roots>>

EndAttrs ==
  /\ InPhase("attr") /\ ~IsDirective(AttrTs) /\ ~IsSpread(AttrTs)
  /\ (AttrTs = <<>> \/ ~KvTry(AttrTs).ok)
  /\ Report(IF AttrTs = <<>> THEN <<>> ELSE KvTry(AttrTs).dg)
  /\ SetTop([Top EXCEPT !.ph = "term"])
  /\ UNCHANGED <<input, st, nodes, roots>>

---------------------------------------------------------------------------
(* How an element ends *)
FinishTop(f) == SetTop(AddChild(f, ElRef(f.el, nodes[f.el].slot)))
IsBlock(t) == IsG(t, "{") \/ IsG(t, "(")

EndSemi ==
  /\ InPhase("term") /\ IsP(At(Top.ts, 1), ";")
  /\ FinishTop([Top EXCEPT !.ts = Rest(@, 2)])
  /\ UNCHANGED <<input, st, nodes, diags, roots>>

\* the last child may end without `;`, but it is reported
EndEof ==
  /\ InPhase("term") /\ Top.ts = <<>>
  /\ Report(<<D("unterminated", Loc(nodes[Top.el].tag.n))>>)
  /\ FinishTop(Top)
  /\ UNCHANGED <<input, st, nodes, roots>>

PushBody(g, rest) ==
  stack' = Append([stack EXCEPT ![Len(stack)] = [Top EXCEPT !.ts = rest, !.ph = "body"]],
                  Frame(g.ts, CloseLoc(g.n), Top.el))

OpenBody ==
  /\ InPhase("term") /\ IsBlock(At(Top.ts, 1))
  /\ SetNode(Top.el, [nodes[Top.el] EXCEPT !.body = TRUE])
  /\ PushBody(Head(Top.ts), Rest(Top.ts, 2))
  /\ UNCHANGED <<input, st, diags, roots>>

SecondPipe(ts) == {i \in 2..Len(ts) : IsP(ts[i], "|")}
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
ArgsAt == InPhase("term") /\ IsP(At(Top.ts, 1), "|")

OpenArgsBody ==
  /\ ArgsAt /\ SecondPipe(Top.ts) # {}
  /\ LET i == Min(SecondPipe(Top.ts))
         g == At(Top.ts, i + 1) IN
     /\ IsBlock(g)
     /\ SetNode(Top.el, [nodes[Top.el] EXCEPT !.body = TRUE, !.apos = Head(Top.ts).n,
                                              !.args = SubSeq(Top.ts, 2, i - 1)])
     /\ PushBody(g, Rest(Top.ts, i + 2))
  /\ UNCHANGED <<input, st, diags, roots>>

MissingBody ==
  /\ ArgsAt /\ SecondPipe(Top.ts) # {}
  /\ LET i == Min(SecondPipe(Top.ts)) IN
     /\ ~IsBlock(At(Top.ts, i + 1))
     /\ SetNode(Top.el, [nodes[Top.el] EXCEPT !.apos = Head(Top.ts).n,
                                              !.args = SubSeq(Top.ts, 2, i - 1)])
     /\ Report(<<D("nobody", CurLoc(Top, Rest(Top.ts, i + 1)))>>)
     /\ FinishTop([Top EXCEPT !.ts = Rest(@, i + 1)])
  /\ UNCHANGED <<input, st, roots>>

ArgsUnclosed ==
  /\ ArgsAt /\ SecondPipe(Top.ts) = {}
  /\ ChildErr(Top, <<>>, Loc(Head(Top.ts).n), <<>>)
  /\ UNCHANGED <<input, st, nodes, roots>>

\* anything else: the element ends here, and what follows is tried as a child
Unterminated ==
  /\ InPhase("term") /\ Top.ts # <<>>
  /\ ~IsP(Head(Top.ts), ";") /\ ~IsP(Head(Top.ts), "|") /\ ~IsBlock(Head(Top.ts))
  /\ Report(<<D("unkattr", Loc(Head(Top.ts).n)), D("nokids", Loc(nodes[Top.el].tag.n))>>)
  /\ FinishTop(Top)
  /\ UNCHANGED <<input, st, nodes, roots>>

CloseBlock ==
  /\ InPhase("child") /\ Top.ts = <<>> /\ Len(stack) > 1
  /\ LET f == stack[Len(stack) - 1] IN
     /\ SetNode(Top.own, [nodes[Top.own] EXCEPT !.kids = Top.acc])
     /\ stack' = Append(SubSeq(stack, 1, Len(stack) - 2),
                        AddChild(f, ElRef(f.el, nodes[f.el].slot)))
  /\ UNCHANGED <<input, st, diags, roots>>

CloseRoot ==
  /\ InPhase("child") /\ Top.ts = <<>> /\ Len(stack) = 1
  /\ roots' = Top.acc
  /\ st' = "root"
  /\ stack' = <<>>
  /\ UNCHANGED <<input, nodes, diags>>

ParseNext ==
  \/ ParseValueChild \/ ParseBadLitChild \/ StartSlot \/ StartElement \/ BadChild
  \/ TakeSelector \/ EndSelectors
  \/ TakeDirective \/ AbortDirective \/ TakeKv \/ TakeSpread \/ EndAttrs
  \/ EndSemi \/ EndEof \/ OpenBody \/ OpenArgsBody \/ MissingBody \/ ArgsUnclosed
  \/ Unterminated \/ CloseBlock \/ CloseRoot

---------------------------------------------------------------------------
(* Properties of the machine *)
RECURSIVE SumLeft(_)
SumLeft(s) == IF s = <<>> THEN 0 ELSE CountToks(Head(s).ts) + SumLeft(Tail(s))

\* Every step makes progress: tokens left, then open blocks, then phase rank.
PhRank(ph) == CASE ph = "sel" -> 3 [] ph = "attr" -> 2 [] ph = "term" -> 1 [] OTHER -> 0
Measure == SumLeft(stack) * 8 + Len(stack) * 4
           + (IF stack = <<>> THEN 0 ELSE PhRank(Top.ph))

\* every reported location is a token of the input (or the whole call)
LocsValid == \A i \in DOMAIN diags :
               diags[i].at.n = 0 \/ diags[i].at.n \in TokIds(input)
StackOk == /\ \A i \in DOMAIN stack : stack[i].ph = "body" <=> i < Len(stack)
           /\ \A i \in DOMAIN stack : stack[i].own = IF i = 1 THEN 0 ELSE stack[i - 1].el
=============================================================================
