----------------------------- MODULE MViewExpand -----------------------------
(***************************************************************************)
(* Expansion: walks the parsed elements once, reports everything that has   *)
(* no meaning in its context, and lays down the plan of each element: the   *)
(* sequence of builder operations the element becomes.                      *)
(***************************************************************************)
EXTENDS MViewParse

VARIABLES
  todo,    \* elements that still have to be expanded
  plan     \* element id -> sequence of operations

evars == <<todo, plan>>
vars == <<input, st, stack, nodes, diags, roots, todo, plan>>

ExpandInit == todo = <<>> /\ plan = <<>>

---------------------------------------------------------------------------
Children(kids) == SelectSeq(kids, LAMBDA k : k.c # "slot")
Slots(kids) == SelectSeq(kids, LAMBDA k : k.c = "slot")
Elements(kids) == SelectSeq(kids, LAMBDA k : k.c = "el")
RECURSIVE Cat(_, _)
Cat(F(_), s) == IF s = <<>> THEN <<>> ELSE F(Head(s)) \o Cat(F, Tail(s))
When(b, s) == IF b THEN s ELSE <<>>

\* prefixes other than `f` have no meaning
ValDiags(v) == When(v.vk = "pre" /\ (v.pre # "f" \/ v.lit.f = "r"),
                    <<D("prefix", Loc(v.n))>>)
KidValDiags(kids) == Cat(LAMBDA k : IF k.c = "val" THEN ValDiags(k.v) ELSE <<>>, kids)
ModDiag(a) == When(a.mn # 0, <<D("modifier", Loc(a.mn))>>)
StrKeyDiag(a) == When(a.ks = "str", <<D("strkey", Loc(a.kn))>>)

AttrClass(key) == IF key \in {"class", "style"} THEN key
                  ELSE IF Contains(key, "-") /\ ~StartsWith(key, "aria-") THEN "custom"
                  ELSE "checked"

OnDiags(a) == StrKeyDiag(a)
              \o When(a.mn # 0 /\ a.mod # "undelegated", <<D("modifier", Loc(a.mn))>>)
              \o ValDiags(a.val)
UseDiags(a) == StrKeyDiag(a) \o ModDiag(a) \o ValDiags(a.val)

---------------------------------------------------------------------------
(* HTML, SVG, MathML and custom elements *)
HtmlDirDiags(a) ==
  CASE a.dir \in {"class", "style", "prop"} -> ModDiag(a) \o ValDiags(a.val)
    [] a.dir = "on" -> OnDiags(a)
    [] a.dir = "use" -> UseDiags(a)
    [] a.dir \in {"attr", "clone"} -> <<D("notonelement", Loc(a.dn))>>
    [] OTHER -> <<D("unknowndir", Loc(a.dn))>>

HtmlDiags(nd) ==
  Cat(LAMBDA a : CASE a.a = "kv" -> ValDiags(a.val)
                   [] a.a = "dir" -> HtmlDirDiags(a)
                   [] OTHER -> <<>>, nd.attrs)
  \o When(nd.apos # 0, <<D("argsonelement", Loc(nd.apos))>>)
  \o Cat(LAMBDA k : <<D("slotplace", Loc(nodes[k.id].tag.n))>>, Slots(nd.kids))
  \o KidValDiags(Children(nd.kids))

\* operations of an element, in the order they are applied
Op(o, key, val) == [o |-> o, k |-> key, v |-> val, m |-> "", ts |-> <<>>, id |-> 0]
SelKey(s) == s.key
HtmlPlan(nd) ==
  LET kvs == SelectSeq(nd.attrs, LAMBDA a : a.a = "kv")
      dirs == SelectSeq(nd.attrs, LAMBDA a : a.a = "dir")
      sprs == SelectSeq(nd.attrs, LAMBDA a : a.a = "spread")
      cls == SelectSeq(nd.sel, LAMBDA s : s.c = ".")
      ids == SelectSeq(nd.sel, LAMBDA s : s.c = "#")
      unchecked == nd.tag.kind \in {"Svg", "Web"}
      KvOp(a) == IF a.key = "ref" THEN Op("ref", "", a.val)
                 ELSE IF AttrClass(a.key) \in {"class", "style"} THEN Op(AttrClass(a.key), "", a.val)
                 ELSE IF unchecked \/ AttrClass(a.key) = "custom" THEN Op("attr", a.key, a.val)
                 ELSE Op("checked", Snake(a.key), a.val)
      DirOp(a) == CASE a.dir = "class" -> Op("classd", a.key, a.val)
                    [] a.dir = "style" -> Op("styled", a.key, a.val)
                    [] a.dir = "prop" -> Op("prop", a.key, a.val)
                    [] a.dir = "on" -> [Op("on", Snake(a.key), a.val) EXCEPT !.m = a.mod]
                    [] a.dir = "use" -> Op("use", Snake(a.key), a.val)
                    [] OTHER -> Op("bad", a.dir, a.val)
  IN MapSeq(KvOp, kvs) \o MapSeq(DirOp, dirs)
     \o MapSeq(LAMBDA s : Op("classd", s.key, TrueVal), cls)
     \o MapSeq(LAMBDA s : Op("checked", "id", [NoVal EXCEPT !.vk = "name", !.pre = s.key]), ids)
     \o MapSeq(LAMBDA a : [Op("spread", "", NoVal) EXCEPT !.ts = a.ts], sprs)
     \o MapSeq(LAMBDA k : [Op("child", k.c, k.v) EXCEPT !.id = k.id], Children(nd.kids))

---------------------------------------------------------------------------
(* Components and slots *)
CompDirDiags(a) ==
  CASE a.dir \in {"class", "style", "prop"} -> ModDiag(a) \o ValDiags(a.val)
    [] a.dir = "attr" -> ModDiag(a)
         \o When(AttrClass(a.key) # "custom", StrKeyDiag(a)) \o ValDiags(a.val)
    [] a.dir = "on" -> OnDiags(a)
    [] a.dir = "use" -> UseDiags(a)
    [] OTHER -> <<D("unknowndir", Loc(a.dn))>>
\* the value of `clone:` is never used; it is reported where its value starts
CloneDiags(a) ==
  StrKeyDiag(a) \o ModDiag(a)
  \o When(a.val.vk # "none",
          <<D("clonevalue", Loc(IF a.val.vk = "pre" THEN a.val.g.n ELSE a.val.n))>>)

\* a slot is named by exactly one identifier
SlotNamed(nd) == nd.tag.kind = "Component"
PlainName(nd) == ~nd.tag.lead /\ Len(nd.tag.segs) = 1 /\ ~nd.tag.segs[1].hasgen
GoodSlot(id) == SlotNamed(nodes[id]) /\ PlainName(nodes[id])
SlotNameDiags(k) ==
  When(~SlotNamed(nodes[k.id]), <<D("slotname", Loc(nodes[k.id].tag.n))>>)
  \o When(SlotNamed(nodes[k.id]) /\ ~PlainName(nodes[k.id]),
          <<D("slotpath", Loc(nodes[k.id].tag.n))>>)

CompDiags(nd, isSlot) ==
  When(isSlot /\ nd.sel # <<>>, <<D("slotsel", Loc((nd.sel \o <<[n |-> 0]>>)[1].n))>>)
  \o Cat(LAMBDA a :
        CASE a.a = "kv" -> ValDiags(a.val)
          [] a.a = "spread" -> When(isSlot, <<D("slotspread", Loc(a.n))>>)
          [] a.dir = "clone" -> CloneDiags(a)
          [] OTHER -> IF isSlot THEN <<D("slotdir", Loc(a.dn))>> ELSE CompDirDiags(a),
        nd.attrs)
  \o KidValDiags(Children(nd.kids))
  \o Cat(SlotNameDiags, Slots(nd.kids))

\* the slots given, grouped by name in the order the names first appear
SlotName(id) == nodes[id].tag.segs[1].id
RECURSIVE GroupSlots(_, _)
GroupSlots(ids, acc) ==
  IF ids = <<>> THEN acc
  ELSE LET nm == SlotName(Head(ids))
           at == {i \in DOMAIN acc : acc[i].name = nm} IN
       GroupSlots(Tail(ids),
         IF at = {} THEN Append(acc, [name |-> nm, ids |-> <<Head(ids)>>])
         ELSE [acc EXCEPT ![CHOOSE i \in at : TRUE].ids = Append(@, Head(ids))])
GoodSlots(nd) == MapSeq(LAMBDA k : k.id, SelectSeq(Slots(nd.kids), LAMBDA k : GoodSlot(k.id)))

CompPlan(nd) ==
  LET kvs == SelectSeq(nd.attrs, LAMBDA a : a.a = "kv")
      clones == SelectSeq(nd.attrs, LAMBDA a : a.a = "dir" /\ a.dir = "clone")
      rest == SelectSeq(nd.attrs, LAMBDA a : a.a = "spread" \/ (a.a = "dir" /\ a.dir # "clone"))
      cls == SelectSeq(nd.sel, LAMBDA s : s.c = ".")
      ids == SelectSeq(nd.sel, LAMBDA s : s.c = "#")
      TrueIfNone(v) == IF v.vk = "none" THEN TrueVal ELSE v
      DirOp(a) ==
        IF a.a = "spread" THEN [Op("spread", "", NoVal) EXCEPT !.ts = a.ts]
        ELSE CASE a.dir = "class" -> Op("classd", a.key, TrueIfNone(a.val))
               [] a.dir = "style" -> Op("styled", a.key, TrueIfNone(a.val))
               [] a.dir = "prop" -> Op("prop", a.key, TrueIfNone(a.val))
               [] a.dir = "on" -> [Op("on", Snake(a.key), a.val) EXCEPT !.m = a.mod]
               [] a.dir = "use" -> Op("use", Snake(a.key), a.val)
               [] a.dir = "attr" ->
                    CASE AttrClass(a.key) \in {"class", "style"} -> Op(a.key, "", TrueIfNone(a.val))
                      [] AttrClass(a.key) = "custom" -> Op("attr", a.key, TrueIfNone(a.val))
                      [] OTHER -> Op("checked", Snake(a.key), TrueIfNone(a.val))
               [] OTHER -> Op("bad", a.dir, a.val)
      wantKids == Children(nd.kids) # <<>> \/ (nd.body /\ nd.apos # 0)
  IN MapSeq(LAMBDA a : Op("set", Snake(a.key), a.val), kvs)
     \o When(wantKids,
             MapSeq(LAMBDA a : Op("clone", Snake(a.key), NoVal), clones)
             \o <<[Op("children", "", NoVal) EXCEPT !.ts = nd.args]>>)
     \o MapSeq(LAMBDA g : [Op("slot", g.name, NoVal) EXCEPT !.ts = g.ids],
               GroupSlots(GoodSlots(nd), <<>>))
     \o MapSeq(LAMBDA s : Op("classd", s.key, TrueVal), cls)
     \o When(ids # <<>>, <<Op("checked", "id",
               [NoVal EXCEPT !.vk = "name", !.pre = JoinStr(MapSeq(SelKey, ids), " ")])>>)
     \o MapSeq(DirOp, rest)

---------------------------------------------------------------------------
(* The steps *)
ElIds(kids) == MapSeq(LAMBDA k : k.id, Elements(kids))

\* slots need a parent
RootOneSlot ==
  /\ st = "root" /\ Len(roots) = 1 /\ roots[1].c = "slot"
  /\ Report(<<D("slotplace", Loc(nodes[roots[1].id].kw))>>)
  /\ st' = "abort"
  /\ UNCHANGED <<input, stack, nodes, roots, todo, plan>>

RootManySlot ==
  /\ st = "root" /\ Len(roots) # 1 /\ Slots(roots) # <<>>
  /\ Report(<<D("slotplace", Loc(nodes[Slots(roots)[1].id].tag.n))>>)
  /\ st' = "abort"
  /\ UNCHANGED <<input, stack, nodes, roots, todo, plan>>

RootNodes ==
  /\ st = "root" /\ Slots(roots) = <<>>
  /\ Report(KidValDiags(roots))
  /\ todo' = ElIds(roots)
  /\ plan' = [i \in DOMAIN nodes |-> <<>>]
  /\ st' = "expand"
  /\ UNCHANGED <<input, stack, nodes, roots>>

ExpandXml ==
  /\ st = "expand" /\ todo # <<>>
  /\ LET id == Head(todo)  nd == nodes[id] IN
     /\ nd.tag.kind # "Component"
     /\ Report(HtmlDiags(nd))
     /\ plan' = [plan EXCEPT ![id] = HtmlPlan(nd)]
     /\ todo' = ElIds(nd.kids) \o Tail(todo)
  /\ UNCHANGED <<input, st, stack, nodes, roots>>

ExpandComp(isSlot) ==
  /\ st = "expand" /\ todo # <<>>
  /\ LET id == Head(todo)  nd == nodes[id] IN
     /\ nd.tag.kind = "Component" /\ nd.slot = isSlot
     /\ Report(CompDiags(nd, isSlot))
     /\ plan' = [plan EXCEPT ![id] = CompPlan(nd)]
     /\ todo' = ElIds(nd.kids) \o GoodSlots(nd) \o Tail(todo)
  /\ UNCHANGED <<input, st, stack, nodes, roots>>
ExpandComponent == ExpandComp(FALSE)
ExpandSlot == ExpandComp(TRUE)

ExpandDone ==
  /\ st = "expand" /\ todo = <<>>
  /\ st' = "done"
  /\ UNCHANGED <<input, stack, nodes, diags, roots, todo, plan>>

ExpandNext == RootOneSlot \/ RootManySlot \/ RootNodes \/ ExpandXml \/ ExpandComponent
              \/ ExpandSlot \/ ExpandDone

MacroNext == (ParseNext /\ UNCHANGED <<todo, plan>>) \/ ExpandNext
Finished == st \in {"done", "abort", "unk"}
Accepted == st = "done" /\ diags = <<>>

---------------------------------------------------------------------------
(* Properties *)
\* elements that are part of the view
RECURSIVE Reach(_)
Reach(ids) ==
  IF ids = <<>> THEN {}
  ELSE LET nd == nodes[Head(ids)] IN
       {Head(ids)} \cup Reach(ElIds(nd.kids))
       \cup (IF nd.tag.kind = "Component" THEN Reach(GoodSlots(nd)) ELSE {})
       \cup Reach(Tail(ids))

\* nothing that the user wrote is left without a place in the plan: on
\* acceptance, every attribute, selector, child and slot of every element is
\* in exactly one operation.
OpsOf(id) == Len(plan[id])
Expected(nd) ==
  LET comp == nd.tag.kind = "Component"
      clones == Len(SelectSeq(nd.attrs, LAMBDA a : a.a = "dir" /\ a.dir = "clone"))
      want == Children(nd.kids) # <<>> \/ (nd.body /\ nd.apos # 0)
      hasId == \E i \in DOMAIN nd.sel : nd.sel[i].c = "#"
      ids == Len(SelectSeq(nd.sel, LAMBDA s : s.c = "#"))
  IN Len(nd.attrs) + Len(nd.sel)
     + (IF comp
        THEN (IF want THEN 1 ELSE 0 - clones) + (IF hasId THEN 1 - ids ELSE 0)
             + Len(GroupSlots(GoodSlots(nd), <<>>))
        ELSE Len(Children(nd.kids)))
NothingDropped ==
  Accepted => \A id \in Reach(ElIds(roots)) : OpsOf(id) = Expected(nodes[id])

\* every child of every accepted element is planned once, in source order
PlannedChildren(id) ==
  MapSeq(LAMBDA o : o.id, SelectSeq(plan[id], LAMBDA o : o.o = "child" /\ o.k = "el"))
ChildrenInOrder ==
  Accepted => \A id \in Reach(ElIds(roots)) :
    nodes[id].tag.kind # "Component" => PlannedChildren(id) = ElIds(nodes[id].kids)

\* all slots of an accepted component are planned, grouped but never reordered
RECURSIVE SlotIdsOf(_)
SlotIdsOf(ops) == IF ops = <<>> THEN <<>>
                  ELSE (IF Head(ops).o = "slot" THEN Head(ops).ts ELSE <<>>) \o SlotIdsOf(Tail(ops))
SlotsPlanned ==
  Accepted => \A id \in Reach(ElIds(roots)) :
    nodes[id].tag.kind = "Component" =>
      LET got == SlotIdsOf(plan[id])
          all == GoodSlots(nodes[id]) IN
      /\ Range(got) = Range(all) /\ Len(got) = Len(all)
      /\ \A i, j \in DOMAIN got :
           (i < j /\ SlotName(got[i]) = SlotName(got[j])) => got[i] < got[j]

\* a call that is given up says why
AbortSaysWhy == st = "abort" => diags # <<>>
=============================================================================
