------------------------------- MODULE MViewRun -------------------------------
(***************************************************************************)
(* What the expansion does when it runs: the plan of the elements is        *)
(* evaluated in two phases. Construction evaluates every eager expression   *)
(* once, in the order of the operations, runs component bodies (and with    *)
(* them the children they were given) and yields a view; rendering then     *)
(* evaluates the closures in document order and yields a document.          *)
(*                                                                         *)
(* Results are records [ok, log, ...]: ok = FALSE means the program is      *)
(* outside what this module describes (mostly: it does not type-check), and *)
(* then nothing is claimed about running it.                               *)
(*                                                                         *)
(* Names (components, functions, variables) are those of the test kit.      *)
(***************************************************************************)
EXTENDS MViewExpand

---------------------------------------------------------------------------
(* Values: ty is the type; a closure ("fn") has the type of its result in   *)
(* ity and the evaluations one call performs in lg.                        *)
Val(ty, s) == [ty |-> ty, s |-> s, ity |-> "", lg |-> <<>>]
EOk(v, log) == [ok |-> TRUE, v |-> v, log |-> log]
EBad == [ok |-> FALSE, v |-> Val("bad", ""), log |-> <<>>]
Closure(e) == IF ~e.ok \/ e.v.ty = "fn" THEN EBad
              ELSE EOk([ty |-> "fn", s |-> e.v.s, ity |-> e.v.ty, lg |-> e.log], <<>>)

\* variables in scope of every generated case
\* names that an expansion might want for itself
LikelyNames == <<"el", "children", "props", "builder", "attrs", "node", "child", "args", "view", "fragment", "tmp", "this", "handler", "event", "slot", "key", "val", "output">>
StrVars == {LikelyNames[i] : i \in DOMAIN LikelyNames} \cup {"a","b","id","title","lang","href","some_attr","a_b_2","data_x","data_x_1","aria_label",
            "r#class","class","style","color","value","name","key_2","_my_var","_x","a_","x_y_z",
            "type","for","font_size","fa_str", "role",
            "a__b", "isOpen", "data_Foo", "type_x", "col_01", "na%3_x", "ariax_y", "x_class"}
BoolVars == [red |-> "true", off |-> "false", is_red |-> "true", hidden |-> "true",
             checked |-> "true", disabled |-> "false", blue_100 |-> "true", is_Up |-> "true"]
HandlerVars == {"click", "input", "keydown"}
\* values that log their clones and can be borrowed, not copied
CloneNames == {"k1", "k2", "k_3"}
\* env: [vars: sequence of [n, v], k: which of CloneNames can be borrowed here]
Env0 == [vars |-> <<>>, k |-> CloneNames]
Lookup(env, name) ==
  LET at == {i \in DOMAIN env.vars : env.vars[i].n = name} IN
  IF at # {} THEN EOk(Val("str", env.vars[CHOOSE i \in at : \A j \in at : j <= i].v), <<>>)
  ELSE IF name \in StrVars THEN EOk(Val("str", "v_" \o name), <<>>)
  ELSE IF name \in DOMAIN BoolVars THEN EOk(Val("bool", BoolVars[name]), <<>>)
  ELSE IF name = "lg" THEN EOk(Val("dis", "LG"), <<>>)
  ELSE IF name \in HandlerVars THEN EOk(Val("hnd", "h_" \o name), <<>>)
  ELSE EBad

\* numbers are shown by their value, whatever their spelling
NumText(s) == CASE s = "1u8" -> "1" [] s = "0x1F" -> "31" [] s = "1_000" -> "1000" [] s = "007" -> "7"
                [] s = "1e3" -> "1000" [] s = "2.0" -> "2" [] s = "1.50" -> "1.5" [] s = "2i64" -> "2"
                [] s = "0b101" -> "5" [] s = "1.5f32" -> "1.5" [] OTHER -> s
\* the types that literals have without a suffix are those that properties take
NumTy(t) == IF t.s \in {"1u8", "2i64", "1.5f32"} THEN "num" ELSE t.f
LitVal(t) == CASE t.f = "str" -> Val("str", t.s)
               [] t.f \in {"int", "flt"} -> Val(NumTy(t), NumText(t.s))
               [] t.f = "chr" -> Val("chr", t.s)
               [] t.k = "id" -> Val("bool", t.s)
               [] OTHER -> Val("bad", "")
NegVal(t) == LET v == LitVal(t) IN [v EXCEPT !.s = "-" \o @]

OneInt(g) == IsG(g, "(") /\ Len(g.ts) = 1 /\ g.ts[1].k = "lit" /\ g.ts[1].f = "int"
Funs == {"ev", "et", "ef", "eh", "er", "ea"}

RECURSIVE Commas(_, _, _)      \* split at top-level commas
Commas(ts, cur, acc) ==
  IF ts = <<>> THEN Append(acc, cur)
  ELSE IF IsP(Head(ts), ",") THEN Commas(Tail(ts), <<>>, Append(acc, cur))
  ELSE Commas(Tail(ts), Append(cur, Head(ts)), acc)
FirstOf(ts, c) ==              \* where c first stands at the top level of ts; 0 if nowhere
  LET at == {i \in DOMAIN ts : IsP(ts[i], c)} IN
  IF at = {} THEN 0 ELSE CHOOSE i \in at : \A j \in at : i <= j

(* Format strings: pieces [t "txt" | "pos" | "nam", s]; "bad" for what is not one *)
Piece(t, s) == [t |-> t, s |-> s]
RECURSIVE ToBrace(_)           \* up to the closing brace
ToBrace(s) == IF s = "" \/ Ch(s, 1) = "}" THEN "" ELSE Ch(s, 1) \o ToBrace(SubSeq(s, 2, Len(s)))
RECURSIVE Pieces(_, _)
Pieces(s, n) ==                \* n: the next argument `{}` stands for
  IF s = "" THEN <<>>
  ELSE IF StartsWith(s, "{{") \/ StartsWith(s, "}}")
  THEN <<Piece("txt", Ch(s, 1))>> \o Pieces(SubSeq(s, 3, Len(s)), n)
  ELSE IF Ch(s, 1) = "}" THEN <<Piece("bad", "")>>
  ELSE IF Ch(s, 1) = "{"
  THEN LET name == ToBrace(SubSeq(s, 2, Len(s)))
           rest == SubSeq(s, Len(name) + 3, Len(s)) IN
       IF Len(s) < Len(name) + 2 THEN <<Piece("bad", "")>>
       ELSE IF name = "" THEN <<Piece("pos", ToString(n))>> \o Pieces(rest, n + 1)
       ELSE IF name \in {"0", "1", "2"} THEN <<Piece("pos", name)>> \o Pieces(rest, n)
       ELSE IF \E c \in {":", "{", " ", "?", "."} : Contains(name, c) THEN <<Piece("bad", "")>>
       ELSE <<Piece("nam", name)>> \o Pieces(rest, n)
  ELSE <<Piece("txt", Ch(s, 1))>> \o Pieces(SubSeq(s, 2, Len(s)), n)
\* the arguments after the format string, [nam, ts]; a trailing comma is allowed
FmtArgs(ts) ==
  LET ps == Tail(Commas(ts, <<>>, <<>>))
      qs == IF ps # <<>> /\ LastOf(ps) = <<>> THEN AllButLast(ps) ELSE ps
  IN MapSeq(LAMBDA p : IF Len(p) > 2 /\ IsId(p[1]) /\ IsP(p[2], "=") /\ p[2].f # "j"
                       THEN [nam |-> p[1].s, ts |-> Rest(p, 3)] ELSE [nam |-> "", ts |-> p], qs)
FmtStr(ts) == LET p == Commas(ts, <<>>, <<>>)[1] IN
              IF Len(p) = 1 /\ p[1].k = "lit" /\ p[1].f = "str" THEN Pieces(p[1].s, 0) ELSE <<Piece("bad", "")>>
\* every argument is used, positional ones come before named ones
FmtOk(ps, as) ==
  /\ \A i \in DOMAIN ps : ps[i].t # "bad"
  /\ \A i, j \in DOMAIN as : (i < j /\ as[i].nam # "") => as[j].nam # as[i].nam /\ as[j].nam # ""
  /\ \A i \in DOMAIN ps : ps[i].t = "pos" => \E j \in DOMAIN as : ps[i].s = ToString(j - 1)
  /\ \A j \in DOMAIN as : \E i \in DOMAIN ps :
       \/ ps[i].t = "pos" /\ ps[i].s = ToString(j - 1)
       \/ ps[i].t = "nam" /\ ps[i].s = as[j].nam

RECURSIVE Eval(_, _)
RECURSIVE EvalArgs(_, _)
EvalArgs(as, env) ==            \* [ok, vs, log]
  IF as = <<>> THEN [ok |-> TRUE, vs |-> <<>>, log |-> <<>>]
  ELSE LET e == Eval(Head(as).ts, env)
           r == EvalArgs(Tail(as), env) IN
       [ok |-> e.ok /\ r.ok /\ e.v.ty \in {"str", "int", "bool", "chr", "num", "flt", "dis"},
        vs |-> <<e.v>> \o r.vs, log |-> e.log \o r.log]
\* what formatting a value logs
ShowLog(v) == IF v.ty = "dis" THEN <<"d:" \o v.s>> ELSE <<>>
RECURSIVE Fill(_, _, _, _)      \* [ok, s, log]
Fill(ps, as, vs, env) ==
  IF ps = <<>> THEN [ok |-> TRUE, s |-> "", log |-> <<>>]
  ELSE LET p == Head(ps)
           r == Fill(Tail(ps), as, vs, env)
           at == {j \in DOMAIN as : IF p.t = "pos" THEN p.s = ToString(j - 1) ELSE p.s = as[j].nam}
           e == IF at # {} THEN EOk(vs[CHOOSE j \in at : TRUE], <<>>) ELSE Lookup(env, p.s) IN
       IF p.t = "txt" THEN [r EXCEPT !.s = p.s \o @]
       ELSE [ok |-> r.ok /\ e.ok /\ e.v.ty # "hnd", s |-> e.v.s \o r.s, log |-> ShowLog(e.v) \o r.log]
EvalFormat(ts, env) ==
  LET ps == FmtStr(ts)
      as == FmtArgs(ts)
      args == EvalArgs(as, env)
      f == Fill(ps, as, args.vs, env) IN
  IF ~FmtOk(ps, as) \/ ~args.ok \/ ~f.ok THEN EBad
  ELSE EOk(Val("str", f.s), args.log \o f.log)

Eval(ts, env) ==
  LET t == At(ts, 1)
      n == Len(ts)
      semi == FirstOf(ts, ";") IN
  IF n = 0 THEN EOk(Val("unit", ""), <<>>)
  ELSE IF semi > 0
  THEN LET isLet == semi > 4 /\ IsIdent(t, "let") /\ IsId(ts[2]) /\ IsP(ts[3], "=")
           e == Eval(SubSeq(ts, IF isLet THEN 4 ELSE 1, semi - 1), env)
           r == Eval(Rest(ts, semi + 1), IF isLet THEN [env EXCEPT !.vars = Append(@, [n |-> ts[2].s, v |-> e.v.s])] ELSE env)
       IN IF ~e.ok \/ ~r.ok \/ semi = 1 \/ e.v.ty \in {"fn", "hnd", "ref", "sp"} \/ (isLet /\ e.v.ty # "str") THEN EBad
          ELSE EOk(r.v, e.log \o r.log)
  ELSE IF n = 1 /\ (t.k = "lit" \/ BoolLit(t)) THEN EOk(LitVal(t), <<>>)
  ELSE IF n = 2 /\ IsP(t, "-") /\ NumLit(ts[2]) THEN EOk(NegVal(ts[2]), <<>>)
  ELSE IF n = 1 /\ IsId(t) THEN IF t.f = "r" \/ t.s \notin Keywords THEN Lookup(env, t.s) ELSE EBad
  ELSE IF n = 1 /\ IsG(t, "(") /\ t.ts = <<>> THEN EOk(Val("unit", ""), <<>>)
  ELSE IF n = 1 /\ IsG(t, "{") THEN Eval(t.ts, env)
  ELSE IF n = 1 /\ IsG(t, "(") /\ FirstOf(t.ts, ",") = 0 /\ FirstOf(t.ts, ";") = 0 THEN Eval(t.ts, env)
  ELSE IF n = 2 /\ IsId(t) /\ t.s \in Funs /\ OneInt(ts[2])
  THEN LET x == ts[2].ts[1].s IN
       EOk(CASE t.s = "ev" -> Val("str", "v" \o x)
             [] t.s = "et" -> Val("bool", "true")
             [] t.s = "ef" -> Val("bool", "false")
             [] t.s = "eh" -> Val("hnd", "h" \o x)
             [] t.s = "er" -> Val("ref", "bound")
             [] t.s = "ea" -> Val("sp", x), <<x>>)
  ELSE IF n = 4 /\ IsId(t) /\ t.s \in CloneNames /\ IsP(ts[2], ".") /\ IsIdent(ts[3], "u") /\ OneInt(ts[4])
  THEN IF t.s \in env.k THEN EOk(Val("str", t.s \o ts[4].ts[1].s), <<ts[4].ts[1].s>>) ELSE EBad
  ELSE IF n > 3 /\ IsIdent(t, "move") /\ IsP(ts[2], "|") /\ IsP(ts[3], "|")
  THEN Closure(Eval(Rest(ts, 4), [env EXCEPT !.k = {}]))
  ELSE IF n > 4 /\ IsIdent(t, "if") /\ IsG(ts[n], "{") /\ IsIdent(ts[n - 1], "else") /\ IsG(ts[n - 2], "{")
  THEN LET c == Eval(SubSeq(ts, 2, n - 3), env)
           x == Eval(ts[n - 2].ts, env)
           y == Eval(ts[n].ts, env)
           z == IF c.v.s = "true" THEN x ELSE y IN
       IF c.ok /\ c.v.ty = "bool" /\ x.ok /\ y.ok /\ x.v.ty = "str" /\ y.v.ty = "str"
       THEN EOk(z.v, c.log \o z.log) ELSE EBad
  ELSE IF n > 3 /\ IsG(ts[n], "(") /\ ts[n].ts = <<>> /\ IsId(ts[n - 1]) /\ ts[n - 1].s \in {"clone", "to_string"} /\ IsP(ts[n - 2], ".")
  THEN LET e == Eval(SubSeq(ts, 1, n - 3), env) IN
       IF e.ok /\ (e.v.ty = "str" \/ (e.v.ty \in {"int", "bool", "chr"} /\ ts[n - 1].s = "to_string"))
          /\ ~IsP(t, "-")
       THEN EOk(Val("str", e.v.s), e.log) ELSE EBad
  ELSE IF n = 3 /\ IsIdent(t, "format") /\ IsP(ts[2], "!") /\ ts[3].k = "g"
  THEN EvalFormat(ts[3].ts, env)
  ELSE EBad

EvalVal(v, env) ==
  CASE v.vk = "lit" -> EOk(LitVal(v.lit), <<>>)
    [] v.vk = "neg" -> EOk(NegVal(v.lit), <<>>)
    [] v.vk = "true" -> EOk(Val("bool", "true"), <<>>)
    [] v.vk = "name" -> EOk(Val("str", v.pre), <<>>)
    [] v.vk = "blk" -> Eval(v.ts, env)
    [] v.vk = "short" -> Lookup(env, v.pre)
    [] v.vk = "brk" -> Closure(Eval(v.ts, [env EXCEPT !.k = {}]))
    [] v.vk = "pre" /\ v.pre = "f" -> Closure(EvalFormat(v.ts, [env EXCEPT !.k = {}]))
    [] OTHER -> EBad

Base(v) == IF v.ty = "fn" THEN v.ity ELSE v.ty     \* the type once rendered

---------------------------------------------------------------------------
(* Token sequences that surely are Rust expressions of the kind the cases use, *)
(* whatever their types: rustc has no syntax error to add to the macro's.     *)
GoodName(s) == s \notin {"_", "self", "Self", "super", "crate", ""}
RECURSIVE Shape(_)
FormatShape(ts) ==
  LET as == FmtArgs(ts) IN
  FmtOk(FmtStr(ts), as) /\ \A i \in DOMAIN as : as[i].ts # <<>> /\ Shape(as[i].ts)
Shape(ts) ==
  LET t == At(ts, 1)  n == Len(ts) semi == FirstOf(ts, ";") IN
  \/ n = 0
  \/ n = 1 /\ (t.k = "lit" \/ BoolLit(t) \/ (IsId(t) /\ (t.f = "r" \/ t.s \notin Keywords) /\ GoodName(t.s)))
  \/ n = 2 /\ IsP(t, "-") /\ NumLit(ts[2])
  \/ n = 1 /\ IsG(t, "(") /\ t.ts = <<>>
  \/ n = 2 /\ IsId(t) /\ t.s \in Funs /\ OneInt(ts[2])
  \/ n = 4 /\ IsId(t) /\ t.s \in CloneNames /\ IsP(ts[2], ".") /\ IsIdent(ts[3], "u") /\ OneInt(ts[4])
  \/ n > 3 /\ IsIdent(t, "move") /\ IsP(ts[2], "|") /\ IsP(ts[3], "|") /\ Shape(Rest(ts, 4))
  \/ n = 3 /\ IsIdent(t, "format") /\ IsP(ts[2], "!") /\ ts[3].k = "g" /\ FormatShape(ts[3].ts)
  \/ semi > 1 /\ Shape(Rest(ts, semi + 1))
     /\ Shape(IF semi > 4 /\ IsIdent(t, "let") /\ IsId(ts[2]) /\ ts[2].s \notin Keywords /\ IsP(ts[3], "=")
              THEN SubSeq(ts, 4, semi - 1) ELSE SubSeq(ts, 1, semi - 1))
  \/ n = 1 /\ IsG(t, "{") /\ Shape(t.ts)
ValShape(v) ==
  CASE v.vk = "blk" -> Shape(v.ts)
    [] v.vk = "brk" -> v.ts # <<>> /\ Shape(v.ts)
    [] v.vk = "pre" -> v.pre = "f" /\ v.lit.f # "r" /\ FormatShape(v.ts)
    [] v.vk = "short" -> GoodName(v.pre)
    [] OTHER -> TRUE
\* irrefutable patterns of the kinds the cases use, and their types
PatName(t) == IsId(t) /\ (IF t.f = "r" THEN TRUE ELSE t.s \notin Keywords \cup PathKeywords)
              /\ (Ch(t.s, 1) \in Range(LowerSeq) \/ Ch(t.s, 1) = "_") /\ t.s \notin CloneNames \cup Funs
\* the parts of a list, without the empty one after a trailing comma
PatParts(ts) == LET ps == Commas(ts, <<>>, <<>>) IN
                IF ts = <<>> THEN <<>> ELSE IF LastOf(ps) = <<>> THEN AllButLast(ps) ELSE ps
IsDots(p) == Len(p) = 2 /\ IsP2(p, 1, ".", ".")
RECURSIVE PatShape(_)
PatShape(p) ==
  LET n == Len(p) IN
  \/ n = 1 /\ (IsIdent(p[1], "_") \/ PatName(p[1]))
  \/ n = 2 /\ IsIdent(p[1], "mut") /\ PatName(p[2])
  \/ n = 3 /\ PatName(p[1]) /\ IsP(p[2], "@") /\ IsIdent(p[3], "_")
  \/ n = 1 /\ IsG(p[1], "(")
     /\ LET q == PatParts(p[1].ts) IN
        /\ \A i \in DOMAIN q : PatShape(q[i]) \/ IsDots(q[i])
        /\ Cardinality({i \in DOMAIN q : IsDots(q[i])}) <= 1
RECURSIVE TyShape(_)
TyShape(p) ==
  \/ Len(p) = 1 /\ IsIdent(p[1], "_")
  \/ Len(p) = 2 /\ IsP(p[1], "&") /\ IsIdent(p[2], "str")
  \/ Len(p) = 1 /\ IsG(p[1], "(") /\ \A q \in Range(PatParts(p[1].ts)) : TyShape(q)
ParamOf(p) == LET c == FirstOf(p, ":") IN
              IF c = 0 THEN [pat |-> p, ty |-> <<Id("_")>>] ELSE [pat |-> SubSeq(p, 1, c - 1), ty |-> Rest(p, c + 1)]
ParamShape(p) == PatShape(ParamOf(p).pat) /\ TyShape(ParamOf(p).ty)
ArgShape(ts) == \A p \in Range(PatParts(ts)) : ParamShape(p)
NodeShape(nd) ==
  /\ GoodName(nd.tag.repr) \/ nd.tag.kind = "Component"
  /\ \A i \in DOMAIN nd.tag.segs : GoodName(nd.tag.segs[i].id)
  /\ \A i \in DOMAIN nd.attrs :
       LET a == nd.attrs[i] IN
       CASE a.a = "spread" -> a.ts # <<>> /\ Shape(a.ts)
         [] a.a = "kv" -> GoodName(Snake(a.key)) /\ ValShape(a.val)
         [] OTHER -> ValShape(a.val) /\ GoodName(Snake(a.key)) /\ a.ks # "str" /\ GoodName(a.dir)
  /\ \A i \in DOMAIN nd.kids : nd.kids[i].c = "val" => ValShape(nd.kids[i].v)
  /\ ArgShape(nd.args)
Tame == /\ \A i \in DOMAIN nodes : NodeShape(nodes[i])
        /\ \A i \in DOMAIN roots : roots[i].c = "val" => ValShape(roots[i].v)

---------------------------------------------------------------------------
(* Documents and views. A view node is an element [t "el", s tag] with      *)
(* attribute items, a text [t "tx"], or nothing [t "no"]; lg is what        *)
(* rendering the node itself evaluates.                                    *)
VNode(t, s, lg) == [t |-> t, s |-> s, ns |-> "", lg |-> lg, at |-> <<>>, ch |-> <<>>]
\* attribute items: t "at" attribute | "cl" class text | "st" style text | "no"
Item(t, k, s, lg) == [t |-> t, k |-> k, s |-> s, lg |-> lg]
IOk(i, log) == [ok |-> TRUE, it |-> i, log |-> log]
IBad == [ok |-> FALSE, it |-> Item("no", "", "", <<>>), log |-> <<>>]

\* HTML names with their own attribute methods (those the cases use)
GlobalAttrs == {"id","title","lang","hidden","tabindex","role","dir","draggable","accesskey",
                "inputmode","itemprop","nonce","part","slot","spellcheck","translate","autofocus",
                "contenteditable","enterkeyhint","inert","is","itemid","popover",
                "aria_label","aria_hidden","aria_describedby","aria_live","aria_checked",
                "aria_activedescendant", "aria_autocomplete", "aria_expanded","aria_valuenow"}
TagAttrs == [input |-> {"type","value","name","checked","disabled","placeholder","readonly","max","min","step"},
             a |-> {"href","target","rel","download"},
             label |-> {"for"},
             img |-> {"src","alt","width","height"},
             button |-> {"type","disabled","name","value","form"},
             form |-> {"action","method","name"},
             link |-> {"href","rel","as","type"},
             ol |-> {"reversed","start","type"},
             td |-> {"colspan","rowspan","headers"},
             option |-> {"value","selected","disabled","label"},
             textarea |-> {"rows","cols","name"},
             iframe |-> {"src","loading","sandbox"},
             script |-> {"src","async","defer","type"},
             details |-> {"open"}]
AllAttrs == GlobalAttrs \cup UNION {TagAttrs[t] : t \in DOMAIN TagAttrs}
\* the attribute a method sets: its name with aria_ as aria-
AttrName(m) == IF StartsWith(m, "aria_") THEN "aria-" \o SubSeq(m, 6, Len(m)) ELSE m
CheckedOk(tag, kind, m) ==
  CASE kind = "Any" -> m \in AllAttrs
    [] kind = "Math" -> m \in {"id", "href", "displaystyle", "mathcolor", "mathvariant", "dir", "title", "lang"}
    [] OTHER -> m \in GlobalAttrs \/ (tag \in DOMAIN TagAttrs /\ m \in TagAttrs[tag])

Events == {"click","dblclick","input","change","keydown","keyup","mouseenter","submit","focus",
           "pointerdown","scroll","load","blur","DOMContentLoaded"}

HtmlNames == {"a","abbr","address","article","aside","audio","b","bdi","bdo","blockquote","body",
  "button","canvas","caption","cite","code","colgroup","data","datalist","dd","del","details","dfn",
  "dialog","div","dl","dt","em","fieldset","figcaption","figure","footer","form","h1","h2","h3","h4",
  "h5","h6","head","header","hgroup","html","i","iframe","ins","kbd","label","legend","li","main",
  "map","mark","menu","meter","nav","noscript","object","ol","optgroup","output","p","picture",
  "portal","pre","progress","q","rp","rt","ruby","s","samp","script","search","section","select",
  "slot","small","span","strong","style","sub","summary","sup","table","tbody","td","template",
  "textarea","tfoot","th","thead","time","title","tr","u","ul","var","video","option"}
VoidNames == {"area","base","br","col","embed","hr","img","input","link","meta","source","track","wbr"}
\* names listed as elements for which leptos has no constructor
NoSuchElement == {"use_", "mfenced", "view"}

\* how many blank-separated words / `;`-separated declarations a text holds
RECURSIVE SplitBy(_, _, _)
SplitBy(s, c, cur) ==
  IF s = "" THEN IF cur = "" THEN <<>> ELSE <<cur>>
  ELSE IF Ch(s, 1) = c THEN (IF cur = "" THEN <<>> ELSE <<cur>>) \o SplitBy(SubSeq(s, 2, Len(s)), c, "")
  ELSE SplitBy(SubSeq(s, 2, Len(s)), c, cur \o Ch(s, 1))

AttrItem(k, e) ==
  IF ~e.ok \/ Base(e.v) \notin {"str", "int", "flt", "bool", "num"} THEN IBad
  ELSE IF Base(e.v) = "bool"
  THEN IOk(Item(IF e.v.s = "true" THEN "at" ELSE "no", k, "", e.v.lg), e.log)
  ELSE IOk(Item("at", k, e.v.s, e.v.lg), e.log)

\* one attribute-like operation on an element (tag/kind as known; "Any" on components)
AttrOp(o, env, tag, kind) ==
  LET e == EvalVal(o.v, env) IN
  CASE o.o = "ref" ->
         IF e.ok /\ e.v.ty = "ref" /\ kind # "Any" THEN IOk(Item("at", "ref:", "bound", <<>>), e.log) ELSE IBad
    [] o.o = "class" ->
         IF e.ok /\ Base(e.v) = "str" THEN IOk(Item("cl", "", e.v.s, e.v.lg), e.log) ELSE IBad
    [] o.o = "style" ->
         IF e.ok /\ Base(e.v) = "str" THEN IOk(Item("st", "", e.v.s, e.v.lg), e.log) ELSE IBad
    [] o.o = "attr" -> AttrItem(o.k, e)
    [] o.o = "checked" ->
         IF CheckedOk(tag, kind, o.k) THEN AttrItem(AttrName(o.k), e) ELSE IBad
    [] o.o = "classd" ->
         IF e.ok /\ Base(e.v) = "bool" /\ ~Contains(o.k, " ")
         THEN IOk(Item(IF e.v.s = "true" THEN "cl" ELSE "no", "", o.k, e.v.lg), e.log) ELSE IBad
    [] o.o = "styled" ->
         IF e.ok /\ Base(e.v) = "str" THEN IOk(Item("st", "", o.k \o ":" \o e.v.s, e.v.lg), e.log)
         ELSE IBad
    [] o.o = "prop" ->
         IF e.ok /\ Base(e.v) \in {"str", "int", "flt", "bool"}
         THEN IOk(Item("at", "prop:" \o o.k,
                       e.v.s, e.v.lg), e.log)
         ELSE IBad
    [] o.o = "on" ->
         IF e.ok /\ e.v.ty = "hnd" /\ o.k \in Events
         THEN IOk(Item("at", "on:" \o o.k \o (IF o.m = "undelegated" THEN ":undelegated" ELSE ""),
                       e.v.s, <<>>), e.log)
         ELSE IBad
    [] o.o = "use" ->
         IF o.v.vk = "none"
         THEN IF o.k = "d0" THEN IOk(Item("at", "use:", "d0", <<>>), <<>>)
              ELSE IF o.k \in {"d1", "dd_2"}
              THEN IOk(Item("at", "use:", o.k \o "(unit)", <<>>), <<>>) ELSE IBad
         ELSE IF e.ok /\ e.v.ty \in {"str", "int", "bool"} /\ o.k \in {"d1", "dd_2"}
         THEN IOk(Item("at", "use:", o.k \o "(" \o e.v.s \o ")", <<>>), e.log) ELSE IBad
    [] o.o = "spread" ->
         LET x == Eval(o.ts, env) IN
         IF x.ok /\ x.v.ty = "sp" THEN IOk(Item("at", "data-sp" \o x.v.s, "v" \o x.v.s, <<>>), x.log)
         ELSE IBad
    [] OTHER -> IBad

RECURSIVE AttrOps(_, _, _, _)      \* [ok, its, log]
AttrOps(ops, env, tag, kind) ==
  IF ops = <<>> THEN [ok |-> TRUE, its |-> <<>>, log |-> <<>>]
  ELSE LET x == AttrOp(Head(ops), env, tag, kind)
           r == AttrOps(Tail(ops), env, tag, kind) IN
       [ok |-> x.ok /\ r.ok, its |-> <<x.it>> \o r.its, log |-> x.log \o r.log]

---------------------------------------------------------------------------
(* The components of the kit *)
TyName(segs) == JoinStr(MapSeq(LAMBDA s : s.id, segs), "::")
RECURSIVE TypeText(_)              \* the kit type a path names; "" if none
TypeText(segs) ==
  LET p0 == IF Len(segs) > 1 /\ segs[1].id = "kit" /\ ~segs[1].hasgen THEN Tail(segs) ELSE segs
      p == IF Len(p0) > 1 /\ p0[1].id = "m" /\ p0[2].id # "G2" /\ ~p0[1].hasgen THEN Tail(p0) ELSE p0
  IN IF Len(p) = 1 /\ p[1].id = "G1" /\ ~p[1].hasgen THEN "G1"
     ELSE IF Len(p) = 2 /\ p[1].id = "m" /\ p[2].id = "G2" /\ ~p[1].hasgen /\ ~p[2].hasgen THEN "m::G2"
     ELSE IF Len(p) = 1 /\ p[1].id = "Gw" /\ p[1].hasgen /\ Len(p[1].gen) \in {1, 2}
     THEN LET x == TypeText(p[1].gen[1])
              y == IF Len(p[1].gen) = 2 THEN TypeText(p[1].gen[2]) ELSE "G1" IN
          IF x = "" \/ y = "" THEN "" ELSE "Gw<" \o x \o "," \o y \o ">"
     ELSE IF Len(p) # 1 \/ ~p[1].hasgen THEN ""
     ELSE LET n == Len(p[1].gen)
              xs == MapSeq(TypeText, p[1].gen)
              ok == \A i \in 1..n : xs[i] # ""
              id == p[1].id IN
          CASE id = "(" /\ ok /\ n = 1 -> "(" \o xs[1] \o ",)"
            [] id = "(" /\ ok /\ n < 4 -> "(" \o JoinStr(xs, ",") \o ")"
            [] Ch(id, 1) = "[" /\ ok -> "[" \o xs[1] \o "]" \o SubSeq(id, 2, Len(id) - 1)
            [] id = "&" /\ ok -> "&" \o xs[1]
            [] id = "fn" /\ ok /\ n < 4 -> "fn(" \o JoinStr(AllButLast(xs), ",") \o ")" \o xs[n]
            [] id = "Gl" /\ n = 2 -> IF p[1].gen[1] = TyOf("'static", <<>>) /\ xs[2] # "" THEN "Gl<" \o xs[2] \o ">" ELSE ""
            [] id = "Gk" /\ n = 2 -> IF xs[1] # "" /\ Len(p[1].gen[2]) = 1 /\ Ch(p[1].gen[2][1].id, 1) = "#"
                                     THEN "Gk<" \o xs[1] \o "," \o SubSeq(p[1].gen[2][1].id, 2, Len(p[1].gen[2][1].id)) \o ">" ELSE ""
            [] OTHER -> ""

NoComp == [tag |-> "", props |-> <<>>, lz |-> <<>>, kids |-> "none", runs |-> <<>>, slots |-> {}, ty |-> ""]
Comp(tag, props, lz, kids, runs) ==
  [NoComp EXCEPT !.tag = tag, !.props = props, !.lz = lz, !.kids = kids, !.runs = runs]
\* kids: "none" none accepted | "opt" optional | "req" a closure with arguments
\* runs: the arguments of each run; plain children have runs of no arguments
\* an argument: a string, or a tuple
S1(s) == [s |-> s, vs |-> <<>>]
Tu(vs) == [s |-> "", vs |-> vs]
One == <<"a">>
CcProps == <<"a","b","some_attr","a_b_2","type","class","id">>
CoProps == <<"a__b", "a_", "_c", "aB", "x_01", "for", "t%1r", "Big", "ref", "node_ref">>
CompOf(tag0) ==
  LET segs0 == tag0.segs
      segs == IF Len(segs0) > 1 /\ segs0[1].id = "kit" /\ ~segs0[1].hasgen THEN Tail(segs0) ELSE segs0
      n == Len(segs)
      names == MapSeq(LAMBDA s : s.id, segs)
      last == segs[n]
      nogen == \A i \in 1..n : ~segs[i].hasgen
      gen1 == (\A i \in 1..(n - 1) : ~segs[i].hasgen) /\ last.hasgen /\ Len(last.gen) = 1
      ty == IF gen1 THEN TypeText(last.gen[1]) ELSE ""
      Named(x) == names = x \/ names = <<"m">> \o x
      gen3 == (\A i \in 1..(n - 1) : ~segs[i].hasgen) /\ last.hasgen /\ Len(last.gen) = 3 /\ Named(<<"Ch">>)
  IN IF tag0.lead /\ segs0[1].id # "kit" THEN NoComp
     ELSE IF nogen THEN
       CASE Named(<<"Cc">>) -> Comp("x-cc", CcProps, <<"fa", "f_b">>, "opt", <<<<>>>>)
         [] Named(<<"Cf">>) -> Comp("x-cf", One, <<"fa">>, "opt", <<<<>>, <<>>>>)
         [] Named(<<"Cn">>) -> Comp("x-cn", One, <<>>, "opt", <<>>)
         [] Named(<<"Ca">>) -> Comp("x-ca", One, <<>>, "req", <<<<S1("A0")>>, <<S1("A1")>>>>)
         [] Named(<<"Ct">>) -> Comp("x-ct", One, <<>>, "req", <<<<Tu(<<S1("T0"), S1("T1")>>)>>>>)
         [] Named(<<"C2">>) -> Comp("x-c2", One, <<>>, "req", <<<<S1("P0"), S1("P1")>>>>)
         [] Named(<<"C3">>) -> Comp("x-c3", One, <<>>, "req", <<<<S1("Q0"), Tu(<<S1("Q1"), Tu(<<S1("Q2"), S1("Q3")>>)>>), S1("Q4")>>>>)
         [] Named(<<"C0">>) -> Comp("x-c0", One, <<>>, "req", <<<<>>, <<>>>>)
         [] Named(<<"Cz">>) -> Comp("x-cz", One, <<>>, "none", <<>>)
         [] Named(<<"Cs">>) -> [Comp("x-cs", One, <<>>, "opt", <<<<>>>>) EXCEPT
                                 !.slots = {"SlotA", "SlotB", "Solo", "SlotFn1"}]
         [] Named(<<"Co">>) -> Comp("x-co", CoProps, <<>>, "opt", <<<<>>>>)
         [] Named(<<"Cq">>) -> [Comp("x-cq", One, <<>>, "opt", <<<<>>>>) EXCEPT
                                 !.slots = {"ABItem", "Slot2D", "Foo_Bar", "T%1r", "X"}]
         [] Named(<<"Cr">>) -> [Comp("x-cr", <<>>, <<>>, "opt", <<<<>>>>) EXCEPT !.slots = {"Solo!"}]
         [] names = <<"m", "Cm">> -> Comp("x-m-cm", One, <<>>, "opt", <<<<>>>>)
         [] names = <<"m", "Low">> -> Comp("x-m-low", One, <<>>, "opt", <<<<>>>>)
         [] OTHER -> NoComp
     \* an associated function of a generic type
     ELSE IF n > 1 /\ last.id = "Mk" /\ ~last.hasgen /\ segs[n - 1].hasgen /\ Len(segs[n - 1].gen) = 1
             /\ SubSeq(names, 1, n - 1) \in {<<"Nsg">>, <<"m", "Nsg">>} /\ (n = 3 => ~segs[1].hasgen)
     THEN LET t == TypeText(segs[n - 1].gen[1]) IN
          IF t = "" THEN NoComp ELSE [Comp("x-mk", One, <<>>, "none", <<>>) EXCEPT !.ty = t]
     ELSE IF gen3 THEN LET x == TypeText(last.gen[1])
                            y == TypeText(last.gen[2])
                            z == TypeText(TyOf("Gk", <<TyOf("(", <<>>), last.gen[3]>>)) IN
          IF x = "" \/ y = "" \/ z = "" THEN NoComp
          ELSE [Comp("x-ch", One, <<>>, "opt", <<<<>>>>) EXCEPT !.ty = x \o "," \o y \o "," \o SubSeq(z, 7, Len(z) - 1)]
     ELSE IF ty = "" THEN NoComp
     ELSE CASE Named(<<"Cg">>) -> [Comp("x-cg", One, <<>>, "opt", <<<<>>>>) EXCEPT !.ty = ty]
            [] names = <<"m", "nn", "Cm">> -> [Comp("x-nn-cm", One, <<>>, "opt", <<<<>>>>) EXCEPT !.ty = ty]
            [] OTHER -> NoComp

SlotNames == {"SlotA", "SlotB", "Solo", "SlotFn1", "ABItem", "Slot2D", "Foo_Bar", "T%1r", "X"}
SlotProps == [n \in SlotNames |-> IF n = "SlotA" THEN <<"a", "some_attr", "ref", "type">> ELSE One]
SlotLz == [n \in SlotNames |-> IF n = "SlotA" THEN <<"fa">> ELSE <<>>]
SlotTag == [SlotA |-> "x-slot-a", SlotB |-> "x-slot-b", Solo |-> "x-solo", SlotFn1 |-> "x-slot-fn1"]
           @@ [n \in SlotNames |-> "x-q-" \o n]
SlotOrder == <<"SlotA", "SlotB", "Solo", "SlotFn1", "ABItem", "Slot2D", "Foo_Bar", "T%1r", "X">>

\* property values as the kit prints them
PropRepr(v) == CASE v.ty = "str" -> "s:" [] v.ty = "int" -> "i:" [] v.ty = "bool" -> "b:"
                 [] v.ty = "chr" -> "c:" [] v.ty = "flt" -> "f:" [] OTHER -> "?"

\* `set` operations: [ok, ps: seq of [k, s, lg, lz], log]
RECURSIVE SetOps(_, _, _, _)
SetOps(ops, env, props, lz) ==
  IF ops = <<>> THEN [ok |-> TRUE, ps |-> <<>>, log |-> <<>>]
  ELSE LET o == Head(ops)
           e == EvalVal(o.v, env)
           r == SetOps(Tail(ops), env, props, lz)
           isProp == o.k \in Range(props)
           isLz == o.k \in Range(lz)
           twice == \E i \in DOMAIN r.ps : r.ps[i].k = o.k
           fits == (isProp /\ e.v.ty \in {"str", "int", "bool", "chr", "flt"})
                   \/ (isLz /\ e.v.ty = "fn" /\ e.v.ity \in {"str", "int", "bool", "chr"})
       IN [ok |-> e.ok /\ r.ok /\ ~twice /\ fits,
           ps |-> <<[k |-> o.k, s |-> IF isLz THEN "s:" \o e.v.s ELSE PropRepr(e.v) \o e.v.s,
                     lg |-> e.v.lg, lz |-> isLz]>> \o r.ps,
           log |-> e.log \o r.log]

\* what the kit shows of the properties, in the order it declares them
RECURSIVE ShowProps(_, _)
ShowProps(names, ps) ==
  IF names = <<>> THEN <<>>
  ELSE LET hit == {i \in DOMAIN ps : ps[i].k = Head(names)} IN
       (IF hit = {} THEN <<>> ELSE <<ps[CHOOSE i \in hit : TRUE]>>) \o ShowProps(Tail(names), ps)
PropItems(ps) == MapSeq(LAMBDA p : Item("at", "p:" \o p.k, p.s, <<>>), ps)
PropLog(ps) == FlatSeq(MapSeq(LAMBDA p : p.lg, ps))

---------------------------------------------------------------------------
(* Closure arguments: the pattern between the pipes, bound to a run's args   *)
\* [ok, vars]
NoBind == [ok |-> FALSE, vars |-> <<>>]
RECURSIVE BindPat(_, _)
RECURSIVE BindAll(_, _)
BindAll(ps, vs) ==
  IF ps = <<>> THEN [ok |-> vs = <<>>, vars |-> <<>>]
  ELSE IF IsDots(Head(ps)) THEN BindAll(Tail(ps), Rest(vs, Len(vs) - Len(ps) + 2))
  ELSE IF vs = <<>> THEN NoBind
  ELSE LET x == BindPat(Head(ps), Head(vs))
           r == BindAll(Tail(ps), Tail(vs)) IN
       [ok |-> x.ok /\ r.ok, vars |-> x.vars \o r.vars]
BindPat(p, v) ==
  LET t == LastOf(p) IN
  IF Len(p) = 1 /\ IsIdent(p[1], "_") THEN [ok |-> TRUE, vars |-> <<>>]
  ELSE IF IsG(p[1], "(")
  THEN LET q == PatParts(p[1].ts)
           inner == Len(q) = 1 /\ FirstOf(p[1].ts, ",") = 0 /\ ~IsDots(q[1])    \* only parentheses
           dots == \E i \in DOMAIN q : IsDots(q[i]) IN
       IF inner THEN BindPat(q[1], v)
       ELSE IF v.vs = <<>> \/ Len(q) - (IF dots THEN 1 ELSE 0) > Len(v.vs) \/ (~dots /\ Len(q) # Len(v.vs)) THEN NoBind
       ELSE BindAll(q, v.vs)
  ELSE IF v.vs # <<>> THEN NoBind
  ELSE LET name == IF IsIdent(p[1], "mut") /\ Len(p) = 2 THEN p[2] ELSE p[1] IN
       [ok |-> TRUE, vars |-> <<[n |-> name.s, v |-> v.s]>>]
RECURSIVE TyFits(_, _)
TyFits(p, v) ==
  \/ Len(p) = 1 /\ IsIdent(p[1], "_")
  \/ Len(p) = 2 /\ v.vs = <<>>
  \/ Len(p) = 1 /\ IsG(p[1], "(")
     /\ LET q == PatParts(p[1].ts) IN
        IF Len(q) = 1 /\ FirstOf(p[1].ts, ",") = 0 THEN TyFits(q[1], v)
        ELSE Len(q) = Len(v.vs) /\ Len(q) > 0 /\ \A i \in DOMAIN q : TyFits(q[i], v.vs[i])
Bind(args, run) ==
  LET ps == PatParts(args)
      b == BindAll(MapSeq(LAMBDA p : ParamOf(p).pat, ps), run) IN
  IF ~ArgShape(args) \/ Len(ps) # Len(run) \/ \E i \in DOMAIN ps : IsDots(ps[i]) THEN NoBind
  ELSE IF \E i \in DOMAIN ps : ~TyFits(ParamOf(ps[i]).ty, run[i]) THEN NoBind
  ELSE [b EXCEPT !.ok = @ /\ \A i, j \in DOMAIN b.vars : i # j => b.vars[i].n # b.vars[j].n]

---------------------------------------------------------------------------
(* Construction *)
CR(ok, v, log) == [ok |-> ok, v |-> v, log |-> log]
RECURSIVE BuildEl(_, _)
RECURSIVE BuildKids(_, _)          \* [ok, vs, log]
RECURSIVE BuildRuns(_, _, _, _)    \* [ok, vss, log]
RECURSIVE BuildSlots(_, _)         \* slot operations: [ok, ss, log]
RECURSIVE ShowSlots(_)             \* [ok, vs, log]

Kid(k, env) ==
  IF k.c = "el" THEN BuildEl(k.id, env)
  ELSE LET e == EvalVal(k.v, env) IN
       IF ~e.ok \/ Base(e.v) \notin {"str", "int", "flt", "bool", "chr", "unit", "num"}
       THEN CR(FALSE, VNode("no", "", <<>>), <<>>)
       ELSE CR(TRUE, VNode(IF Base(e.v) = "unit" THEN "no" ELSE "tx", e.v.s, e.v.lg), e.log)

BuildKids(kids, env) ==
  IF kids = <<>> THEN [ok |-> TRUE, vs |-> <<>>, log |-> <<>>]
  ELSE LET x == Kid(Head(kids), env)
           r == BuildKids(Tail(kids), env) IN
       [ok |-> x.ok /\ r.ok, vs |-> <<x.v>> \o r.vs, log |-> x.log \o r.log]

\* runs a children closure once per entry of runs
BuildRuns(id, runs, withArgs, env) ==
  IF runs = <<>> THEN [ok |-> TRUE, vss |-> <<>>, log |-> <<>>]
  ELSE LET b == IF withArgs THEN Bind(nodes[id].args, Head(runs)) ELSE [ok |-> Head(runs) = <<>>, vars |-> <<>>]
           x == BuildKids(Children(nodes[id].kids), [env EXCEPT !.vars = @ \o b.vars])
           r == BuildRuns(id, Tail(runs), withArgs, env) IN
       [ok |-> b.ok /\ x.ok /\ r.ok, vss |-> <<x.vs>> \o r.vss, log |-> x.log \o r.log]

OpsWith(id, S) == SelectSeq(plan[id], LAMBDA o : o.o \in S)
AttrOpNames == {"class", "style", "attr", "checked", "classd", "styled", "prop", "on", "use",
                "spread", "ref", "bad"}

\* the children setter: [ok, has, args, env, log]
KidsSetter(id, env) ==
  LET cl == OpsWith(id, {"clone"})
      has == OpsWith(id, {"children"}) # <<>>
      names == MapSeq(LAMBDA o : o.k, cl)
      Known(n) == n \in env.k \cup StrVars \cup DOMAIN BoolVars \/ \E i \in DOMAIN env.vars : env.vars[i].n = n
      logged == SelectSeq(names, LAMBDA n : n \in CloneNames)
  IN [ok |-> \A n \in Range(names) : Known(n),
      has |-> has, args |-> nodes[id].apos # 0,
      env |-> [env EXCEPT !.k = Range(logged)],
      log |-> MapSeq(LAMBDA n : "clone:" \o n, logged)]

\* one slot: evaluated now, shown when the component runs
BuildSlot(id, env) ==
  LET nm == SlotName(id)
      known == nm \in DOMAIN SlotProps
      s == SetOps(OpsWith(id, {"set"}), env, IF known THEN SlotProps[nm] ELSE <<>>,
                  IF known THEN SlotLz[nm] ELSE <<>>)
      k == KidsSetter(id, env)
      nested == BuildSlots(OpsWith(id, {"slot"}), env)
      \* (a type given for its argument is too general for the conversion into the slot's closure)
      untyped == \A p \in Range(PatParts(nodes[id].args)) : FirstOf(p, ":") = 0 \/ IsIdent(LastOf(p), "_")
      fits == IF nm = "SlotFn1" THEN k.has /\ k.args /\ untyped ELSE ~k.args
      nestedOk == nm = "SlotB" \/ nested.ss = <<>>
      onlyA == \A i \in DOMAIN nested.ss : nested.ss[i].name = "SlotA"
  IN [ok |-> known /\ s.ok /\ k.ok /\ fits /\ nested.ok /\ nestedOk /\ onlyA,
      log |-> s.log \o k.log \o nested.log,
      slot |-> [name |-> nm, ps |-> s.ps, id |-> id, has |-> k.has, env |-> k.env, sub |-> nested.ss]]

RECURSIVE BuildSlotIds(_, _)
BuildSlotIds(ids, env) ==
  IF ids = <<>> THEN [ok |-> TRUE, ss |-> <<>>, log |-> <<>>]
  ELSE LET x == BuildSlot(Head(ids), env)
           r == BuildSlotIds(Tail(ids), env) IN
       [ok |-> x.ok /\ r.ok, ss |-> <<x.slot>> \o r.ss, log |-> x.log \o r.log]
BuildSlots(ops, env) ==
  IF ops = <<>> THEN [ok |-> TRUE, ss |-> <<>>, log |-> <<>>]
  ELSE LET x == BuildSlotIds(Head(ops).ts, env)
           r == BuildSlots(Tail(ops), env) IN
       [ok |-> x.ok /\ r.ok, ss |-> x.ss \o r.ss, log |-> x.log \o r.log]

\* shows slots: properties, nested slots, then its children
ShowSlots(ss) ==
  IF ss = <<>> THEN [ok |-> TRUE, vs |-> <<>>, log |-> <<>>]
  ELSE LET s == Head(ss)
           ps == ShowProps(SlotProps[s.name] \o SlotLz[s.name], s.ps)
           sub == ShowSlots(s.sub)
           k == IF ~s.has THEN [ok |-> TRUE, vss |-> <<<<>>>>, log |-> <<>>]
                ELSE BuildRuns(s.id, IF s.name = "SlotFn1" THEN <<<<S1("S0")>>>> ELSE <<<<>>>>,
                               s.name = "SlotFn1", s.env)
           r == ShowSlots(Tail(ss))
           el == [VNode("el", SlotTag[s.name], <<>>) EXCEPT
                    !.at = PropItems(ps), !.ch = sub.vs \o k.vss[1]]
       IN [ok |-> k.ok /\ r.ok /\ sub.ok, vs |-> <<el>> \o r.vs,
           log |-> PropLog(ps) \o sub.log \o k.log \o r.log]

BuildComponent(id, env) ==
  LET c == CompOf(nodes[id].tag)
      s == SetOps(OpsWith(id, {"set"}), env, c.props, c.lz)
      k == KidsSetter(id, env)
      sl == BuildSlots(OpsWith(id, {"slot"}), env)
      \* the body
      ps == ShowProps(c.props \o c.lz, s.ps)
      tyItem == IF c.ty = "" THEN <<>> ELSE <<Item("at", "p:ty", c.ty, <<>>)>>
      given == MapSeq(LAMBDA x : x.name, sl.ss)
      Count(nm) == Len(SelectSeq(sl.ss, LAMBDA x : x.name = nm))
      slotsOk == /\ \A i \in DOMAIN given : given[i] \in c.slots \/ (given[i] = "Solo" /\ "Solo!" \in c.slots)
                 /\ Count("Solo") <= 1
                 /\ ("Solo!" \in c.slots => Count("Solo") = 1)
      byName == FlatSeq(MapSeq(LAMBDA nm : SelectSeq(sl.ss, LAMBDA x : x.name = nm), SlotOrder))
      shown == IF slotsOk /\ sl.ok THEN ShowSlots(byName) ELSE [ok |-> FALSE, vs |-> <<>>, log |-> <<>>]
      none == [ok |-> TRUE, vss |-> <<>>, log |-> <<>>]
      runs == IF ~k.has THEN none
              ELSE IF c.runs = <<>>   \* never run, but compiled all the same
              THEN [none EXCEPT !.ok = BuildRuns(id, <<<<>>>>, FALSE, k.env).ok]
              ELSE BuildRuns(id, c.runs, c.kids = "req", k.env)
      wrapped == c.kids = "req" \/ Len(c.runs) > 1
      kidNodes == IF wrapped
                  THEN MapSeq(LAMBDA vs : [VNode("el", "x-run", <<>>) EXCEPT !.ch = vs], runs.vss)
                  ELSE FlatSeq(runs.vss)
      kidsOk == CASE c.kids = "none" -> ~k.has
                  [] c.kids = "opt" -> ~k.args
                  [] OTHER -> k.has /\ k.args
      at == AttrOps(OpsWith(id, AttrOpNames), env, "", "Any")
      el == [VNode("el", c.tag, <<>>) EXCEPT
               !.at = tyItem \o PropItems(ps) \o at.its, !.ch = shown.vs \o kidNodes]
  IN IF c.tag = "" THEN CR(FALSE, VNode("no", "", <<>>), <<>>)
     ELSE CR(s.ok /\ k.ok /\ sl.ok /\ slotsOk /\ shown.ok /\ runs.ok /\ kidsOk /\ at.ok, el,
             s.log \o k.log \o sl.log \o <<"in:" \o c.tag>> \o PropLog(ps) \o shown.log \o runs.log
             \o at.log)

BuildXml(id, env) ==
  LET nd == nodes[id]
      kind == nd.tag.kind
      void == kind = "Html" /\ nd.tag.repr \in VoidNames
      known == CASE kind = "Html" -> nd.tag.repr \in HtmlNames \cup VoidNames
                 [] OTHER -> nd.tag.repr \notin NoSuchElement
      at == AttrOps(OpsWith(id, AttrOpNames), env, nd.tag.repr, kind)
      k == BuildKids(Children(nd.kids), env)
      el == [VNode("el", nd.tag.repr, <<>>) EXCEPT
               !.at = at.its, !.ch = k.vs,
               !.ns = CASE kind = "Svg" -> "svg" [] kind = "Math" -> "MathML" [] OTHER -> ""]
  IN CR(known /\ at.ok /\ k.ok /\ (void => k.vs = <<>>), el, at.log \o k.log)

BuildEl(id, env) ==
  IF nodes[id].tag.kind = "Component" THEN BuildComponent(id, env) ELSE BuildXml(id, env)

---------------------------------------------------------------------------
(* Rendering *)
ItemsOf(its, t) == SelectSeq(its, LAMBDA i : i.t = t)
RECURSIVE StyleParts(_)
StyleParts(its) == IF its = <<>> THEN <<>> ELSE SplitBy(Head(its).s, ";", "") \o StyleParts(Tail(its))
RECURSIVE ClassParts(_)
ClassParts(its) == IF its = <<>> THEN <<>> ELSE SplitBy(Head(its).s, " ", "") \o ClassParts(Tail(its))

RECURSIVE Dom(_)
DomSeq(vs) == MapSeq(Dom, SelectSeq(vs, LAMBDA v : v.t # "no"))
Dom(v) ==
  \* (leptos writes a blank for an empty text)
  IF v.t = "tx" THEN [t |-> "tx", s |-> IF v.s = "" THEN " " ELSE v.s, ns |-> "", at |-> <<>>, cls |-> <<>>, sty |-> <<>>, ch |-> <<>>]
  ELSE [t |-> "el", s |-> v.s, ns |-> v.ns,
        at |-> MapSeq(LAMBDA i : <<i.k, i.s>>, ItemsOf(v.at, "at")),
        cls |-> ClassParts(ItemsOf(v.at, "cl")),
        sty |-> StyleParts(ItemsOf(v.at, "st")),
        ch |-> DomSeq(v.ch)]
RECURSIVE RenderLog(_)
RenderLogs(vs) == FlatSeq(MapSeq(RenderLog, vs))
RenderLog(v) == v.lg \o FlatSeq(MapSeq(LAMBDA i : i.lg, v.at)) \o RenderLogs(v.ch)

\* the whole program: [ok, root, clog, rlog, dom]
Run ==
  LET k == BuildKids(roots, Env0)
      single == Len(roots) = 1 IN
  IF ~k.ok THEN [ok |-> FALSE, root |-> "", clog |-> <<>>, rlog |-> <<>>, dom |-> <<>>]
  ELSE [ok |-> TRUE, root |-> IF single THEN "one" ELSE "frag", clog |-> k.log,
        rlog |-> RenderLogs(k.vs), dom |-> DomSeq(k.vs)]
=============================================================================
