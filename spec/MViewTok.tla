------------------------------ MODULE MViewTok ------------------------------
(***************************************************************************)
(* Token trees, as a procedural macro receives them, and the lexical       *)
(* notions that `mview!` builds on: kebab-case identifiers, values, tag     *)
(* classes and paths.                                                      *)
(*                                                                         *)
(* A token is a record                                                     *)
(*   k  "id" identifier | "p" punctuation character | "lit" literal |      *)
(*      "g" delimited group | "eof" the absent token                       *)
(*   s  identifier without r# | the character | the literal's text         *)
(*      (a string literal's contents) | the opening delimiter              *)
(*   f  "r" for a raw identifier | "j" for a punctuation character joined  *)
(*      to the next one | "str" "int" "flt" "chr" for literals             *)
(*   n  position: the unique number of the token in the macro input        *)
(*   ts the contents of a group                                            *)
(*   b  "!" if the generator planted a fault at this token (never read by     *)
(*      the machine; only the properties about error locations look at it)    *)
(* A location is [n, e]: e = 0 is the start of token n, e = 1 the closing   *)
(* delimiter of group n; n = 0 is the whole macro call.                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Tok(k, s, f, ts) == [k |-> k, s |-> s, f |-> f, n |-> 0, ts |-> ts, b |-> ""]
Id(s) == Tok("id", s, "", <<>>)
Raw(s) == Tok("id", s, "r", <<>>)
P(s) == Tok("p", s, "a", <<>>)
J(s) == Tok("p", s, "j", <<>>)
Str(s) == Tok("lit", s, "str", <<>>)
Int(s) == Tok("lit", s, "int", <<>>)
Flt(s) == Tok("lit", s, "flt", <<>>)
Chr(s) == Tok("lit", s, "chr", <<>>)
Grp(d, ts) == Tok("g", d, "", ts)
Br(ts) == Grp("{", ts)
Sq(ts) == Grp("[", ts)
Pa(ts) == Grp("(", ts)
PP == <<J(":"), P(":")>>

Eof == Tok("eof", "", "", <<>>)
At(ts, i) == IF i <= Len(ts) THEN ts[i] ELSE Eof
Rest(ts, i) == SubSeq(ts, i, Len(ts))           \* from index i on
Loc(n) == [n |-> n, e |-> 0]
CloseLoc(n) == [n |-> n, e |-> 1]

IsId(t) == t.k = "id"
IsIdent(t, s) == t.k = "id" /\ t.s = s /\ t.f = ""
IsP(t, c) == t.k = "p" /\ t.s = c
IsG(t, d) == t.k = "g" /\ t.s = d
\* a two-character operator: the first character must be joined to the second
IsP2(ts, i, c, d) == IsP(At(ts, i), c) /\ At(ts, i).f = "j" /\ IsP(At(ts, i + 1), d)
IsPathSep(ts, i) == IsP2(ts, i, ":", ":")

(***************************************************************************)
(* Characters and strings                                                  *)
(***************************************************************************)
Ch(s, i) == SubSeq(s, i, i)
UpperSeq == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P",
              "Q","R","S","T","U","V","W","X","Y","Z">>
LowerSeq == <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p",
              "q","r","s","t","u","v","w","x","y","z">>
Upper == {UpperSeq[i] : i \in 1..26}
LowerOf(c) == IF c \in Upper
              THEN LowerSeq[CHOOSE i \in 1..26 : UpperSeq[i] = c] ELSE c
Contains(s, c) == \E i \in 1..Len(s) : Ch(s, i) = c
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p

RECURSIVE MapChars(_, _, _)
MapChars(s, a, b) == IF s = "" THEN ""
                     ELSE (IF Ch(s, 1) = a THEN b ELSE Ch(s, 1))
                          \o MapChars(SubSeq(s, 2, Len(s)), a, b)
\* hyphens become underscores
Snake(s) == IF Contains(s, "-") THEN MapChars(s, "-", "_") ELSE s

RECURSIVE CamelRec(_, _)
CamelRec(s, first) ==
  IF s = "" THEN ""
  ELSE (IF Ch(s, 1) \in Upper /\ ~first THEN "_" ELSE "") \o LowerOf(Ch(s, 1))
       \o CamelRec(SubSeq(s, 2, Len(s)), FALSE)
\* UpperCamelCase becomes snake_case
CamelToSnake(s) == CamelRec(s, TRUE)

RECURSIVE JoinStr(_, _)
JoinStr(ss, sep) == IF ss = <<>> THEN ""
                    ELSE IF Len(ss) = 1 THEN ss[1]
                    ELSE ss[1] \o sep \o JoinStr(Tail(ss), sep)

RECURSIVE FlatSeq(_)
FlatSeq(sss) == IF sss = <<>> THEN <<>> ELSE Head(sss) \o FlatSeq(Tail(sss))

MapSeq(Op(_), s) == [i \in 1..Len(s) |-> Op(s[i])]
Filter(s, Test(_)) == SelectSeq(s, Test)
Range(s) == {s[i] : i \in DOMAIN s}
LastOf(s) == s[Len(s)]
AllButLast(s) == SubSeq(s, 1, Len(s) - 1)

(***************************************************************************)
(* Kebab-case identifiers: `a`, `data-x`, `--css-var`, `blue-100`, `r#for`  *)
(* Whitespace between the segments does not matter.                        *)
(***************************************************************************)
RECURSIVE KebabLoop(_, _, _, _)
KebabLoop(ts, repr, second, dg) ==
  LET dash == IsP(At(ts, 1), "-")
      loneDash == second /\ repr = "-"
      ts1 == IF dash THEN Rest(ts, 2) ELSE ts
      repr1 == IF dash THEN repr \o "-" ELSE repr
      t == At(ts1, 1)
  IN IF ~dash /\ ~loneDash THEN [ok |-> TRUE, repr |-> repr, rest |-> ts, dg |-> dg]
     ELSE IF IsId(t)
          THEN KebabLoop(Rest(ts1, 2), repr1 \o t.s, FALSE,
                         IF t.f = "r" THEN Append(dg, [c |-> "rawkebab", at |-> Loc(t.n)]) ELSE dg)
     ELSE IF t.k = "lit" /\ t.f = "int"
          THEN KebabLoop(Rest(ts1, 2), repr1 \o t.s, FALSE, dg)
     ELSE KebabLoop(ts1, repr1, FALSE, dg)

Kebab(ts) ==
  LET t == At(ts, 1) IN
  IF IsId(t) \/ IsP(t, "-")
  THEN LET r == KebabLoop(Rest(ts, 2), t.s, TRUE, <<>>) IN
       [ok |-> r.ok, repr |-> r.repr, rest |-> r.rest, n |-> t.n, dg |-> r.dg]
  ELSE [ok |-> FALSE, repr |-> "", rest |-> ts, n |-> 0, dg |-> <<>>]

(***************************************************************************)
(* Values: literal, {block}, [closure body], f[format args]                *)
(***************************************************************************)
NoVal == [vk |-> "none", lit |-> Eof, ts |-> <<>>, n |-> 0, pre |-> "", g |-> Eof]
TrueVal == [NoVal EXCEPT !.vk = "true"]
BoolLit(t) == IsId(t) /\ t.s \in {"true", "false"} /\ t.f = ""
NumLit(t) == t.k = "lit" /\ t.f \in {"int", "flt"}
\* [ok, v, rest]
Value(ts) ==
  LET t == At(ts, 1)
      u == At(ts, 2)
      Ret(v, i) == [ok |-> TRUE, v |-> v, rest |-> Rest(ts, i)]
  IN IF IsG(t, "[")
     THEN Ret([NoVal EXCEPT !.vk = "brk", !.ts = t.ts, !.n = t.n, !.g = t], 2)
     ELSE IF IsId(t) /\ IsG(u, "[")
     THEN Ret([NoVal EXCEPT !.vk = "pre", !.ts = u.ts, !.n = t.n, !.pre = t.s, !.lit = t, !.g = u], 3)
     ELSE IF IsG(t, "{")
     THEN Ret([NoVal EXCEPT !.vk = "blk", !.ts = t.ts, !.n = t.n, !.g = t], 2)
     ELSE IF t.k = "lit" \/ BoolLit(t)
     THEN Ret([NoVal EXCEPT !.vk = "lit", !.lit = t, !.n = t.n], 2)
     ELSE IF IsP(t, "-") /\ NumLit(u)
     THEN Ret([NoVal EXCEPT !.vk = "neg", !.lit = u, !.n = t.n, !.g = t], 3)
     ELSE [ok |-> FALSE, v |-> NoVal, rest |-> ts]

(***************************************************************************)
(* Tag classes                                                             *)
(***************************************************************************)
\* the element names of the SVG standard (those that are not HTML names too)
SvgNames == {
  "animate","animateMotion","animateTransform","circle","clipPath","defs","desc",
  "discard","ellipse","feBlend","feColorMatrix","feComponentTransfer",
  "feComposite","feConvolveMatrix","feDiffuseLighting","feDisplacementMap",
  "feDistantLight","feDropShadow","feFlood","feFuncA","feFuncB","feFuncG",
  "feFuncR","feGaussianBlur","feImage","feMerge","feMergeNode","feMorphology",
  "feOffset","fePointLight","feSpecularLighting","feSpotLight","feTile",
  "feTurbulence","filter","foreignObject","g","hatch","hatchpath","image","line",
  "linearGradient","marker","mask","metadata","mpath","path","pattern","polygon",
  "polyline","radialGradient","rect","set","stop","svg","switch","symbol","text",
  "textPath","tspan","use","use_","view" }
\* the element names of MathML
MathNames == {
  "annotation","maction","math","menclose","merror","mfenced","mfrac","mi",
  "mmultiscripts","mn","mo","mover","mpadded","mphantom","mprescripts","mroot",
  "mrow","ms","mspace","msqrt","mstyle","msub","msubsup","msup","mtable","mtd",
  "mtext","mtr","munder","munderover","semantics" }

TagKind(repr) ==
  IF Ch(repr, 1) \in Upper THEN "Component"
  ELSE IF repr \in SvgNames THEN "Svg"
  ELSE IF Contains(repr, "-") THEN "Web"
  ELSE IF repr \in MathNames THEN "Math"
  ELSE "Html"

(***************************************************************************)
(* Paths and generics                                                      *)
(***************************************************************************)
Keywords == {"as","async","await","break","const","continue","dyn","else","enum",
  "extern","false","fn","for","if","impl","in","let","loop","match","mod","move",
  "mut","pub","ref","return","static","struct","trait","true","type","unsafe",
  "use","where","while","abstract","become","box","do","final","macro","override",
  "priv","typeof","unsized","virtual","yield","try","_"}
PathKeywords == {"super", "self", "Self", "crate"}
SegIdent(t) == IsId(t) /\ (t.f = "r" \/ t.s \notin Keywords)

\* Generic arguments are paths themselves. `unk` marks contents this model
\* does not describe (they are valid or invalid Rust types; rustc decides).
RECURSIVE PathFrom(_, _, _)
RECURSIVE GenericArgs(_, _)
RECURSIVE TypeFrom(_)
RECURSIVE TypeList(_, _)
\* A type is a sequence of segments; one that is not a path is a single segment
\* with a name of its own ("(", "[3]", "&", "fn", ..) and the types inside.
TyOf(id, tys) == << [id |-> id, gen |-> tys, hasgen |-> TRUE] >>
TyRet(ty, ts) == [ok |-> TRUE, ty |-> ty, rest |-> ts]
TyNo(ts) == [ok |-> FALSE, ty |-> <<>>, rest |-> ts]
LifetimeAt(ts) == IsP(At(ts, 1), "'") /\ IsId(At(ts, 2))
TypeFrom(ts) ==
  LET t == At(ts, 1) IN
  IF SegIdent(t) \/ (IsPathSep(ts, 1) /\ SegIdent(At(ts, 3)))
  THEN LET p == PathFrom(IF IsPathSep(ts, 1) THEN Rest(ts, 3) ELSE ts, <<>>, IsPathSep(ts, 1)) IN
       IF ~p.ok \/ p.unk \/ IsP(At(p.rest, 1), "!") THEN TyNo(ts) ELSE TyRet(p.segs, p.rest)
  ELSE IF IsG(t, "(")
  THEN LET l == TypeList(t.ts, <<>>) IN
       IF ~l.ok THEN TyNo(ts)
       ELSE IF Len(l.tys) = 1 /\ ~l.comma THEN TyRet(l.tys[1], Rest(ts, 2))
       ELSE TyRet(TyOf("(", l.tys), Rest(ts, 2))
  ELSE IF IsG(t, "[")
  THEN LET e == TypeFrom(t.ts) IN
       IF ~e.ok \/ ~IsP(At(e.rest, 1), ";") \/ ~(At(e.rest, 2).k = "lit" /\ At(e.rest, 2).f = "int") \/ Len(e.rest) # 2 THEN TyNo(ts)
       ELSE TyRet(TyOf("[" \o e.rest[2].s \o "]", <<e.ty>>), Rest(ts, 2))
  ELSE IF IsP(t, "&") /\ LifetimeAt(Rest(ts, 2)) /\ At(ts, 3).s = "static"
  THEN LET e == TypeFrom(Rest(ts, 4)) IN IF ~e.ok THEN TyNo(ts) ELSE TyRet(TyOf("&", <<e.ty>>), e.rest)
  ELSE IF IsIdent(t, "fn") /\ IsG(At(ts, 2), "(")
  THEN LET l == TypeList(At(ts, 2).ts, <<>>) IN
       IF ~l.ok THEN TyNo(ts)
       ELSE IF IsP2(ts, 3, "-", ">")
       THEN LET e == TypeFrom(Rest(ts, 5)) IN IF ~e.ok THEN TyNo(ts) ELSE TyRet(TyOf("fn", Append(l.tys, e.ty)), e.rest)
       ELSE TyRet(TyOf("fn", Append(l.tys, TyOf("(", <<>>))), Rest(ts, 3))
  ELSE TyNo(ts)
\* all of ts, separated by commas
TypeList(ts, acc) ==
  IF ts = <<>> THEN [ok |-> TRUE, tys |-> acc, comma |-> TRUE]
  ELSE LET e == TypeFrom(ts) IN
       IF ~e.ok THEN [ok |-> FALSE, tys |-> acc, comma |-> FALSE]
       ELSE IF e.rest = <<>> THEN [ok |-> TRUE, tys |-> Append(acc, e.ty), comma |-> FALSE]
       ELSE IF IsP(At(e.rest, 1), ",") THEN TypeList(Rest(e.rest, 2), Append(acc, e.ty))
       ELSE [ok |-> FALSE, tys |-> acc, comma |-> FALSE]
\* ts is after `<`; acc the arguments so far: types, `'static`, or numbers
GenericArgs(ts, acc) ==
  IF IsP(At(ts, 1), ">") THEN [ok |-> TRUE, tys |-> acc, rest |-> Rest(ts, 2)]
  ELSE LET t == At(ts, 1)
           num(x) == x.k = "lit" /\ x.f = "int"
           e == IF LifetimeAt(ts) THEN TyRet(TyOf("'" \o At(ts, 2).s, <<>>), Rest(ts, 3))
                ELSE IF num(t) THEN TyRet(TyOf("#" \o t.s, <<>>), Rest(ts, 2))
                ELSE IF IsG(t, "{") /\ Len(t.ts) = 1 /\ num(t.ts[1]) THEN TyRet(TyOf("#" \o t.ts[1].s, <<>>), Rest(ts, 2))
                ELSE TypeFrom(ts) IN
       IF ~e.ok THEN [ok |-> FALSE, tys |-> acc, rest |-> ts]
       ELSE IF IsP(At(e.rest, 1), ",") THEN GenericArgs(Rest(e.rest, 2), Append(acc, e.ty))
       ELSE IF IsP(At(e.rest, 1), ">") THEN [ok |-> TRUE, tys |-> Append(acc, e.ty), rest |-> Rest(e.rest, 2)]
       ELSE [ok |-> FALSE, tys |-> acc, rest |-> ts]

\* Parses `seg::seg<..>::..`; [ok, segs, rest, unk]; on failure `rest` is where
\* the next segment was expected.
PathFrom(ts, acc, lead) ==
  LET t == At(ts, 1)
      generic == IsP(At(ts, 2), "<") /\ ~IsP2(ts, 2, "<", "=")
      turbo == IsPathSep(ts, 2) /\ IsP(At(ts, 4), "<")
      g == GenericArgs(IF turbo THEN Rest(ts, 5) ELSE Rest(ts, 3), <<>>)
      seg == [id |-> t.s, gen |-> IF generic \/ turbo THEN g.tys ELSE <<>>,
              hasgen |-> generic \/ turbo]
      after == IF generic \/ turbo THEN g.rest ELSE Rest(ts, 2)
      more == IsPathSep(after, 1) /\ ~IsG(At(after, 3), "(")
  IN IF ~SegIdent(t) THEN [ok |-> FALSE, segs |-> acc, rest |-> ts, unk |-> FALSE]
     ELSE IF (generic \/ turbo) /\ ~g.ok
     THEN [ok |-> FALSE, segs |-> acc, rest |-> ts, unk |-> TRUE]
     ELSE IF more THEN PathFrom(Rest(after, 3), Append(acc, seg), lead)
     ELSE [ok |-> TRUE, segs |-> Append(acc, seg), rest |-> after, unk |-> FALSE]

(***************************************************************************)
(* Numbering: gives every token its position, and every integer literal    *)
(* "?" a value of its own (used to tell evaluated expressions apart).       *)
(***************************************************************************)
RECURSIVE NumberSeq(_, _, _)
NumberSeq(ts, n, v) ==   \* [ts, n, v]: n next position, v next value
  IF ts = <<>> THEN [ts |-> <<>>, n |-> n, v |-> v]
  ELSE LET t == Head(ts)
           fill == t.k = "lit" /\ t.s = "?"
           in == NumberSeq(t.ts, n + 1, v)
           t1 == [t EXCEPT !.n = n, !.ts = in.ts, !.s = IF fill THEN ToString(v) ELSE t.s]
           rst == NumberSeq(Tail(ts), in.n, IF fill THEN v + 1 ELSE in.v)
       IN [ts |-> <<t1>> \o rst.ts, n |-> rst.n, v |-> rst.v]
Number(ts) == NumberSeq(ts, 1, 1).ts

RECURSIVE CountToks(_)
CountToks(ts) == IF ts = <<>> THEN 0
                 ELSE 1 + CountToks(Head(ts).ts) + CountToks(Tail(ts))
RECURSIVE TokIds(_)
TokIds(ts) == IF ts = <<>> THEN {}
              ELSE {Head(ts).n} \cup TokIds(Head(ts).ts) \cup TokIds(Tail(ts))
=============================================================================
