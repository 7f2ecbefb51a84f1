---------------------------- MODULE MViewGrammar ----------------------------
(***************************************************************************)
(* A grammar of well-formed calls (and, for some profiles, of faults),       *)
(* written as productions of symbol sequences. Symbols are tokens, group     *)
(* markers ("open"/"close"), nonterminals ("nt") and alternatives ("alt":    *)
(* two spellings of the same thing).                                        *)
(***************************************************************************)
EXTENDS MViewRun
CONSTANT Prof      \* the profile: which property the inputs are for

Opn(d) == Tok("open", d, "", <<>>)
Cls(d) == Tok("close", d, "", <<>>)
GB(xs) == <<Opn("{")>> \o xs \o <<Cls("{")>>
GS(xs) == <<Opn("[")>> \o xs \o <<Cls("[")>>
GP(xs) == <<Opn("(")>> \o xs \o <<Cls("(")>>
\* context of a derivation: vs closure arguments in scope, k: which of KNames may be used
KNames == <<"k1", "k2", "k_3">>
NT(s, d, c) == [k |-> "nt", s |-> s, d |-> d, c |-> c]
Alt(x, y) == [k |-> "alt", x |-> x, y |-> y]
Ctx0 == [vs |-> <<>>, k |-> Range(KNames), x |-> {}, t |-> "", once |-> TRUE]
Bad(t) == [t EXCEPT !.b = "!"]

\* kebab-case names as tokens
RECURSIVE KT(_)
RECURSIVE UpToDash(_)
UpToDash(s) == IF s = "" \/ Ch(s, 1) = "-" THEN "" ELSE Ch(s, 1) \o UpToDash(SubSeq(s, 2, Len(s)))
Digits == {"0","1","2","3","4","5","6","7","8","9"}
KT(s) == IF s = "" THEN <<>>
         ELSE IF Ch(s, 1) = "-" THEN <<P("-")>> \o KT(SubSeq(s, 2, Len(s)))
         ELSE LET w == UpToDash(s) IN
              <<IF Ch(w, 1) \in Digits THEN Int(w) ELSE Id(w)>> \o KT(SubSeq(s, Len(w) + 1, Len(s)))

Call(f) == <<Id(f)>> \o GP(<<Int("?")>>)
Ev == Call("ev")
KUse(n) == <<Id(n), P("."), Id("u")>> \o GP(<<Int("?")>>)
K1U == KUse("k1")
Avail(c) == SelectSeq(KNames, LAMBDA n : n \in c.k)
Fmt(n) == IF n = 1 THEN <<Str("f{}"), P(",")>> \o Ev
          ELSE <<Str("{}-{}"), P(",")>> \o Ev \o <<P(",")>> \o Call("et")
FV(n) == <<Id("f")>> \o GS(Fmt(n))
\* format arguments of all forms
Lg == <<Id("lg")>>
Com == <<P(",")>>
Forms ==
  << <<Str("plain")>>, <<Str("{a}")>>, <<Str("{a}-{0}"), P(",")>> \o Ev, <<Str("{x}{x}"), P(","), Id("x"), P("=")>> \o Ev,
     <<Str("{{{}}}"), P(",")>> \o Ev, <<Str("{lg}")>>, <<Str("{lg} {}"), P(",")>> \o Ev, <<Str("{}"), P(",")>> \o Lg,
     <<Str("{} {}"), P(",")>> \o Ev \o Com \o Ev \o Com, <<Str("")>>, <<Str("{1}{0}"), P(",")>> \o Ev \o Com \o Call("ef"),
     <<Str("{{}}")>>, <<Str("{some_attr}:{n}"), P(","), Id("n"), P("=")>> \o Lg, <<Str("{}"), P(",")>> \o <<Id("title"), P(","), P(",")>> >>
GoodForms == SubSeq(Forms, 1, Len(Forms) - 1)
FmtVal(x) == <<Id("f")>> \o GS(x)
FmtMac(x) == <<Id("format"), P("!")>> \o GP(x)
\* expressions that are strings
Exprs ==
  << Ev, <<Id("let"), Id("y"), P("=")>> \o Ev \o <<P(";"), Id("y")>>, Ev \o <<P(";")>> \o Ev, GB(Ev), GP(Ev),
     <<Id("if")>> \o Call("et") \o GB(Ev) \o <<Id("else")>> \o GB(Ev), <<Id("if")>> \o Call("ef") \o GB(Ev) \o <<Id("else")>> \o GB(<<Id("let"), Id("z"), P("=")>> \o Ev \o <<P(";"), Id("z")>>),
     <<Id("a"), P("."), Id("clone")>> \o GP(<<>>), Ev \o <<P("."), Id("to_string")>> \o GP(<<>>), <<Id("title")>>, <<Str("lit")>>,
     <<Id("let"), Id("q"), P("=")>> \o Ev \o <<P(";")>> \o <<Id("format"), P("!")>> \o GP(<<Str("{q}{q}")>>) >>
\* names of every sort that a hyphenated name may be
OddKeb == << "a-B-c", "col-01", "a-1_000", "x-0x1f", "b-1u8", "ariax-y", "ariadne-x", "data-Foo", "a--b", "type-x",
             "class-x", "style-x", "x-class", "on-click", "ref-x", "%1ber-x", "na%3-x", "x-%4", "a_-b", "self-x", "async-1-b", "slot-x", "clone-x", "prop-id", "attr-x", "f-x", "true-x" >>
OddPlain == << "isOpen", "MyClass", "A", "datax", "%1ber", "%4", "x_Y", "B2b", "f", "slot", "clone", "true", "async", "_x", "__", "on", "move" >>
OddNames == OddPlain \o OddKeb
MoveC(xs) == <<Id("move"), J("|"), P("|")>> \o xs
FormatM(n) == <<Id("format"), P("!")>> \o GP(Fmt(n))

Many(x, n) == [i \in 1..n |-> x]
Rep(n, p) == [i \in 1..n |-> p]        \* a production n times as likely
\* bodies
Body(xs) == <<Alt(GB(xs), GP(xs))>>    \* xs must be terminal
Vars(c) == MapSeq(LAMBDA v : GB(<<Id(v)>>), c.vs)

---------------------------------------------------------------------------
(* Values by the type they have *)
\* an eager or lazy string
StrValProds ==
  << <<Str("s1")>>, <<Str("s 2")>>, GB(Ev), GB(Ev), <<Alt(GS(Ev), GB(MoveC(Ev)))>>,
     <<Alt(FV(1), GB(MoveC(FormatM(1))))>>, <<Alt(FV(2), GS(FormatM(2)))>>, GB(<<Str("s3")>>),
     <<NT("fmtval", 0, Ctx0)>>, <<NT("exprval", 0, Ctx0)>> >>
BoolValProds ==
  << <<Id("true")>>, <<Id("false")>>, GB(Call("et")), GB(Call("ef")),
     <<Alt(GS(Call("et")), GB(MoveC(Call("et"))))>>, GS(Call("ef")), GB(<<Id("red")>>) >>
AttrValProds ==
  StrValProds \o << <<Int("5")>>, <<Flt("1.5")>>, <<P("-"), Int("7")>>, <<Id("true")>>, <<Id("false")>>,
     GB(Call("et")), GS(Call("ef")), GB(<<Int("6")>>), <<Int("1u8")>>, <<Int("0x1F")>>, <<Flt("1e3")>>, <<Flt("1.50")>> >>
PropValProds ==
  << <<Str("s1")>>, <<Int("5")>>, <<Id("true")>>, <<Id("false")>>, <<Chr("c")>>, <<Flt("2.5")>>,
     <<P("-"), Int("3")>>, GB(Ev), GB(Ev), GB(<<Id("b")>>), <<NT("blkval", 0, Ctx0)>>, <<Int("1_000")>> >>
LazyValProds == << <<Alt(GS(Ev), GB(MoveC(Ev)))>>, <<Alt(FV(1), GB(MoveC(FormatM(1))))>>,
                   <<Alt(FV(2), GS(FormatM(2)))>>, GS(Call("et")), <<NT("fmtval", 0, Ctx0)>>, <<NT("lzexpr", 0, Ctx0)>> >>

TextProds == << <<Str("t1")>>, <<Str("a & b")>>, <<Str("<i>")>>, <<Str("  sp ")>>, <<Str("'q'")>>, <<Str("\"d\\n\"")>>, <<Str("{x}")>>, <<Str("%1 %4")>> >>
ChildValProds(c) ==
  << GB(Ev), GB(Ev), <<Alt(GS(Ev), GB(MoveC(Ev)))>>, <<Alt(FV(1), GB(MoveC(FormatM(1))))>>,
     <<Alt(FV(2), GS(FormatM(2)))>>, GB(<<Int("7")>>), GB(<<Str("t2")>>), GB(Call("et")),
     GB(<<Id("b")>>), GB(GP(<<>>)), <<NT("fmtval", 0, Ctx0)>>, <<NT("exprval", 0, Ctx0)>> >>
  \o FlatSeq(MapSeq(LAMBDA v : << GB(<<Id(v)>>), GS(<<Id(v)>>), GB(<<Id(v)>>) >>, c.vs))
  \o FlatSeq(MapSeq(LAMBDA n : Rep(IF Cardinality(c.k) = 1 THEN 4 ELSE 2, GB(KUse(n))), Avail(c)))

---------------------------------------------------------------------------
(* Attributes *)
ClassNames == <<"c1", "red-2", "a-b-c", "x_y", "-neg", "blue-100", "--v", "p-1-2">> \o OddNames
IdNames == <<"i1", "the-id", "n-3", "i_d">> \o OddNames
\* [tag, checked attribute keys taking any value]
KvKeys(kind, tag) ==
  CASE kind = "Html" ->
         OddKeb \o <<"id", "title", "data-x", "data-x-1", "lang", "role", "hidden", "aria-label", "x-y-z", "tabindex">>
         \o (CASE tag = "input" -> <<"type", "value", "checked", "disabled", "name", "placeholder">>
               [] tag = "a" -> <<"href", "target">>
               [] tag = "label" -> <<"for">>
               [] tag = "button" -> <<"type", "disabled">>
               [] OTHER -> <<>>)
    [] kind = "Math" -> OddKeb \o <<"id", "mathcolor", "data-x", "displaystyle">>
    [] kind = "Svg" -> OddNames \o <<"viewBox", "stroke-width", "fill", "id", "data-x", "r", "font_size", "type">>
    [] OTHER -> OddNames \o <<"id", "any", "some-attr", "some_attr", "a-b-2", "type", "data-x", "aria-label">>
\* (variables of these names are in scope)
ShortOdd == << "a--b", "data-Foo", "type-x", "col-01", "na%3-x", "ariax-y", "x-class" >>
ShortKeys(kind) ==
  CASE kind = "Html" -> <<"id", "title", "lang", "data-x", "data-x-1", "aria-label", "hidden", "role">> \o ShortOdd
    [] kind = "Math" -> <<"id", "data-x">> \o ShortOdd
    [] OTHER -> ShortOdd \o <<"isOpen", "id", "some_attr", "a-b-2", "data-x", "value", "color", "a-">>
KebKey(k) == KT(k)
Short(k) == <<Alt(GB(KT(k)), KT(k) \o <<P("=")>> \o GB(<<Id(Snake(k))>>))>>
Eq == <<P("=")>>
Kv(k, v) == KT(k) \o Eq \o v
Flag(k) == <<Alt(KT(k), KT(k) \o Eq \o <<Id("true")>>)>>

Dr(d, key) == <<Id(d), P(":")>> \o key
Pick(names) == <<NT("name", 0, [Ctx0 EXCEPT !.vs = names])>>      \* one of the names
DirClassKeys == << KT("c2"), KT("is-on"), KT("w-1-2"), <<Str("str[cls]")>>, <<Id("type")>>, KT("-m"), Pick(OddNames), Pick(OddNames) >>
ClassDirs(comp) ==
  MapSeq(LAMBDA k : Dr("class", k) \o Eq \o <<NT("boolval", 0, Ctx0)>>, DirClassKeys)
  \o << <<Id("class"), P(":"), Alt(GB(<<Id("red")>>), <<Id("red"), P("="), Opn("{"), Id("red"), Cls("{")>>)>>,
        <<Id("class"), P(":"), Alt(GB(KT("is-red")), KT("is-red") \o <<P("="), Opn("{"), Id("is_red"), Cls("{")>>)>> >>
  \o (IF comp THEN << <<Id("class"), P(":"), Alt(<<Id("c3")>>, <<Id("c3"), P("="), Id("true")>>)>> >> ELSE <<>>)
StyleDirs ==
  MapSeq(LAMBDA k : Dr("style", k) \o Eq \o <<NT("strval", 0, Ctx0)>>,
         << KT("color"), KT("font-size"), KT("--my-var"), <<Str("--q")>>, KT("z-1"), Pick(OddNames) >>)
  \o << <<Id("style"), P(":"), Alt(GB(<<Id("color")>>), <<Id("color"), P("="), Opn("{"), Id("color"), Cls("{")>>)>>,
        Dr("style", GB(KT("font-size"))) >>
PropDirs ==
  MapSeq(LAMBDA k : Dr("prop", k) \o Eq \o <<NT("propdval", 0, Ctx0)>>,
         << KT("value"), KT("innerHTML"), KT("my-prop"), <<Str("p q")>>, Pick(OddNames) >>)
  \o << <<Id("prop"), P(":"), Alt(GB(<<Id("value")>>), <<Id("value"), P("="), Opn("{"), Id("value"), Cls("{")>>)>> >>
OnDirs ==
  << Dr("on", <<Id("click")>>) \o Eq \o GB(Call("eh")), Dr("on", <<Id("input")>>) \o Eq \o GB(Call("eh")),
     Dr("on", <<Id("click"), P(":"), Id("undelegated")>>) \o Eq \o GB(Call("eh")),
     Dr("on", <<Id("keydown"), P(":"), Id("undelegated")>>) \o Eq \o GB(Call("eh")),
     Dr("on", <<Id("DOMContentLoaded")>>) \o Eq \o GB(Call("eh")),
     <<Id("on"), P(":"), Alt(GB(<<Id("click")>>), <<Id("click"), P("="), Opn("{"), Id("click"), Cls("{")>>)>>,
     Dr("on", GB(<<Id("input")>>) \o <<P(":"), Id("undelegated")>>) >>
UseDirs ==
  << Dr("use", <<Id("d0")>>), Dr("use", <<Id("d1")>>), Dr("use", <<Id("d1")>>) \o Eq \o GB(Ev),
     Dr("use", <<Id("d1")>>) \o Eq \o <<Str("u")>>, Dr("use", <<Id("d1")>>) \o Eq \o <<Int("4")>>,
     Dr("use", KT("dd-2")) \o Eq \o GB(Ev), Dr("use", <<Id("dd_2")>>), Dr("use", <<Id("d1")>>) \o Eq \o GB(Call("et")) >>
AttrDirs ==
  MapSeq(LAMBDA k : Dr("attr", k) \o Eq \o <<NT("attrval", 0, Ctx0)>>,
         << KT("title"), KT("data-x"), KT("id"), KT("aria-label"), <<Str("data-q")>>, <<Id("type")>>, KT("lang"), Pick(OddKeb) >>)
  \o << Dr("attr", <<Id("style")>>) \o Eq \o <<NT("strval", 0, Ctx0)>>, Dr("attr", <<Id("class")>>) \o Eq \o <<NT("strval", 0, Ctx0)>>,
        Dr("attr", <<Id("style")>>) \o Eq \o <<Str("top:1px")>>,
        <<Id("attr"), P(":"), Alt(<<Id("hidden")>>, <<Id("hidden"), P("="), Id("true")>>)>>,
        <<Id("attr"), P(":"), Alt(GB(<<Id("title")>>), <<Id("title"), P("="), Opn("{"), Id("title"), Cls("{")>>)>>,
        <<Id("attr"), P(":"), Alt(GB(KT("data-x")), KT("data-x") \o <<P("="), Opn("{"), Id("data_x"), Cls("{")>>)>>,
        Dr("attr", GB(KT("aria-label"))) >>
Spreads == << GB(<<J("."), P(".")>> \o Call("ea")) >>

---------------------------------------------------------------------------
(* Elements *)
HtmlTags == <<"div", "span", "p", "section", "ul", "li", "a", "button", "label", "h1", "em", "strong", "td">>
SvgTags == <<"svg", "g", "circle", "linearGradient", "path", "text", "feTile", "use">>
MathTags == <<"math", "mi", "mrow", "mfrac", "semantics">>
WebTags == <<"x-el", "my-long-el", "app-item-2">>
WebAny == << "x-el", "a-B-c", "col-01", "x-0x1f", "ariax-y", "a--b", "type-x", "na%3-x", "x-%4", "div-x", "slot-x" >>
VoidTags == <<"input", "br", "hr">>

ElemProds(d, c) ==
  LET E(kind, tag, end) ==
        KT(tag) \o <<NT("sels", 2, c), NT("attrs", 3, [c EXCEPT !.t = tag, !.x = {kind}])>> \o end
      open == <<NT("end", d, c)>>
      stop == << <<Alt(<<P(";")>>, GB(<<>>))>> >>
  IN MapSeq(LAMBDA t : E("Html", t, open), HtmlTags)
     \o MapSeq(LAMBDA t : E("Svg", t, open), SubSeq(SvgTags, 1, 4))
     \o MapSeq(LAMBDA t : E("Math", t, open), SubSeq(MathTags, 1, 2))
     \o MapSeq(LAMBDA t : E("Web", t, open), WebTags)
     \o << Pick(WebAny) \o <<NT("sels", 2, c), NT("attrs", 3, [c EXCEPT !.t = "x-el", !.x = {"Web"}])>> \o open >>
     \o MapSeq(LAMBDA t : E("Html", t, stop[1]), VoidTags)

AttrProds(kind, tag) ==
  MapSeq(LAMBDA k : Kv(k, <<NT("attrval", 0, Ctx0)>>), KvKeys(kind, tag))
  \o MapSeq(LAMBDA k : Short(k), ShortKeys(kind))
  \o << Flag("data-f"), IF kind = "Html" THEN Flag("hidden") ELSE Flag("id") >>
  \o << Kv("class", <<NT("strval", 0, Ctx0)>>), Kv("class", <<Str("k1 k2")>>), Kv("style", <<Str("top:1px;left:2px")>>),
        Kv("style", <<NT("strval", 0, Ctx0)>>), Short("class"), Kv("class", <<NT("strval", 0, Ctx0)>>) >>
  \o ClassDirs(FALSE) \o StyleDirs \o PropDirs \o OnDirs \o UseDirs
  \o Many(Spreads[1], 4) \o Many(Kv("ref", GB(Call("er"))), 3)

(* Components: [t tokens, ps properties, lz, ch] *)
PathT(ss) == FlatSeq([i \in 1..Len(ss) |-> IF i = 1 THEN <<Id(ss[1])>> ELSE PP \o <<Id(ss[i])>>])
Gen(xs) == <<P("<")>> \o xs \o <<P(">")>>
Turbo(xs) == PP \o Gen(xs)
GenericTys == << <<Id("G1")>>, <<Id("m")>> \o PP \o <<Id("G2")>>, <<Id("Gw"), P("<"), Id("G1"), P(">")>>,
                 <<Id("Gw"), P("<"), Id("G1"), P(",")>> \o PathT(<<"m", "G2">>) \o <<P(">")>> >>
CompHead(t, ps, lz, ch) == [t |-> t, ps |-> ps, lz |-> lz, ch |-> ch]
CompHeads ==
  << CompHead(<<Id("Cc")>>, Range(CcProps), {"fa", "f_b"}, "plain"),
     CompHead(<<Id("Cc")>>, Range(CcProps), {"fa", "f_b"}, "plain"),
     CompHead(<<Id("Cf")>>, {"a"}, {"fa"}, "fn"),
     CompHead(<<Id("Cn")>>, {"a"}, {}, "plain"),
     CompHead(<<Id("Ca")>>, {"a"}, {}, "arg1"),
     CompHead(<<Id("Ca")>>, {"a"}, {}, "arg1"),
     CompHead(<<Id("Ct")>>, {"a"}, {}, "tuple"),
     CompHead(<<Id("C2")>>, {"a"}, {}, "arg2"),
     CompHead(<<Id("Cz")>>, {"a"}, {}, "none"),
     CompHead(<<Id("Cs")>>, {"a"}, {}, "slots"),
     CompHead(<<Id("Cs")>>, {"a"}, {}, "slots"),
     CompHead(PathT(<<"m", "Cm">>), {"a"}, {}, "plain"),
     CompHead(<<Id("Co")>>, Range(CoProps), {}, "plain"),
     CompHead(<<Id("Cq")>>, {"a"}, {}, "oddslots"),
     CompHead(<<Id("Nsg"), Alt(Gen(GenericTys[3]), Turbo(GenericTys[3]))>> \o PP \o <<Id("Mk")>>, {"a"}, {}, "none"),
     CompHead(PP \o PathT(<<"kit", "m", "Cm">>), {"a"}, {}, "plain"),
     CompHead(<<Id("Cg"), Alt(Gen(GenericTys[1]), Turbo(GenericTys[1]))>>, {"a"}, {}, "plain"),
     CompHead(<<Id("Cg"), Alt(Gen(GenericTys[4]), Turbo(GenericTys[4]))>>, {"a"}, {}, "plain"),
     CompHead(PathT(<<"m", "nn", "Cm">>) \o <<Alt(Gen(GenericTys[3]), Turbo(GenericTys[3]))>>, {"a"}, {}, "plain") >>

\* property keys as users write them: with hyphens or underscores
PropKeyT(p) == CASE p = "some_attr" -> <<Alt(KT("some-attr"), KT("some_attr"))>>
                 [] p = "a_b_2" -> <<Alt(KT("a-b-2"), KT("a_b_2"))>>
                 [] p = "f_b" -> <<Alt(KT("f-b"), KT("f_b"))>>
                 [] p = "a__b" -> <<Alt(KT("a--b"), KT("a__b"))>>
                 [] p = "x_01" -> <<Alt(KT("x-01"), KT("x_01"))>>
                 [] OTHER -> <<Id(p)>>
ShortProp(p) == CASE p = "some_attr" -> <<Alt(GB(KT("some-attr")), GB(KT("some_attr")))>>
                  [] p = "a_b_2" -> <<Alt(GB(KT("a-b-2")), KT("a-b-2") \o Eq \o GB(<<Id("a_b_2")>>))>>
                  [] p = "type" -> <<Alt(GB(<<Id(p)>>), <<Id(p), P("=")>> \o GB(<<Raw(p)>>))>>
                  [] OTHER -> <<Alt(GB(<<Id(p)>>), <<Id(p), P("=")>> \o GB(<<Id(p)>>))>>
CompAttrProds(c, d) ==
  \* c.x: properties not given yet (lazy ones marked by a leading "~")
  FlatSeq(MapSeq(LAMBDA p :
     IF p \notin c.x THEN <<>>
     ELSE LET more == <<NT("cattrs", d - 1, [c EXCEPT !.x = @ \ {p}])>> IN
          IF p \in Range(CoProps) THEN Rep(2, PropKeyT(p) \o Eq \o <<NT("propval", 0, Ctx0)>> \o more) ELSE
          << PropKeyT(p) \o Eq \o <<NT("propval", 0, Ctx0)>> \o more,
             PropKeyT(p) \o Eq \o <<NT("propval", 0, Ctx0)>> \o more,
             ShortProp(p) \o more,
             <<Alt(KT(p), KT(p) \o Eq \o <<Id("true")>>)>> \o more >>, CcProps \o CoProps))
  \o FlatSeq(MapSeq(LAMBDA p :
     IF p \notin c.x THEN <<>>
     ELSE Rep(3, PropKeyT(p) \o Eq \o <<NT("lazyval", 0, Ctx0)>> \o <<NT("cattrs", d - 1, [c EXCEPT !.x = @ \ {p}])>>),
     <<"fa", "f_b">>))
CompDirProds == ClassDirs(TRUE) \o StyleDirs \o PropDirs \o OnDirs \o UseDirs \o AttrDirs \o Many(Spreads[1], 3)

\* names cloned for the children, in several orders
CloneLists(c) ==
  LET a == Avail(c) IN
  IF a = <<>> THEN <<>>
  ELSE IF Len(a) = 1 THEN << a >>
  ELSE << <<a[1]>>, <<LastOf(a)>>, <<LastOf(a), a[1]>>, <<a[1], a[2]>> >>
Few2(s) == IF Len(s) > 2 THEN <<s[1], s[3]>> ELSE s
CloneOf(n) == Dr("clone", IF n = "k_3" THEN <<Alt(KT("k-3"), KT("k_3"))>> ELSE <<Id(n)>>)
ClonesOf(l) == FlatSeq(MapSeq(CloneOf, l))
CompProds(d, c) ==
  LET C(h) ==
        LET free == [c EXCEPT !.x = h.ps \cup h.lz]
            none == <<P(";")>>
            shut == <<Alt(none, GB(<<>>))>>
            attrs == <<NT("cattrs", 3, free)>>
            Kids(vs, k, once) == NT("bodykids", d - 1, [c EXCEPT !.vs = vs, !.k = k, !.once = once])
            clones == CloneLists(c)
            Wrap(h2, args, vs, once) ==
              << h2 \o attrs \o args \o <<Kids(vs, {}, once)>> >>
              \o MapSeq(LAMBDA l : h2 \o attrs \o ClonesOf(l) \o <<NT("cattrs", 1, [free EXCEPT !.x = {}])>> \o args
                                   \o <<Kids(vs, Range(l), once)>>, IF h.ch \in {"plain", "fn"} THEN clones ELSE Few2(clones))
            t == h.t \o <<NT("sels", 2, c)>>
            v == IF Len(c.vs) > 1 THEN "y2" ELSE "x2"
        IN CASE h.ch \in {"plain", "fn"} ->
                  << t \o attrs \o shut >> \o Wrap(t, <<>>, c.vs, c.once /\ h.ch = "plain")
             [] h.ch = "none" -> << t \o attrs \o shut >>
             [] h.ch = "arg1" ->
                  Wrap(t, <<P("|"), Id("x"), P("|")>>, <<"x">>, FALSE)
                  \o Wrap(t, <<P("|"), Id("_"), P("|")>>, c.vs, FALSE)
             [] h.ch = "tuple" -> Wrap(t, <<P("|")>> \o GP(<<Id("x"), P(","), Id("y")>>) \o <<P("|")>>, <<"x", "y">>, FALSE)
             [] h.ch = "arg2" -> Wrap(t, <<P("|"), Id("y"), P(","), Id("x"), P("|")>>, <<"x", "y">>, FALSE)
             [] h.ch = "oddslots" ->
                  << t \o attrs \o GB(<<NT("kids", 0, [c EXCEPT !.k = {}]), NT("oddslot", d - 1, c), NT("oddslot", d - 1, c), NT("kids", 0, [c EXCEPT !.k = {}])>>) >>
             [] OTHER -> << t \o attrs \o <<NT("slotbody", d - 1, c)>>, t \o attrs \o <<NT("slotbody", d - 1, c)>>,
                            t \o attrs \o none >>
  IN FlatSeq(MapSeq(C, CompHeads))

OddSlots == << "ABItem", "Slot2D", "Foo_Bar", "T%1r", "X" >>
SlotProds(d, c) ==
  LET S(n) == <<Id("slot"), P(":"), Id(n)>>
      A(n) == NT("cattrs", 2, [c EXCEPT !.x = IF n = "SlotA" THEN {"a", "some_attr", "fa"} ELSE {"a"}, !.t = "slot"])
      plain(vs) == NT("bodykids", d - 1, [c EXCEPT !.vs = vs, !.k = {}, !.once = FALSE])
      keyed(vs, l) == NT("bodykids", d - 1, [c EXCEPT !.vs = vs, !.k = Range(l), !.once = FALSE])
  IN << S("SlotA") \o <<A("SlotA"), P(";")>>, S("SlotA") \o <<A("SlotA"), plain(c.vs)>>,
        S("SlotA") \o <<A("SlotA"), plain(c.vs)>>,
        S("SlotB") \o <<A("SlotB"), plain(c.vs)>>, S("SlotB") \o <<A("SlotB"), plain(c.vs)>>,
        S("SlotFn1") \o <<A("SlotFn1"), P("|"), Id("x"), P("|"), plain(<<"x">>)>> >>
     \o (IF d > 0 THEN << S("SlotB") \o <<A("SlotB")>> \o GB(<<NT("kids", d - 1, [c EXCEPT !.once = FALSE, !.k = {}])>>
              \o S("SlotA") \o <<A("SlotA"), plain(c.vs)>> \o <<NT("kids", 0, [c EXCEPT !.once = FALSE, !.k = {}])>>) >> ELSE <<>>)
     \o MapSeq(LAMBDA l : S("SlotA") \o ClonesOf(l) \o <<A("SlotA"), keyed(c.vs, l)>>, Few2(CloneLists(c)))

---------------------------------------------------------------------------
(* The productions of each nonterminal *)
Weight(nt) ==   \* how often an option is taken, by profile
  CASE nt = "elem" -> IF Prof \in {"C04", "C06", "C08", "C09"} THEN 2 ELSE 6
    [] nt = "comp" -> IF Prof \in {"C04", "C06", "C08", "C09", "C10", "C14"} THEN 7 ELSE 3
    [] nt = "attr" -> IF Prof \in {"C03", "C04", "C05", "C06", "C10", "C18"} THEN 6 ELSE 2
    [] nt = "sel" -> IF Prof = "C07" THEN 5 ELSE 1
    [] nt = "dir" -> IF Prof \in {"C05", "C06"} THEN 6 ELSE 2
    [] nt = "slot" -> IF Prof = "C08" THEN 5 ELSE 3
    [] OTHER -> 1

Prods(n) ==
  LET c == n.c  d == n.d  nk == [n.c EXCEPT !.k = {}] IN
  CASE n.s = "root" -> << <<NT("kid", d, c)>>, <<NT("kid", d, c)>>, <<NT("kid", d, c), NT("kid", d, c)>>,
                          <<NT("kid", d, c), NT("kid", d, c), NT("kid", d, c)>> >>
    [] n.s = "kid" ->
         << <<NT("text", 0, c)>>, <<NT("val", 0, c)>> >>
         \o (IF d > 0 THEN Rep(Weight("elem"), <<NT("elem", d, c)>>)
                           \o Rep(Weight("comp"), <<NT("comp", d, c)>>) ELSE <<>>)
    [] n.s = "text" -> TextProds
    [] n.s = "val" -> ChildValProds(c)
    [] n.s = "kids" -> << <<>>, <<NT("kid", d, c)>>, <<NT("kid", d, c), NT("kid", d, c)>>,
                          <<NT("kid", d, c), NT("kid", d, c), NT("kid", d, c)>> >>
    [] n.s = "bodykids" ->
         << GB(<<NT("kids", d, c)>>), GB(<<NT("kid", d, c), NT("kid", d, c)>>), GP(<<NT("kids", d, c)>>) >>
    [] n.s = "end" ->
         << <<Alt(<<P(";")>>, GB(<<>>))>>, GB(<<NT("kids", d - 1, c)>>), GB(<<NT("kids", d - 1, c)>>),
            GP(<<NT("kids", d - 1, c)>>) >>
    [] n.s = "slotbody" ->
         << GB(<<NT("slots", d, c)>>), GB(<<NT("kids", d, nk), NT("slots", d, c), NT("kid", d, nk)>>),
            GB(<<NT("slots", d, c), NT("kids", d, nk), NT("slots", d, c)>>) >>
    [] n.s = "slots" ->
         << <<NT("slotel", d, c)>>, <<NT("slotel", d, c), NT("slotel", d, c)>>,
            <<NT("slotel", d, c), NT("slotel", d, c), NT("slotel", d, c)>> >>
    [] n.s = "slotel" -> SlotProds(d, c)
    [] n.s = "oddslot" ->
         MapSeq(LAMBDA s : <<Id("slot"), P(":"), Id(s), NT("cattrs", 1, [c EXCEPT !.x = {"a"}, !.t = "slot"]),
                             NT("bodykids", 0, [c EXCEPT !.k = {}, !.once = FALSE])>>, OddSlots)
    [] n.s = "name" -> MapSeq(LAMBDA s : KT(s), c.vs)
    [] n.s = "fmtval" -> MapSeq(LAMBDA x : <<Alt(FmtVal(x), GB(MoveC(FmtMac(x))))>>, GoodForms)
    [] n.s = "blkval" -> MapSeq(LAMBDA x : GB(x), Exprs)
    [] n.s = "lzexpr" -> MapSeq(LAMBDA x : <<Alt(GS(x), GB(MoveC(IF FirstOf(x, ";") > 0 THEN GB(x) ELSE x)))>>, Exprs)
    [] n.s = "exprval" -> << <<NT("blkval", 0, c)>>, <<NT("lzexpr", 0, c)>> >>
    [] n.s = "elem" -> ElemProds(d, c)
    [] n.s = "comp" -> CompProds(d, c)
    [] n.s = "sels" ->
         << <<>>, <<>> >> \o
         (IF d = 0 THEN <<>>
          ELSE FlatSeq(Rep(Weight("sel"),
                  MapSeq(LAMBDA k : <<P(".")>> \o KT(k) \o <<NT("sels", d - 1, c)>>, SubSeq(ClassNames, 1, 3))
                  \o MapSeq(LAMBDA k : <<P("#")>> \o KT(k) \o <<NT("sels", d - 1, c)>>, SubSeq(IdNames, 1, 2))
                  \o << <<P(".")>> \o Pick(ClassNames) \o <<NT("sels", d - 1, c)>>, <<P("#")>> \o Pick(IdNames) \o <<NT("sels", d - 1, c)>> >>)))
    [] n.s = "attrs" -> << <<>>, <<>> >>
         \o (IF d = 0 THEN <<>>
             ELSE Rep(Weight("attr"), <<NT("attr", d, c), NT("attrs", d - 1, c)>>))
    [] n.s = "attr" -> AttrProds(CHOOSE x \in c.x : TRUE, c.t)
    [] n.s = "cattrs" -> << <<>>, <<>> >>
         \o (IF d <= 0 THEN <<>>
             ELSE Rep(1, <<NT("cprop", d, c)>>) \o Rep(Weight("attr"), <<NT("cprop", d, c)>>)
                  \o (IF c.t = "slot" THEN <<>>
                      ELSE Rep(Weight("dir"), <<NT("cdir", d, c), NT("cattrs", d - 1, c)>>)))
    [] n.s = "cprop" -> LET ps == CompAttrProds(c, d) IN IF ps = <<>> THEN << <<>> >> ELSE ps
    [] n.s = "cdir" -> CompDirProds
    [] n.s = "strval" -> StrValProds
    [] n.s = "boolval" -> BoolValProds
    [] n.s = "attrval" -> AttrValProds
    [] n.s = "propval" -> PropValProds
    [] n.s = "propdval" -> << <<Str("s1")>>, GB(Ev), <<Id("true")>>, GB(Call("ef")), <<Alt(GS(Ev), GB(MoveC(Ev)))>>, <<Int("9")>> >>
    [] n.s = "lazyval" -> LazyValProds
    [] OTHER -> Assert(FALSE, n.s)
=============================================================================
