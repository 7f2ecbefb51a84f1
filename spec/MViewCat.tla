------------------------------- MODULE MViewCat -------------------------------
(***************************************************************************)
(* Catalogues: small families of calls that are enumerated completely, per   *)
(* property. A case is [l: label, x: symbols]; symbols are tokens, group      *)
(* markers and alternatives ("alt"), no nonterminals. A token marked "!"      *)
(* (Bad) carries a planted fault: the errors of the call are exactly at the   *)
(* marked tokens ("!)": at the closing delimiter of the marked group).       *)
(***************************************************************************)
EXTENDS MViewGrammar, SequencesExt
CONSTANTS
  Big,                \* 1: the larger versions of the families
  CatPart, CatParts   \* the share of the catalogue to take: index % CatParts = CatPart

C(l, x) == [l |-> l, x |-> x]
Fl(ss) == FlattenSeq(ss)
Map(F(_), s) == [i \in 1..Len(s) |-> F(s[i])]
Cross(F(_, _), s, t) == Fl(Map(LAMBDA a : Map(LAMBDA b : F(a, b), t), s))
Cross3(F(_, _, _), s, t, u) == Fl(Map(LAMBDA a : Cross(LAMBDA b, c : F(a, b, c), t, u), s))
Few(s, n) == IF Big = 1 \/ Len(s) <= n THEN s ELSE SubSeq(s, 1, n)
\* sequences over s of length n, as sequences of elements
RECURSIVE SeqsOf(_, _)
SeqsOf(s, n) == IF n = 0 THEN << <<>> >> ELSE Cross(LAMBDA r, a : Append(r, a), SeqsOf(s, n - 1), s)
RECURSIVE SeqsUpTo(_, _)
SeqsUpTo(s, n) == IF n = 0 THEN << <<>> >> ELSE SeqsUpTo(s, n - 1) \o SeqsOf(s, n)
Semi == <<P(";")>>
Sl(n) == <<Id("slot"), P(":"), Id(n)>>
Comma == <<P(",")>>
Bars(xs) == <<P("|")>> \o xs \o <<P("|")>>
K(s) == KT(s)
I(s) == <<Id(s)>>
T(s) == <<Str(s)>>
Only(b, s) == IF b THEN s ELSE <<>>

---------------------------------------------------------------------------
(* Parents: [n: name, f: body -> symbols] as an operator over the name *)
Parent(p, b) ==
  CASE p = "root" -> b
    [] p = "div{" -> K("div") \o GB(b)
    [] p = "div(" -> K("div") \o GP(b)
    [] p = "g{" -> K("g") \o GB(b)
    [] p = "mrow{" -> K("mrow") \o GB(b)
    [] p = "x-el(" -> K("x-el") \o GP(b)
    [] p = "Cc{" -> I("Cc") \o GB(b)
    [] p = "Cc(" -> I("Cc") \o GP(b)
    [] p = "Cf{" -> I("Cf") \o GB(b)
    [] p = "Ca{" -> I("Ca") \o Bars(I("x")) \o GB(b)
    [] p = "Ca(" -> I("Ca") \o Bars(I("_")) \o GP(b)
    [] p = "C2(" -> I("C2") \o Bars(<<Id("x"), P(","), Id("y")>>) \o GP(b)
    [] p = "Ct{" -> I("Ct") \o Bars(GP(<<Id("x"), P(","), Id("y")>>)) \o GB(b)
    [] p = "Cn{" -> I("Cn") \o GB(b)
    [] p = "Cg{" -> I("Cg") \o Gen(I("G1")) \o GB(b)
    [] p = "slot{" -> I("Cs") \o GB(<<Id("slot"), P(":"), Id("SlotA")>> \o GB(b))
    [] p = "slot(" -> I("Cs") \o GP(<<Id("slot"), P(":"), Id("SlotB")>> \o GP(b))
    [] p = "slotfn{" -> I("Cs") \o GB(<<Id("slot"), P(":"), Id("SlotFn1")>> \o Bars(I("x")) \o GB(b))
    [] p = "sel{" -> K("p") \o <<P(".")>> \o K("c1") \o I("title") \o <<P("=")>> \o T("a") \o GB(b)
AllParents == <<"root", "div{", "div(", "g{", "mrow{", "x-el(", "Cc{", "Cc(", "Cf{", "Ca{", "Ca(", "C2(", "Ct{",
                "Cn{", "Cg{", "slot{", "slot(", "slotfn{", "sel{">>

---------------------------------------------------------------------------
(* C01 children *)
KidAtoms == << T("t1"), GB(Ev), GS(Ev), FV(1), K("span") \o Semi, K("b") \o GB(T("x")), I("Cz") \o Semi,
               GB(GP(<<>>)), GB(<<Int("7")>>), K("br") \o Semi, I("Cc") \o GP(T("y")), GB(MoveC(Ev)),
               K("circle") \o GB(<<>>), K("my-el") \o GP(<<>>) >>
CountKids(n) == Fl([i \in 1..n |-> KidAtoms[((i * 5) % 7) + 1]])
CatC01 ==
  Cross(LAMBDA p, s : C("kids " \o p, Parent(p, Fl(s))), Few(<<"div(", "Cc{", "root", "slot{">> \o AllParents, 3),
        SeqsUpTo(SubSeq(KidAtoms, 1, 7), 2))
  \o Cross(LAMBDA p, k : C("kid " \o p, Parent(p, k \o T("z") \o k)), AllParents, KidAtoms)
  \o Cross(LAMBDA p, q : C("nested " \o p \o q, Parent(p, T("a") \o Parent(q, Fl(<<GB(Ev), T("b"), FV(1)>>)) \o GB(Ev))),
           AllParents, SubSeq(AllParents, 2, Len(AllParents)))
  \o Cross(LAMBDA p, n : C("count " \o p, Parent(p, CountKids(n))), <<"div{", "Cc(", "root", "slot{", "x-el(">>,
           IF Big = 1 THEN [n \in 1..27 |-> n - 1] ELSE <<0, 1, 2, 3, 9, 16, 17, 25, 26>>)
  \o Map(LAMBDA x : C("text", K("div") \o GB(T("a") \o x \o T("b"))),
         Map(LAMBDA t : T(t), << "", " ", "a\\b", "x\ny", "{}", "{a}", "%1%4", "\"", "//", "r#", "a\tb",
                               "  ", "\n", "\n  \n", "\t", " a", "a ", "  a  ", "\na\n", " {} ", "a  b" >>)
         \o Map(FmtVal, GoodForms) \o Map(GB, Exprs) \o Map(GS, Exprs)
         \o << GB(<<Int("1u8")>>), GB(<<Int("0x1F")>>), GB(<<Flt("1e3")>>), GB(<<Chr("c")>>), GB(<<P("-"), Int("3")>>) >>)
  \o Only(Big = 1, Map(LAMBDA s : C("kids3", Parent("div{", Fl(s))), SeqsOf(SubSeq(KidAtoms, 1, 7), 3)))

---------------------------------------------------------------------------
(* C02 tags *)
RawText == {"script", "style", "textarea", "title", "html", "head", "body", "template", "noscript", "iframe", "option", "select"}
WebNames == <<"x-el", "my-long-el", "app-item-2", "a-b-c-d", "x-1", "h1-x", "svg-icon", "math-field", "font-face", "g-", "x--y", "div-x",
              "input-x", "color-profile", "annotation-xml", "missing-glyph">> \o SelectSeq(OddKeb, LAMBDA n : n # "true-x")
EndFor(n) == IF n \in VoidNames THEN Semi ELSE IF n \in RawText THEN GB(<<>>) ELSE GB(T("t"))
Static == <<J("'"), Id("static")>>
RichTys ==
  << GP(<<>>), GP(I("G1")), GP(I("G1") \o Comma), GP(I("G1") \o Comma \o PathT(<<"m", "G2">>)), GP(I("G1") \o Comma \o GP(I("G1")) \o Comma \o GP(<<>>) \o Comma),
     GS(I("G1") \o <<P(";"), Int("3")>>), GS(GS(GP(<<>>) \o <<P(";"), Int("2")>>) \o <<P(";"), Int("0")>>), <<P("&")>> \o Static \o I("G1"), <<P("&")>> \o Static \o GP(I("G1") \o Comma),
     I("fn") \o GP(<<>>), I("fn") \o GP(I("G1")) \o <<J("-"), P(">")>> \o I("G1"), I("fn") \o GP(I("G1") \o Comma \o PathT(<<"m", "G2">>)) \o <<J("-"), P(">")>> \o GP(<<>>),
     <<Id("Gl"), P("<")>> \o Static \o <<P(","), Id("G1"), P(">")>>, <<Id("Gk"), P("<"), Id("G1"), P(","), Int("3"), P(">")>>,
     <<Id("Gk"), P("<")>> \o GP(<<>>) \o Comma \o GB(<<Int("12")>>) \o <<P(">")>>, <<Id("Gw"), P("<"), Id("Gw"), P("<"), Id("G1"), J(">"), P(">")>>,
     <<Id("Gw"), P("<"), Id("Gl"), P("<")>> \o Static \o <<P(","), Id("Gw"), P("<"), Id("G1"), J(">"), J(">"), P(">")>>,
     I("fn") \o GP(I("fn") \o GP(<<>>)) \o <<J("-"), P(">")>> \o <<Id("Gw"), P("<"), Id("G1"), P(","), Id("G1"), P(">")>> >>
ChArgs == << <<Id("G1"), P(","), Id("G1"), P(","), Int("3")>>, PathT(<<"m", "G2">>) \o Comma \o GP(<<>>) \o Comma \o GB(<<Int("7")>>),
             <<Id("Gw"), P("<"), Id("G1"), P(">"), P(",")>> \o GS(I("G1") \o <<P(";"), Int("2")>>) \o <<P(","), Int("0"), P(",")>> >>
TyList == << I("G1"), I("m") \o PP \o I("G2"), <<Id("Gw"), P("<"), Id("G1"), P(">")>>,
             <<Id("Gw"), P("<"), Id("G1"), P(",")>> \o PathT(<<"m", "G2">>) \o <<P(">")>>,
             <<Id("Gw"), P("<"), Id("Gw"), P("<"), Id("G1"), P(">"), P(",")>> \o PathT(<<"m", "G2">>) \o <<P(">")>>,
             <<Id("Gw"), J(":"), P(":"), P("<")>> \o PathT(<<"kit", "m", "G2">>) \o <<P(">")>> >>
GenHeads == << I("Cg"), PathT(<<"m", "Cg">>), PathT(<<"kit", "Cg">>), PP \o PathT(<<"kit", "Cg">>),
               PathT(<<"m", "nn", "Cm">>), PP \o PathT(<<"kit", "m", "nn", "Cm">>) >>
PlainHeads == << I("Cc"), PathT(<<"m", "Cm">>), PathT(<<"kit", "m", "Cm">>), PP \o PathT(<<"kit", "m", "Cm">>),
                 PathT(<<"m", "Low">>), PathT(<<"kit", "Cc">>), PP \o PathT(<<"kit", "Cf">>), PathT(<<"m", "Cc">>) >>
NsgHeads == Fl(<< Map(LAMBDA t : I("Nsg") \o Gen(t) \o PP \o I("Mk"), TyList), Map(LAMBDA t : I("Nsg") \o Turbo(t) \o PP \o I("Mk"), TyList),
                 << PathT(<<"m", "Nsg">>) \o Gen(I("G1")) \o PP \o I("Mk"), PP \o PathT(<<"kit", "m", "Nsg">>) \o Gen(TyList[4]) \o PP \o I("Mk"),
                    PathT(<<"kit", "Nsg">>) \o Turbo(TyList[5]) \o PP \o I("Mk") >> >>)
Tails == << Semi, GB(<<>>), GP(T("k")), <<P(".")>> \o K("c1") \o Semi, <<P("#")>> \o K("i1") \o GB(T("k")),
            I("a") \o <<P("=")>> \o GB(Ev) \o Semi, GB(K("a")) \o Semi, Dr("class", K("w")) \o <<P("=")>> \o I("true") \o GB(T("q")) >>
CatC02 ==
  Fl(<<
    Map(LAMBDA n : C("html", K(n) \o EndFor(n)), SetToSeq(HtmlNames \cup VoidNames)),
    Map(LAMBDA n : C("svg", K(n) \o GB(<<>>)), SetToSeq(SvgNames)),
    Map(LAMBDA n : C("math", K(n) \o GB(<<>>)), SetToSeq(MathNames)),
    Map(LAMBDA n : C("web", K(n) \o GB(T("t"))), WebNames),
    Map(LAMBDA n : C("mixed", K("div") \o GP(K(n) \o Semi \o K("p") \o Semi)), Few(WebNames \o SetToSeq(SvgNames \cup MathNames), 40)),
    Cross3(LAMBDA h, t, e : C("generic", h \o e \o t), GenHeads, Few(Tails, 3),
           Fl(<<Map(Gen, TyList), Map(Turbo, TyList)>>)),
    Cross3(LAMBDA h, t, g : C("rich", h \o (IF g = 1 THEN Gen(t) ELSE Turbo(t)) \o GB(T("t"))), Few(<<GenHeads[1], GenHeads[4], GenHeads[6], GenHeads[5]>>, 2), RichTys, <<1, 2>>),
    Map(LAMBDA t : C("rich", I("Nsg") \o Gen(t) \o PP \o I("Mk") \o Semi), RichTys),
    Cross3(LAMBDA h, t, g : C("rich", h \o I("Ch") \o (IF g = 1 THEN Gen(t) ELSE Turbo(t)) \o Kv("a", GB(Ev)) \o GP(T("t"))), << <<>>, I("m") \o PP, PP \o I("kit") \o PP >>, ChArgs, <<1, 2>>),
    Cross(LAMBDA h, t : C("path", h \o t), PlainHeads, Tails),
    Cross(LAMBDA h, t : C("assoc", h \o t), NsgHeads, << Semi, Kv("a", GB(Ev)) \o Semi, <<P(".")>> \o K("c1") \o I("a") \o Semi, GB(<<>>) >>),
    Cross(LAMBDA p, h : C("associn", Parent(p, h \o Semi \o T("z"))), <<"root", "div{", "Cc(", "slot{", "Ca{">>, NsgHeads),
    Cross(LAMBDA h, p : C("in", Parent(p, h \o Semi \o T("z") \o h \o GP(T("k")))),
          PlainHeads \o Map(LAMBDA h : h \o Gen(TyList[4]), GenHeads), <<"root", "div{", "Cc(", "slot{", "Ca{">>) >>)

---------------------------------------------------------------------------
(* C03 attributes *)
ValForms == << T("s1"), <<Int("5")>>, <<Flt("1.5")>>, <<P("-"), Int("7")>>, I("true"), I("false"), GB(Ev), GS(Ev), FV(1), GB(Call("et")),
               GB(Call("ef")), GS(Call("et")), GS(Call("ef")), GB(MoveC(Ev)), GB(I("a")), GB(T("b")), <<P("-"), Flt("0.5")>>, T("x \"y\" & z"), FV(2), GS(FormatM(2)), <<Int("1u8")>>, <<Int("0x1F")>>, <<Int("1_000")>>, <<Int("007")>>,
                <<Flt("1e3")>>, <<Flt("1.50")>>, <<Int("2i64")>>, <<Int("0b101")>>, <<P("-"), Int("2i64")>>, GB(<<Int("1u8")>>) >>
StrForms2 == Map(FmtVal, GoodForms) \o Map(GB, Exprs) \o Map(GS, Exprs)
AttrCases == << <<"Html", "div">>, <<"Html", "input">>, <<"Html", "a">>, <<"Html", "label">>, <<"Html", "button">>,
                <<"Math", "mi">>, <<"Svg", "svg">>, <<"Web", "x-el">> >>
EndTag(t) == IF t = "input" THEN Semi ELSE GB(<<>>)
AttrPairs == Fl(Map(LAMBDA ct : Map(LAMBDA k : <<ct[2], k>>, SelectSeq(KvKeys(ct[1], ct[2]), LAMBDA k : k \notin Range(OddNames))), AttrCases))
KeyForms == OddKeb \o << "data-x", "data-x-1", "aria-label", "x-y", "data--y", "data-1", "on-x", "a-", "x-a-b-c-d-e" >>
ClassLike == << Kv("class", T("k1 k2")), Kv("class", GB(Ev)), Kv("class", GS(Ev)), Kv("class", FV(1)), Short("class"),
                Kv("style", T("top:1px;left:2px")), Kv("style", GB(T("a:b"))), Kv("style", GS(T("a:b"))), Short("style") >>
CatC03 ==
  Fl(<<
    Cross(LAMBDA tk, v : C("kv", K(tk[1]) \o Kv(tk[2], v) \o EndTag(tk[1])), AttrPairs, Few(ValForms, 6)),
    Cross(LAMBDA k, v : C("key", K("div") \o Kv(k, v) \o Semi), KeyForms, Few(ValForms, 7)),
    Cross(LAMBDA k, t : C("key any", K(t) \o Kv(k, T("v")) \o GB(<<>>)), OddNames, << "svg", "x-el", "circle" >>),
    Cross(LAMBDA k, t : C("key flag", K(t) \o K(k) \o GB(T("x"))), OddKeb, << "p", "mi", "text" >>),
    Cross(LAMBDA k, v : C("val", K("div") \o Kv(k, v) \o Semi), << "title", "data-x" >>, ValForms \o StrForms2),
    Cross(LAMBDA t, v : C("val", K(t) \o Kv("id", v) \o Kv("class", v) \o Kv("style", v) \o GB(<<>>)), << "p", "x-el", "svg" >>, StrForms2),
    Map(LAMBDA n : C("many", K("x-el") \o Fl([i \in 1..n |-> Kv("data-" \o ToString(i), IF i % 3 = 0 THEN T("s") ELSE IF i % 3 = 1 THEN GB(Ev) ELSE GS(Ev))]) \o GB(<<>>)),
        <<3, 8, 12>>),
    Map(LAMBDA n : C("many", K("p") \o Fl([i \in 1..n |-> Kv(<<"title", "data-x", "lang", "id", "role", "x-y", "dir", "aria-label", "hidden", "is", "part", "slot">>[i], IF i % 2 = 0 THEN GB(Ev) ELSE GS(Ev))]) \o GB(T("k"))),
        <<4, 9, 12>>),
    Map(LAMBDA t : C("ref", K(t) \o Kv("ref", GB(Call("er"))) \o EndTag(t)), << "svg", "circle", "mi", "math", "x-el", "input", "g", "my-long-el" >>),
    Map(LAMBDA x : C("ref", x), << K("x-el") \o <<P(".")>> \o K("c") \o Kv("ref", GB(Call("er"))) \o Kv("id", GB(Ev)) \o GB(T("x")),
        K("g") \o Kv("id", GB(Ev)) \o Kv("ref", GB(Call("er"))) \o GB(K("path") \o Kv("ref", GB(Call("er"))) \o Semi) >>),
    Map(LAMBDA tk : C("flag", K(tk[1]) \o K(tk[2]) \o EndTag(tk[1])), AttrPairs),
    Cross(LAMBDA ct, k : C("short", K(ct[2]) \o GB(KT(k)) \o EndTag(ct[2])), AttrCases, <<"id", "data-x", "title", "lang", "hidden">>),
    Cross(LAMBDA ct, a : C("class", K(ct[2]) \o a \o EndTag(ct[2])), AttrCases, ClassLike),
    Cross(LAMBDA a, b : C("two", K("section") \o a \o b \o GB(T("t"))),
          << Kv("title", GB(Ev)), Kv("data-x", GS(Ev)), K("hidden"), GB(K("id")), Kv("class", GB(Ev)), Kv("style", T("a:b")) >>,
          << Kv("lang", GB(Ev)), Kv("data-y", FV(1)), K("inert"), GB(K("role")), Kv("aria-label", GS(Ev)), Kv("dir", T("l")) >>),
    Map(LAMBDA p : C("in " \o p, Parent(p, K("a") \o Kv("href", GB(Ev)) \o Kv("data-z", GS(Ev)) \o K("hidden") \o GB(K("title")) \o Semi)),
        AllParents),
    Map(LAMBDA v : C("ref", K("div") \o v \o Semi), << Kv("ref", GB(Call("er"))) >>) >>)

---------------------------------------------------------------------------
(* C04 component props *)
PropForms == << T("s1"), <<Int("5")>>, I("true"), I("false"), <<Chr("c")>>, <<Flt("2.5")>>, <<P("-"), Int("3")>>, GB(Ev), GB(Call("et")),
                GB(I("b")), GB(T("q")), GB(<<Int("4")>>), <<Int("0x1F")>>, <<Int("1_000")>>, <<Int("007")>>, <<Flt("1e3")>>, <<Flt("2.0")>>, <<P("-"), Int("0b101")>>, T("%4 \\ {}") >>
               \o Map(GB, Exprs)
LazyForms == << GS(Ev), FV(1), FV(2), GS(FormatM(1)), GB(MoveC(Ev)), GS(Call("et")) >>
             \o Map(FmtVal, GoodForms) \o Map(GS, Exprs)
PropKeys == << K("a"), K("b"), K("some-attr"), K("some_attr"), K("a-b-2"), K("a_b_2"), K("type"), K("class"), K("id"),
               <<Raw("type")>> >>
LazyKeys == << K("fa"), K("f-b"), K("f_b") >>
OneHeads == << I("Cf"), I("Cn"), I("Cz"), I("Cs"), PathT(<<"m", "Cm">>), PP \o PathT(<<"kit", "m", "Cm">>),
               I("Cg") \o Gen(I("G1")), PathT(<<"m", "nn", "Cm">>) \o Turbo(I("G1")), I("Nsg") \o Gen(I("G1")) \o PP \o I("Mk"), I("Cq") >>
CoKeys == << K("a--b"), K("a__b"), K("a-"), K("a_"), K("_c"), K("aB"), K("x-01"), K("x_01"), K("for"), <<Raw("for")>>, K("t%1r"), K("Big"), I("ref"), K("node-ref"), <<Raw("ref")>> >>
CatC04 ==
  Fl(<<
    Cross(LAMBDA k, v : C("prop", I("Cc") \o k \o Eq \o v \o Semi), PropKeys, PropForms),
    Cross(LAMBDA k, v : C("lazy", I("Cc") \o k \o Eq \o v \o Semi), LazyKeys, LazyForms),
    Cross(LAMBDA h, v : C("head", h \o I("a") \o Eq \o v \o Semi), OneHeads, Few(PropForms, 7)),
    Cross(LAMBDA k, v : C("odd", I("Co") \o k \o Eq \o v \o Semi), CoKeys, << T("s"), GB(Ev), I("true") >>),
    Map(LAMBDA k : C("odd", I("Co") \o k \o GB(T("z"))), CoKeys),
    Cross(LAMBDA j, k : C("odd2", I("Co") \o j \o Eq \o GB(Ev) \o k \o Eq \o GB(Ev) \o Semi), << CoKeys[1], CoKeys[3], CoKeys[6] >>,
          << CoKeys[7], CoKeys[9], CoKeys[11], CoKeys[12], K("-c") >>),
    << C("oddall", I("Co") \o Fl(Map(LAMBDA k : k \o Eq \o GB(Ev), << CoKeys[1], CoKeys[12], CoKeys[4], K("-c"), CoKeys[6], CoKeys[8], CoKeys[9], CoKeys[11] >>)) \o GB(T("t"))),
       C("oddshort", I("Co") \o GB(K("a--b")) \o GB(K("a-")) \o GB(K("for")) \o Semi), C("oddshort", I("Co") \o GB(K("a__b")) \o GB(K("a_")) \o Semi) >>,
    << C("all", I("Cc") \o Fl(Map(LAMBDA k : K(k) \o Eq \o GB(Ev), << "id", "b", "class", "some-attr", "type", "a-b-2", "a" >>)) \o K("f-b") \o Eq \o GS(Ev) \o K("fa") \o Eq \o FV(1) \o GB(GB(Ev))) >>,
    Map(LAMBDA k : C("flag", I("Cc") \o k \o Semi), PropKeys),
    Map(LAMBDA k : C("short", I("Cc") \o GB(k) \o Semi), PropKeys),
    Cross(LAMBDA k, j : C("two", I("Cc") \o k \o Eq \o GB(Ev) \o j \o Eq \o GB(Ev) \o GB(T("t"))),
          SubSeq(PropKeys, 1, 3), <<PropKeys[7], PropKeys[6], PropKeys[9]>>),
    Cross(LAMBDA k, j : C("lazy2", I("Cc") \o k \o Eq \o GS(Ev) \o j \o Eq \o GB(Ev) \o GP(GB(Ev))), LazyKeys, SubSeq(PropKeys, 1, 4)),
    Cross(LAMBDA s, v : C("slot", I("Cs") \o GB(<<Id("slot"), P(":"), Id("SlotA")>> \o s \o Eq \o v \o Semi)),
          << K("a"), K("some-attr"), K("some_attr") >>, PropForms),
    Map(LAMBDA v : C("slotlazy", I("Cs") \o GB(<<Id("slot"), P(":"), Id("SlotA")>> \o I("fa") \o Eq \o v \o Semi)), LazyForms),
    Map(LAMBDA x : C("slotshort", I("Cs") \o GB(<<Id("slot"), P(":"), Id("SlotA")>> \o x \o Semi)),
        << K("a"), GB(K("a")), GB(K("some-attr")), K("some-attr"), I("ref"), I("type"), GB(I("type")) >>),
    Cross(LAMBDA k, v : C("slot", I("Cs") \o GB(Sl("SlotA") \o k \o Eq \o v \o GB(T("t")))), << I("ref"), I("type"), <<Raw("ref")>> >>, Few(PropForms, 5)),
    Cross(LAMBDA p, v : C("in " \o p, Parent(p, I("Cc") \o I("a") \o Eq \o v \o K("some-attr") \o GB(K("a-b-2")) \o Semi)),
          AllParents, <<T("s"), GB(Ev)>>),
    Map(LAMBDA x : C("kw", I("Cc") \o x \o Semi), << <<Raw("type"), P("=")>> \o T("s"), Kv("class", T("s")), Kv("id", T("s")) >>) >>)

---------------------------------------------------------------------------
(* C05, C06 directives *)
BoolForms == << I("true"), I("false"), GB(Call("et")), GB(Call("ef")), GS(Call("et")), GS(Call("ef")), GB(MoveC(Call("et"))), GB(I("red")) >>
StrForms == << T("s1"), GB(Ev), GS(Ev), FV(1), GB(MoveC(Ev)), GB(I("a")) >> \o Map(FmtVal, GoodForms) \o Map(GB, Exprs) \o Map(GS, Exprs)
PropDForms == << T("s1"), GB(Ev), I("true"), GB(Call("ef")), GS(Ev), <<Int("9")>>, FV(1) >>
KeyK == << K("c2"), K("is-on"), K("w-1-2"), T("str[x]"), I("type"), K("-m"), K("--v"), K("a-b-c-d"), K("x_y"), T("a:b") >> \o Map(K, OddNames) \o << T("%1"), T("md:A-b") >>
StyleKeys == << K("color"), K("font-size"), K("--my-var"), T("--q"), K("z-1"), T("background-color"), K("-webkit-x") >> \o Map(K, OddNames)
PropKeysD == << K("value"), K("innerHTML"), K("my-prop"), T("p q"), I("type") >> \o Map(K, OddNames)
Events5 == << "click", "dblclick", "input", "keydown", "DOMContentLoaded", "submit", "focus" >>
AttrDirsT ==
  Fl(<<
    Cross(LAMBDA k, v : Dr("attr", k) \o Eq \o v, << K("title"), K("data-x"), K("id"), K("aria-label"), T("data-q"), I("type"), K("x-y-z"), K("href") >>,
          Few(ValForms, 8)),
    Map(LAMBDA k : Dr("attr", K(k)) \o Eq \o T("v"), OddKeb), Map(LAMBDA k : Dr("attr", GB(K(k))), ShortOdd),
    Map(LAMBDA v : Dr("attr", I("class")) \o Eq \o v, Few(StrForms, 8)),
    Map(LAMBDA v : Dr("attr", I("style")) \o Eq \o v, << T("top:1px"), GB(T("a:b")), GS(T("a:b")) >>),
    Cross(LAMBDA x, d : x \o d, << Dr("attr", I("style")) \o Eq \o T("top:1px"), Dr("attr", I("class")) \o Eq \o T("k1"), Dr("attr", I("style")) \o Eq \o GB(T("a:b")) >>,
          << Dr("style", K("color")) \o Eq \o GB(Ev), Dr("style", K("color")) \o Eq \o T("x"), Dr("class", K("c2")) \o Eq \o GB(Call("et")),
             Dr("class", K("c2")), Dr("attr", K("id")) \o Eq \o T("x"), Dr("attr", I("style")) \o Eq \o T("left:2px"), Dr("attr", I("class")) \o Eq \o T("k2") >>),
    << Dr("attr", GB(K("title"))), Dr("attr", GB(K("data-x"))), Dr("attr", GB(K("aria-label"))), Dr("attr", GB(K("class"))) >> >>)
DirsFor(comp) ==
  Fl(<<
    Map(LAMBDA k : Dr("class", k) \o Eq \o I("true"), KeyK), Map(LAMBDA k : Dr("style", k) \o Eq \o T("v"), StyleKeys),
    Map(LAMBDA k : Dr("prop", k) \o Eq \o T("v"), PropKeysD),
    Map(LAMBDA v : Dr("style", K("color")) \o Eq \o v, StrForms), Map(LAMBDA v : Dr("prop", K("value")) \o Eq \o v, StrForms),
    Map(LAMBDA v : Dr("class", K("c")) \o Eq \o v, BoolForms),
    Map(LAMBDA k : Dr("style", GB(K(k))), ShortOdd), Map(LAMBDA k : Dr("prop", GB(K(k))), ShortOdd), << Dr("class", GB(K("is-Up"))) >>,
    Cross(LAMBDA k, v : Dr("class", k) \o Eq \o v, Few(KeyK, 6), Few(BoolForms, 5)),
    Cross(LAMBDA k, v : Dr("style", k) \o Eq \o v, Few(StyleKeys, 5), Few(StrForms, 4)),
    Cross(LAMBDA k, v : Dr("prop", k) \o Eq \o v, Few(PropKeysD, 4), Few(PropDForms, 5)),
    Map(LAMBDA e : Dr("on", I(e)) \o Eq \o GB(Call("eh")), Events5),
    Map(LAMBDA e : Dr("on", I(e) \o <<P(":"), Id("undelegated")>>) \o Eq \o GB(Call("eh")), Events5),
    OnDirs, UseDirs,
    << Dr("class", GB(K("red"))), Dr("class", GB(K("is-red"))), Dr("class", GB(K("blue-100"))), Dr("style", GB(K("color"))),
       Dr("style", GB(K("font-size"))), Dr("prop", GB(K("value"))), Dr("prop", GB(K("data-x"))), Dr("on", GB(K("click"))),
       Dr("on", GB(K("keydown")) \o <<P(":"), Id("undelegated")>>) >>,
    Only(comp, << Dr("class", K("c3")), Dr("class", K("c-4")), Dr("class", T("c[5]")), Dr("attr", I("hidden")), Dr("attr", K("data-f")) >>),
    Only(comp, AttrDirsT),
    << Spreads[1], GB(<<J("."), P(".")>> \o Call("ea")) \o GB(<<J("."), P(".")>> \o Call("ea")) >> >>)
\* the same directive again and again
Again(d) == d \o d \o d
ManyDirs == Fl([i \in 1..6 |-> Dr("class", K("c-" \o ToString(i))) \o Eq \o (IF i % 2 = 0 THEN I("true") ELSE GB(Call("et")))
                  \o Dr("style", K("s-" \o ToString(i))) \o Eq \o GB(Ev) \o Dr("prop", K("p-" \o ToString(i))) \o Eq \o GB(Ev)])
            \o Fl([i \in 1..5 |-> Dr("on", I(Events5[i])) \o Eq \o GB(Call("eh"))])
ElHeads == << K("div"), K("svg"), K("mi"), K("x-el"), K("button"), K("g") >>
CHeads == << I("Cc"), I("Cf"), PathT(<<"m", "Cm">>), I("Cg") \o Gen(I("G1")), I("Cs"), I("Cz") >>
PairDirs == << Dr("class", K("c2")) \o Eq \o GB(Call("et")), Dr("style", K("color")) \o Eq \o GB(Ev),
               Dr("style", K("color")) \o Eq \o T("x"),
               Dr("prop", K("value")) \o Eq \o GB(Ev), Dr("on", I("click")) \o Eq \o GB(Call("eh")), Dr("use", I("d1")) \o Eq \o GB(Ev),
               Dr("use", I("d0")), Spreads[1], Dr("class", K("c-3")) \o Eq \o GS(Call("et")) >>
ModFaults ==  \* modifiers mean nothing on these
  << Dr("class", K("c2") \o <<P(":"), Bad(Id("once"))>>) \o Eq \o I("true"),
     Dr("style", K("color") \o <<P(":"), Bad(Id("undelegated"))>>) \o Eq \o T("x"),
     Dr("prop", K("value") \o <<P(":"), Bad(Id("m"))>>) \o Eq \o T("x"),
     Dr("use", K("d1") \o <<P(":"), Bad(Id("m"))>>) \o Eq \o T("x"),
     Dr("use", K("d0") \o <<P(":"), Bad(Id("undelegated"))>>),
     Dr("on", K("click") \o <<P(":"), Bad(Id("once"))>>) \o Eq \o GB(Call("eh")),
     Dr("on", K("click") \o <<P(":"), Bad(Id("Undelegated"))>>) \o Eq \o GB(Call("eh")),
     Dr("on", <<Bad(Str("click"))>>) \o Eq \o GB(Call("eh")),
     Dr("use", <<Bad(Str("d0"))>>),
     Dr("class", GB(K("red")) \o <<P(":"), Bad(Id("m"))>>),
     <<Bad(Id("foo")), P(":"), Id("x"), P("=")>> \o T("y"), <<Bad(Id("Class")), P(":"), Id("x"), P("=")>> \o I("true"),
     <<Bad(Id("bind")), P(":"), Id("x"), P("=")>> \o GB(Ev), <<Bad(Raw("class")), P(":"), Id("x"), P("=")>> \o I("true"),
     <<Bad(Id("let")), P(":"), Id("x")>> >>
CatC05 ==
  Fl(<<
    Cross(LAMBDA h, d : C("dir", h \o d \o GB(<<>>)), Few(<<ElHeads[1], ElHeads[4]>> \o ElHeads, 2), DirsFor(FALSE)),
    Cross(LAMBDA h, d : C("heads", h \o d \o Semi), ElHeads, PairDirs),
    Cross(LAMBDA a, b : C("two", K("div") \o a \o b \o GB(T("t"))), PairDirs, PairDirs),
    Cross(LAMBDA h, d : C("again", h \o Again(d) \o Semi), << K("div"), K("x-el"), K("g") >>, SubSeq(PairDirs, 1, 3) \o SubSeq(PairDirs, 5, 9)),
    Map(LAMBDA h : C("many", h \o ManyDirs \o Semi), ElHeads),
    Cross(LAMBDA a, b : C("kv", K("p") \o a \o b \o Kv("lang", T("x")) \o Semi),
          << Kv("class", T("k1 k2")), Kv("class", GS(Ev)), Kv("style", T("top:1px")), Kv("id", GB(Ev)) >>, PairDirs),
    Map(LAMBDA d : C("reparse", K("div") \o d \o Kv("class", T("k1")) \o Kv("style", T("top:1px")) \o Semi), PairDirs),
    Map(LAMBDA p : C("in " \o p, Parent(p, K("a") \o PairDirs[1] \o PairDirs[2] \o PairDirs[5] \o PairDirs[6] \o GB(T("x")))), AllParents),
    Cross(LAMBDA h, d : C("fault", h \o d \o Semi), ElHeads, ModFaults),
    Map(LAMBDA d : C("fault", K("div") \o d \o Semi),
        << <<Bad(Id("attr")), P(":"), Id("id"), P("=")>> \o T("x"), <<Bad(Id("clone")), P(":"), Id("k1")>> >>) >>)
CatC06 ==
  Fl(<<
    Map(LAMBDA d : C("dir", I("Cc") \o d \o Semi), DirsFor(TRUE)),
    Cross(LAMBDA h, d : C("heads", h \o d \o Semi), CHeads, PairDirs \o << Dr("attr", K("title")) \o Eq \o GB(Ev), Dr("attr", K("data-x")) \o Eq \o GS(Ev) >>),
    Cross(LAMBDA a, b : C("two", I("Cc") \o a \o b \o GB(T("t"))), PairDirs, PairDirs),
    Cross(LAMBDA h, d : C("again", h \o Again(d) \o Semi), << I("Cc"), I("Cg") \o Gen(I("G1")) >>, SubSeq(PairDirs, 1, 3) \o SubSeq(PairDirs, 5, 9)),
    Map(LAMBDA h : C("many", h \o ManyDirs \o Semi), CHeads),
    Cross(LAMBDA a, b : C("prop", I("Cc") \o I("a") \o Eq \o GB(Ev) \o a \o I("b") \o Eq \o GB(Ev) \o b \o GP(GB(Ev))),
          Few(PairDirs, 4), << <<>>, Dr("attr", K("title")) \o Eq \o GB(Ev) >>),
    Cross(LAMBDA s, d : C("sel", I("Cc") \o s \o d \o Semi), << <<P(".")>> \o K("k-1"), <<P("#")>> \o K("i-1") >>, PairDirs),
    Map(LAMBDA p : C("in " \o p, Parent(p, I("Cc") \o PairDirs[1] \o PairDirs[2] \o PairDirs[5] \o PairDirs[6] \o GB(T("x")))), AllParents),
    Cross(LAMBDA h, d : C("fault", h \o d \o Semi), CHeads,
          ModFaults \o << Dr("attr", K("title") \o <<P(":"), Bad(Id("m"))>>) \o Eq \o T("x"),
                          Dr("attr", <<Bad(Str("title"))>>) \o Eq \o T("x") >>) >>)

---------------------------------------------------------------------------
(* C07 selectors *)
SelAtoms == << <<P(".")>> \o K("c1"), <<P(".")>> \o K("red-2"), <<P("#")>> \o K("i1"), <<P("#")>> \o K("the-id"), <<P(".")>> \o K("-neg"),
               <<P("#")>> \o K("n-3"), <<P(".")>> \o K("--v"), <<P(".")>> \o K("p-1-2"), <<P(".")>> \o K("x_y"), <<P(".")>> \o I("type") >>
SelOdd == Map(LAMBDA k : <<P(".")>> \o K(k), OddNames) \o Map(LAMBDA k : <<P("#")>> \o K(k), OddNames)
SelHeads == << K("div"), K("svg"), K("x-el"), I("Cc"), K("mi"), I("Cf"), PathT(<<"m", "Cm">>), I("Cg") \o Gen(I("G1")) >>
SelMix == << Kv("class", T("k1 k2")), Dr("class", K("c9")) \o Eq \o I("true"), Dr("class", K("c9")) \o Eq \o I("false"), Spreads[1] >>
CatC07 ==
  Fl(<<
    Cross(LAMBDA h, s : C("sels", h \o Fl(s) \o Semi), Few(SelHeads, 4), SeqsUpTo(SubSeq(SelAtoms, 1, 4), IF Big = 1 THEN 4 ELSE 3)),
    Cross(LAMBDA h, s : C("sel", h \o s \o GB(T("x"))), SelHeads, SelAtoms),
    Cross(LAMBDA h, s : C("odd", h \o s \o Semi), << K("p"), I("Cc"), K("x-el") >>, SelOdd),
    Map(LAMBDA h : C("many", h \o Fl([i \in 1..9 |-> <<P(".")>> \o K("c" \o ToString(i))]) \o <<P("#")>> \o K("z") \o Fl([i \in 1..5 |-> <<P(".")>> \o K("d-" \o ToString(i))]) \o Semi), SelHeads),
    Cross3(LAMBDA h, s, m : C("mix", h \o s \o m \o GP(<<>>)), << K("p"), K("g"), K("x-el") >>, SelAtoms, SelMix),
    Cross3(LAMBDA h, s, m : C("mixc", h \o s \o m \o Semi), << I("Cc"), I("Cz") >>, SelAtoms,
           << Dr("class", K("c9")) \o Eq \o I("true"), Dr("attr", I("class")) \o Eq \o T("k1"), Dr("attr", K("title")) \o Eq \o T("t"), Kv("a", T("v")) >>),
    \* values that contain the names of the selectors, or are parts of them
    Cross3(LAMBDA h, s, m : C("part", h \o s \o m \o Semi), << K("p"), K("g"), K("x-el") >>,
           << <<P(".")>> \o K("c1"), <<P(".")>> \o K("c"), <<P(".")>> \o K("c1-2-c1"), <<P("#")>> \o K("c1"), <<P(".")>> \o K("c1") \o <<P(".")>> \o K("c1-2") \o <<P(".")>> \o K("c") >>,
           << Kv("class", T("c1-2 xc1 c1x")), Kv("class", T("c1-2")), Kv("class", T("c1")), Kv("class", T("")), Kv("id", T("c1")), Kv("class", GB(T("c1-2"))), Kv("data-class", T("c1")),
              Dr("class", K("c1-2")) \o Eq \o I("true"), Dr("class", K("c1")) \o Eq \o I("false"), Dr("class", T("c1 c")) \o Eq \o GB(Call("et")) >>),
    Cross3(LAMBDA h, s, m : C("partc", h \o s \o m \o Semi), << I("Cc") >>,
           << <<P(".")>> \o K("c1"), <<P("#")>> \o K("c1") \o <<P("#")>> \o K("c1-2") \o <<P("#")>> \o K("c"), <<P(".")>> \o K("c1") \o <<P(".")>> \o K("c1-2") \o <<P(".")>> \o K("c") >>,
           << Kv("class", T("c1-2")), Dr("class", K("c1-2")) \o Eq \o I("true"), Dr("attr", I("class")) \o Eq \o T("c1-2 c1") >>),
    Cross(LAMBDA p, s : C("in " \o p, Parent(p, K("em") \o Fl(s) \o GB(T("x")) \o I("Cc") \o Fl(s) \o Semi)),
          AllParents, << <<SelAtoms[1], SelAtoms[3], SelAtoms[2]>>, <<SelAtoms[4], SelAtoms[1]>> >>) >>)

---------------------------------------------------------------------------
(* C08 slots *)
SlotAtoms == << Sl("SlotA") \o GB(GB(Ev)), Sl("SlotB") \o I("a") \o Eq \o GB(Ev) \o GB(T("b")), Sl("Solo") \o GP(T("s")), T("kid"),
                Sl("SlotFn1") \o Bars(I("x")) \o GB(GB(I("x"))), Sl("SlotA") \o I("a") \o Eq \o GB(Ev) \o Semi, K("i") \o Semi >>
SlotFaults ==
  << Sl("SlotA") \o <<Bad(P("."))>> \o K("c1") \o Semi, Sl("SlotA") \o <<Bad(P("#"))>> \o K("c1") \o GB(T("x")),
     Sl("SlotA") \o <<Bad(Id("class")), P(":"), Id("x"), P("=")>> \o I("true") \o Semi,
     Sl("SlotA") \o <<Bad(Id("on")), P(":"), Id("click"), P("=")>> \o GB(Call("eh")) \o Semi,
     Sl("SlotA") \o <<Bad(Id("attr")), P(":"), Id("id"), P("=")>> \o T("x") \o Semi,
     Sl("SlotA") \o <<Bad(Id("foo")), P(":"), Id("id"), P("=")>> \o T("x") \o Semi,
     Sl("SlotA") \o <<[Opn("{") EXCEPT !.b = "!"], J("."), P(".")>> \o Call("ea") \o <<Cls("{")>> \o Semi,
     <<Id("slot"), P(":"), Bad(Id("slot_a"))>> \o Semi, <<Id("slot"), P(":"), Bad(Id("div"))>> \o GB(T("x")),
     <<Id("slot"), P(":"), Bad(Id("m")), J(":"), P(":"), Id("SlotA")>> \o Semi,
     <<Id("slot"), P(":"), Bad(Id("SlotA")), P("<"), Id("G1"), P(">")>> \o Semi,
     <<Id("slot"), P(":"), Bad(Id("my")), P("-"), Id("slot")>> \o GB(<<>>),
     K("div") \o GB(<<Id("slot"), P(":"), Bad(Id("SlotA"))>> \o Semi),
     K("x-el") \o GP(T("a") \o <<Id("slot"), P(":"), Bad(Id("SlotA"))>> \o GB(T("x")) \o T("b")) >>
CatC08 ==
  Fl(<<
    Map(LAMBDA s : C("slots", I("Cs") \o GB(Fl(s))), SeqsUpTo(SubSeq(SlotAtoms, 1, IF Big = 1 THEN 7 ELSE 6), 3)),
    Only(Big = 1, Map(LAMBDA s : C("slots4", I("Cs") \o GP(Fl(s))), SeqsOf(<<SlotAtoms[1], SlotAtoms[2], SlotAtoms[4]>>, 4))),
    Map(LAMBDA s : C("nested", I("Cs") \o GB(Sl("SlotB") \o GB(Fl(s)))), SeqsUpTo(<<SlotAtoms[1], SlotAtoms[6], T("k"), GB(Ev)>>, 3)),
    Map(LAMBDA s : C("nested2", I("Cs") \o GB(T("o") \o Sl("SlotB") \o GP(Fl(s)) \o Sl("SlotA") \o GB(T("l")) \o Sl("SlotB") \o GB(Fl(s)))),
        SeqsUpTo(<<SlotAtoms[1], SlotAtoms[6], T("k")>>, 2)),
    Map(LAMBDA p : C("in " \o p, Parent(p, I("Cs") \o GB(SlotAtoms[1] \o T("k") \o SlotAtoms[2] \o SlotAtoms[6]))), AllParents),
    Map(LAMBDA n : C("odd", I("Cq") \o GB(Sl(n) \o GB(T("x")))), OddSlots), Map(LAMBDA n : C("odd", I("Cq") \o GP(T("a") \o Sl(n) \o I("a") \o Eq \o GB(Ev) \o Semi \o T("b"))), OddSlots),
    Cross(LAMBDA n, k : C("odd2", I("Cq") \o GB(Sl(n) \o GB(GB(Ev)) \o Sl(k) \o I("a") \o GP(T("y")) \o T("z") \o Sl(n) \o Semi)), OddSlots, OddSlots),
    << C("oddall", I("Cq") \o GB(Fl(Map(LAMBDA n : Sl(n) \o GB(T(n)), OddSlots)) \o T("k"))) >>,
    Map(LAMBDA n : C("many", I("Cs") \o GB(Fl([i \in 1..n |-> Sl(IF i % 3 = 0 THEN "SlotB" ELSE "SlotA") \o GB(T(ToString(i)))]))), <<7, 12>>),
    Map(LAMBDA x : C("required", I("Cr") \o GB(x)), << SlotAtoms[3], T("a") \o SlotAtoms[3] \o GB(Ev), Sl("Solo") \o Semi >>),
    Map(LAMBDA x : C("compin", I("Cs") \o GB(Sl("SlotA") \o GB(I("Cs") \o GB(x \o T("deep"))) \o T("up"))), SlotAtoms),
    Map(LAMBDA x : C("fault", I("Cs") \o GB(x)), SlotFaults),
    Map(LAMBDA x : C("fault", I("Cs") \o GB(SlotAtoms[1] \o T("a") \o x \o SlotAtoms[2])), SlotFaults),
    Map(LAMBDA x : C("fault", I("Cs") \o GB(Sl("SlotB") \o GP(x))), SlotFaults),
    Map(LAMBDA x : C("fault", x),
        << <<Bad(Id("slot")), P(":"), Id("SlotA")>> \o Semi, <<Bad(Id("slot")), P(":"), Id("SlotA")>> \o GB(T("x")),
           T("a") \o <<Id("slot"), P(":"), Bad(Id("SlotA"))>> \o Semi,
           <<Id("slot"), P(":"), Bad(Id("SlotA"))>> \o GB(T("x")) \o K("div") \o Semi,
           <<Id("slot"), P(":"), Bad(Id("SlotA"))>> \o Semi \o <<Id("slot"), P(":"), Id("SlotB")>> \o Semi >>) >>)

---------------------------------------------------------------------------
(* C09 closure arguments and clones *)
KU == GB(K1U)
CloneK == Dr("clone", I("k1"))
X1 == GB(I("x"))
\* closure arguments: patterns for a string, a pair, two strings, and three with a nested pair
Dots == <<J("."), P(".")>>
PTy(t) == <<P(":")>> \o t
PStr == <<P("&"), Id("str")>>
PatS == << I("x"), I("x") \o Comma, <<Id("mut"), Id("x")>>, <<Id("x"), P("@"), Id("_")>>, GP(I("x")), GP(GP(<<Id("mut"), Id("x")>>)), I("x") \o PTy(PStr), I("x") \o PTy(I("_")),
           GP(I("x")) \o PTy(PStr), <<Id("mut"), Id("x")>> \o PTy(GP(PStr)) \o Comma >>
PatT == << GP(<<Id("x"), P(","), Id("y")>>), GP(<<Id("_"), P(","), Id("y")>>), GP(<<Id("x"), P(","), Id("y"), P(",")>>), GP(I("y") \o Comma \o Dots), GP(Dots \o Comma \o I("y")),
           GP(I("x") \o Comma \o Dots \o Comma \o I("y")), GP(<<Id("mut"), Id("x"), P(","), Id("mut"), Id("y")>>), GP(GP(I("x")) \o Comma \o I("y")) \o Comma,
           GP(<<Id("x"), P(","), Id("y")>>) \o PTy(GP(PStr \o Comma \o PStr)), GP(<<Id("x"), P(","), Id("y"), P("@"), Id("_")>>) \o PTy(GP(I("_") \o Comma \o I("_"))), GP(GP(<<Id("y"), P(","), Id("x")>>)) >>
Pat2 == << <<Id("x"), P(","), Id("y")>>, <<Id("y"), P(","), Id("x"), P(",")>>, <<Id("_"), P(","), Id("mut"), Id("y")>>, I("x") \o PTy(PStr) \o Comma \o I("y") \o PTy(PStr), GP(I("y")) \o Comma \o I("_"),
           I("x") \o PTy(I("_")) \o Comma \o <<Id("y"), P("@"), Id("_")>> \o Comma >>
Pat3 == << <<Id("x"), P(","), Id("_"), P(","), Id("y")>>, I("x") \o Comma \o GP(I("y") \o Comma \o GP(<<Id("z"), P(","), Id("w")>>)) \o Comma \o I("_"),
           I("_") \o Comma \o GP(Dots \o Comma \o GP(I("y") \o Comma \o Dots)) \o Comma \o I("v") \o Comma, I("x") \o Comma \o GP(I("w") \o Comma \o I("_")) \o Comma \o <<Id("mut"), Id("y")>>,
           I("_") \o Comma \o GP(I("_") \o Comma \o GP(<<Id("x"), P(","), Id("y")>>)) \o PTy(GP(PStr \o Comma \o GP(PStr \o Comma \o PStr))) \o Comma \o I("z") \o PTy(PStr),
           I("y") \o Comma \o GP(Dots) \o Comma \o I("z") >>
CloneSeqs == << <<"k1", "k2">>, <<"k2", "k1">>, <<"k_3">>, <<"k_3", "k1", "k2">>, <<"k1", "k1">>, <<"k2", "k1", "k2">>, <<"k1", "k_3">> >>
CatC09 ==
  Fl(<<
    Cross3(LAMBDA h, a, b : C("args", h \o Bars(a) \o b),
           << I("Ca") >>, << I("x"), I("_"), I("x") \o <<P(":"), P("&"), Id("str")>> >>,
           << GB(T("t")), GP(T("t")), GB(<<>>), GB(GB(Ev)), GP(GS(Ev)) >>),
    Map(LAMBDA b : C("use", I("Ca") \o Bars(I("x")) \o b), << GB(X1), GP(X1 \o X1), GB(GS(I("x"))), GB(K("p") \o GB(X1)), GP(I("Cc") \o GB(X1)),
         GB(I("Cc") \o I("a") \o Eq \o GB(I("x")) \o Semi), GB(I("Ca") \o Bars(I("y")) \o GB(GB(I("y")))),
         GB(K("p") \o Kv("title", GB(I("x"))) \o Dr("style", K("color")) \o Eq \o GS(I("x")) \o Semi) >>),
    Map(LAMBDA b : C("tuple", I("Ct") \o Bars(GP(<<Id("x"), P(","), Id("y")>>)) \o b), << GB(X1), GP(GB(I("y")) \o X1), GB(<<>>), GB(T("t")) >>),
    Map(LAMBDA b : C("tuple_", I("Ct") \o Bars(GP(<<Id("_"), P(","), Id("y")>>)) \o b), << GB(GB(I("y"))), GB(<<>>) >>),
    Map(LAMBDA b : C("two", I("C2") \o Bars(<<Id("x"), P(","), Id("y")>>) \o b), << GB(X1 \o GB(I("y"))), GP(GB(I("y")) \o X1), GB(<<>>) >>),
    Map(LAMBDA b : C("two_", I("C2") \o Bars(<<Id("_"), P(","), Id("x")>>) \o b), << GB(X1), GB(T("t")) >>),
    Map(LAMBDA b : C("slotfn", I("Cs") \o GB(Sl("SlotFn1") \o Bars(I("x")) \o b)), << GB(X1), GP(T("t") \o X1), GB(<<>>), GB(GS(I("x"))) >>),
    Cross(LAMBDA h, b : C("clone", h \o CloneK \o b), << I("Cc"), I("Cf"), I("Cn"), PathT(<<"m", "Cm">>), I("Cg") \o Gen(I("G1")), I("Cs") >>,
          << GB(KU), GP(KU \o KU), GB(K("p") \o GB(KU)), GB(<<>>), Semi, GB(T("t")) >>),
    Map(LAMBDA b : C("clonearg", I("Ca") \o CloneK \o Bars(I("x")) \o b), << GB(KU), GB(X1 \o KU), GB(<<>>), GP(K("p") \o GB(KU \o X1)) >>),
    Map(LAMBDA b : C("cloneslot", I("Cs") \o GB(Sl("SlotA") \o CloneK \o b)), << GB(KU), GP(KU \o KU), Semi >>),
    Map(LAMBDA b : C("cloneslot2", I("Cs") \o CloneK \o GB(KU \o Sl("SlotA") \o b)), << GB(T("x")), CloneK \o GB(KU) >>),
    Map(LAMBDA b : C("sibs", KU \o I("Cc") \o CloneK \o GB(KU) \o b), << KU, I("Cc") \o CloneK \o GB(KU), K("p") \o GB(KU), <<>> >>),
    Map(LAMBDA b : C("deep", I("Cc") \o CloneK \o GB(I("Cc") \o CloneK \o GB(b) \o KU)), << KU, I("Cf") \o CloneK \o GB(KU) >>),
    Cross(LAMBDA a, b : C("order", I("Cc") \o a \o CloneK \o b \o GB(KU)),
          << I("a") \o Eq \o GB(Ev), Dr("class", K("z")) \o Eq \o GB(Call("et")), <<>> >>,
          << I("b") \o Eq \o GB(Ev), Dr("style", K("z")) \o Eq \o GB(Ev), <<>> >>),
    Cross(LAMBDA p, b : C("patS", I("Ca") \o Bars(p) \o b), PatS, << GB(X1), GB(GS(I("x"))) >>),
    Map(LAMBDA p : C("patS", I("Ca") \o Bars(p) \o GB(GB(<<Raw("type")>>))), << <<Raw("type")>>, <<Id("mut"), Raw("type")>> >>),
    Cross(LAMBDA p, b : C("patT", I("Ct") \o Bars(p) \o b), PatT, << GB(GB(I("y"))), GP(T("t")) >>),
    Cross(LAMBDA p, b : C("pat2", I("C2") \o Bars(p) \o b), Pat2, << GB(GB(I("y"))), GP(T("t")) >>),
    Cross(LAMBDA p, b : C("pat3", I("C3") \o Bars(p) \o b), Pat3, << GB(GB(I("y"))), GB(K("p") \o GB(GS(I("y")))) >>),
    Map(LAMBDA p : C("patslot", I("Cs") \o GB(Sl("SlotFn1") \o Bars(p) \o GB(X1))), PatS),
    Cross(LAMBDA a, b : C("none", I("C0") \o <<a>> \o <<P("|")>> \o b), << P("|"), J("|") >>, << GB(GB(Ev)), GP(T("t")), GB(<<>>), GB(K("p") \o GB(GS(Ev))) >>),
    Map(LAMBDA l : C("clones", I("Cc") \o ClonesOf(l) \o GB(GB(KUse(l[1])) \o T("t") \o GB(KUse(LastOf(l))))), CloneSeqs),
    Map(LAMBDA l : C("clones", I("Cc") \o Fl(Map(LAMBDA n : Dr("clone", K(MapChars(n, "_", "-"))), l)) \o GP(GB(KUse(l[1])))), CloneSeqs),
    Map(LAMBDA l : C("clonesnone", I("Cn") \o ClonesOf(l) \o GB(T("t"))), CloneSeqs),
    Map(LAMBDA l : C("clonesarg", I("C2") \o ClonesOf(l) \o Bars(<<Id("x"), P(","), Id("y")>>) \o GB(X1 \o GB(KUse(LastOf(l))))), CloneSeqs),
    Map(LAMBDA l : C("clonesslot", I("Cs") \o CloneOf("k1") \o GB(Sl("SlotFn1") \o ClonesOf(l) \o Bars(I("x")) \o GB(GB(KUse(l[1]))) \o T("r") \o Sl("SlotA") \o ClonesOf(l) \o GB(K("p") \o GB(GB(KUse(LastOf(l))))))), CloneSeqs),
    Map(LAMBDA l : C("clonesdeep", I("Cc") \o ClonesOf(KNames) \o GB(I("Cf") \o ClonesOf(l) \o GB(I("Ca") \o CloneOf(l[1]) \o Bars(I("x")) \o GB(GB(KUse(l[1])))))), CloneSeqs),
    Cross(LAMBDA n, b : C("clonevar", I("Cc") \o Dr("clone", K(n)) \o CloneK \o b),
          << "a", "some-attr", "some_attr", "title", "type", "for", "data-x", "red", "na%3-x", "isOpen", "_my-var", "-my-var" >>, << GB(GB(I("a"))), GP(KU), GB(<<>>) >>),
    Map(LAMBDA x : C("clonearg", x), << I("Ca") \o Bars(I("x")) \o GB(I("Cc") \o Dr("clone", I("x")) \o GB(X1)), I("C2") \o Bars(<<Id("y"), P(","), Id("x")>>) \o GB(I("Cf") \o Dr("clone", I("x")) \o Dr("clone", I("y")) \o GB(X1 \o GB(I("y")))),
           I("Cc") \o <<Id("clone"), P(":"), Raw("type")>> \o GB(T("x")) >>),
    Map(LAMBDA x : C("fault", x),
        << K("div") \o <<Bad(P("|")), Id("x"), P("|")>> \o GB(T("t")), K("svg") \o <<Bad(P("|")), Id("x"), P("|")>> \o GP(<<>>),
           K("x-el") \o <<Bad(P("|")), Id("_"), P("|")>> \o GB(<<>>), K("mi") \o I("id") \o <<Bad(P("|")), Id("_"), P("|")>> \o GB(<<>>),
           I("Ca") \o Bars(I("x")) \o <<Bad(P(";"))>>, I("Ca") \o Bars(I("x")) \o <<Bad(Str("t"))>>,
           I("Ca") \o <<Bad(P("|")), Id("x")>> \o GB(T("t")), I("Ca") \o <<Bad(P("|"))>> \o GB(T("t")),
           I("Cc") \o <<Id("clone"), P(":"), Id("k1"), P("=")>> \o <<[Opn("{") EXCEPT !.b = "!"], Id("k1"), Cls("{")>> \o GB(T("t")),
           I("Cc") \o <<Id("clone"), P(":"), Id("k1"), P("="), Bad(Str("x"))>> \o GB(T("t")),
           I("Cc") \o <<Id("clone"), P(":"), Bad(Str("k1"))>> \o GB(T("t")),
           I("Cc") \o <<Id("clone"), P(":"), Id("k1"), P(":"), Bad(Id("m"))>> \o GB(T("t")),
           I("Cc") \o <<Id("clone"), P(":"), [Opn("{") EXCEPT !.b = "!"], Id("k1"), Cls("{")>> \o GB(T("t")),
           I("Cs") \o GB(Sl("SlotA") \o <<Id("clone"), P(":"), Id("k1"), P("="), Bad(Str("x"))>> \o GB(T("t"))),
           I("Cs") \o GB(Sl("SlotFn1") \o Bars(I("x")) \o <<Bad(P(";"))>>),
           K("p") \o <<Bad(Id("clone")), P(":"), Id("k1")>> \o GB(T("t")) >>),
    Map(LAMBDA p : C("in " \o p, Parent(p, I("Ca") \o Bars(I("y")) \o GB(GB(I("y")) \o GB(Ev) \o K("p") \o GB(GS(I("y")))))), AllParents) >>)

---------------------------------------------------------------------------
(* C10 evaluation *)
EagerAt ==      \* an evaluated expression at every place that takes one
  << <<"child", GB(Ev)>>, <<"lazy child", GS(Ev)>>, <<"fmt child", FV(2)>>,
     <<"attr", K("p") \o Kv("title", GB(Ev)) \o Semi>>, <<"lazy attr", K("p") \o Kv("title", GS(Ev)) \o Semi>>,
     <<"fmt attr", K("p") \o Kv("data-x", FV(1)) \o Semi>>, <<"class", K("p") \o Kv("class", GB(Ev)) \o Semi>>,
     <<"lazy class", K("p") \o Kv("class", GS(Ev)) \o Semi>>, <<"class:", K("p") \o Dr("class", K("c")) \o Eq \o GB(Call("et")) \o Semi>>,
     <<"lazy class:", K("p") \o Dr("class", K("c")) \o Eq \o GS(Call("et")) \o Semi>>, <<"style:", K("p") \o Dr("style", K("c")) \o Eq \o GB(Ev) \o Semi>>,
     <<"lazy style:", K("p") \o Dr("style", K("c")) \o Eq \o GS(Ev) \o Semi>>, <<"prop:", K("p") \o Dr("prop", K("c")) \o Eq \o GB(Ev) \o Semi>>,
     <<"lazy prop:", K("p") \o Dr("prop", K("c")) \o Eq \o GS(Ev) \o Semi>>, <<"on:", K("p") \o Dr("on", K("click")) \o Eq \o GB(Call("eh")) \o Semi>>,
     <<"use:", K("p") \o Dr("use", K("d1")) \o Eq \o GB(Ev) \o Semi>>, <<"ref", K("p") \o Kv("ref", GB(Call("er"))) \o Semi>>,
     <<"spread", K("p") \o Spreads[1] \o Semi>>, <<"prop", I("Cc") \o Kv("a", GB(Ev)) \o Semi>>, <<"lazy prop", I("Cc") \o Kv("fa", GS(Ev)) \o Semi>>,
     <<"fmt prop", I("Cc") \o Kv("fa", FV(1)) \o Semi>>, <<"c class:", I("Cc") \o Dr("class", K("c")) \o Eq \o GB(Call("et")) \o Semi>>,
     <<"c attr:", I("Cc") \o Dr("attr", K("title")) \o Eq \o GB(Ev) \o Semi>>, <<"c lazy attr:", I("Cc") \o Dr("attr", K("title")) \o Eq \o GS(Ev) \o Semi>>,
     <<"c style:", I("Cc") \o Dr("style", K("c")) \o Eq \o GS(Ev) \o Semi>>, <<"c on:", I("Cc") \o Dr("on", K("click")) \o Eq \o GB(Call("eh")) \o Semi>>,
     <<"c use:", I("Cc") \o Dr("use", K("d1")) \o Eq \o GB(Ev) \o Semi>>, <<"c spread", I("Cc") \o Spreads[1] \o Semi>>,
     <<"slot prop", I("Cs") \o GB(Sl("SlotA") \o Kv("a", GB(Ev)) \o Semi)>>, <<"slot lazy", I("Cs") \o GB(Sl("SlotA") \o Kv("fa", GS(Ev)) \o Semi)>>,
     <<"const", FmtVal(Forms[1])>>, <<"logged", FmtVal(Forms[6])>>, <<"logged 2", FmtVal(Forms[7])>>, <<"logged 3", FmtVal(Forms[8])>>,
     <<"logged attr", K("p") \o Kv("title", FmtVal(Forms[6])) \o Semi>>, <<"logged data", K("p") \o Kv("data-x", FmtVal(Forms[13])) \o Semi>>,
     <<"logged style:", K("p") \o Dr("style", K("c")) \o Eq \o FmtVal(Forms[6]) \o Semi>>, <<"logged prop", I("Cc") \o Kv("fa", FmtVal(Forms[6])) \o Semi>>,
     <<"logged eager", GB(FmtMac(Forms[6]))>>, <<"logged lazy", GS(FmtMac(Forms[7]))>>,
     <<"let", GB(Exprs[2])>>, <<"lazy let", GS(Exprs[2])>>, <<"seq", GB(Exprs[3])>>, <<"lazy seq", GS(Exprs[3])>>, <<"if", GB(Exprs[7])>>, <<"lazy if", GS(Exprs[6])>>,
     <<"lazy ref", K("x-el") \o Kv("ref", GB(Call("er"))) \o Semi>>,
     <<"slot kid", I("Cs") \o GB(Sl("SlotA") \o GB(GB(Ev)))>>, <<"format", GS(FormatM(2))>>, <<"closure", GB(MoveC(Ev))>> >>
CatC10 ==
  Fl(<<
    Cross(LAMBDA p, e : C(e[1], Parent(p, e[2])), IF Big = 1 THEN AllParents ELSE <<"root", "div{", "Cc(", "Cf{", "Cn{", "Ca{", "slot{">>, EagerAt),
    Cross(LAMBDA a, b : C("pair", K("div") \o GB(a[2] \o b[2])), Few(EagerAt, 12), Few(EagerAt, 12)),
    Map(LAMBDA e : C("two ups", I("Cf") \o GB(I("Cc") \o GP(e[2]))), EagerAt),
    Map(LAMBDA e : C("twice deep", I("Ca") \o Bars(I("x")) \o GB(I("Cf") \o GB(e[2]))), EagerAt),
    Cross(LAMBDA a, b : C("order", K("div") \o a \o b \o GB(GB(Ev))),
          Few(PairDirs, 8), << Kv("title", GB(Ev)), Kv("data-x", GB(Ev)), Kv("class", GB(Ev)), Spreads[1] >>),
    Cross(LAMBDA a, b : C("corder", I("Cc") \o a \o b \o GB(GB(Ev))),
          Few(PairDirs, 8), << Kv("a", GB(Ev)), Dr("attr", K("title")) \o Eq \o GB(Ev), Spreads[1] >>),
    Cross(LAMBDA a, b : C("corder", I("Cc") \o b \o a \o GB(GB(Ev))),
          Few(PairDirs, 9), << Kv("a", GB(Ev)), Dr("attr", K("title")) \o Eq \o GB(Ev), Spreads[1] >>),
    Cross(LAMBDA a, b : C("three", I("Cc") \o a \o b \o a \o Semi),
          << PairDirs[1], PairDirs[2], PairDirs[4], PairDirs[5], PairDirs[6] >>, << PairDirs[1], PairDirs[2], PairDirs[5], Spreads[1], Kv("a", GB(Ev)) >>) >>)

---------------------------------------------------------------------------
(* C11, C12, C14 faults *)
\* at a child position; everything after the fault in the same block is well formed
KidFaults ==
  << <<Bad(Int("5"))>>, <<Bad(Flt("1.5"))>>, <<Bad(Chr("q"))>>, <<Bad(Id("true"))>>, <<Bad(Id("false"))>>, <<Bad(P("-")), Int("5")>>,
     <<Bad(P(";"))>>, T("ok") \o <<Bad(P(";"))>>, K("p") \o Semi \o <<Bad(P(";"))>>,
     <<Bad(Id("div")), Bad(Str("s"))>>, K("p") \o Kv("title", T("a")) \o Semi \o <<Bad(Id("b")), Bad(Str("x"))>>,
     K("p") \o I("title") \o <<P("="), Bad(P(";"))>>, I("Cc") \o I("a") \o <<P("="), Bad(P(";"))>>,
     K("p") \o Dr("class", I("x")) \o <<P("="), Bad(P(";"))>>,
     <<Bad(Id("g"))>> \o GS(Ev), <<Bad(Id("g"))>> \o GS(<<>>), <<Bad(Id("ff"))>> \o GS(T("")),
     K("p") \o Kv("title", <<Bad(Id("g"))>> \o GS(<<>>)) \o Semi, I("Cc") \o Kv("a", <<Bad(Id("g"))>> \o GS(<<>>)) \o Semi,
     K("p") \o Dr("class", I("c")) \o Eq \o <<Bad(Id("g"))>> \o GS(<<>>) \o Semi, I("Cs") \o GB(Sl("SlotA") \o Kv("a", <<Bad(Id("g"))>> \o GS(<<>>)) \o Semi),
     I("Cc") \o Dr("attr", I("title")) \o Eq \o <<Bad(Id("g"))>> \o GS(<<>>) \o Semi, K("p") \o Kv("data-x", <<Bad(Id("g"))>> \o GS(T("a"))) \o Semi,
     K("p") \o Kv("title", <<Bad(Id("h"))>> \o GS(Fmt(1))) \o Semi, <<Bad(Id("F"))>> \o GS(Fmt(1)),
     I("Cc") \o Kv("a", <<Bad(Id("ff"))>> \o GS(Fmt(1))) \o Semi, K("p") \o Dr("style", I("color")) \o Eq \o <<Bad(Id("g"))>> \o GS(Ev) \o Semi,
     I("Cc") \o Dr("attr", I("title")) \o Eq \o <<Bad(Id("g"))>> \o GS(Ev) \o Semi, <<Bad(Raw("f"))>> \o GS(Fmt(1)),
     K("p") \o <<Bad(Id("foo")), P(":"), Id("x"), P("=")>> \o GB(Ev) \o Semi,
     I("Cc") \o <<Bad(Id("foo")), P(":"), Id("x"), P("=")>> \o GB(Ev) \o GB(T("k")),
     K("p") \o <<Bad(Id("attr")), P(":"), Id("x"), P("=")>> \o GB(Ev) \o Semi,
     K("p") \o <<Bad(Id("clone")), P(":"), Id("k1")>> \o GB(T("k")),
     K("p") \o Dr("class", I("x") \o <<P(":"), Bad(Id("m"))>>) \o Eq \o I("true") \o Semi,
     K("p") \o Dr("on", I("click") \o <<P(":"), Bad(Id("once"))>>) \o Eq \o GB(Call("eh")) \o Semi,
     I("Cc") \o Dr("use", I("d0") \o <<P(":"), Bad(Id("m"))>>) \o Semi,
     I("Cc") \o Dr("on", <<Bad(Str("click"))>>) \o Eq \o GB(Call("eh")) \o Semi,
     K("p") \o Dr("use", <<Bad(Str("d0"))>>) \o Semi,
     I("Cc") \o Dr("clone", I("k1")) \o <<P("="), Bad(Str("x"))>> \o GB(T("t")),
     K("p") \o <<Bad(P("|")), Id("x"), P("|")>> \o GB(T("t")),
     I("Ca") \o Bars(I("x")) \o <<Bad(P(";"))>>,
     K("div") \o GP(<<Id("slot"), P(":"), Bad(Id("SlotA"))>> \o Semi),
     I("Cs") \o GB(<<Id("slot"), P(":"), Bad(Id("slot_a"))>> \o Semi),
     I("Cs") \o GB(Sl("SlotA") \o <<Bad(P("."))>> \o K("c") \o Semi), I("Cs") \o GB(Sl("SlotA") \o <<Bad(Id("class")), P(":"), Id("c")>> \o Semi),
     K("p") \o K("data") \o <<P("-"), Bad(Raw("x"))>> \o Eq \o T("v") \o Semi,
     K("p") \o <<P("."), Id("a"), P("-"), Bad(Raw("b"))>> \o Semi, <<Id("x"), P("-"), Bad(Raw("el"))>> \o Semi,
     K("p") \o GB(<<Id("data"), P("-"), Bad(Raw("x"))>>) \o Semi,
     I("Cs") \o GB(Sl("SlotB") \o GB(Sl("SlotA") \o <<Bad(Id("use")), P(":"), Id("d0")>> \o Semi)) >>
\* these swallow the rest of their block
BlockFaults ==
  << <<Bad(P("@"))>>, <<Bad(P("="))>> \o T("x"), <<Bad(P("|")), Id("x"), P("|")>>, <<Bad(P(","))>>, <<Bad(P("."))>> \o K("c"), <<Bad(P("#"))>> \o K("c"),
     <<Bad(P("?"))>>, <<Bad(P("<")), Id("div"), P(">")>>, <<Bad(P(":"))>>, <<Bad(P("&"))>> \o T("x"), <<Bad(P("-"))>> \o T("x"),
     <<Bad(P("-")), P("-")>>, PathT(<<"m">>) \o <<J(":"), P(":"), Bad(Int("5"))>>, <<J(":"), P(":"), Bad(Str("x"))>>,
     <<Id("slot"), P(":"), Bad(Str("x"))>>, <<Id("slot"), P(":"), Bad(P("@"))>>,
     <<Bad(Id("p")), P(".")>> \o K("c") \o <<Bad(P("="))>> \o <<>>, I("Ca") \o <<Bad(P("|")), Id("x")>> \o GB(T("t")),
     <<Bad(Id("f")), Bad(P("!"))>> >>
\* at the end of a block
EndFaults ==
  << <<Bad(Id("p"))>>, <<Bad(Id("p")), P(".")>> \o K("c"), <<Bad(Id("Cc")), Id("a"), P("=")>> \o T("x"), <<Bad(Id("p")), Id("title"), Bad(P("="))>>,
     <<Bad(Id("m")), J(":"), P(":"), Id("Cm")>>, <<Bad(Id("x")), P("-"), Id("el"), Id("data-x")>>, <<Bad(Id("Cc"))>> \o GB(I("a")),
     <<Bad(Id("p")), Id("class"), P(":"), Id("x")>> >>
\* these end the whole call
CallFaults ==
  << K("p") \o <<Id("class"), P(":"), Bad(P("="))>> \o T("x") \o Semi, K("p") \o <<Id("class"), P(":"), Bad(P(";"))>>,
     I("Cc") \o <<Id("on"), P(":"), Bad(Int("5")), P("=")>> \o GB(Ev) \o Semi, K("p") \o <<Id("on"), P(":"), Id("click"), P(":"), Bad(P("="))>> \o GB(Ev) \o Semi,
     K("p") \o <<Id("style"), P(":")>> \o GB(<<Id("a"), Bad(Id("b"))>>) \o Semi, K("p") \o <<Id("style"), P(":")>> \o GB(<<Bad(Str("a"))>>) \o Semi,
     K("p") \o <<Id("foo"), P(":"), Bad(P("."))>> \o K("x") \o Semi, I("Cc") \o <<Id("attr"), P(":"), Bad(Opn("("))>> \o <<Cls("(")>> \o Semi,
     K("p") \o <<Id("class"), P(":"), [Opn("{") EXCEPT !.b = "!)"], Cls("{")>> \o Semi >>
FaultParents == <<"div{", "div(", "g{", "x-el(", "Cc{", "Cc(", "Cf{", "Ca{", "slot{", "slot(", "slotfn{", "sel{">>
AllRest == KidFaults \o BlockFaults
CatFaults ==
  Fl(<<
    Cross(LAMBDA p, f : C("fault", Parent(p, IF p = "root" THEN f ELSE T("a") \o f)), <<"root">> \o FaultParents, KidFaults \o BlockFaults \o EndFaults \o CallFaults),
    Cross(LAMBDA p, f : C("fault", Parent(p, GB(Ev) \o K("i") \o Semi \o f)), <<"root">> \o FaultParents, KidFaults \o BlockFaults \o EndFaults \o CallFaults),
    Cross(LAMBDA p, f : C("fault", Parent(p, f \o K("i") \o Semi \o GB(Ev))), <<"root">> \o FaultParents, KidFaults \o BlockFaults \o CallFaults),
    Cross3(LAMBDA p, q, f : C("fault", Parent(p, T("z") \o Parent(q, T("a") \o f) \o K("i") \o Semi)),
           Few(<<"root", "div{", "Cc(", "slot{", "Ca{">>, IF Big = 1 THEN 5 ELSE 2), Few(FaultParents, IF Big = 1 THEN 12 ELSE 5),
           KidFaults \o BlockFaults \o EndFaults) >>)
\* several faults in one call: all are reported
Sib(f) == K("div") \o GB(T("a") \o f)
SibC(f) == I("Cc") \o GP(f)
CatC14 ==
  Fl(<<
    Cross(LAMBDA f, g : C("fault", Sib(f) \o SibC(g)), KidFaults \o BlockFaults \o EndFaults, KidFaults \o BlockFaults \o EndFaults),
    Cross(LAMBDA f, g : C("fault", f \o g), KidFaults, Few(AllRest, IF Big = 1 THEN 99 ELSE 20)),
    Cross(LAMBDA f, g : C("fault", I("Cs") \o GB(Sl("SlotA") \o GB(T("a") \o f) \o GB(Ev) \o K("p") \o GP(g))), Few(KidFaults, 24), Few(AllRest, 30)),
    Cross(LAMBDA f, g : C("fault", K("p") \o GB(T("a") \o f) \o g), EndFaults \o BlockFaults, CallFaults),
    Map(LAMBDA f : C("fault", f \o Sib(f) \o SibC(f) \o I("Ca") \o Bars(I("x")) \o GB(T("a") \o f)), KidFaults) >>)

---------------------------------------------------------------------------
(* C16 the top level *)
RootAtoms == << T("t1"), GB(Ev), K("span") \o Semi, I("Cc") \o GB(T("k")), FV(1), GS(Ev), K("x-el") \o GP(T("w")), I("Cz") \o Semi >>
CatC16 ==
  Fl(<<
    Map(LAMBDA s : C("roots", Fl(s)), SeqsUpTo(RootAtoms, IF Big = 1 THEN 4 ELSE 3)),
    Map(LAMBDA n : C("count", Fl([i \in 1..n |-> RootAtoms[(i % 8) + 1]])), [n \in 1..26 |-> n]),
    Map(LAMBDA p : C("one " \o p, Parent(p, T("a") \o GB(Ev))), SubSeq(AllParents, 2, Len(AllParents))),
    Cross(LAMBDA a, b : C("fault", a \o <<Id("slot"), P(":"), Bad(Id("SlotA"))>> \o b), RootAtoms, << Semi, GB(T("x")) >>),
    Cross(LAMBDA a, b : C("fault", <<Id("slot"), P(":"), Bad(Id("SlotA"))>> \o b \o a), RootAtoms, << Semi, GB(T("x")) >>),
    Map(LAMBDA b : C("fault", <<Bad(Id("slot")), P(":"), Id("SlotA")>> \o b), << Semi, GB(T("x")), GP(<<>>) >>),
    Map(LAMBDA a : C("slot elem", a), << K("slot") \o Semi, K("slot") \o GB(T("x")), K("slot") \o Kv("name", T("n")) \o Semi,
        K("slot") \o <<P(".")>> \o K("c") \o Semi, K("div") \o GB(K("slot") \o Semi), T("a") \o K("slot") \o GB(T("x")) >>) >>)

---------------------------------------------------------------------------
(* C17 kebab-case names *)
Segs == << Id("a"), Id("type"), Int("1"), P("-"), Id("x_y"), Id("B2") >>
KebStart(s) == s # <<>> /\ (s[1].k = "id" \/ (Len(s) > 1 /\ IsP(s[1], "-")))
\* two segments in a row are one name only if a hyphen is between them
RECURSIVE OneName(_)
OneName(s) == Len(s) < 2 \/ ((IsP(s[1], "-") \/ IsP(s[2], "-")) /\ OneName(Tail(s)))
Names(n) == SelectSeq(SeqsUpTo(Few(Segs, 4), n), LAMBDA s : KebStart(s) /\ OneName(s))
KebUses == << 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12 >>
KebUse(i, s) ==
  CASE i = 1 -> K("div") \o Dr("class", s) \o Eq \o I("true") \o Semi
    [] i = 2 -> K("x-el") \o Kv("id", T("q")) \o s \o Eq \o T("v") \o Semi
    [] i = 3 -> K("div") \o <<P(".")>> \o s \o Semi
    [] i = 4 -> K("div") \o <<P("#")>> \o s \o GB(T("z"))
    [] i = 5 -> I("Cc") \o <<P(".")>> \o s \o <<P("#")>> \o s \o Semi
    [] i = 6 -> K("div") \o Dr("style", s) \o Eq \o T("v") \o Semi
    [] i = 7 -> K("div") \o Dr("prop", s) \o Eq \o T("v") \o Semi
    [] i = 8 -> I("Cc") \o Dr("class", s) \o Semi
    [] i = 9 -> K("svg") \o s \o Semi
    [] i = 10 -> <<Id("w"), P("-")>> \o s \o Semi
    [] i = 11 -> I("Cc") \o Dr("attr", <<Id("data"), P("-")>> \o s) \o Eq \o T("v") \o Semi
    [] i = 12 -> K("div") \o <<Id("data"), P("-")>> \o s \o Eq \o T("v") \o <<Id("aria"), P("-"), Id("label"), P("=")>> \o T("v") \o Semi
ShortNames == << "id", "some_attr", "data-x", "data-x-1", "a-b-2", "aria-label", "is-red", "key-2", "--my-var", "-my-var", "-x", "a-", "x-y-z",
                 "type", "for", "font-size", "color", "value", "red", "blue-100" >>
\* strings as keys, where they are taken and where they are not
StrKeys == << "", "1", "1a", "0x", " ", "a b", "a-b", "-", "--", "_", "self", "Self", "crate", "super", "type", "r#a", "a:b", "a=b", "'a", "%3", "\"", "title", "click" >>
StrUse == Cross3(LAMBDA h, d, k : C("kw", h \o Dr(d[1], T(IF d[1] = "style" /\ k = " " THEN "s" ELSE k)) \o d[2] \o Semi), << I("Cc"), K("p"), I("Cs") \o <<Opn("{")>> \o Sl("SlotA") >>,
                 << <<"use", <<>>>>, <<"use", Eq \o GB(Ev)>>, <<"on", Eq \o GB(Call("eh"))>>, <<"attr", Eq \o T("v")>>, <<"clone", <<>>>>, <<"class", Eq \o GB(Call("et"))>>,
                    <<"style", Eq \o GB(Ev)>>, <<"prop", Eq \o GB(Ev)>>, <<"foo", Eq \o GB(Ev)>> >>, StrKeys)
CatC17 ==
  Fl(<<
    StrUse,
    Cross(LAMBDA i, s : C("name", KebUse(i, s)), KebUses, Names(IF Big = 1 THEN 4 ELSE 3)),
    Cross(LAMBDA i, s : C("long", KebUse(i, s)), KebUses, Map(K, << "a-b-c-d-e", "--a-1--b", "a-1-2-3", "x--", "data-a1-b2", "-1", "--1-a" >> \o OddKeb)),
    Cross(LAMBDA i, s : C("plain", KebUse(i, s)), KebUses, Map(K, OddPlain)),
    Map(LAMBDA s : C("shortodd", K("x-el") \o GB(K(s)) \o Semi), ShortOdd), Map(LAMBDA s : C("shortodd", K("p") \o Dr("style", GB(K(s))) \o Semi), ShortOdd),
    Map(LAMBDA k : C("propodd", I("Co") \o k \o Eq \o T("v") \o Semi), CoKeys), Map(LAMBDA k : C("propodd", I("Co") \o k \o Semi), CoKeys),
    Map(LAMBDA s : C("short", K("x-el") \o GB(K(s)) \o Semi), ShortNames),
    Map(LAMBDA s : C("shortp", K("div") \o Dr("prop", GB(K(s))) \o Semi), ShortNames),
    Map(LAMBDA s : C("shorts", K("div") \o Dr("style", GB(K(s))) \o Semi), ShortNames),
    Map(LAMBDA s : C("shortc", K("div") \o Dr("class", GB(K(s))) \o Semi), << "red", "is-red", "blue-100", "off", "hidden" >>),
    Map(LAMBDA s : C("shorta", I("Cc") \o Dr("attr", GB(K(s))) \o Semi), << "data-x", "title", "aria-label", "data-x-1", "x-y-z", "id" >>),
    Map(LAMBDA s : C("shortprop", I("Cc") \o GB(K(s)) \o Semi), << "a", "some-attr", "a-b-2", "type", "class", "id", "some_attr" >>),
    Map(LAMBDA s : C("raw", s), << K("div") \o <<Raw("title"), P("=")>> \o T("v") \o Semi, K("div") \o <<P("."), Raw("type")>> \o Semi,
        I("Cc") \o <<Raw("type"), P("=")>> \o T("v") \o Semi, <<Raw("div")>> \o Semi, K("x-el") \o <<Raw("for"), P("-"), Id("x"), P("=")>> \o T("v") \o Semi,
        K("div") \o <<Id("class"), P(":"), Raw("type"), P("=")>> \o I("true") \o Semi >>),
    Cross(LAMBDA i, s : C("fault", KebUse(i, s)), <<1, 2, 3, 4, 6, 7, 8, 9, 10>>,
          << <<Id("a"), P("-"), Bad(Raw("b"))>>, <<Id("a"), P("-"), Bad(Raw("b")), P("-"), Bad(Raw("c"))>>, <<P("-"), Bad(Raw("x"))>>,
             <<Id("a"), P("-"), Int("1"), P("-"), Bad(Raw("for"))>> >>),
    Map(LAMBDA s : C("use", K("div") \o Dr("use", s) \o Eq \o T("v") \o Semi), << K("dd-2"), K("dd_2"), K("d1") >>) >>)

---------------------------------------------------------------------------
(* C18 two spellings of the same thing *)
CurlyParen == << T("a"), GB(Ev), K("p") \o GB(T("b")), <<>>, T("a") \o GB(Ev), I("Cc") \o Semi >>
BodyHeads == << K("div"), K("svg"), K("x-el"), K("mi"), I("Cc"), I("Cf"), PathT(<<"m", "Cm">>), I("Cg") \o Gen(I("G1")),
                I("Ca") \o Bars(I("x")), I("C2") \o Bars(<<Id("x"), P(","), Id("y")>>), K("p") \o <<P(".")>> \o K("c"), I("Cc") \o I("a") >>
AltC(l, a, b) == C(l, <<Alt(a, b)>>)
CatC18 ==
  Fl(<<
    Cross(LAMBDA h, b : AltC("braces", h \o GB(b), h \o GP(b)), BodyHeads, CurlyParen),
    Map(LAMBDA b : AltC("slot braces", I("Cs") \o GB(Sl("SlotA") \o GB(b)), I("Cs") \o GP(Sl("SlotA") \o GP(b))), CurlyParen),
    Map(LAMBDA h : AltC("semi", h \o Semi, h \o GB(<<>>)), SubSeq(BodyHeads, 1, 8) \o SubSeq(BodyHeads, 11, 12)),
    Map(LAMBDA p : AltC("brackets " \o p, Parent(p, GS(Ev)), Parent(p, GB(MoveC(Ev)))), AllParents),
    Cross(LAMBDA p, x : AltC("forms " \o p, Parent(p, FmtVal(x)), Parent(p, GB(MoveC(FmtMac(x))))), <<"root", "div{", "Cc(">>, GoodForms),
    Cross(LAMBDA h, x : AltC("vforms", h \o FmtVal(x) \o Semi, h \o GB(MoveC(FmtMac(x))) \o Semi),
        << K("p") \o I("title") \o Eq, K("p") \o K("data-x") \o Eq, K("p") \o I("class") \o Eq, I("Cc") \o I("fa") \o Eq, I("Cc") \o Dr("attr", I("title")) \o Eq >>, GoodForms),
    Cross(LAMBDA h, x : AltC("vexprs", h \o GS(x) \o Semi, h \o GB(MoveC(GB(x))) \o Semi),
        << K("p") \o I("title") \o Eq, K("x-el") \o K("data-x") \o Eq, I("Cc") \o I("fa") \o Eq, I("Cc") \o Dr("style", I("c")) \o Eq >>, Exprs),
    Cross(LAMBDA p, x : AltC("exprs " \o p, Parent(p, GS(x)), Parent(p, GB(MoveC(GB(x))))), <<"root", "div{", "Cc(">>, Exprs),
    Cross(LAMBDA h, k : AltC("oddclass", h \o <<P(".")>> \o K(k) \o Semi, h \o Dr("class", K(k)) \o Eq \o I("true") \o Semi), << K("p"), I("Cc") >>, OddNames),
    Cross(LAMBDA h, k : AltC("oddid", h \o <<P("#")>> \o K(k) \o Semi, h \o I("id") \o Eq \o T(k) \o Semi), << K("p"), K("x-el") >>, OddNames),
    Map(LAMBDA k : AltC("oddshort", K("x-el") \o GB(K(k)) \o Semi, K("x-el") \o K(k) \o Eq \o GB(<<Id(Snake(k))>>) \o Semi), ShortOdd),
    Map(LAMBDA t : AltC("assoc", I("Nsg") \o Gen(t) \o PP \o I("Mk") \o Semi, I("Nsg") \o Turbo(t) \o PP \o I("Mk") \o GB(<<>>)), TyList),
    Cross(LAMBDA p, n : AltC("f " \o p, Parent(p, FV(n)), Parent(p, GB(MoveC(FormatM(n))))), AllParents, <<1, 2>>),
    Map(LAMBDA h : AltC("v", h \o GS(Ev) \o Semi, h \o GB(MoveC(Ev)) \o Semi),
        << K("p") \o I("title") \o Eq, K("p") \o K("data-x") \o Eq, K("p") \o I("class") \o Eq, K("p") \o Dr("style", I("color")) \o Eq,
           K("p") \o Dr("prop", I("value")) \o Eq, I("Cc") \o I("fa") \o Eq, I("Cc") \o Dr("attr", I("title")) \o Eq, I("Cc") \o Dr("style", I("c")) \o Eq >>),
    Map(LAMBDA h : AltC("vf", h \o FV(2) \o Semi, h \o GB(MoveC(FormatM(2))) \o Semi),
        << K("p") \o I("title") \o Eq, K("p") \o K("data-x") \o Eq, K("p") \o I("class") \o Eq, K("p") \o Dr("style", I("color")) \o Eq,
           I("Cc") \o I("fa") \o Eq, I("Cc") \o Dr("attr", I("title")) \o Eq >>),
    Cross(LAMBDA h, k : AltC("short", h \o GB(K(k)) \o Semi, h \o K(k) \o Eq \o GB(<<Id(Snake(k))>>) \o Semi),
          << K("div"), K("x-el"), K("svg") >>, << "id", "data-x", "title", "lang", "aria-label", "data-x-1", "role" >>),
    Map(LAMBDA k : AltC("cshort", I("Cc") \o GB(K(k)) \o Semi, I("Cc") \o K(k) \o Eq \o GB(<<Id(Snake(k))>>) \o Semi),
        << "a", "b", "some-attr", "a-b-2", "class", "id" >>),
    Cross(LAMBDA h, d : AltC("dshort", h \o Dr(d[1], GB(K(d[2]))) \o Semi, h \o Dr(d[1], K(d[2])) \o Eq \o GB(<<Id(Snake(d[2]))>>) \o Semi),
          << K("div"), K("x-el"), I("Cc"), I("Cg") \o Gen(I("G1")) >>,
          << <<"class", "red">>, <<"class", "is-red">>, <<"style", "color">>, <<"style", "font-size">>, <<"prop", "value">>, <<"on", "click">>, <<"on", "input">> >>),
    Map(LAMBDA k : AltC("ashort", I("Cc") \o Dr("attr", GB(K(k))) \o Semi, I("Cc") \o Dr("attr", K(k)) \o Eq \o GB(<<Id(Snake(k))>>) \o Semi),
        << "title", "data-x", "aria-label", "lang" >>),
    Cross(LAMBDA h, k : AltC("flag", h \o K(k) \o Semi, h \o K(k) \o Eq \o I("true") \o Semi),
          << K("div"), K("x-el"), K("svg") >>, << "hidden", "data-x", "inert", "id" >>),
    Map(LAMBDA k : AltC("cflag", I("Cc") \o K(k) \o Semi, I("Cc") \o K(k) \o Eq \o I("true") \o Semi), << "a", "some-attr", "type", "id" >>),
    Cross(LAMBDA h, k : AltC("class", h \o <<P(".")>> \o K(k) \o Semi, h \o Dr("class", K(k)) \o Eq \o I("true") \o Semi),
          << K("div"), K("x-el"), K("g"), I("Cc"), I("Cf"), PathT(<<"m", "Cm">>) >>, << "c1", "red-2", "-neg", "x_y", "p-1-2" >>),
    Cross(LAMBDA h, k : AltC("id", h \o <<P("#")>> \o K(k) \o Semi, h \o I("id") \o Eq \o T(k) \o Semi),
          << K("div"), K("x-el"), K("g") >>, << "i1", "the-id", "n-3" >>),
    Map(LAMBDA k : AltC("cid", I("Cc") \o <<P("#")>> \o K(k) \o Semi, I("Cc") \o Dr("attr", I("id")) \o Eq \o T(k) \o Semi), << "i1", "the-id", "n-3" >>),
    Map(LAMBDA k : AltC("cclass", I("Cc") \o Dr("class", K(k)) \o Semi, I("Cc") \o Dr("class", K(k)) \o Eq \o I("true") \o Semi), << "c1", "red-2" >>),
    Cross(LAMBDA h, t : AltC("turbofish", h \o Gen(t) \o Semi, h \o Turbo(t) \o Semi), GenHeads, TyList),
    Map(LAMBDA k : AltC("snake", I("Cc") \o K(k) \o Eq \o GB(Ev) \o Semi, I("Cc") \o K(Snake(k)) \o Eq \o GB(Ev) \o Semi), << "some-attr", "a-b-2" >>),
    Map(LAMBDA k : AltC("lit", K("div") \o GB(T(k)), K("div") \o GB(GB(T(k)))), << "x", "a & b", "<i>" >>),
    Map(LAMBDA v : AltC("litv", K("p") \o Kv("title", v) \o Semi, K("p") \o Kv("title", GB(v)) \o Semi), << T("x"), <<Int("3")>>, I("true"), <<P("-"), Int("2")>> >>) >>)

---------------------------------------------------------------------------
(* Words that are special to Rust or to the macro, in every place of a name.  *)
(* (The machine says which of them are refused.)                             *)
Words == << "type", "self", "Self", "super", "crate", "_", "async", "try", "gen", "union", "dyn", "macro_rules", "mut", "ref", "where", "let",
            "in", "if", "else", "match", "return", "break", "move", "box", "yield", "abstract", "static", "extern", "fn", "impl", "use", "as", "await",
            "const", "continue", "enum", "for", "loop", "mod", "pub", "struct", "trait", "unsafe", "while", "become", "do", "final", "macro",
            "override", "priv", "typeof", "unsized", "virtual", "auto", "default", "raw", "safe", "true", "false", "f", "slot", "class", "style",
            "prop", "attr", "on", "clone", "mview", "Cc", "div", "x", "__", "r" >>
NeverRaw == {"self", "Self", "super", "crate", "_"}
WordToks == Map(Id, Words) \o Map(Raw, SelectSeq(Words, LAMBDA w : w \notin NeverRaw))
Dash == <<P("-")>>
WordUses == 1..42
WordUse(i, w) ==
  CASE i = 1 -> w \o Semi
    [] i = 2 -> w \o Dash \o I("a") \o GB(T("z"))
    [] i = 3 -> I("a") \o Dash \o w \o GB(T("z"))
    [] i = 4 -> K("x-el") \o w \o Eq \o T("v") \o Semi
    [] i = 5 -> K("div") \o w \o Eq \o GB(Ev) \o Semi
    [] i = 6 -> K("svg") \o w \o GB(<<>>)
    [] i = 7 -> K("p") \o <<P(".")>> \o w \o GB(T("z"))
    [] i = 8 -> I("Cc") \o <<P("#")>> \o w \o Semi
    [] i = 9 -> K("p") \o Dr("class", w) \o Eq \o I("true") \o Semi
    [] i = 10 -> K("p") \o Dr("style", w) \o Eq \o T("v") \o Semi
    [] i = 11 -> K("p") \o Dr("prop", w) \o Eq \o GB(Ev) \o Semi
    [] i = 12 -> I("Cc") \o Dr("attr", w) \o Eq \o T("v") \o Semi
    [] i = 13 -> K("p") \o Dr("use", w) \o Semi
    [] i = 14 -> K("p") \o Dr("on", w) \o Eq \o GB(Call("eh")) \o Semi
    [] i = 15 -> K("p") \o Dr("on", <<Id("click"), P(":")>> \o w) \o Eq \o GB(Call("eh")) \o Semi
    [] i = 16 -> I("Cc") \o Dr("clone", w) \o GB(T("z"))
    [] i = 17 -> K("p") \o w \o <<P(":")>> \o K("x") \o Eq \o T("v") \o Semi
    [] i = 18 -> I("Cc") \o w \o <<P(":")>> \o K("x") \o Eq \o T("v") \o GB(T("z"))
    [] i = 19 -> I("Cs") \o GB(<<Id("slot"), P(":")>> \o w \o GB(T("z")))
    [] i = 20 -> K("x-el") \o GB(w) \o Semi
    [] i = 21 -> I("Cc") \o GB(w) \o GB(T("z"))
    [] i = 22 -> K("p") \o Dr("class", GB(w)) \o Semi
    [] i = 23 -> K("p") \o Dr("style", GB(w)) \o Semi
    [] i = 24 -> I("Cc") \o Dr("prop", GB(w)) \o Semi
    [] i = 25 -> K("p") \o Dr("on", GB(w)) \o Semi
    [] i = 26 -> I("Cc") \o Dr("attr", GB(w)) \o Semi
    [] i = 27 -> K("x-el") \o w \o Dash \o K("x-1") \o Eq \o T("v") \o Semi
    [] i = 28 -> K("x-el") \o I("x") \o Dash \o w \o Eq \o T("v") \o Semi
    [] i = 29 -> K("x-el") \o I("x") \o Dash \o w \o Dash \o I("y") \o GP(T("z"))
    [] i = 30 -> I("Cc") \o w \o Eq \o GB(Ev) \o Semi
    [] i = 31 -> I("Co") \o w \o GB(T("z"))
    [] i = 32 -> I("kit") \o PP \o w \o GB(T("z"))
    [] i = 33 -> w \o PP \o I("Cc") \o GB(T("z"))
    [] i = 34 -> PP \o w \o PP \o I("Cc") \o Semi
    [] i = 35 -> I("Cg") \o Gen(w) \o Semi
    [] i = 36 -> I("Nsg") \o Turbo(w) \o PP \o I("Mk") \o Semi
    [] i = 37 -> I("Ca") \o Bars(w) \o GB(T("z"))
    [] i = 38 -> I("C2") \o Bars(<<Id("y"), P(",")>> \o w) \o GB(T("z"))
    [] i = 39 -> K("p") \o GB(w \o GS(<<Str("{}"), P(",")>> \o Ev))
    [] i = 40 -> K("p") \o I("title") \o Eq \o w \o GS(T("z")) \o Semi
    [] i = 41 -> w \o <<P(":")>> \o I("SlotA") \o GB(T("z"))
    [] i = 42 -> K("p") \o I("title") \o Eq \o w \o Semi
CatKW == Cross(LAMBDA i, w : C("kw", WordUse(i, <<w>>)), [i \in WordUses |-> i], Few(WordToks, 200))
         \o Map(LAMBDA w : C("kw", <<w>> \o <<P("-")>> \o <<w>> \o GB(T("z"))), WordToks)

---------------------------------------------------------------------------
(* C20 what surrounds the call: nothing here depends on it. Names that an     *)
(* expansion might use for itself, in every place of a value, and a bit of     *)
(* everything.                                                             *)
NameUse(n) ==
  << GB(I(n)), GS(I(n)), <<Id("f")>> \o GS(T("{" \o n \o "}")), K("p") \o Kv("title", GB(I(n))) \o Kv("data-x", GS(I(n))) \o GB(GB(I(n))),
     K("x-el") \o GB(I(n)) \o Kv("class", GB(I(n))) \o Dr("style", K("color")) \o Eq \o GS(I(n)) \o Dr("prop", K("value")) \o Eq \o GB(I(n)) \o Semi,
     I("Cc") \o Kv("a", GB(I(n))) \o Kv("fa", GS(I(n))) \o Dr("attr", K("title")) \o Eq \o GB(I(n)) \o CloneK \o GB(KU \o GB(I(n))),
     I("Cc") \o Dr("style", K("color")) \o Eq \o GB(I(n)) \o Dr("use", K("d1")) \o Eq \o GB(I(n)) \o GP(I("Cn") \o GB(GS(I(n)))),
     I("Ca") \o CloneK \o Bars(I(n)) \o GB(GB(I(n)) \o KU), I("C2") \o Bars(<<Id("x"), P(","), Id(n)>>) \o GB(K("p") \o Kv("title", GB(I(n))) \o GB(GS(I(n)))),
     I("Cs") \o GB(Sl("SlotA") \o Kv("a", GB(I(n))) \o CloneK \o GB(GB(I(n)) \o KU) \o GB(I(n)) \o Sl("SlotFn1") \o Bars(I("x")) \o GB(X1 \o GB(I(n)))),
     I("Cc") \o Dr("clone", I(n)) \o GB(GB(I(n)) \o K("p") \o GB(GS(I(n)))), I("Ca") \o Dr("clone", I(n)) \o Bars(I("x")) \o GB(X1 \o GB(I(n))) >>
Kinds20 ==      \* everything that expands to something of its own
  << K("div") \o Semi, K("svg") \o GB(K("circle") \o Semi), K("math") \o GB(K("mi") \o GB(T("x"))), K("my-el") \o <<P(".")>> \o K("c") \o Semi, K("use") \o Semi,
     K("input") \o K("checked") \o Semi, K("p") \o Dr("use", K("d0")) \o Semi, K("p") \o Dr("use", K("d1")) \o Eq \o GB(Ev) \o Semi, I("Cc") \o Dr("use", K("d0")) \o Semi,
     I("Cc") \o Dr("use", K("d1")) \o Eq \o GB(Ev) \o Semi, K("p") \o Dr("on", <<Id("click"), P(":"), Id("undelegated")>>) \o Eq \o GB(Call("eh")) \o Semi,
     K("p") \o Dr("on", I("keydown")) \o Eq \o GB(Call("eh")) \o Semi,
     I("Cc") \o Dr("on", <<Id("click"), P(":"), Id("undelegated")>>) \o Eq \o GB(Call("eh")) \o Semi, I("Cc") \o Dr("on", I("click")) \o Eq \o GB(Call("eh")) \o Semi,
     I("Cc") \o Dr("class", K("c")) \o Eq \o GB(Call("et")) \o Semi, I("Cc") \o Dr("style", K("c")) \o Eq \o GB(Ev) \o Semi, I("Cc") \o Dr("prop", K("c")) \o Eq \o GB(Ev) \o Semi,
     I("Cc") \o Dr("attr", K("title")) \o Eq \o GB(Ev) \o Semi, I("Cc") \o Dr("attr", K("data-q")) \o Eq \o GB(Ev) \o Semi, I("Cc") \o Dr("attr", I("class")) \o Eq \o T("k") \o Semi,
     I("Cc") \o <<P("#")>> \o K("i") \o <<P(".")>> \o K("c") \o Semi, K("p") \o <<P("#")>> \o K("i") \o <<P(".")>> \o K("c") \o Semi, K("x-el") \o Kv("any", GB(Ev)) \o Semi,
     K("p") \o Kv("data-x", GS(Ev)) \o Kv("aria-label", T("l")) \o Semi, K("p") \o Spreads[1] \o Semi, I("Cc") \o Spreads[1] \o Semi, K("p") \o Kv("ref", GB(Call("er"))) \o Semi,
     FV(1), FV(2), I("Cc") \o Kv("fa", FV(2)) \o GB(T("t")), I("Cn") \o GB(T("t")), I("Cf") \o GP(T("t")), I("Ca") \o Bars(I("x")) \o GB(GB(I("x"))), I("C0") \o Bars(<<>>) \o GB(T("t")),
     I("Cs") \o GB(Sl("SlotA") \o Semi), I("Cs") \o GB(Sl("SlotA") \o GB(T("a")) \o Sl("SlotA") \o GB(T("b")) \o Sl("SlotB") \o GB(Sl("SlotA") \o Semi) \o T("k")),
     I("Cs") \o GB(Sl("SlotFn1") \o Bars(I("x")) \o GB(GB(I("x")))), I("Cr") \o GB(Sl("Solo") \o GB(T("s"))), I("Cg") \o Gen(TyList[4]) \o GB(T("t")), NsgHeads[4] \o Semi,
     PP \o PathT(<<"kit", "m", "nn", "Cm">>) \o Gen(I("G1")) \o Semi, I("Co") \o K("a--b") \o Eq \o GB(Ev) \o Semi, T("t"), GB(Ev), GS(Ev), <<>> >>
CatC20 ==
  Fl(<< Cross(LAMBDA n, i : C("names", NameUse(n)[i]), Few(LikelyNames, 18), [i \in 1..12 |-> i]),
        Cross(LAMBDA p, x : C("kinds", Parent(p, x)), AllParents, Kinds20),
        Cross(LAMBDA x, y : C("kinds2", K("div") \o GB(x \o y)), Few(Kinds20, 14), Few(Kinds20, 14)) >>)

---------------------------------------------------------------------------
(* Damage: one token (or pair of delimiters) deleted, doubled, replaced or   *)
(* another put in its place                                                *)
Junk == << P(";"), P(":"), P("="), P("|"), P("."), P("#"), P("-"), P(","), P("@"), P("!"), P("<"), P(">"),
           Id("zz"), Id("type"), Id("slot"), Id("true"), Raw("raw"), Id("on"), Id("clone"), Id("_"), Id("f"),
           Str("js"), Int("12"), Flt("1.5"), J(":"), J("."), P("&"), P("*"), Chr("q"), P("?"), P("$") >>
Depth0(flat, i) ==    \* the index of the matching marker
  LET RECURSIVE Scan(_, _)
      Scan(j, n) == IF flat[j].k = "open" THEN Scan(j + 1, n + 1)
                    ELSE IF flat[j].k = "close" THEN IF n = 1 THEN j ELSE Scan(j + 1, n - 1)
                    ELSE Scan(j + 1, n)
  IN Scan(i, 0)
Del(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Ins(s, i, t) == SubSeq(s, 1, i - 1) \o <<t>> \o SubSeq(s, i, Len(s))
Other(d) == CASE d = "{" -> "(" [] d = "(" -> "[" [] OTHER -> "{"
Damage(flat, i, how, t) ==
  IF flat[i].k = "open"
  THEN LET j == Depth0(flat, i) IN
       CASE how = 1 -> Del(Del(flat, j), i)                             \* lose the delimiters
         [] how = 2 -> [flat EXCEPT ![i].s = Other(@), ![j].s = Other(@)] \* other delimiters
         [] how = 3 -> SubSeq(flat, 1, i - 1) \o SubSeq(flat, j + 1, Len(flat)) \* lose the group
         [] how = 4 -> SubSeq(flat, 1, i) \o SubSeq(flat, j, Len(flat))   \* empty it
         [] OTHER -> Ins(flat, i, t)
  ELSE IF flat[i].k = "close" THEN Ins(flat, i, t)
  ELSE CASE how = 1 -> Del(flat, i)
         [] how = 2 -> [flat EXCEPT ![i] = t]
         [] how = 3 -> Ins(flat, i, flat[i])
         [] how = 4 -> [flat EXCEPT ![i].f = CASE @ = "j" -> "a" [] @ = "a" -> "j" [] @ = "r" -> "" [] OTHER -> @]
         [] OTHER -> Ins(flat, i, t)

---------------------------------------------------------------------------
(* Every single damage to a number of calls that have everything between them *)
DmgSeeds ==
  << K("p") \o <<P(".")>> \o K("c1") \o <<P("#")>> \o K("i-d") \o Kv("title", T("t")) \o Kv("data-x", GB(Ev)) \o GB(T("a") \o K("b") \o Semi),
     I("Cc") \o Kv("a", GS(Ev)) \o GB(K("some-attr")) \o Dr("class", K("x-y")) \o Eq \o GB(Call("et")) \o K("b") \o GB(GB(Ev)),
     I("Cs") \o GB(Sl("SlotA") \o Kv("a", GB(Ev)) \o GB(T("s")) \o T("k") \o Sl("SlotFn1") \o Bars(I("x")) \o GP(GB(I("x")))),
     I("Ca") \o Dr("clone", I("k")) \o Bars(I("x")) \o GP(GB(I("x")) \o K("p") \o Semi),
     K("input") \o Dr("on", <<Id("click"), P(":"), Id("undelegated")>>) \o Eq \o GB(Call("eh")) \o Dr("prop", T("value")) \o Eq \o T("x") \o Dr("use", I("d1")) \o Eq \o GB(Ev) \o K("checked") \o Semi,
     PathT(<<"m", "Cm">>) \o Kv("a", T("v")) \o Semi \o PP \o PathT(<<"kit", "Cg">>) \o Gen(I("G1")) \o GB(<<>>),
     I("Cg") \o Turbo(<<Id("Gw"), P("<"), Id("G1"), P(">"), P(",")>>) \o GP(FV(2)),
     GB(Ev) \o GS(Ev) \o FV(1) \o T("s") \o K("x-el") \o Semi,
     I("Cc") \o <<P(".")>> \o K("c1") \o <<P("#")>> \o K("i1") \o Dr("attr", K("title")) \o Eq \o T("q") \o Spreads[1] \o Dr("on", GB(I("click"))) \o Semi,
     K("svg") \o GB(K("circle") \o Dr("style", GB(I("color"))) \o Dr("class", T("s t")) \o Eq \o I("true") \o Semi) \o K("math") \o GB(K("mi") \o GB(<<>>)),
     K("div") \o GB(K("div") \o GB(K("p") \o GB(T("deep"))) \o T("x")) \o T("y"),
     K("p") \o Semi \o I("Cc") \o GP(K("b") \o GB(T("q")) \o T("r")) \o K("i") \o K("data-q") \o Semi,
     K("my-el") \o K("--a") \o Eq \o <<P("-"), Int("1")>> \o Semi \o K("p") \o Kv("title", FV(1)) \o Semi,
     I("Cs") \o GB(Sl("SlotB") \o K("a") \o Dr("clone", I("k")) \o GB(Sl("SlotA") \o Semi \o KU) \o Sl("SlotB") \o GP(<<>>)) >>
DmgHows == 5 + 2 * Len(Junk)     \* 1..4; exchange; put in; put in the place
Swap(s, i) == IF i = Len(s) \/ s[i].k \in {"open", "close"} \/ s[i + 1].k \in {"open", "close"} THEN s
              ELSE [s EXCEPT ![i] = s[i + 1], ![i + 1] = s[i]]
OneDamage(s, i, h) ==
  IF h <= 4 THEN Damage(s, i, h, Junk[1])
  ELSE IF h = 5 THEN Swap(s, i)
  ELSE IF h <= 5 + Len(Junk) THEN Damage(s, i, 6, Junk[h - 5])
  ELSE IF s[i].k \in {"open", "close"} THEN Append(s, Junk[h - 5 - Len(Junk)])
  ELSE Damage(s, i, 2, Junk[h - 5 - Len(Junk)])
CatDmg == Fl(Map(LAMBDA s : [j \in 1..(Len(s) * DmgHows) |-> C("kw", OneDamage(s, ((j - 1) \div DmgHows) + 1, ((j - 1) % DmgHows) + 1))], DmgSeeds))

---------------------------------------------------------------------------
(* Deep nesting, long names and texts, and much of everything               *)
RECURSIVE Nest(_, _)            \* ps: the parents, outermost first
Nest(ps, b) == IF ps = <<>> THEN b ELSE Parent(Head(ps), T("<") \o Nest(Tail(ps), b) \o T(">"))
Chain(n, o) == [i \in 1..n |-> AllParents[(((i * o) + i + o) % (Len(AllParents) - 1)) + 2]]
Same(n, p) == [i \in 1..n |-> p]
RECURSIVE RepS(_, _)
RepS(s, n) == IF n = 0 THEN "" ELSE s \o RepS(s, n - 1)
RECURSIVE RepSeq(_, _)
RepSeq(s, n) == IF n = 0 THEN <<>> ELSE s \o RepSeq(s, n - 1)
LongText == RepS("lorem ipsum ", 30)
LongName == "abcdefghijklmnopqrstuvwxyz_0123456789_ABCDEFGHIJ"
LongKeb == << "l" \o RepS("-bcdefghi", 7), RepS("ab-", 20) \o "z", "x-" \o LongName, "q" \o RepS("-1", 15), "data-" \o LongName \o "-y", "--" \o RepS("var-", 11) \o "9" >>
NumKeys(p, n) == [i \in 1..n |-> p \o ToString(i)]
DeepParents == <<"div{", "div(", "g{", "mrow{", "x-el(", "Cc{", "Cc(", "Ca{", "Ct{", "Cg{", "slot{", "slot(", "slotfn{", "sel{">>
RECURSIVE NestTy(_)
NestTy(n) == IF n = 0 THEN I("G1") ELSE <<Id("Gw"), P("<")>> \o NestTy(n - 1) \o <<P(">")>>
Deep ==
  CASE Prof = "C01" ->
       Map(LAMBDA o : C("deep", Nest(Chain(IF Big = 1 THEN 8 ELSE 6, o), GB(Ev) \o T("x") \o K("br") \o Semi)), IF Big = 1 THEN [i \in 1..18 |-> i] ELSE <<1, 4, 6, 9, 12, 15>>)
       \o Map(LAMBDA p : C("deep " \o p, Nest(Same(IF Big = 1 THEN 12 ELSE 9, p), GB(Ev) \o FV(1))), DeepParents)
       \o Map(LAMBDA p : C("long", Parent(p, T(LongText) \o GB(T(LongText)) \o <<Id("f")>> \o GS(T(LongText)))), <<"root", "div{", "Cc(", "slot{">>)
    [] Prof = "C02" ->
       Map(LAMBDA n : C("long", K(n) \o GB(T("t"))), SelectSeq(LongKeb, LAMBDA n : Ch(n, 1) # "-"))
       \o Cross(LAMBDA h, n : C("deep", h \o Gen(NestTy(n)) \o GB(T("t"))), GenHeads, <<3, 6>>)
       \o Map(LAMBDA h : C("deep", h \o Gen(NestTy(4) \o Comma) \o Semi), GenHeads)
       \o Map(LAMBDA x : C("deep", x), << K("p") \o GB(RepSeq(K("x-el") \o Semi \o K("g") \o Semi \o K("mi") \o Semi, 4)),
              Nest(<<"div{", "g{", "x-el(", "mrow{", "div(", "g{", "x-el(", "mrow{">>, K("circle") \o Semi) >>)
    [] Prof = "C03" ->
       Cross(LAMBDA t, k : C("long", K(t) \o Kv(k, T("v")) \o K(k) \o GB(<<>>)), <<"x-el", "svg">>, SelectSeq(LongKeb, LAMBDA k : Ch(k, 1) # "-"))
       \o Map(LAMBDA k : C("long", K("div") \o Kv("id", T("q")) \o Kv(k, GB(Ev)) \o Semi), LongKeb)
       \o Map(LAMBDA t : C("longv", K(t) \o Kv("title", T(LongText)) \o Kv("data-x", GB(T(LongText))) \o Kv("class", T(LongText)) \o GB(<<>>)), <<"p", "x-el", "g">>)
       \o Map(LAMBDA n : C("many", K("x-el") \o Fl(Map(LAMBDA k : Kv(k, GB(Ev)), NumKeys("data-", n))) \o GB(T("k"))), <<15, 20>>)
       \o Map(LAMBDA n : C("many", K("p") \o Fl(Map(LAMBDA k : Kv(k, T("v")), NumKeys("data-", n))) \o K("hidden") \o Semi), <<15, 20>>)
       \o Map(LAMBDA o : C("deep", Nest(Chain(5, o), K("a") \o Kv("href", GB(Ev)) \o Kv("data-z", GS(Ev)) \o K("hidden") \o Semi)), <<2, 5, 8>>)
    [] Prof = "C04" ->
       Map(LAMBDA h : C("long", h \o Kv("a", T(LongText)) \o Semi), OneHeads)
       \o Map(LAMBDA o : C("deep", Nest(Chain(5, o), I("Cc") \o Kv("a", GB(Ev)) \o Kv("some-attr", T("s")) \o K("b") \o Semi)), <<2, 5, 8, 11>>)
    [] Prof \in {"C05", "C06"} ->
       Cross(LAMBDA h, k : C("long", h \o Dr("class", k) \o Eq \o GB(Call("et")) \o Dr("style", k) \o Eq \o GB(Ev) \o Dr("prop", k) \o Eq \o GB(Ev) \o Semi),
             IF Prof = "C05" THEN << K("div"), K("x-el"), K("g") >> ELSE << I("Cc"), I("Cg") \o Gen(I("G1")) >>, Map(K, LongKeb) \o << T(LongText) >>)
       \o Map(LAMBDA h : C("many", h \o Fl(Map(LAMBDA k : Dr("class", K(k)) \o Eq \o GB(Call("et")), NumKeys("c-", 12))) \o RepSeq(Dr("use", I("d0")), 3) \o Semi),
             IF Prof = "C05" THEN << K("div"), K("x-el") >> ELSE << I("Cc"), I("Cf") >>)
       \o Map(LAMBDA o : C("deep", Nest(Chain(5, o), (IF Prof = "C05" THEN K("a") ELSE I("Cc")) \o PairDirs[1] \o PairDirs[2] \o PairDirs[5] \o PairDirs[6] \o GB(T("x")))), <<2, 5, 8, 11>>)
    [] Prof = "C07" ->
       Cross(LAMBDA h, k : C("long", h \o <<P(".")>> \o K(k) \o <<P("#")>> \o K(k) \o Semi), << K("p"), I("Cc"), K("x-el"), K("g") >>, LongKeb)
       \o Map(LAMBDA h : C("many", h \o Fl(Map(LAMBDA k : <<P(".")>> \o K(k), NumKeys("c", 20))) \o GB(T("x"))), << K("p"), I("Cc"), K("x-el") >>)
       \o Map(LAMBDA o : C("deep", Nest(Chain(5, o), K("em") \o SelAtoms[1] \o SelAtoms[3] \o Semi \o I("Cc") \o SelAtoms[2] \o SelAtoms[4] \o Semi)), <<2, 5, 8>>)
    [] Prof = "C08" ->
       Map(LAMBDA n : C("many", I("Cs") \o GB(Fl([i \in 1..n |-> Sl(<<"SlotB", "SlotA", "SlotA">>[(i % 3) + 1]) \o GP(T(ToString(i)))]))), <<16, 24>>)
       \o Map(LAMBDA n : C("deep", Nest(Same(n, "slot{"), I("Cs") \o GB(SlotAtoms[1] \o T("k")))), <<2, 4, 7>>)
       \o Map(LAMBDA n : C("deep", RepSeq(I("Cs") \o <<Opn("(")>> \o Sl("SlotB") \o <<Opn("{")>> \o T("<"), n) \o GB(Ev) \o Sl("SlotA") \o Semi \o RepSeq(T(">") \o <<Cls("{")>> \o Sl("SlotA") \o GB(T("s")) \o <<Cls("(")>>, n)), <<2, 3, 5, 8>>)
       \o Map(LAMBDA o : C("deep", Nest(Chain(5, o), I("Cs") \o GB(SlotAtoms[1] \o T("k") \o SlotAtoms[2]))), <<2, 5, 8>>)
    [] Prof = "C09" ->
       Map(LAMBDA n : C("many", I("Cc") \o RepSeq(CloneK, n) \o GB(KU)), <<4, 8>>)
       \o Map(LAMBDA n : C("deep", Nest(Same(n, "Ca{"), X1)), <<2, 4, 7>>)
       \o Map(LAMBDA n : C("deep", Nest(Same(n, "C2("), X1 \o GB(I("y")))), <<2, 4>>)
       \o Map(LAMBDA n : C("deep", RepSeq(I("Cc") \o CloneK \o <<Opn("{")>> \o T("<"), n) \o KU \o RepSeq(<<Cls("{")>> \o KU, n - 1) \o <<Cls("{")>>), <<2, 4, 7>>)
       \o Map(LAMBDA n : C("deep", RepSeq(I("Ca") \o CloneK \o <<P("|"), Id("x"), P("|")>> \o <<Opn("(")>> \o X1, n) \o KU \o RepSeq(<<Cls("(")>>, n)), <<2, 3>>)
    [] Prof = "C10" ->
       Map(LAMBDA o : C("deep", Nest(Chain(5, o), GB(Ev) \o GS(Ev) \o K("p") \o Kv("title", GB(Ev)) \o Dr("class", K("c")) \o Eq \o GS(Call("et")) \o Semi)), <<1, 3, 5, 7, 9, 11>>)
       \o Map(LAMBDA n : C("deep", Nest(Same(n, "Cf{"), GB(Ev) \o GS(Ev))), <<2, 4>>)
       \o Map(LAMBDA n : C("many", K("div") \o GB(RepSeq(GB(Ev) \o GS(Ev), n))), <<6, 12>>)
    [] Prof \in {"C11", "C12"} ->
       Map(LAMBDA f : C("fault", f \o f \o f \o f), KidFaults)
       \o Cross(LAMBDA o, f : C("fault", Nest(Chain(5, o), T("a") \o f \o GB(Ev))), IF Big = 1 THEN <<1, 2, 3, 5, 8, 11>> ELSE <<2, 9>>, KidFaults)
       \o Cross(LAMBDA o, f : C("fault", Parent("div{", Nest(Chain(4, o), Parent("Cc{", T("a") \o f)))), IF Big = 1 THEN <<1, 2, 3, 5, 8, 11>> ELSE <<3>>, EndFaults)
    [] Prof = "C14" ->
       Map(LAMBDA i : C("fault", Fl([j \in 1..12 |-> KidFaults[((i + (j * 5)) % Len(KidFaults)) + 1]])), [i \in 1..Len(KidFaults) |-> i])
       \o Map(LAMBDA i : C("fault", Nest(Chain(3, i), KidFaults[i] \o Nest(Chain(3, i + 3), KidFaults[((i * 3) % Len(KidFaults)) + 1] \o T("x"))) \o KidFaults[((i * 7) % Len(KidFaults)) + 1]),
              [i \in 1..Len(KidFaults) |-> i])
       \o Map(LAMBDA i : C("fault", Fl([j \in 1..6 |-> Sib(AllRest[((i + (j * 7)) % Len(AllRest)) + 1])])), [i \in 1..Len(AllRest) |-> i])
    [] Prof = "C16" ->
       Map(LAMBDA o : C("deep", T("a") \o Nest(Chain(4, o), T("b")) \o T("c") \o Nest(Chain(3, o + 1), GB(Ev))), <<1, 4, 7, 10>>)
    [] Prof = "C17" ->
       Cross(LAMBDA i, s : C("long", KebUse(i, s)), KebUses, Map(K, LongKeb))
    [] OTHER -> <<>>

\* so deep that work repeated at every level would never end
DeepN == IF Big = 1 THEN 40 ELSE 28
PlainParents == SelectSeq(DeepParents, LAMBDA p : p \notin {"Ca{", "Ct{", "slotfn{"})
LastOpn(s) == CHOOSE i \in 1..Len(s) : s[i].k = "open" /\ \A j \in (i + 1)..Len(s) : s[j].k # "open"
Under(ps, b) ==      \* the body goes inside the last bracket that every parent opens
  LET pre == [i \in 1..Len(ps) |-> LET s == Parent(ps[i], <<>>) IN SubSeq(s, 1, LastOpn(s))]
      post == [i \in 1..Len(ps) |-> LET q == ps[(Len(ps) - i) + 1] s == Parent(q, <<>>) IN SubSeq(s, LastOpn(s) + 1, Len(s))]
  IN Fl(pre) \o b \o Fl(post)
CatDeep ==
  Map(LAMBDA p : C("deep " \o p, Under(Same(DeepN, p), GB(Ev))), PlainParents)
  \o Map(LAMBDA o : C("deep", Under([i \in 1..DeepN |-> PlainParents[(((i * o) + o) % Len(PlainParents)) + 1]], T("x"))), IF Big = 1 THEN <<1, 2, 3, 4, 5, 6, 7, 8>> ELSE <<1, 4, 6>>)
  \o Map(LAMBDA p : C("fault", Under(Same(DeepN, p), KidFaults[1])), DeepParents)
  \o Map(LAMBDA p : C("fault", Under(Same(DeepN, p), KidFaults[7])), DeepParents)
  \o Map(LAMBDA k : C("fault", RepSeq(k, 12)), KidFaults)
  \o Map(LAMBDA x : C("many", x), << K("x-el") \o Fl(Map(LAMBDA k : Kv(k, T("v")), NumKeys("data-", 26))) \o Semi, K("div") \o GB(RepSeq(K("br") \o Semi, 26)),
        K("p") \o Fl(Map(LAMBDA k : <<P(".")>> \o K(k), NumKeys("c", 26))) \o Semi, I("Cg") \o Gen(NestTy(28)) \o Semi >>)

---------------------------------------------------------------------------
Catalogue ==
  (CASE Prof = "C01" -> CatC01 [] Prof = "C02" -> CatC02 [] Prof = "C03" -> CatC03 [] Prof = "C04" -> CatC04
    [] Prof = "C05" -> CatC05 [] Prof = "C06" -> CatC06 [] Prof = "C07" -> CatC07 [] Prof = "C08" -> CatC08
    [] Prof = "C09" -> CatC09 [] Prof = "C10" -> CatC10 [] Prof \in {"C11", "C12"} -> CatFaults
    [] Prof = "C14" -> CatC14 [] Prof = "C16" -> CatC16 [] Prof = "C17" -> CatC17 [] Prof = "C18" -> CatC18
    [] Prof = "KW" -> CatKW [] Prof = "DMG" -> CatDmg [] Prof = "DEEP" -> CatDeep [] Prof = "C20" -> CatC20
    [] OTHER -> <<>>) \o Deep

---------------------------------------------------------------------------
(* Every token sequence over a small alphabet, in a few surroundings *)
Alpha ==
  CASE Prof = "E1" -> << Id("div"), Id("Cc"), Id("slot"), J(":"), P(":"), P("="), P("|"), P("."), P("#"), P("-"), P(";"), Str("s"), Int("1"),
                         Br(<<>>), Pa(<<>>), Sq(<<>>), Id("f"), P("<"), P(">"), Id("%1"), Id("%2") >>
    [] Prof = "E2" -> << Id("a"), Id("class"), J(":"), P(":"), P("="), P("|"), P("."), P("-"), P(";"), Str("s"), Br(<<>>), Br(<<Id("a")>>),
                         Sq(<<Id("a")>>), Br(<<J("."), P("."), Id("a")>>), Raw("b"), Id("%3"), Sq(<<>>) >>
    [] Prof = "E3" -> << Id("slot"), P(":"), Id("SlotA"), Id("x"), P("="), P("|"), P(";"), Str("s"), Br(<<Str("t")>>), P("."), Id("clone"), Id("T%1r") >>
    [] OTHER -> <<>>
Around(p, ts) ==
  CASE Prof = "E1" -> ts
    [] Prof = "E2" -> <<Id(IF p = 0 THEN "div" ELSE "Cc")>> \o ts \o <<P(";")>>
    [] Prof = "E3" -> <<Id("Cs"), Br(ts)>>
    [] OTHER -> ts
RECURSIVE Digits2(_, _, _)
Digits2(i, n, len) == IF len = 0 THEN <<>> ELSE <<(i % n) + 1>> \o Digits2(i \div n, n, len - 1)
Pow(b, e) == b ^ e
EnumCase(p, len, i) == Around(p, MapSeq(LAMBDA j : Alpha[j], Digits2(i, Len(Alpha), len)))
=============================================================================
