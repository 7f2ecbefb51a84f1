//! Test kit: the components, slots, functions and values that generated cases
//! refer to. The TLA+ module `MViewRun` models each of them.
#![allow(clippy::all, non_snake_case, unused)]
use leptos::prelude::*;
use leptos::tachys;
use std::cell::RefCell;

thread_local! { static LOG: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) }; }

pub fn log(s: impl Into<String>) { LOG.with(|l| l.borrow_mut().push(s.into())); }
pub fn take_log() -> Vec<String> { LOG.with(|l| std::mem::take(&mut *l.borrow_mut())) }

// ---- expressions used as values ----
/// A string-valued expression whose evaluation is observable.
pub fn ev(n: u32) -> String { log(format!("{n}")); format!("v{n}") }
/// `true`, observable.
pub fn et(n: u32) -> bool { log(format!("{n}")); true }
/// `false`, observable.
pub fn ef(n: u32) -> bool { log(format!("{n}")); false }
/// An event handler, observable when built and when called.
pub fn eh<E>(n: u32) -> impl FnMut(E) + Clone + Send + Sync + 'static {
    log(format!("{n}"));
    move |_| tachys::probe::say(format!("h{n}"))
}
/// Handlers that shorthands name.
pub fn click<E>(_: E) { tachys::probe::say("h_click"); }
pub fn input<E>(_: E) { tachys::probe::say("h_input"); }
pub fn keydown<E>(_: E) { tachys::probe::say("h_keydown"); }
/// A node ref.
pub fn er<E>(n: u32) -> NodeRef<E>
where
    E: tachys::html::element::ElementType,
    E::Output: 'static,
{
    log(format!("{n}"));
    NodeRef::new()
}
/// A spreadable attribute.
pub fn ea(n: u32) -> tachys::html::attribute::custom::CustomAttr<String, String>
{
    log(format!("{n}"));
    tachys::html::attribute::custom::custom_attribute(format!("data-sp{n}"), format!("v{n}"))
}

/// `use:` directive without parameters.
pub fn d0(_el: tachys::renderer::types::Element) { tachys::probe::say("d0"); }
/// `use:` directive with a parameter.
pub fn d1(_el: tachys::renderer::types::Element, p: Dp) { tachys::probe::say(format!("d1({})", p.0)); }
/// Another one, with a name containing an underscore.
pub fn dd_2(_el: tachys::renderer::types::Element, p: Dp) { tachys::probe::say(format!("dd_2({})", p.0)); }
/// Parameter of `d1`: only reachable through `Into`.
#[derive(Clone)]
pub struct Dp(pub String);
impl From<String> for Dp { fn from(s: String) -> Self { Self(s) } }
impl From<&'static str> for Dp { fn from(s: &'static str) -> Self { Self(s.into()) } }
impl From<()> for Dp { fn from((): ()) -> Self { Self("unit".into()) } }
impl From<i32> for Dp { fn from(s: i32) -> Self { Self(s.to_string()) } }
impl From<bool> for Dp { fn from(s: bool) -> Self { Self(s.to_string()) } }

/// A value that is not `Copy` and logs its clones.
pub struct Ck(pub &'static str);
impl Clone for Ck {
    fn clone(&self) -> Self { log(format!("clone:{}", self.0)); Self(self.0) }
}
impl Ck {
    pub fn u(&self, n: u32) -> String { log(format!("{n}")); format!("{}{n}", self.0) }
}

/// A value that can only be formatted, and logs it.
#[derive(Clone, Copy)]
pub struct Lg;
impl std::fmt::Display for Lg {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        log("d:LG");
        f.write_str("LG")
    }
}

/// A property value of any literal type.
#[derive(Clone)]
pub struct Pv(pub String);
impl From<&'static str> for Pv { fn from(s: &'static str) -> Self { Self(format!("s:{s}")) } }
impl From<String> for Pv { fn from(s: String) -> Self { Self(format!("s:{s}")) } }
impl From<i32> for Pv { fn from(s: i32) -> Self { Self(format!("i:{s}")) } }
impl From<bool> for Pv { fn from(s: bool) -> Self { Self(format!("b:{s}")) } }
impl From<char> for Pv { fn from(s: char) -> Self { Self(format!("c:{s}")) } }
impl From<f64> for Pv { fn from(s: f64) -> Self { Self(format!("f:{s}")) } }
/// A lazily evaluated property value.
#[derive(Clone)]
pub struct Fv(pub std::sync::Arc<dyn Fn() -> String + Send + Sync>);
impl<F, R> From<F> for Fv
where
    F: Fn() -> R + Send + Sync + 'static,
    R: ToString,
{
    fn from(f: F) -> Self { Self(std::sync::Arc::new(move || f().to_string())) }
}
/// Children taking one argument, type-erased.
#[derive(Clone)]
pub struct Cv(pub std::sync::Arc<dyn Fn(&'static str) -> AnyView + Send + Sync>);
impl<F, V> From<F> for Cv
where
    F: Fn(&'static str) -> V + Send + Sync + 'static,
    V: IntoView + 'static,
{
    fn from(f: F) -> Self { Self(std::sync::Arc::new(move |x| f(x).into_any())) }
}

/// The type of `root!` for children that are type-erased. Generic components
/// name it: rustc cannot always prove `'static` of their `impl IntoView`.
pub type El = tachys::html::element::HtmlElement<
    tachys::html::element::Custom<&'static str>,
    (tachys::html::attribute::custom::CustomAttr<&'static str, String>,),
    (Option<AnyView>,),
>;
fn pa(name: &'static str, v: Option<Pv>) -> Option<tachys::html::attribute::custom::CustomAttr<String, String>> {
    v.map(|v| tachys::html::attribute::custom::custom_attribute(format!("p:{name}"), v.0))
}

macro_rules! root {
    ($tag:literal, [$($p:ident),*], [$($l:ident),*], $children:expr) => {{
        log(concat!("in:", $tag));
        let mut props = String::new();
        $(if let Some(v) = &$p {
            props.push_str(concat!(stringify!($p), "=").trim_start_matches("r#"));
            props.push_str(&v.0);
            props.push('\u{1}');
        })*
        $(if let Some(f) = &$l {
            let v = (f.0)();
            props.push_str(concat!(stringify!($l), "=s:"));
            props.push_str(&v);
            props.push('\u{1}');
        })*
        let ch = $children;
        tachys::html::element::custom($tag)
            .attr("p:", props)
            .child(Some(IntoAny::into_any(ch)))
    }};
}

#[component]
pub fn Cc(
    #[prop(optional, into)] a: Option<Pv>,
    #[prop(optional, into)] b: Option<Pv>,
    #[prop(optional, into)] some_attr: Option<Pv>,
    #[prop(optional, into)] a_b_2: Option<Pv>,
    #[prop(optional, into)] r#type: Option<Pv>,
    #[prop(optional, into)] class: Option<Pv>,
    #[prop(optional, into)] id: Option<Pv>,
    #[prop(optional, into)] fa: Option<Fv>,
    #[prop(optional, into)] f_b: Option<Fv>,
    #[prop(optional)] children: Option<Children>,
) -> El {
    root!("x-cc", [a, b, some_attr, a_b_2, r#type, class, id], [fa, f_b], children.map(|c| c()))
}

/// Runs its children twice.
#[component]
pub fn Cf(
    #[prop(optional, into)] a: Option<Pv>,
    #[prop(optional, into)] fa: Option<Fv>,
    #[prop(optional)] children: Option<ChildrenFn>,
) -> El {
    root!("x-cf", [a], [fa], children.map(|c| (
        tachys::html::element::custom("x-run").child(c()),
        tachys::html::element::custom("x-run").child(c()),
    )))
}

/// Never runs its children.
#[component]
pub fn Cn(
    #[prop(optional, into)] a: Option<Pv>,
    #[prop(optional)] children: Option<Children>,
) -> El {
    root!("x-cn", [a], [], ())
}

/// Children with one argument, run for "A0" and "A1".
#[component]
pub fn Ca<F, V>(
    #[prop(optional, into)] a: Option<Pv>,
    children: F,
) -> El
where
    F: Fn(&'static str) -> V + Send + Sync + 'static,
    V: IntoView + 'static,
{
    root!("x-ca", [a], [], (
        tachys::html::element::custom("x-run").child(children("A0").into_any()),
        tachys::html::element::custom("x-run").child(children("A1").into_any()),
    ))
}

/// Children with a tuple argument.
#[component]
pub fn Ct<F, V>(
    #[prop(optional, into)] a: Option<Pv>,
    children: F,
) -> El
where
    F: Fn((&'static str, &'static str)) -> V + Send + Sync + 'static,
    V: IntoView + 'static,
{
    root!("x-ct", [a], [], tachys::html::element::custom("x-run").child(children(("T0", "T1")).into_any()))
}

/// Children with two arguments.
#[component]
pub fn C2<F, V>(
    #[prop(optional, into)] a: Option<Pv>,
    children: F,
) -> El
where
    F: Fn(&'static str, &'static str) -> V + Send + Sync + 'static,
    V: IntoView + 'static,
{
    root!("x-c2", [a], [], tachys::html::element::custom("x-run").child(children("P0", "P1").into_any()))
}

/// Children with three arguments, one of them nested.
#[component]
pub fn C3<F, V>(
    #[prop(optional, into)] a: Option<Pv>,
    children: F,
) -> El
where
    F: Fn(&'static str, (&'static str, (&'static str, &'static str)), &'static str) -> V + Send + Sync + 'static,
    V: IntoView + 'static,
{
    root!("x-c3", [a], [], tachys::html::element::custom("x-run").child(children("Q0", ("Q1", ("Q2", "Q3")), "Q4").into_any()))
}

/// Children that are a closure without arguments, run twice.
#[component]
pub fn C0<F, V>(
    #[prop(optional, into)] a: Option<Pv>,
    children: F,
) -> El
where
    F: Fn() -> V + Send + Sync + 'static,
    V: IntoView + 'static,
{
    root!("x-c0", [a], [], (
        tachys::html::element::custom("x-run").child(children().into_any()),
        tachys::html::element::custom("x-run").child(children().into_any()),
    ))
}

/// No children.
#[component]
pub fn Cz(#[prop(optional, into)] a: Option<Pv>) -> El {
    root!("x-cz", [a], [], ())
}

pub trait Tn: 'static + Send + Sync { fn name() -> String; }
pub struct G1;
impl Tn for G1 { fn name() -> String { "G1".into() } }
pub struct Gw<A, B = G1>(std::marker::PhantomData<(A, B)>);
/// Types of every other form.
pub struct Gl<'a, A>(std::marker::PhantomData<&'a A>);
impl<A: Tn> Tn for Gl<'static, A> { fn name() -> String { format!("Gl<{}>", A::name()) } }
pub struct Gk<A, const N: usize>(std::marker::PhantomData<A>);
impl<A: Tn, const N: usize> Tn for Gk<A, N> { fn name() -> String { format!("Gk<{},{N}>", A::name()) } }
impl Tn for () { fn name() -> String { "()".into() } }
impl<A: Tn> Tn for (A,) { fn name() -> String { format!("({},)", A::name()) } }
impl<A: Tn, B: Tn> Tn for (A, B) { fn name() -> String { format!("({},{})", A::name(), B::name()) } }
impl<A: Tn, B: Tn, C: Tn> Tn for (A, B, C) { fn name() -> String { format!("({},{},{})", A::name(), B::name(), C::name()) } }
impl<A: Tn, const N: usize> Tn for [A; N] { fn name() -> String { format!("[{}]{N}", A::name()) } }
impl<A: Tn> Tn for &'static A { fn name() -> String { format!("&{}", A::name()) } }
impl<R: Tn> Tn for fn() -> R { fn name() -> String { format!("fn(){}", R::name()) } }
impl<A: Tn, R: Tn> Tn for fn(A) -> R { fn name() -> String { format!("fn({}){}", A::name(), R::name()) } }
impl<A: Tn, B: Tn, R: Tn> Tn for fn(A, B) -> R { fn name() -> String { format!("fn({},{}){}", A::name(), B::name(), R::name()) } }
/// Several type arguments, one of them a number.
#[component]
pub fn Ch<T: Tn, U: Tn, const N: usize>(
    #[prop(optional)] _p: std::marker::PhantomData<(T, U, [(); N])>,
    #[prop(optional, into)] a: Option<Pv>,
    #[prop(optional)] children: Option<Children>,
) -> El {
    let ty = Some(Pv(format!("{},{},{N}", T::name(), U::name())));
    root!("x-ch", [ty, a], [], children.map(|c| c()))
}
impl<A: Tn, B: Tn> Tn for Gw<A, B> { fn name() -> String { format!("Gw<{},{}>", A::name(), B::name()) } }

/// Generic component.
#[component]
pub fn Cg<T: Tn>(
    #[prop(optional)] _p: std::marker::PhantomData<T>,
    #[prop(optional, into)] a: Option<Pv>,
    #[prop(optional)] children: Option<Children>,
) -> El {
    let ty = Some(Pv(T::name()));
    root!("x-cg", [ty, a], [], children.map(|c| c()))
}

pub mod m {
    pub use super::*;
    pub struct G2;
    impl Tn for G2 { fn name() -> String { "m::G2".into() } }
    #[component]
    pub fn Cm(
        #[prop(optional, into)] a: Option<Pv>,
        #[prop(optional)] children: Option<Children>,
    ) -> El {
        root!("x-m-cm", [a], [], children.map(|c| c()))
    }
    pub mod nn {
        pub use super::super::*;
        #[component]
        pub fn Cm<T: Tn>(
            #[prop(optional)] _p: std::marker::PhantomData<T>,
            #[prop(optional, into)] a: Option<Pv>,
            #[prop(optional)] children: Option<Children>,
        ) -> El {
            let ty = Some(Pv(T::name()));
            root!("x-nn-cm", [ty, a], [], children.map(|c| c()))
        }
    }
    /// A lower-case module path ending in a lower-case component.
    #[component]
    pub fn Low(
        #[prop(optional, into)] a: Option<Pv>,
        #[prop(optional)] children: Option<Children>,
    ) -> El {
        root!("x-m-low", [a], [], children.map(|c| c()))
    }
}

// ---- slots ----
#[slot]
pub struct SlotA {
    #[prop(optional, into)] a: Option<Pv>,
    #[prop(optional, into)] some_attr: Option<Pv>,
    #[prop(optional, into)] r#ref: Option<Pv>,
    #[prop(optional, into)] r#type: Option<Pv>,
    #[prop(optional, into)] fa: Option<Fv>,
    #[prop(optional)] children: Option<ChildrenFn>,
}
#[slot]
pub struct SlotB {
    #[prop(optional, into)] a: Option<Pv>,
    #[prop(optional)] slot_a: Vec<SlotA>,
    #[prop(optional)] children: Option<ChildrenFn>,
}
#[slot]
pub struct Solo {
    #[prop(optional, into)] a: Option<Pv>,
    #[prop(optional)] children: Option<ChildrenFn>,
}
/// A slot whose children take an argument.
#[slot]
pub struct SlotFn1 {
    #[prop(optional, into)] a: Option<Pv>,
    #[prop(into)] children: Cv,
}

fn show(tag: &'static str, a: &Option<Pv>, ch: Option<AnyView>) -> AnyView {
    let mut props = String::new();
    if let Some(v) = a { props.push_str(&format!("a={}\u{1}", v.0)); }
    tachys::html::element::custom(tag).attr("p:", props).child(ch).into_any()
}

fn show_a(s: SlotA) -> AnyView {
    let mut props = String::new();
    if let Some(v) = &s.a { props.push_str(&format!("a={}\u{1}", v.0)); }
    if let Some(v) = &s.some_attr { props.push_str(&format!("some_attr={}\u{1}", v.0)); }
    if let Some(v) = &s.r#ref { props.push_str(&format!("ref={}\u{1}", v.0)); }
    if let Some(v) = &s.r#type { props.push_str(&format!("type={}\u{1}", v.0)); }
    if let Some(v) = &s.fa { props.push_str(&format!("fa=s:{}\u{1}", (v.0)())); }
    tachys::html::element::custom("x-slot-a").attr("p:", props).child(s.children.map(|c| c())).into_any()
}

/// Shows every slot it was given, then its children.
#[component]
pub fn Cs(
    #[prop(optional, into)] a: Option<Pv>,
    #[prop(optional)] slot_a: Vec<SlotA>,
    #[prop(optional)] slot_b: Vec<SlotB>,
    #[prop(optional)] solo: Option<Solo>,
    #[prop(optional)] slot_fn1: Vec<SlotFn1>,
    #[prop(optional)] children: Option<Children>,
) -> El {
    root!("x-cs", [a], [], {
        let sa: Vec<AnyView> = slot_a.into_iter().map(show_a).collect();
        let sb: Vec<AnyView> = slot_b.into_iter().map(|s| {
            let nested: Vec<AnyView> = s.slot_a.into_iter().map(show_a).collect();
            show("x-slot-b", &s.a, Some((nested, s.children.map(|c| c())).into_any()))
        }).collect();
        let so: Option<AnyView> = solo.map(|s| show("x-solo", &s.a, s.children.map(|c| c().into_any())));
        let sf: Vec<AnyView> = slot_fn1.into_iter().map(|s| show("x-slot-fn1", &s.a, Some((s.children.0)("S0")))).collect();
        let ch = children.map(|c| c());
        (sa, sb, so, sf, ch)
    })
}

/// Requires a slot that is not optional.
#[component]
pub fn Cr(
    solo: Solo,
    #[prop(optional)] children: Option<Children>,
) -> El {
    let a = None::<Pv>;
    root!("x-cr", [a], [], {
        let so = show("x-solo", &solo.a, solo.children.map(|c| c().into_any()));
        (so, children.map(|c| c()))
    })
}

/// Properties with unusual names.
#[component]
pub fn Co(
    #[prop(optional, into)] a__b: Option<Pv>,
    #[prop(optional, into)] a_: Option<Pv>,
    #[prop(optional, into)] _c: Option<Pv>,
    #[prop(optional, into)] aB: Option<Pv>,
    #[prop(optional, into)] x_01: Option<Pv>,
    #[prop(optional, into)] r#for: Option<Pv>,
    #[prop(optional, into)] tür: Option<Pv>,
    #[prop(optional, into)] Big: Option<Pv>,
    #[prop(optional, into)] r#ref: Option<Pv>,
    #[prop(optional, into)] node_ref: Option<Pv>,
    #[prop(optional)] children: Option<Children>,
) -> El {
    root!("x-co", [a__b, a_, _c, aB, x_01, r#for, tür, Big, r#ref, node_ref], [], children.map(|c| c()))
}

/// An associated function of a generic type, as a component.
pub struct Nsg<T>(std::marker::PhantomData<T>);
#[derive(Default)]
pub struct NsgProps { a: Option<Pv> }
pub struct NsgBuilder(NsgProps);
impl NsgBuilder {
    pub fn a(mut self, a: impl Into<Pv>) -> Self { self.0.a = Some(a.into()); self }
    pub fn build(self) -> NsgProps { self.0 }
}
impl leptos::component::Props for NsgProps {
    type Builder = NsgBuilder;
    fn builder() -> NsgBuilder { NsgBuilder(Self::default()) }
}
impl<T: Tn> Nsg<T> {
    pub fn Mk(p: NsgProps) -> El {
        let (ty, a) = (Some(Pv(T::name())), p.a);
        root!("x-mk", [ty, a], [], ())
    }
}

// slots with unusual names
macro_rules! odd_slots {
    ($($t:ident)*) => { $(
        #[slot]
        pub struct $t {
            #[prop(optional, into)] a: Option<Pv>,
            #[prop(optional)] children: Option<ChildrenFn>,
        }
    )* };
}
odd_slots! { ABItem Slot2D Foo_Bar Tür X }

#[component]
pub fn Cq(
    #[prop(optional, into)] a: Option<Pv>,
    #[prop(optional)] a_b_item: Vec<ABItem>,
    #[prop(optional)] slot2_d: Vec<Slot2D>,
    #[prop(optional)] foo__bar: Vec<Foo_Bar>,
    #[prop(optional)] tür: Vec<Tür>,
    #[prop(optional)] x: Vec<X>,
    #[prop(optional)] children: Option<Children>,
) -> El {
    macro_rules! all {
        ($tag:literal, $v:ident) => {
            $v.into_iter().map(|s| show($tag, &s.a, s.children.map(|c| c().into_any()))).collect::<Vec<AnyView>>()
        };
    }
    root!("x-cq", [a], [], (
        all!("x-q-ABItem", a_b_item), all!("x-q-Slot2D", slot2_d), all!("x-q-Foo_Bar", foo__bar),
        all!("x-q-Tür", tür), all!("x-q-X", x), children.map(|c| c()),
    ))
}

// ---- running ----
/// Runs one case: builds the view, then renders it, and returns the record.
pub fn run<V: RenderHtml + 'static>(id: u32, build: impl FnOnce() -> V) {
    let owner = Owner::new();
    owner.set();
    take_log();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let view = build();
        let clog = take_log();
        let ty = std::any::type_name::<V>();
        let frag = ty.starts_with("leptos::into_view::View<(");
        let html = view.to_html();
        let rlog = take_log();
        (clog, frag, html, rlog)
    }));
    match r {
        Ok((clog, frag, html, rlog)) => println!(
            "CASE {id} {} {} {} {}",
            if frag { "frag" } else { "one" },
            if clog.is_empty() { "-".into() } else { clog.join(",") },
            if rlog.is_empty() { "-".into() } else { rlog.join(",") },
            html.replace('\\', "\\\\").replace('\n', "\\n"),
        ),
        Err(_) => println!("CASE {id} panic - - -"),
    }
}
