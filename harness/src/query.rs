//! Generic model of soups and queries: a snapshot read off the public enums (not
//! through `Node`), model evaluation of queries, and a runner that builds the same
//! query through the library's typed builder.
use std::{
    borrow::Cow,
    cell::{Cell, RefCell},
    collections::BTreeMap,
    fmt,
    marker::PhantomData,
};

use regex::Regex;
use soupy::{
    filter::Filter,
    parser::{HTMLNode, Parser, XMLNode},
    query::{Query, QueryItem},
    Node, Pattern, Queryable, Soup,
};

use crate::{
    case::clip,
    ensure,
    rng::Rng,
};

/// Text borrowed for the rest of the case by an owner that outlives every use.
pub fn forever(s: &str) -> &'static str {
    unsafe { std::mem::transmute::<&str, &'static str>(s) }
}

pub type Attrs = BTreeMap<String, String>;

/// Reads a node without the `Node` trait.
pub trait View: Node + Sized {
    fn v_name(&self) -> Option<String>;
    fn v_text(&self) -> Option<String>;
    fn v_attrs(&self) -> Option<Attrs>;
    fn v_kids(&self) -> &[Self];
    /// every string the node itself holds beyond its name, text and attributes
    fn v_rest(&self, f: &mut dyn FnMut(&str)) {
        let _ = f;
    }
}

fn smap<S: AsRef<str>>(m: &BTreeMap<S, S>) -> Attrs {
    m.iter().map(|(k, v)| (k.as_ref().to_string(), v.as_ref().to_string())).collect()
}

impl<S: AsRef<str>> View for HTMLNode<S> {
    fn v_name(&self) -> Option<String> {
        match self {
            HTMLNode::Element { name, .. } | HTMLNode::RawElement { name, .. } | HTMLNode::Void { name, .. } => {
                Some(name.as_ref().to_string())
            }
            HTMLNode::Comment(_) | HTMLNode::Doctype(_) | HTMLNode::Text(_) => None,
        }
    }
    fn v_text(&self) -> Option<String> {
        match self {
            HTMLNode::Text(t) => Some(t.as_ref().to_string()),
            _ => None,
        }
    }
    fn v_attrs(&self) -> Option<Attrs> {
        match self {
            HTMLNode::Element { attrs, .. } | HTMLNode::RawElement { attrs, .. } | HTMLNode::Void { attrs, .. } => {
                Some(smap(attrs))
            }
            _ => None,
        }
    }
    fn v_kids(&self) -> &[Self] {
        match self {
            HTMLNode::Element { children, .. } => children,
            _ => &[],
        }
    }
    fn v_rest(&self, f: &mut dyn FnMut(&str)) {
        match self {
            HTMLNode::Comment(s) | HTMLNode::Doctype(s) | HTMLNode::RawElement { content: s, .. } => f(s.as_ref()),
            _ => {}
        }
    }
}

impl View for XMLNode {
    fn v_name(&self) -> Option<String> {
        match self {
            XMLNode::Element(e) => Some(e.name.clone()),
            _ => None,
        }
    }
    fn v_text(&self) -> Option<String> {
        match self {
            XMLNode::Text(t) | XMLNode::CData(t) => Some(t.clone()),
            _ => None,
        }
    }
    fn v_attrs(&self) -> Option<Attrs> {
        match self {
            XMLNode::Element(e) => Some(e.attributes.clone()),
            _ => None,
        }
    }
    fn v_kids(&self) -> &[Self] {
        match self {
            XMLNode::Element(e) => &e.children,
            _ => &[],
        }
    }
    fn v_rest(&self, f: &mut dyn FnMut(&str)) {
        match self {
            XMLNode::Comment(s) | XMLNode::CData(s) => f(s),
            XMLNode::ProcessingInstruction(s, t) => {
                f(s);
                f(t.as_deref().unwrap_or_default());
            }
            _ => {}
        }
    }
}

/// Direct children as the node's own iterators give them.
pub trait Direct: Sized {
    fn direct(&self) -> Option<[Vec<usize>; 2]>;
}
impl<S> Direct for HTMLNode<S> {
    fn direct(&self) -> Option<[Vec<usize>; 2]> {
        let mut v = vec![];
        for k in self {
            v.push(addr(k));
        }
        Some([self.iter().map(addr).collect(), v])
    }
}
impl Direct for XMLNode {
    fn direct(&self) -> Option<[Vec<usize>; 2]> {
        let mut v = vec![];
        for k in self {
            v.push(addr(k));
        }
        Some([self.iter().map(addr).collect(), v])
    }
}
impl<S: Ord> Direct for UNode<S> {
    fn direct(&self) -> Option<[Vec<usize>; 2]> {
        None
    }
}

pub trait Good:
    View<Text: Ord + AsRef<str> + From<&'static str> + fmt::Display + Clone + fmt::Debug> + Clone + fmt::Debug + PartialEq + Direct
{
}
impl<N> Good for N where
    N: View<Text: Ord + AsRef<str> + From<&'static str> + fmt::Display + Clone + fmt::Debug>
        + Clone
        + fmt::Debug
        + PartialEq
        + Direct
{
}

/// A user-defined node: every part is optional and independent of the others.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct UNode<S: Ord> {
    pub id: u64,
    pub name: Option<S>,
    pub text: Option<S>,
    pub attrs: Option<BTreeMap<S, S>>,
    pub kids: Vec<UNode<S>>,
}

impl<S: Ord> Node for UNode<S> {
    type Text = S;
    fn name(&self) -> Option<&S> {
        self.name.as_ref()
    }
    fn text(&self) -> Option<&S> {
        self.text.as_ref()
    }
    fn attrs(&self) -> Option<&BTreeMap<S, S>> {
        self.attrs.as_ref()
    }
    fn children(&self) -> &[Self] {
        &self.kids
    }
}

impl<S: Ord + AsRef<str>> View for UNode<S> {
    fn v_name(&self) -> Option<String> {
        self.name.as_ref().map(|s| s.as_ref().to_string())
    }
    fn v_text(&self) -> Option<String> {
        self.text.as_ref().map(|s| s.as_ref().to_string())
    }
    fn v_attrs(&self) -> Option<Attrs> {
        self.attrs.as_ref().map(smap)
    }
    fn v_kids(&self) -> &[Self] {
        &self.kids
    }
}

/// A text type of our own: nothing but the required bounds.
#[derive(Debug, PartialEq, Eq)]
pub struct UText(pub std::sync::Arc<str>);
impl Clone for UText {
    fn clone(&self) -> UText {
        consulted();
        UText(self.0.clone())
    }
}
impl PartialOrd for UText {
    fn partial_cmp(&self, o: &UText) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for UText {
    fn cmp(&self, o: &UText) -> std::cmp::Ordering {
        consulted();
        self.0.cmp(&o.0)
    }
}
impl AsRef<str> for UText {
    fn as_ref(&self) -> &str {
        consulted();
        &self.0
    }
}
impl<'a> From<&'a str> for UText {
    fn from(s: &'a str) -> Self {
        consulted();
        UText(s.into())
    }
}
impl std::fmt::Display for UText {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        consulted();
        f.write_str(&self.0)
    }
}

/// A parser that returns nodes built elsewhere.
pub struct Pre<N>(PhantomData<N>);
impl<N: Node> Parser for Pre<N> {
    type Input = Vec<N>;
    type Node = N;
    type Error = std::convert::Infallible;
    fn parse(input: Vec<N>) -> Result<Vec<N>, Self::Error> {
        Ok(input)
    }
}
pub fn soup_of<N: Node>(nodes: Vec<N>) -> Soup<N> {
    match Soup::new::<Pre<N>>(nodes) {
        Ok(s) => s,
        Err(e) => match e {},
    }
}

// ------------------------------------------------------------------ snapshot

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Ent {
    pub name: Option<String>,
    pub text: Option<String>,
    pub attrs: Option<Attrs>,
    pub depth: usize,
    /// preorder index behind the subtree
    pub end: usize,
    pub kids: Vec<usize>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Snap {
    pub ents: Vec<Ent>,
    pub top: Vec<usize>,
}

impl Snap {
    pub fn of<N: View>(nodes: &[N]) -> Snap {
        fn go<N: View>(n: &N, depth: usize, ents: &mut Vec<Ent>) -> usize {
            let at = ents.len();
            ents.push(Ent {
                name: n.v_name(),
                text: n.v_text(),
                attrs: n.v_attrs(),
                depth,
                end: 0,
                kids: vec![],
            });
            let kids = n.v_kids().iter().map(|k| go(k, depth + 1, ents)).collect();
            ents[at].end = ents.len();
            ents[at].kids = kids;
            at
        }
        let mut ents = vec![];
        let top = nodes.iter().map(|n| go(n, 0, &mut ents)).collect();
        Snap { ents, top }
    }
    pub fn texts(&self, from: usize) -> Vec<&str> {
        self.ents[from..self.ents[from].end].iter().filter_map(|e| e.text.as_deref()).collect()
    }
    pub fn elements(&self) -> usize {
        self.ents.iter().filter(|e| e.name.is_some()).count()
    }
}

/// One node against its snapshot entry, through `Node`.
pub fn same<N: Node>(n: &N, e: &Ent) -> bool
where
    N::Text: AsRef<str>,
{
    n.name().map(AsRef::as_ref) == e.name.as_deref()
        && n.text().map(AsRef::as_ref) == e.text.as_deref()
        && match (n.attrs(), &e.attrs) {
            (None, None) => true,
            (Some(a), Some(b)) => {
                a.len() == b.len() && a.iter().zip(b).all(|((k, v), (l, w))| k.as_ref() == l && v.as_ref() == w)
            }
            _ => false,
        }
        && n.children().len() == e.kids.len()
}

pub fn addr<N>(n: &N) -> usize {
    std::ptr::from_ref(n) as usize
}

// ------------------------------------------------------------------ patterns

#[derive(Clone, Debug)]
pub enum P {
    Str(String),
    Owned(String),
    CowB(String),
    CowO(String),
    Bool(bool),
    Re(Regex),
    /// user-defined, with a value hint
    EqHint(String),
    /// user-defined, equality without a hint
    EqPlain(String),
    StartsWith(String),
    NotEq(String),
    LenMod(usize, usize),
}

impl P {
    /// what the pattern means
    pub fn m(&self, h: &str) -> bool {
        match self {
            P::Str(s) | P::Owned(s) | P::CowB(s) | P::CowO(s) | P::EqHint(s) | P::EqPlain(s) => s.as_bytes() == h.as_bytes(),
            P::Bool(b) => *b,
            P::Re(r) => r.is_match(h),
            P::StartsWith(s) => h.as_bytes().starts_with(s.as_bytes()),
            P::NotEq(s) => s.as_bytes() != h.as_bytes(),
            P::LenMod(m, r) => h.len() % m == *r,
        }
    }
    pub fn show(&self) -> String {
        match self {
            P::Re(r) => format!("Regex({:?})", r.as_str()),
            o => clip(&format!("{o:?}")),
        }
    }
}

thread_local! {
    static HIDE: Cell<bool> = const { Cell::new(false) };
    static JITTER: Cell<u32> = const { Cell::new(0) };
    static LOGGING: Cell<bool> = const { Cell::new(false) };
    static LOG: RefCell<Vec<usize>> = const { RefCell::new(vec![]) };
}
/// Patterns give no value hint while this is on.
pub fn hide(on: bool) {
    HIDE.with(|h| h.set(on));
}
/// Patterns record the address of every string they are asked about while this is on.
pub fn logging(on: bool) {
    LOGGING.with(|h| h.set(on));
}
pub fn take_log() -> Vec<usize> {
    LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}
/// Patterns give up the processor now and then while this is not zero.
pub fn jitter(seed: u32) {
    JITTER.with(|j| j.set(seed));
}
thread_local! {
    static INSIDE: RefCell<Option<std::rc::Rc<dyn Fn()>>> = const { RefCell::new(None) };
    static LEVEL: Cell<usize> = const { Cell::new(0) };
    static TURN: Cell<usize> = const { Cell::new(0) };
}
/// What patterns and texts of ours do while they are being consulted.
/// `f` has to outlive its stay.
pub fn within<R>(f: &dyn Fn(), run: impl FnOnce() -> R) -> R {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            INSIDE.with(|i| i.borrow_mut().take());
            LEVEL.with(|l| l.set(0));
        }
    }
    let f: &'static dyn Fn() = unsafe { std::mem::transmute(f) };
    INSIDE.with(|i| *i.borrow_mut() = Some(std::rc::Rc::new(f)));
    let _off = Off;
    run()
}
pub fn consulted() {
    let Some(f) = INSIDE.with(|i| i.borrow().clone()) else { return };
    let level = LEVEL.with(Cell::get);
    let turn = TURN.with(|t| t.replace(t.get().wrapping_add(1)));
    // rarer the deeper
    if level < 3 && turn % [2, 9, 20][level] == 0 {
        LEVEL.with(|l| l.set(level + 1));
        f();
        LEVEL.with(|l| l.set(level));
    }
}
fn note<S>(h: &S) {
    consulted();
    let j = JITTER.with(Cell::get);
    if j != 0 {
        let n = j.wrapping_mul(1_664_525).wrapping_add(1_013_904_223) | 1;
        JITTER.with(|c| c.set(n));
        if n >> 28 == 0 {
            std::thread::yield_now();
        }
    }
    if LOGGING.with(Cell::get) {
        LOG.with(|l| l.borrow_mut().push(addr(h)));
    }
}

/// Wraps a pattern, delegating to the library's own impl for the built-in types.
pub struct Pat(pub P);
/// The same with String and Cow, which need a text type convertible from any &str.
pub struct PatO(pub P);

impl<S> Pattern<S> for Pat
where
    S: AsRef<str> + From<&'static str>,
{
    fn matches(&self, h: &S) -> bool {
        note(h);
        match &self.0 {
            P::Str(s) => Pattern::<S>::matches(&forever(s), h),
            P::Bool(b) => Pattern::<S>::matches(b, h),
            P::Re(r) => Pattern::<S>::matches(r, h),
            o => o.m(h.as_ref()),
        }
    }
    fn value(&self) -> Option<S> {
        consulted();
        if HIDE.with(Cell::get) {
            return None;
        }
        match &self.0 {
            P::Str(s) => Pattern::<S>::value(&forever(s)),
            P::Bool(b) => Pattern::<S>::value(b),
            P::Re(r) => Pattern::<S>::value(r),
            P::EqHint(s) => Some(forever(s).into()),
            _ => None,
        }
    }
}

impl<S> Pattern<S> for PatO
where
    S: AsRef<str> + for<'a> From<&'a str>,
{
    fn matches(&self, h: &S) -> bool {
        note(h);
        match &self.0 {
            P::Str(s) => Pattern::<S>::matches(&s.as_str(), h),
            P::Owned(s) => Pattern::<S>::matches(s, h),
            P::CowB(s) => Pattern::<S>::matches(&Cow::Borrowed(s.as_str()), h),
            P::CowO(s) => Pattern::<S>::matches(&Cow::<str>::Owned(s.clone()), h),
            P::Bool(b) => Pattern::<S>::matches(b, h),
            P::Re(r) => Pattern::<S>::matches(r, h),
            o => o.m(h.as_ref()),
        }
    }
    fn value(&self) -> Option<S> {
        consulted();
        if HIDE.with(Cell::get) {
            return None;
        }
        match &self.0 {
            P::Str(s) => Pattern::<S>::value(&s.as_str()),
            P::Owned(s) => Pattern::<S>::value(s),
            P::CowB(s) => Pattern::<S>::value(&Cow::Borrowed(s.as_str())),
            P::CowO(s) => Pattern::<S>::value(&Cow::<str>::Owned(s.clone())),
            P::Bool(b) => Pattern::<S>::value(b),
            P::Re(r) => Pattern::<S>::value(r),
            P::EqHint(s) => Some(s.as_str().into()),
            _ => None,
        }
    }
}
impl From<P> for Pat {
    fn from(p: P) -> Self {
        Pat(p)
    }
}
impl From<P> for PatO {
    fn from(p: P) -> Self {
        PatO(p)
    }
}

// ---------------------------------------------------------------- operations

#[derive(Clone, Debug)]
pub enum Op {
    Tag(P),
    Attr(P, P),
    AttrName(P),
    AttrValue(P),
    Class(P),
    Strict,
    Recursive,
}

impl Op {
    pub fn is_cond(&self) -> bool {
        !matches!(self, Op::Strict | Op::Recursive)
    }
    /// does the condition hold for the entry?
    pub fn holds(&self, e: &Ent) -> bool {
        let any = |f: &dyn Fn(&str, &str) -> bool| e.attrs.as_ref().is_some_and(|a| a.iter().any(|(k, v)| f(k, v)));
        match self {
            Op::Tag(p) => e.name.as_ref().is_some_and(|n| p.m(n)),
            Op::Attr(n, v) => any(&|a, b| n.m(a) && v.m(b)),
            Op::AttrName(n) => any(&|a, _| n.m(a)),
            Op::AttrValue(v) => any(&|_, b| v.m(b)),
            Op::Class(c) => any(&|a, b| a == "class" && c.m(b)),
            Op::Strict | Op::Recursive => true,
        }
    }
}

pub fn show(ops: &[Op]) -> String {
    ops.iter()
        .map(|o| match o {
            Op::Tag(p) => format!(".tag({})", p.show()),
            Op::Attr(n, v) => format!(".attr({}, {})", n.show(), v.show()),
            Op::AttrName(p) => format!(".attr_name({})", p.show()),
            Op::AttrValue(p) => format!(".attr_value({})", p.show()),
            Op::Class(p) => format!(".class({})", p.show()),
            Op::Strict => ".strict()".into(),
            Op::Recursive => ".recursive()".into(),
        })
        .collect()
}

/// Indices the query must return.
pub fn expect(snap: &Snap, ops: &[Op]) -> Vec<usize> {
    let mut recursive = true;
    for o in ops {
        match o {
            Op::Strict => recursive = false,
            Op::Recursive => recursive = true,
            _ => {}
        }
    }
    (0..snap.ents.len())
        .filter(|i| (recursive || snap.ents[*i].depth == 0) && ops.iter().all(|o| o.holds(&snap.ents[*i])))
        .collect()
}

/// A finished query with its filter type erased.
pub trait DynQ<'x, N> {
    fn all(self: Box<Self>) -> Steps<'x, N>;
    fn first(self: Box<Self>) -> Option<QueryItem<'x, N>>;
}
impl<'x, N: Node, F: Filter<N> + 'x> DynQ<'x, N> for Query<'x, N, F> {
    fn all(self: Box<Self>) -> Steps<'x, N> {
        Steps(Box::new(Queryable::all(*self)))
    }
    fn first(self: Box<Self>) -> Option<QueryItem<'x, N>> {
        Queryable::first(*self)
    }
}

/// The methods of the library's iterator, reached through a table.
trait Raw<'x, N> {
    fn r_next(&mut self) -> Option<QueryItem<'x, N>>;
    fn r_nth(&mut self, n: usize) -> Option<QueryItem<'x, N>>;
    fn r_size_hint(&self) -> (usize, Option<usize>);
    fn r_count(self: Box<Self>) -> usize;
    fn r_last(self: Box<Self>) -> Option<QueryItem<'x, N>>;
    fn r_fold(self: Box<Self>, f: &mut dyn FnMut(QueryItem<'x, N>));
}
impl<'x, N: 'x, I: Iterator<Item = QueryItem<'x, N>>> Raw<'x, N> for I {
    fn r_next(&mut self) -> Option<QueryItem<'x, N>> {
        Iterator::next(self)
    }
    fn r_nth(&mut self, n: usize) -> Option<QueryItem<'x, N>> {
        Iterator::nth(self, n)
    }
    fn r_size_hint(&self) -> (usize, Option<usize>) {
        Iterator::size_hint(self)
    }
    fn r_count(self: Box<Self>) -> usize {
        Iterator::count(*self)
    }
    fn r_last(self: Box<Self>) -> Option<QueryItem<'x, N>> {
        Iterator::last(*self)
    }
    fn r_fold(self: Box<Self>, f: &mut dyn FnMut(QueryItem<'x, N>)) {
        Iterator::fold(*self, (), |(), x| f(x));
    }
}
pub struct Steps<'x, N>(Box<dyn Raw<'x, N> + 'x>);
impl<'x, N: 'x> Iterator for Steps<'x, N> {
    type Item = QueryItem<'x, N>;
    fn next(&mut self) -> Option<Self::Item> {
        self.0.r_next()
    }
    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        self.0.r_nth(n)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.r_size_hint()
    }
    fn count(self) -> usize {
        self.0.r_count()
    }
    fn last(self) -> Option<Self::Item> {
        self.0.r_last()
    }
    fn fold<B, F: FnMut(B, Self::Item) -> B>(self, init: B, mut f: F) -> B {
        let mut acc = Some(init);
        self.0.r_fold(&mut |x| acc = Some(f(acc.take().unwrap(), x)));
        acc.unwrap()
    }
}

pub trait Bounds: Node<Text: Ord + AsRef<str> + From<&'static str>> {}
impl<N: Node<Text: Ord + AsRef<str> + From<&'static str>>> Bounds for N {}

macro_rules! level {
    ($name:ident, $next:ident) => {
        fn $name<'x, N: Bounds, F: Filter<N> + 'x, W: Pattern<N::Text> + From<P> + 'x>(
            mut q: Query<'x, N, F>,
            mut ops: &[Op],
        ) -> Box<dyn DynQ<'x, N> + 'x> {
            loop {
                let Some((o, rest)) = ops.split_first() else { return Box::new(q) };
                ops = rest;
                match o {
                    Op::Strict => q = q.strict(),
                    Op::Recursive => q = q.recursive(),
                    Op::Tag(p) => return $next::<N, _, W>(q.tag(W::from(p.clone())), ops),
                    Op::Attr(n, v) => return $next::<N, _, W>(q.attr(W::from(n.clone()), W::from(v.clone())), ops),
                    Op::AttrName(n) => return $next::<N, _, W>(q.attr_name(W::from(n.clone())), ops),
                    Op::AttrValue(v) => return $next::<N, _, W>(q.attr_value(W::from(v.clone())), ops),
                    Op::Class(c) => return $next::<N, _, W>(q.class(W::from(c.clone())), ops),
                }
            }
        }
    };
}
/// the third condition: shorthands are spelled out, to keep the number of types down
fn level3<'x, N: Bounds, F: Filter<N> + 'x, W: Pattern<N::Text> + From<P> + 'x>(
    mut q: Query<'x, N, F>,
    mut ops: &[Op],
) -> Box<dyn DynQ<'x, N> + 'x> {
    let t = || W::from(P::Bool(true));
    let c = || W::from(P::Str("class".into()));
    loop {
        let Some((o, rest)) = ops.split_first() else { return Box::new(q) };
        ops = rest;
        match o {
            Op::Strict => q = q.strict(),
            Op::Recursive => q = q.recursive(),
            Op::Tag(p) => return level_end::<N, _>(q.tag(W::from(p.clone())), ops),
            Op::Attr(n, v) => return level_end::<N, _>(q.attr(W::from(n.clone()), W::from(v.clone())), ops),
            Op::AttrName(n) => return level_end::<N, _>(q.attr(W::from(n.clone()), t()), ops),
            Op::AttrValue(v) => return level_end::<N, _>(q.attr(t(), W::from(v.clone())), ops),
            Op::Class(v) => return level_end::<N, _>(q.attr(c(), W::from(v.clone())), ops),
        }
    }
}
/// the deepest level takes no further condition
fn level_end<'x, N: Bounds, F: Filter<N> + 'x>(mut q: Query<'x, N, F>, ops: &[Op]) -> Box<dyn DynQ<'x, N> + 'x> {
    for o in ops {
        match o {
            Op::Strict => q = q.strict(),
            Op::Recursive => q = q.recursive(),
            _ => panic!("more than {MAX_COND} conditions"),
        }
    }
    Box::new(q)
}
pub const MAX_COND: usize = 3;
level!(level2, level3);
level!(level1, level2);

/// Builds a chain of at least one call, the first one on `&Soup` itself.
pub fn build<'x, N: Bounds, W: Pattern<N::Text> + From<P> + 'x>(soup: &'x Soup<N>, ops: &[Op]) -> Box<dyn DynQ<'x, N> + 'x> {
    let Some((o, rest)) = ops.split_first() else { panic!("empty chain") };
    match o {
        Op::Strict => level1::<N, _, W>(soup.strict(), rest),
        Op::Recursive => level1::<N, _, W>(soup.recursive(), rest),
        Op::Tag(p) => level2::<N, _, W>(soup.tag(W::from(p.clone())), rest),
        Op::Attr(n, v) => level2::<N, _, W>(soup.attr(W::from(n.clone()), W::from(v.clone())), rest),
        Op::AttrName(n) => level2::<N, _, W>(soup.attr_name(W::from(n.clone())), rest),
        Op::AttrValue(v) => level2::<N, _, W>(soup.attr_value(W::from(v.clone())), rest),
        Op::Class(c) => level2::<N, _, W>(soup.class(W::from(c.clone())), rest),
    }
}

/// The conditions added to a query without any.
pub fn extend<'x, N: Bounds, W: Pattern<N::Text> + From<P> + 'x>(q: Query<'x, N, ()>, ops: &[Op]) -> Box<dyn DynQ<'x, N> + 'x> {
    level1::<N, _, W>(q, ops)
}

pub fn items<'x, N: Bounds, W: Pattern<N::Text> + From<P> + 'x>(soup: &'x Soup<N>, ops: &[Op]) -> Vec<QueryItem<'x, N>> {
    if ops.is_empty() {
        return soup.iter().collect();
    }
    let mut it = build::<N, W>(soup, ops).all();
    let mut v = vec![];
    while let Some(i) = it.next() {
        v.push(i);
    }
    v
}
pub fn first<'x, N: Bounds, W: Pattern<N::Text> + From<P> + 'x>(soup: &'x Soup<N>, ops: &[Op]) -> Option<QueryItem<'x, N>> {
    if ops.is_empty() {
        return soup.first();
    }
    build::<N, W>(soup, ops).first()
}

/// The unfiltered iteration against the snapshot; gives the address of every node.
pub fn base<N: View>(soup: &Soup<N>, snap: &Snap) -> Result<Vec<usize>, String>
where
    N::Text: AsRef<str>,
{
    let got: Vec<_> = soup.iter().collect();
    for (i, e) in snap.ents.iter().enumerate() {
        let Some(g) = got.get(i) else {
            return Err(format!("iterating the soup gave {} nodes, expected {}", got.len(), snap.ents.len()));
        };
        ensure!(
            same(&**g, e),
            "iterating the soup: node {i} is {:?} {:?} with {} children, expected {e:?}",
            g.v_name(),
            g.v_text(),
            g.v_kids().len()
        );
    }
    ensure!(
        got.len() == snap.ents.len(),
        "iterating the soup gave {} nodes, expected {}",
        got.len(),
        snap.ents.len()
    );
    Ok(got.iter().map(|g| addr(&**g)).collect())
}

pub fn check<N, W>(soup: &Soup<N>, snap: &Snap, addrs: &[usize], ops: &[Op]) -> Result<usize, String>
where
    N: View,
    N::Text: Ord + AsRef<str> + From<&'static str>,
    W: Pattern<N::Text> + From<P> + 'static,
{
    let want = expect(snap, ops);
    let got = items::<N, W>(soup, ops);
    let pos = |a: usize| addrs.iter().position(|x| *x == a);
    for i in 0..want.len().max(got.len()) {
        let w = want.get(i).map(|i| addrs[*i]);
        let g = got.get(i).map(|g| addr(&**g));
        if w != g {
            return Err(format!(
                "soup{}: result {i} is {}, expected {}; {} results, expected {}",
                show(ops),
                match (g, g.and_then(pos)) {
                    (None, _) => "missing".into(),
                    (_, None) => "not a node of the soup".into(),
                    (_, Some(p)) => format!("node {p} ({})", clip(&format!("{:?}", snap.ents[p]))),
                },
                match want.get(i) {
                    None => "none".into(),
                    Some(p) => format!("node {p} ({})", clip(&format!("{:?}", snap.ents[*p]))),
                },
                got.len(),
                want.len()
            ));
        }
        ensure!(same(&*got[i], &snap.ents[want[i]]), "soup{}: result {i} has changed", show(ops));
    }
    let f = first::<N, W>(soup, ops).map(|g| addr(&*g));
    ensure!(
        f == want.first().map(|i| addrs[*i]),
        "soup{}.first() is not the first of the results",
        show(ops)
    );
    Ok(want.len())
}

// ---------------------------------------------------------------- generation

pub struct Vocab {
    pub names: Vec<String>,
    pub anames: Vec<String>,
    pub avals: Vec<String>,
    pub classes: Vec<String>,
    pub pairs: Vec<(String, String)>,
}

pub fn vocab(snap: &Snap) -> Vocab {
    let mut v = Vocab { names: vec![], anames: vec![], avals: vec![], classes: vec![], pairs: vec![] };
    for e in &snap.ents {
        v.names.extend(e.name.clone());
        for (k, w) in e.attrs.iter().flatten() {
            v.anames.push(k.clone());
            v.avals.push(w.clone());
            v.pairs.push((k.clone(), w.clone()));
            if k == "class" {
                v.classes.push(w.clone());
            }
        }
    }
    v
}

fn word(rng: &mut Rng, from: &[String], other: &[&str]) -> String {
    let mut s = if !from.is_empty() && rng.pct(80) { rng.pick(from).clone() } else { rng.pick(other).to_string() };
    if rng.pct(20) {
        s = match rng.below(8) {
            0 => s.to_uppercase(),
            1 => s.to_lowercase(),
            2 => format!("{s} "),
            3 => format!(" {s}"),
            4 => s.chars().skip(1).collect(),
            5 => {
                s.pop();
                s
            }
            6 => s.split_whitespace().next().unwrap_or("").to_string(),
            _ => format!("{s}{s}"),
        };
    }
    s
}

pub fn pattern(rng: &mut Rng, from: &[String], other: &[&str]) -> P {
    let w = word(rng, from, other);
    match rng.below(24) {
        0..=5 => P::Str(w),
        6 | 7 => P::Owned(w),
        8 => P::CowB(w),
        9 => P::CowO(w),
        10..=12 => P::Bool(true),
        13 => P::Bool(false),
        14 => P::EqHint(w),
        15 => P::EqPlain(w),
        16 => P::StartsWith(w.chars().take(2).collect()),
        17 => P::NotEq(w),
        18 => P::LenMod(rng.range(1, 3), 0),
        19 => re(&format!("^{}$", regex::escape(&w))),
        20 => re(&regex::escape(&w)),
        21 => re(&format!("(?i){}", regex::escape(&w))),
        22 => re(rng.pick(&["^a", "e$", "[0-9]", "^$", "", ".", r"\s", "^h[1-6]$", r"(?s)^.{3}$", r"\bfoo\b", "[^a-z]"])),
        // the same source, another meaning
        _ if rng.pct(50) => reb(&regex::escape(&w), rng),
        _ => re(&format!("{}|{}", regex::escape(&w), "zzz")),
    }
}
pub fn reb(s: &str, rng: &mut Rng) -> P {
    P::Re(
        regex::RegexBuilder::new(s)
            .case_insensitive(rng.pct(50))
            .multi_line(rng.pct(30))
            .dot_matches_new_line(rng.pct(30))
            .unicode(true)
            .ignore_whitespace(rng.pct(20))
            .build()
            .unwrap_or_else(|_| Regex::new("x").unwrap()),
    )
}
fn re(s: &str) -> P {
    P::Re(Regex::new(s).unwrap())
}

const ON: [&str; 10] = ["a", "div", "p", "span", "li", "br", "script", "h1", "", "DIV"];
const OA: [&str; 8] = ["id", "class", "href", "uid", "", "ID", "data-x", "title"];
const OV: [&str; 8] = ["", "foo", "foo bar", "a", "true", " ", "n1", "é"];

pub fn op(rng: &mut Rng, v: &Vocab) -> Op {
    match rng.below(12) {
        0..=2 => Op::Tag(pattern(rng, &v.names, &ON)),
        3..=5 => {
            if rng.pct(40) && !v.pairs.is_empty() {
                let (k, w) = rng.pick(&v.pairs).clone();
                let k = if rng.pct(70) { P::Str(k) } else { pattern(rng, &[k], &OA) };
                let w = if rng.pct(60) { P::Str(w) } else { pattern(rng, &[w], &OV) };
                Op::Attr(k, w)
            } else {
                Op::Attr(pattern(rng, &v.anames, &OA), pattern(rng, &v.avals, &OV))
            }
        }
        6 => Op::AttrName(pattern(rng, &v.anames, &OA)),
        7 => Op::AttrValue(pattern(rng, &v.avals, &OV)),
        8 => Op::Class(pattern(rng, &v.classes, &OV)),
        9 | 10 => Op::Strict,
        _ => Op::Recursive,
    }
}

/// up to MAX_COND conditions and any number of scope calls
pub fn chain(rng: &mut Rng, v: &Vocab) -> Vec<Op> {
    let mut ops = vec![];
    let want = rng.range(1, 5);
    let mut conds = 0;
    while ops.len() < want {
        let o = op(rng, v);
        if o.is_cond() {
            if conds == MAX_COND {
                continue;
            }
            conds += 1;
        }
        ops.push(o);
    }
    ops
}
