//! C22: code of the caller that runs inside an operation (an iterator being drawn from, a writer being
//! printed to, a hasher, an AsRef, a range) fails, panics or uses the library itself, at every point
//! at which it is called. Used outside a macro and inside one.

use crate::cmp::{self, T};
use proc_macro2::token_stream::IntoIter;
use proc_macro2::{Delimiter, Group, Ident, Literal, Punct, Spacing, Span, TokenStream, TokenTree};
use std::cell::RefCell;
use std::fmt::{self, Write};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Act {
    Parse,
    ParseError,
    Print,
    Debug,
    ExtendCopy,
    Iterate,
    KeepHalf,
    DropOthers,
    ExtendOther,
    Query,
    Construct,
    Wrap,
    SetSpan,
    ParseLiteral,
    /// another operation with callbacks of its own
    Nested(usize),
    Compare,
    #[cfg(all(any(feature = "span", procmacro2_semver_exempt), not(feature = "in_macro")))]
    Invalidate,
    Fail,
    Panic,
}

pub fn acts() -> Vec<Act> {
    use Act::*;
    let mut v = vec![Parse, ParseError, Print, Debug, ExtendCopy, Iterate, KeepHalf, DropOthers, ExtendOther, Query, Construct, Wrap, SetSpan, ParseLiteral, Compare, Fail, Panic];
    v.extend([0, 3, 9, 12, 14, 25, 28].map(Nested));
    #[cfg(all(any(feature = "span", procmacro2_semver_exempt), not(feature = "in_macro")))]
    v.push(Invalidate);
    v
}

#[derive(Default)]
struct World {
    plan: Vec<(usize, Act)>,
    ticks: usize,
    /// handles to the storage of the operation's stream
    others: Vec<TokenStream>,
    model: Vec<T>,
    kept: Vec<(IntoIter, Vec<T>)>,
    place: Option<Span>,
    place_shown: String,
    invalidated: bool,
    errors: Vec<String>,
    busy: bool,
}
thread_local! {
    static WORLD: RefCell<World> = RefCell::new(World::default());
}

struct Bang;

fn shown(s: Span) -> String {
    #[cfg(any(feature = "span", procmacro2_semver_exempt))]
    return format!("{:?} {:?} {:?} {:?}", s.source_text(), s.start(), s.end(), s.byte_range());
    #[cfg(not(any(feature = "span", procmacro2_semver_exempt)))]
    return format!("{:?} {:?}", s.source_text(), s);
}

fn note(e: String) {
    WORLD.with(|w| w.borrow_mut().errors.push(e));
}
fn expect<V: PartialEq + fmt::Debug>(what: &str, got: V, want: V) {
    if got != want {
        note(format!("{what} inside a callback: got {got:?}, expected {want:?}"));
    }
}

/// Called by every callback. True: the callback is to report failure.
fn tick() -> bool {
    let act = WORLD.with(|w| {
        let mut w = w.borrow_mut();
        if w.busy {
            return None;
        }
        let t = w.ticks;
        w.ticks += 1;
        let a = w.plan.iter().find(|p| p.0 == t).map(|p| p.1);
        w.busy = a.is_some();
        a
    });
    let Some(act) = act else { return false };
    let given = GIVEN.with(|g| g.get());
    let r = catch_unwind(AssertUnwindSafe(|| perform(act)));
    GIVEN.with(|g| g.set(given));
    WORLD.with(|w| w.borrow_mut().busy = false);
    match r {
        Ok(fail) => fail,
        Err(p) if p.is::<Bang>() => resume_unwind(p),
        Err(_) => {
            note(format!("{act:?} inside a callback panicked"));
            false
        }
    }
}

fn others() -> (Vec<TokenStream>, Vec<T>) {
    WORLD.with(|w| {
        let w = w.borrow();
        (w.others.clone(), w.model.clone())
    })
}

fn tokens() -> Vec<TokenTree> {
    vec![
        Ident::new("n", Span::call_site()).into(),
        Literal::i32_suffixed(-3).into(),
        Punct::new('+', Spacing::Alone).into(),
        Group::new(Delimiter::Brace, TokenStream::from(TokenTree::from(Literal::string("é\"")))).into(),
        Ident::new_raw("fn", Span::call_site()).into(),
    ]
}
/// What tokens() put into a stream gives.
fn token_model(n: usize) -> Vec<T> {
    let parts = [
        vec![T::I("n".into())],
        vec![T::P('-', false), T::L("3i32".into())],
        vec![T::P('+', false)],
        vec![T::G(b'{', vec![T::L("\"é\\\"\"".into())])],
        vec![T::I("r#fn".into())],
    ];
    parts[..n].concat()
}

/// Without None groups, which have no text.
fn flat(v: &[T]) -> Vec<T> {
    v.iter()
        .flat_map(|t| match t {
            T::G(b'0', c) => flat(c),
            T::G(d, c) => vec![T::G(*d, flat(c))],
            t => vec![t.clone()],
        })
        .collect()
}

fn perform(a: Act) -> bool {
    match a {
        Act::Parse => {
            let t: Result<TokenStream, _> = "p + (q 'r' \"é\") -1".parse();
            let want = vec![
                T::I("p".into()),
                T::P('+', false),
                T::G(b'(', vec![T::I("q".into()), T::L("'r'".into()), T::L("\"é\"".into())]),
                T::P('-', false),
                T::L("1".into()),
            ];
            expect("parsing", t.ok().map(cmp::trees), Some(want));
        }
        Act::ParseError => {
            let e = "a (b ] c".parse::<TokenStream>().err();
            expect("parsing an invalid source", e.is_some(), true);
            if let Some(e) = e {
                let _ = (e.span(), e.to_string());
            }
        }
        Act::Print => {
            let (o, m) = others();
            for s in o {
                let back = s.to_string().parse::<TokenStream>().map(cmp::trees).ok();
                expect("printing a stream and parsing it", back, Some(flat(&m)));
            }
        }
        Act::Debug => {
            let (o, m) = others();
            for s in o {
                expect("Debug of a copy", format!("{s:?} {s:#?}"), format!("{0:?} {0:#?}", s.clone()));
                expect("tokens after Debug", cmp::trees(s), m.clone());
            }
        }
        Act::ExtendCopy => {
            let (o, m) = others();
            for mut s in o {
                s.extend(tokens());
                s.extend([s.clone()]);
                let one: Vec<T> = m.iter().cloned().chain(token_model(5)).collect();
                expect("extending a copy", cmp::trees(s), [one.clone(), one].concat());
            }
        }
        Act::Iterate => {
            let (o, m) = others();
            for s in o {
                expect("iterating", cmp::trees(s), m.clone());
            }
        }
        Act::KeepHalf => {
            let (o, m) = others();
            for s in o {
                let mut it = s.into_iter();
                let n = m.len() / 2;
                for _ in 0..n {
                    it.next();
                }
                WORLD.with(|w| w.borrow_mut().kept.push((it, m[n..].to_vec())));
            }
        }
        Act::DropOthers => {
            let d = WORLD.with(|w| std::mem::take(&mut w.borrow_mut().others));
            drop(d);
        }
        Act::ExtendOther => {
            let mut o = WORLD.with(|w| std::mem::take(&mut w.borrow_mut().others));
            for s in &mut o {
                s.extend(tokens());
            }
            WORLD.with(|w| {
                let mut w = w.borrow_mut();
                w.others = o;
                w.model.extend(token_model(5));
            });
        }
        Act::Query => {
            let (p, want, inv) = WORLD.with(|w| {
                let w = w.borrow();
                (w.place, w.place_shown.clone(), w.invalidated)
            });
            if let (Some(p), false) = (p, inv) {
                expect("the queries on a span", shown(p), want);
            }
        }
        Act::Construct => {
            expect("constructing tokens", tokens().into_iter().collect::<TokenStream>().into_iter().map(|t| cmp::tree(&t)).collect::<Vec<_>>(), token_model(5));
            expect("refusing an identifier", catch_unwind(|| Ident::new("1a", Span::call_site())).is_err(), true);
        }
        Act::Wrap => {
            let (o, m) = others();
            for s in o {
                let g = Group::new(Delimiter::Bracket, s);
                let c = g.clone();
                drop(g);
                expect("a group's contents", cmp::trees(c.stream()), m.clone());
            }
        }
        Act::SetSpan => {
            let (o, m) = others();
            for s in o {
                let v: Vec<TokenTree> = s
                    .into_iter()
                    .map(|mut t| {
                        t.set_span(Span::mixed_site());
                        t
                    })
                    .collect();
                expect("tokens with new spans", v.into_iter().collect::<TokenStream>().into_iter().map(|t| cmp::tree(&t)).collect(), m.clone());
            }
        }
        Act::ParseLiteral => {
            expect("parsing a literal", "-1.5f32".parse::<Literal>().map(|l| l.to_string()).ok(), Some("-1.5f32".into()));
            expect("parsing a bad literal", "1 ".parse::<Literal>().is_ok(), false);
        }
        Act::Nested(k) => {
            let (a, b) = (outcome(k), plain(k));
            expect("an operation with callbacks", a, b);
        }
        Act::Compare => {
            let i = Ident::new("k", Span::call_site());
            expect("comparing", (i == "k", i == "r#k", i < Ident::new_raw("k", Span::call_site()), hashed(&i) == hashed(&Ident::new("k", Span::mixed_site()))), (true, false, true, true));
        }
        #[cfg(all(any(feature = "span", procmacro2_semver_exempt), not(feature = "in_macro")))]
        Act::Invalidate => {
            proc_macro2::extra::invalidate_current_thread_spans();
            WORLD.with(|w| w.borrow_mut().invalidated = true);
            let t: TokenStream = "é new".parse().unwrap();
            expect("source text after invalidating", t.into_iter().last().and_then(|t| t.span().source_text()), Some("new".into()));
        }
        Act::Fail => return true,
        Act::Panic => resume_unwind(Box::new(Bang)),
    }
    false
}

fn hashed(i: &Ident) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    i.hash(&mut h);
    h.finish()
}

// ---- the callbacks ----

struct It<I> {
    inner: I,
    given: usize,
    done: bool,
}
impl<I: Iterator> Iterator for It<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        if tick() {
            self.done = true;
        }
        if self.done {
            return None;
        }
        let x = self.inner.next();
        if x.is_some() {
            self.given += 1;
            GIVEN.with(|g| g.set(self.given));
        }
        x
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        tick();
        (0, self.inner.size_hint().1)
    }
}
impl<I> Drop for It<I> {
    fn drop(&mut self) {
        if !std::thread::panicking() && !self.done {
            tick_quiet();
        }
    }
}
/// As tick, but a planned panic is left out: it would come out of a destructor.
fn tick_quiet() {
    let skip = WORLD.with(|w| {
        let mut w = w.borrow_mut();
        let t = w.ticks;
        let p = !w.busy && w.plan.iter().any(|p| p.0 == t && p.1 == Act::Panic);
        if p {
            w.ticks += 1;
        }
        p
    });
    if !skip {
        tick();
    }
}
thread_local! {
    /// items the last iterator handed out
    static GIVEN: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}
fn it<I: IntoIterator>(v: I) -> It<I::IntoIter> {
    GIVEN.with(|g| g.set(0));
    It { inner: v.into_iter(), given: 0, done: false }
}

#[derive(Default)]
struct Wr {
    text: String,
    failed: bool,
    after: bool,
}
impl Write for Wr {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.failed {
            self.after = true;
        }
        if tick() {
            self.failed = true;
        }
        if self.failed {
            return Err(fmt::Error);
        }
        self.text.push_str(s);
        Ok(())
    }
}
struct Ha(Vec<u8>);
impl Hasher for Ha {
    fn write(&mut self, b: &[u8]) {
        tick();
        self.0.extend_from_slice(b);
    }
    fn finish(&self) -> u64 {
        0
    }
}
struct As(&'static str);
impl AsRef<str> for As {
    fn as_ref(&self) -> &str {
        tick();
        self.0
    }
}
#[cfg(any(feature = "span", procmacro2_semver_exempt))]
struct Ra(usize, usize);
#[cfg(any(feature = "span", procmacro2_semver_exempt))]
impl std::ops::RangeBounds<usize> for Ra {
    fn start_bound(&self) -> std::ops::Bound<&usize> {
        tick();
        std::ops::Bound::Included(&self.0)
    }
    fn end_bound(&self) -> std::ops::Bound<&usize> {
        tick();
        std::ops::Bound::Excluded(&self.1)
    }
}

// ---- the operations ----

pub const OPS: usize = 30;
/// Does the operation write text?
pub fn prints(op: usize) -> bool {
    (9..=23).contains(&op)
}

#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
    /// contents of the stream made or extended, items its iterator handed out
    Stream(Vec<T>, usize),
    /// text written, whether the result was Ok, whether a failure was ignored
    Text(String, bool, bool),
    Value(String),
    /// a planned panic came out
    Unwound,
}

const SOURCE: &str = "a 'l (b, [-1] \"é\n\") r#x #![z]";

fn target() -> TokenStream {
    let mut t: TokenStream = SOURCE.parse().unwrap();
    t.extend([TokenTree::from(Group::new(Delimiter::None, TokenTree::from(Ident::new("w", Span::call_site())).into()))]);
    t
}
fn streams() -> Vec<TokenStream> {
    tokens().into_iter().map(TokenStream::from).collect()
}

/// Runs operation `op`. `stream` is used by operations that work on one, and is kept by `keep` afterwards
/// if it was extended.
fn operate(op: usize, stream: &mut TokenStream) -> Outcome {
    let given = || GIVEN.with(|g| g.get());
    fn text(f: impl FnOnce(&mut Wr) -> fmt::Result) -> Outcome {
        let mut w = Wr::default();
        // what was written before a panic is looked at by the caller of operate
        let r = f(&mut w);
        Outcome::Text(w.text, r.is_ok(), w.after || w.failed && r.is_ok())
    }
    let made = |s: TokenStream, n: usize| Outcome::Stream(cmp::trees(s), n);
    let group = || Group::new(Delimiter::Parenthesis, target());
    match op {
        0 => {
            stream.extend(it(tokens()));
            made(stream.clone(), given())
        }
        1 => {
            stream.extend(it(streams()));
            made(stream.clone(), given())
        }
        2 => made(it(tokens()).collect(), given()),
        3 => made(it(streams()).collect(), given()),
        4 => {
            // an iterator over the stream's own tokens
            let c = stream.clone();
            stream.extend(it(c));
            made(stream.clone(), given())
        }
        5 => {
            let c = stream.clone();
            stream.extend(it([c.clone(), c]));
            made(stream.clone(), given())
        }
        6 => {
            let c = stream.clone();
            made(it([c.clone(), TokenStream::new(), c]).collect(), given())
        }
        7 => {
            let mut s = TokenStream::new();
            s.extend(it(streams()));
            made(s, given())
        }
        8 => {
            let c = stream.clone();
            made(it(c).collect(), given())
        }
        9 => text(|w| write!(w, "{stream}")),
        10 => text(|w| write!(w, "{stream:?}")),
        11 => text(|w| write!(w, "{stream:#?}")),
        12 => text(|w| write!(w, "{}", group())),
        13 => text(|w| write!(w, "{:?}", group())),
        14 => text(|w| write!(w, "{}", Ident::new_raw("match", Span::call_site()))),
        15 => text(|w| write!(w, "{:?}", Ident::new_raw("match", Span::call_site()))),
        16 => text(|w| write!(w, "{}", Literal::string("é\n"))),
        17 => text(|w| write!(w, "{:?}", Literal::i8_suffixed(-1))),
        18 => text(|w| write!(w, "{} {0:?} {0:#?}", Punct::new('\'', Spacing::Joint))),
        19 => text(|w| write!(w, "{0} {0:?}", TokenTree::from(group()))),
        20 => text(|w| write!(w, "{:?}", stream.clone().into_iter())),
        21 => text(|w| {
            let e = "a ) b".parse::<TokenStream>().unwrap_err();
            write!(w, "{e} {e:?}")
        }),
        22 => text(|w| {
            let e = "a".parse::<Literal>().unwrap_err();
            write!(w, "{e} {e:?}")
        }),
        23 => text(|w| write!(w, "{:?}", Span::call_site())),
        24 => {
            let mut h = Ha(Vec::new());
            Ident::new_raw("match", Span::call_site()).hash(&mut h);
            Outcome::Value(format!("{:?}", h.0))
        }
        25 => Outcome::Value(format!("{:?}", ["match", "r#match", "r#", ""].map(|s| Ident::new_raw("match", Span::call_site()) == As(s)))),
        26 => Outcome::Value(format!("{:?}", ["match", "r#match", "m"].map(|s| Ident::new("match", Span::call_site()) == As(s)))),
        #[cfg(any(feature = "span", procmacro2_semver_exempt))]
        27 => {
            let l: Literal = "\"aéb\"".parse().unwrap();
            Outcome::Value(format!("{:?} {:?} {:?}", l.subspan(Ra(1, 3)).is_some(), l.subspan(Ra(0, 2)).map(|s| format!("{s:?}")), l.subspan(Ra(3, 99)).is_some()))
        }
        28 => {
            let mut s = stream.clone();
            s.extend(it(["n", "m"].map(|n| Ident::new(n, Span::call_site()))));
            let a = given();
            s.extend(it([Literal::i8_unsuffixed(-1), Literal::u8_suffixed(2)]));
            made(s, a * 10 + given())
        }
        29 => {
            let mut s = stream.clone();
            s.extend(it(['+', '-'].map(|c| Punct::new(c, Spacing::Alone))));
            let a = given();
            s.extend(it([group()]));
            made(s, a * 10 + given())
        }
        _ => Outcome::Value(String::new()),
    }
}

/// The same without any callback acting.
fn plain(op: usize) -> Outcome {
    outcome(op)
}
/// Inside a callback the plan is suspended (`busy`), so this runs undisturbed.
fn outcome(op: usize) -> Outcome {
    let mut s = target();
    operate(op, &mut s)
}

/// The outcome when the iterators of `op` end early, from the model.
fn shortened(op: usize, n: usize, base: &[T]) -> Option<Vec<T>> {
    let old = || base.to_vec();
    let part = |v: Vec<Vec<T>>, n: usize| v[..n].concat();
    let singles: Vec<Vec<T>> = base.iter().map(|t| vec![t.clone()]).collect();
    Some(match op {
        0 | 1 => [old(), token_model(n)].concat(),
        2 | 3 | 7 => token_model(n),
        4 => [old(), part(singles, n)].concat(),
        8 => part(singles, n),
        5 => [old(), part(vec![old(), old()], n)].concat(),
        6 => part(vec![old(), vec![], old()], n),
        28 => [
            old(),
            part(vec![vec![T::I("n".into())], vec![T::I("m".into())]], n / 10),
            part(vec![vec![T::P('-', false), T::L("1".into())], vec![T::L("2u8".into())]], n % 10),
        ]
        .concat(),
        29 => [old(), part(vec![vec![T::P('+', false)], vec![T::P('-', false)]], n / 10), part(vec![vec![T::G(b'(', old())]], n % 10)].concat(),
        _ => return None,
    })
}

/// Number of callbacks of an undisturbed run, and its outcome.
pub fn baseline(op: usize, handles: usize) -> (usize, Outcome) {
    let (o, ticks, errors) = raw(op, handles, &[], &mut target_and_place());
    assert!(errors.is_empty(), "{errors:?}");
    (ticks, o)
}

fn target_and_place() -> (TokenStream, Span, String) {
    // so that spans are shown the same in every run
    #[cfg(all(any(feature = "span", procmacro2_semver_exempt), not(feature = "in_macro")))]
    proc_macro2::extra::invalidate_current_thread_spans();
    let s = target();
    let p = s.clone().into_iter().nth(3).unwrap().span();
    let d = shown(p);
    (s, p, d)
}

fn raw(op: usize, handles: usize, plan: &[(usize, Act)], t: &mut (TokenStream, Span, String)) -> (Outcome, usize, Vec<String>) {
    WORLD.with(|w| {
        *w.borrow_mut() = World {
            plan: plan.to_vec(),
            others: vec![t.0.clone(); handles],
            model: cmp::trees(t.0.clone()),
            place: Some(t.1),
            place_shown: t.2.clone(),
            ..World::default()
        }
    });
    let r = catch_unwind(AssertUnwindSafe(|| operate(op, &mut t.0)));
    let (o, mut errors) = match r {
        Ok(o) => (o, Vec::new()),
        Err(p) if p.is::<Bang>() => (Outcome::Unwound, Vec::new()),
        Err(_) => (Outcome::Unwound, vec!["the operation panicked by itself".to_string()]),
    };
    let w = WORLD.with(|w| std::mem::take(&mut *w.borrow_mut()));
    errors.extend(w.errors);
    for s in &w.others {
        if cmp::trees(s.clone()) != w.model {
            errors.push(format!("another stream sharing the tokens is {:?} afterwards, expected {:?}", cmp::trees(s.clone()), w.model));
        }
    }
    for (it, m) in w.kept {
        let got: Vec<T> = it.map(|t| cmp::tree(&t)).collect();
        if got != m {
            errors.push(format!("an iterator kept by the callback yields {got:?}, expected {m:?}"));
        }
    }
    (o, w.ticks, errors)
}

/// The plans for an operation with `ticks` callbacks: one act at each of them, and if there are at most `max`, every
/// two acts at two of them.
pub fn plans(ticks: usize, acts: &[Act], max: usize) -> u64 {
    let (t, a) = (ticks as u64, acts.len() as u64);
    t * a + if ticks <= max { t * t.saturating_sub(1) / 2 * a * a } else { 0 }
}
pub fn plan(ticks: usize, acts: &[Act], i: u64) -> Vec<(usize, Act)> {
    let (t, a) = (ticks as u64, acts.len() as u64);
    if i < t * a {
        return vec![((i / a) as usize, acts[(i % a) as usize])];
    }
    let mut i = i - t * a;
    let (x, y) = (acts[(i % a) as usize], acts[(i / a % a) as usize]);
    i /= a * a;
    // the i-th pair p < q
    let mut q = 1;
    while i >= q {
        i -= q;
        q += 1;
    }
    vec![(i as usize, x), (q as usize, y)]
}

/// Runs `op` with the plan and judges everything.
pub fn judge(op: usize, handles: usize, plan: &[(usize, Act)], base: &Outcome) -> Result<Outcome, String> {
    let mut t = target_and_place();
    let old = cmp::trees(t.0.clone());
    let (o, _, errors) = raw(op, handles, plan, &mut t);
    if let Some(e) = errors.into_iter().next() {
        return Err(e);
    }
    let panics = plan.iter().any(|p| p.1 == Act::Panic);
    let fails = plan.iter().any(|p| p.1 == Act::Fail);
    let after = cmp::trees(t.0.clone());
    let given = GIVEN.with(|g| g.get());
    match (&o, base) {
        (Outcome::Unwound, _) => {
            if !panics {
                return Err("panicked".into());
            }
            // what was extended holds its old tokens and a prefix of the new ones
            let ok = if matches!(op, 0 | 1 | 4 | 5) {
                let full = shortened(op, given, &old).unwrap();
                after.len() >= old.len() && after.len() <= full.len() && after[..] == full[..after.len()]
            } else {
                after == old
            };
            if !ok {
                return Err(format!("after the panic the stream is {after:?}"));
            }
        }
        (Outcome::Stream(got, n), Outcome::Stream(..)) => {
            let want = shortened(op, *n, &old).unwrap();
            if *got != want {
                return Err(format!("the iterator handed out {n} items, and the stream is {got:?}, expected {want:?}"));
            }
            if !fails && o != *base {
                return Err(format!("got {o:?}, undisturbed {base:?}"));
            }
            if !matches!(op, 0 | 1 | 4 | 5) && after != old {
                return Err("a stream that was only read has changed".into());
            }
        }
        (Outcome::Text(got, ok, late), Outcome::Text(want, ..)) => {
            if *late {
                return Err("the writer's failure was not passed on".into());
            }
            if *ok && got != want {
                return Err(format!("wrote {got:?}, undisturbed {want:?}"));
            }
            if !*ok && !fails {
                return Err("formatting failed although the writer did not".into());
            }
            if !*ok && !(want.starts_with(got.as_str()) && got.len() <= want.len()) {
                return Err(format!("wrote {got:?} before the writer failed, undisturbed {want:?}"));
            }
            if after != old {
                return Err("a stream that was only printed has changed".into());
            }
        }
        (Outcome::Value(a), Outcome::Value(b)) => {
            if a != b {
                return Err(format!("got {a}, undisturbed {b}"));
            }
        }
        _ => return Err(format!("got {o:?}, undisturbed {base:?}")),
    }
    Ok(o)
}

#[cfg(not(feature = "in_macro"))]
pub fn c22(ctx: &crate::ctx::Ctx) {
    let acts = acts();
    let max = if ctx.thorough { 40 } else { 16 };
    let mut cases = Vec::new();
    for op in 0..OPS {
        for handles in 0..3 {
            let (ticks, base) = match crate::ctx::guard(|| baseline(op, handles)) {
                Ok(b) => b,
                Err(e) => {
                    ctx.violation(format!("operation {op}"), format!("operation {op} with {handles} other handles, undisturbed: {e}"));
                    continue;
                }
            };
            // an undisturbed run must itself be right
            if let Err(e) = judge(op, handles, &[], &base) {
                ctx.violation(format!("operation {op}"), format!("operation {op} with {handles} other handles, undisturbed: {e}"));
            }
            // two acts at a time with one other handle only, in the quick tier
            let max = if handles == 1 || ctx.thorough { max } else { 0 };
            let n = plans(ticks, &acts, max);
            ctx.space(format!("operation {op}, {handles} other handles to the stream: every act at each of {ticks} callbacks{}", if ticks <= max { ", every two acts at every two" } else { "" }), n);
            cases.push((op, handles, ticks, base, n));
        }
    }
    const B: u64 = 256;
    let items: Vec<(usize, u64)> = cases.iter().enumerate().flat_map(|(k, c)| (0..c.4.div_ceil(B)).map(move |b| (k, b))).collect();
    ctx.par(items.len() as u64, 1, |item, l| {
        let (k, b) = items[item as usize];
        let (op, handles, ticks, base, n) = &cases[k];
        for i in b * B..(b * B + B).min(*n) {
            let p = plan(*ticks, &acts, i);
            l.transitions += p.len() as u64 + 1;
            l.validated += 1;
            match crate::ctx::guard(|| judge(*op, *handles, &p, base)) {
                Ok(Ok(o)) => {
                    if l.states.len() < 100_000 {
                        l.states.insert(crate::ctx::hash((op, handles, &format!("{p:?} {o:?}"))));
                    }
                }
                Ok(Err(e)) | Err(e) => ctx.violation(format!("{op} {handles} {p:?}"), format!("operation {op} with {handles} other handles, at callbacks {p:?}: {e}")),
            }
            if i % 9973 == 5 {
                ctx.sample(format!("operation {op}, {handles} handles, {p:?}"));
            }
            if ctx.stopped() {
                return;
            }
        }
    });
}
