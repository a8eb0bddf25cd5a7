//! C23: objects of both implementations side by side, inside a macro.

use crate::cmp::{self, T};
use crate::ctx::hash;
use crate::histories::pm_trees;
use crate::out::{guard, Out};
use proc_macro2::{fallback, Delimiter, Group, Ident, Literal, Punct, Spacing, Span, TokenStream, TokenTree};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Force,
    Unforce,
    New(usize),
    Parse(usize),
    /// extend by a tree constructed now
    Push(usize, u8),
    /// extend register 0 by 1, or 1 by 0, or by itself
    Ext(usize, usize),
    /// both registers, in this order, collected
    Concat(usize, usize),
    /// the trees of a register collected anew
    Again(usize),
    /// the trees of a register appended to a stream made now
    Onto(usize),
    Wrap(usize),
    Open(usize),
    /// every token respanned by its own span, put back one by one into a stream of the same kind
    Respan(usize),
    Convert(usize),
    Copy(usize),
    /// keep an iterator over the register that has taken one step
    Hold(usize),
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Tag {
    Compiler,
    Own,
    Mixed,
}

struct Reg {
    ts: TokenStream,
    m: Vec<T>,
    tag: Tag,
}

struct St {
    forced: bool,
    r: [Reg; 2],
    held: Option<(proc_macro2::token_stream::IntoIter, Vec<T>)>,
}

/// The tokens; a negative literal of the compiler counts as two in a self-contained stream, too.
fn trees(ts: TokenStream) -> Vec<T> {
    fn split(v: Vec<T>) -> Vec<T> {
        v.into_iter()
            .flat_map(|t| match t {
                T::L(s) if s.starts_with('-') => vec![T::P('-', false), T::L(s[1..].into())],
                T::G(d, v) => vec![T::G(d, split(v))],
                t => vec![t],
            })
            .collect()
    }
    split(cmp::trees(ts))
}

fn compiler(s: Span) -> bool {
    guard(|| s.unwrap()).is_ok()
}

const SRC: &str = "a -> [b 2]";
fn src_model() -> Vec<T> {
    vec![T::I("a".into()), T::P('-', true), T::P('>', false), T::G(b'[', vec![T::I("b".into()), T::L("2".into())])]
}
const KINDS: u8 = 4;
fn made(k: u8) -> (TokenTree, Vec<T>) {
    match k {
        0 => (Ident::new("x", Span::call_site()).into(), vec![T::I("x".into())]),
        1 => (Punct::new('+', Spacing::Alone).into(), vec![T::P('+', false)]),
        2 => (Literal::i8_suffixed(-3).into(), vec![T::P('-', false), T::L("3i8".into())]),
        _ => (Group::new(Delimiter::Brace, "y".parse().unwrap()).into(), vec![T::G(b'{', vec![T::I("y".into())])]),
    }
}

fn text(v: &[T]) -> String {
    v.iter()
        .map(|t| match t {
            T::I(s) | T::L(s) => s.clone(),
            T::P(c, _) => c.to_string(),
            T::G(b'[', v) => format!("[{}]", text(v)),
            T::G(b'{', v) => format!("{{{}}}", text(v)),
            T::G(_, v) => format!("({})", text(v)),
        })
        .collect()
}

impl St {
    fn now(&self) -> Tag {
        if self.forced { Tag::Own } else { Tag::Compiler }
    }
    /// The result of an operation that combines things of these kinds.
    fn settle(&mut self, i: usize, tags: &[Tag], new: Vec<T>, r: Result<TokenStream, String>) -> Result<(), String> {
        let same = tags.iter().all(|&t| t == tags[0] && t != Tag::Mixed);
        match r {
            Ok(ts) => {
                self.r[i] = Reg { ts, m: new, tag: if same { tags[0] } else { Tag::Mixed } };
                Ok(())
            }
            Err(_) if !same => Ok(()), // refused: nothing has changed
            Err(p) => Err(format!("panicked although only one implementation takes part: {p}")),
        }
    }
    fn step(&mut self, op: Op) -> Result<(), String> {
        let now = self.now();
        match op {
            Op::Force => {
                fallback::force();
                self.forced = true;
            }
            Op::Unforce => {
                fallback::unforce();
                self.forced = false;
            }
            Op::New(i) => self.r[i] = Reg { ts: TokenStream::new(), m: vec![], tag: now },
            Op::Parse(i) => self.r[i] = Reg { ts: SRC.parse().map_err(|e| format!("valid source refused: {e}"))?, m: src_model(), tag: now },
            Op::Push(i, k) => {
                let (t, add) = made(k);
                let mut new = self.r[i].m.clone();
                new.extend(add);
                let tags = [self.r[i].tag, now];
                let mut ts = self.r[i].ts.clone();
                let r = guard(|| ts.extend([t]));
                // what a refused extension leaves behind
                if r.is_err() && trees(ts.clone()) != self.r[i].m {
                    return Err("a refused extension changed the stream".into());
                }
                self.settle(i, &tags, new, r.map(|()| ts))?;
            }
            Op::Ext(i, j) => {
                let new = [self.r[i].m.clone(), self.r[j].m.clone()].concat();
                let tags = [self.r[i].tag, self.r[j].tag];
                let mut ts = self.r[i].ts.clone();
                let other = self.r[j].ts.clone();
                let r = guard(|| ts.extend([other]));
                if r.is_err() && trees(ts.clone()) != self.r[i].m {
                    return Err("a refused extension changed the stream".into());
                }
                self.settle(i, &tags, new, r.map(|()| ts))?;
            }
            Op::Concat(i, j) => {
                let new = [self.r[i].m.clone(), self.r[j].m.clone()].concat();
                let tags = [self.r[i].tag, self.r[j].tag];
                let v = vec![self.r[i].ts.clone(), self.r[j].ts.clone()];
                self.settle(i, &tags, new, guard(|| v.into_iter().collect()))?;
            }
            Op::Again(i) => {
                let tags = [if self.r[i].m.is_empty() { now } else { self.r[i].tag }, now];
                let (m, ts) = (self.r[i].m.clone(), self.r[i].ts.clone());
                let trees: Vec<TokenTree> = ts.into_iter().collect();
                self.settle(i, &tags, m, guard(|| trees.into_iter().collect()))?;
            }
            Op::Onto(i) => {
                let tags = [if self.r[i].m.is_empty() { now } else { self.r[i].tag }, now];
                let (m, ts) = (self.r[i].m.clone(), self.r[i].ts.clone());
                let trees: Vec<TokenTree> = ts.into_iter().collect();
                let r = guard(|| {
                    let mut s = TokenStream::new();
                    s.extend(trees);
                    s
                });
                self.settle(i, &tags, m, r)?;
            }
            Op::Wrap(i) => {
                let tags = [self.r[i].tag, now];
                let new = vec![T::G(b'(', self.r[i].m.clone())];
                // the group is of its stream's kind, whatever is current
                let g = Group::new(Delimiter::Parenthesis, self.r[i].ts.clone());
                if trees(g.stream()) != self.r[i].m {
                    return Err("a group's contents differ from the stream it was made of".into());
                }
                if self.r[i].tag != Tag::Mixed && compiler(g.span()) != (self.r[i].tag == Tag::Compiler) {
                    return Err("a group is not of its stream's implementation".into());
                }
                self.settle(i, &tags, new, guard(|| TokenStream::from(TokenTree::from(g))))?;
            }
            Op::Open(i) => {
                let at = self.r[i].m.iter().position(|t| matches!(t, T::G(..)));
                if let Some(at) = at {
                    let T::G(_, m) = self.r[i].m[at].clone() else { unreachable!() };
                    let before = self.r[i].m[..at].iter().filter(|t| matches!(t, T::G(..))).count();
                    let groups = self.r[i].ts.clone().into_iter().filter_map(|t| if let TokenTree::Group(g) = t { Some(g) } else { None });
                    let Some(g) = groups.skip(before).next() else {
                        return Err("the group is not where it was".into());
                    };
                    self.r[i] = Reg { ts: g.stream(), m, tag: self.r[i].tag };
                }
            }
            Op::Respan(i) => {
                let mut back = self.r[i].ts.clone();
                let empty = self.r[i].m.is_empty();
                let trees: Vec<TokenTree> = self.r[i]
                    .ts
                    .clone()
                    .into_iter()
                    .map(|mut t| {
                        t.set_span(t.span());
                        t
                    })
                    .collect();
                if !empty && self.r[i].tag != Tag::Mixed {
                    // a stream of this kind, extended by trees of this kind
                    let m = [self.r[i].m.clone(), self.r[i].m.clone()].concat();
                    let tags = [self.r[i].tag];
                    self.settle(i, &tags, m, guard(|| {
                        back.extend(trees);
                        back
                    }))?;
                }
            }
            Op::Convert(i) => {
                let pm = proc_macro::TokenStream::from(self.r[i].ts.clone());
                let got = pm_trees(pm.clone());
                if got != self.r[i].m {
                    return Err(format!("converts to {got:?}"));
                }
                self.r[i] = Reg { ts: pm.into(), m: self.r[i].m.clone(), tag: Tag::Compiler };
            }
            Op::Copy(i) => self.r[1 - i] = Reg { ts: self.r[i].ts.clone(), m: self.r[i].m.clone(), tag: self.r[i].tag },
            Op::Hold(i) => {
                if self.r[i].tag == Tag::Mixed {
                    return Ok(());
                }
                let mut it = self.r[i].ts.clone().into_iter();
                let first = it.next();
                if first.as_ref().map(cmp::tree) != self.r[i].m.first().cloned() {
                    return Err("an iterator's first step differs".into());
                }
                let rest = self.r[i].m.iter().skip(1).cloned().collect();
                self.held = Some((it, rest));
            }
        }
        Ok(())
    }
    /// What can be asked of an object alone works in either state.
    fn observe(&self) -> Result<(), String> {
        for (i, r) in self.r.iter().enumerate() {
            let bad = |e: String| Err(format!("register {i} ({:?}): {e}", r.tag));
            let got = trees(r.ts.clone());
            if got != r.m {
                return bad(format!("holds {got:?} instead of {:?}", r.m));
            }
            if r.ts.is_empty() != r.m.is_empty() {
                return bad("is_empty is wrong".into());
            }
            let t = r.ts.to_string();
            if t.replace([' ', '\n'], "") != text(&r.m) {
                return bad(format!("prints as {t:?}"));
            }
            if r.tag != Tag::Mixed {
                fn walk(ts: TokenStream, want: bool) -> bool {
                    ts.into_iter().all(|t| {
                        compiler(t.span()) == want
                            && match t {
                                TokenTree::Group(g) => compiler(g.span_open()) == want && compiler(g.delim_span().close()) == want && walk(g.stream(), want),
                                _ => true,
                            }
                    })
                }
                if !walk(r.ts.clone(), r.tag == Tag::Compiler) {
                    return bad("holds a token of the other implementation".into());
                }
            } else {
                for t in r.ts.clone() {
                    let _ = format!("{:?}", t.span());
                }
            }
        }
        if let Some((it, m)) = &self.held {
            let (lo, hi) = it.size_hint();
            let got: Vec<T> = it.clone().map(|t| cmp::tree(&t)).collect();
            if got != *m || lo > m.len() || hi.is_some_and(|h| h < m.len()) {
                return Err(format!("the iterator kept has {got:?} (size hint {lo}, {hi:?}) left instead of {m:?}"));
            }
        }
        Ok(())
    }
}

fn run_one(h: &[Op]) -> Result<u64, String> {
    fallback::unforce();
    let reg = || Reg { ts: TokenStream::new(), m: vec![], tag: Tag::Compiler };
    let mut st = St { forced: false, r: [reg(), reg()], held: None };
    let mut run = || -> Result<u64, String> {
        for (n, &op) in h.iter().enumerate() {
            guard(|| st.step(op)).unwrap_or_else(|p| Err(format!("panicked: {p}"))).map_err(|e| format!("step {} {op:?}: {e}", n + 1))?;
            guard(|| st.observe()).unwrap_or_else(|p| Err(format!("an object alone panicked: {p}"))).map_err(|e| format!("after step {} {op:?}: {e}", n + 1))?;
        }
        Ok(hash((st.forced, format!("{:?} {:?}", st.r[0].tag, st.r[1].tag), &st.r[0].m, &st.r[1].m)))
    };
    let r = run();
    // objects of both kinds are dropped in the state the history ends in
    drop(st);
    fallback::unforce();
    r
}

fn ops(level: u32) -> Vec<Op> {
    let mut v = vec![Op::Force, Op::Unforce];
    for i in 0..2 {
        v.extend([Op::Parse(i), Op::Push(i, 2), Op::Push(i, 3), Op::Ext(i, 1 - i), Op::Again(i)]);
        if level > 0 {
            v.extend([Op::New(i), Op::Push(i, 0), Op::Push(i, 1), Op::Ext(i, i), Op::Concat(i, 1 - i), Op::Onto(i), Op::Wrap(i), Op::Open(i), Op::Respan(i), Op::Convert(i), Op::Copy(i), Op::Hold(i)]);
        } else {
            v.extend([Op::Wrap(i), Op::Convert(i)]);
        }
    }
    v
}

/// Every object made in one state, with every object made in the other.
fn pairs(o: &mut Out) {
    type Make = (&'static str, fn() -> TokenTree);
    const MAKE: &[Make] = &[
        ("ident", || Ident::new("a", Span::call_site()).into()),
        ("raw ident", || Ident::new_raw("fn", Span::mixed_site()).into()),
        ("punct", || Punct::new('+', Spacing::Joint).into()),
        ("literal", || Literal::string("s").into()),
        ("negative literal", || Literal::f32_suffixed(-1.5).into()),
        ("group", || Group::new(Delimiter::Brace, "q 1".parse().unwrap()).into()),
        ("parsed ident", || "a".parse::<TokenStream>().unwrap().into_iter().next().unwrap()),
        ("parsed group", || "(z)".parse::<TokenStream>().unwrap().into_iter().next().unwrap()),
    ];
    let n = (MAKE.len() * MAKE.len() * 4) as u64;
    o.each("every two tokens made in different states, respanned, compared, joined and kept".into(), n, |o, i| {
        let (a, b, s) = ((i / 4) as usize / MAKE.len(), (i / 4) as usize % MAKE.len(), i % 4);
        let set = |forced: bool| if forced { fallback::force() } else { fallback::unforce() };
        let case = format!("{} and {}, the first made {}, used {}", MAKE[a].0, MAKE[b].0, if s & 1 == 1 { "forced" } else { "unforced" }, if s & 2 == 2 { "forced" } else { "unforced" });
        o.case = case.clone();
        o.transitions += 8;
        o.validated += 1;
        let r = guard(|| -> Result<(), String> {
            set(s & 1 == 1);
            let x = MAKE[a].1();
            set(s & 1 == 0);
            let y = MAKE[b].1();
            set(s & 2 == 2);
            let before = (cmp::tree(&x), cmp::tree(&y), format!("{x:?}"), format!("{y:?}"));
            if x.span().join(y.span()).is_some() || y.span().join(x.span()).is_some() {
                return Err("spans of two implementations join".into());
            }
            #[cfg(procmacro2_semver_exempt)]
            if x.span().eq(&y.span()) || y.span().eq(&x.span()) {
                return Err("spans of two implementations are equal".into());
            }
            let mut z = x.clone();
            if guard(|| z.set_span(y.span())).is_err() && format!("{z:?}") != before.2 {
                return Err("a refused set_span changed the token".into());
            }
            if cmp::tree(&z) != before.0 {
                return Err("set_span changed the token".into());
            }
            let _ = guard(|| x.span().resolved_at(y.span()));
            let _ = guard(|| x.span().located_at(y.span()));
            if let (TokenTree::Ident(p), TokenTree::Ident(q)) = (&x, &y) {
                if let Ok(e) = guard(|| p == q) {
                    if e != (p.to_string() == q.to_string()) {
                        return Err("identifiers of two implementations compare wrongly".into());
                    }
                }
                if *p != p.to_string().as_str() || *q != q.to_string().as_str() || (p.cmp(q) != p.to_string().cmp(&q.to_string())) {
                    return Err("an identifier compares wrongly".into());
                }
            }
            #[cfg(feature = "span")]
            {
                // refused inside a macro, without effect on what is there
                if s & 2 == 0 {
                    let own = if s & 1 == 1 { &x } else { &y };
                    let place = own.span().byte_range();
                    if guard(proc_macro2::extra::invalidate_current_thread_spans).is_ok() {
                        return Err("spans can be invalidated inside a macro".into());
                    }
                    if own.span().byte_range() != place || (b >= 6 && s & 1 == 0 && y.span().source_text().is_none()) {
                        return Err("a refused invalidation changed a span".into());
                    }
                }
            }
            let after = (cmp::tree(&x), cmp::tree(&y), format!("{x:?}"), format!("{y:?}"));
            if after != before {
                return Err(format!("from {before:?} to {after:?}"));
            }
            Ok(())
        });
        fallback::unforce();
        match r {
            Ok(Ok(())) => o.state(hash(&case)),
            Ok(Err(e)) => o.violation(&case, format!("inside a macro, {case}: {e}")),
            Err(p) => o.violation(&case, format!("inside a macro, {case}: panicked: {p}")),
        }
    });
}

pub fn run(o: &mut Out) {
    // a panic over mixed implementations is an expected outcome here
    pairs(o);
    // nothing, one of each kind in either state, and one that holds tokens of both
    let starts: [&[Op]; 4] = [
        &[],
        &[Op::Parse(1), Op::Force, Op::Parse(0), Op::Unforce],
        &[Op::Parse(1), Op::Push(1, 2), Op::Force, Op::Parse(0)],
        &[Op::Force, Op::Parse(0), Op::Unforce, Op::Push(0, 3), Op::Copy(0), Op::Push(0, 2)],
    ];
    let mut go = |label: &str, a: &[Op], len: u32| {
        let k = a.len() as u64;
        let n = starts.len() as u64;
        o.each(format!("{label}: every history of {len} operations out of {k} with force and unforce, after each of {n} beginnings"), k.pow(len) * n, |o, i| {
            let mut j = i / n;
            let mut h: Vec<Op> = starts[(i % n) as usize].to_vec();
            for _ in 0..len {
                h.push(a[(j % k) as usize]);
                j /= k;
            }
            o.case = format!("{h:?}");
            o.transitions += len as u64;
            o.validated += 1;
            match run_one(&h) {
                Ok(s) => o.state(s),
                Err(e) => o.violation(&format!("{h:?}"), format!("inside a macro, history {h:?}: {e}")),
            }
            if i % 100_003 == 77 {
                o.sample(format!("{h:?}"));
            }
        });
    };
    let (all, core) = (ops(1), ops(0));
    for len in 1..=3 {
        go("all operations", &all, len);
    }
    for len in 4..=if o_thorough() { 5 } else { 4 } {
        go("core operations", &core, len);
    }
    if o_thorough() {
        go("all operations", &all, 4);
    }
}
fn o_thorough() -> bool {
    std::env::var("PM_TIER").as_deref() == Ok("thorough")
}
