//! Reference model of the Sieve control/variable/disposition core: a small AST, its rendering to script
//! text, and an interpreter over the AST (written from the language definition, not from the compiled
//! code). Every enumerated program is run by both and the complete event sequences are compared.
use crate::eng::*;
use crate::harness::*;
use sieve::{compiler::grammar::actions::action_redirect::{ByTime, Notify, Ret}, Compiler, Context, Event, Input, Mailbox, Recipient, Runtime, Script, Sieve};
use sieve::runtime::Variable;
use std::collections::HashMap;
use std::sync::Arc;

// ---------------------------------------------------------------- choices (host answers)
/// Systematic exploration of all answer sequences: depth-first over the questions actually asked.
#[derive(Default, Clone)]
pub struct Choices {
    pub bits: Vec<(usize, usize)>,
    pos: usize,
}
impl Choices {
    pub fn choose(&mut self, n: usize) -> usize {
        if self.pos == self.bits.len() {
            self.bits.push((0, n));
        }
        let (v, m) = self.bits[self.pos];
        debug_assert_eq!(m, n);
        self.pos += 1;
        v
    }
    pub fn rewind(&mut self) {
        self.pos = 0;
    }
    /// next sequence, false when the space is exhausted
    pub fn advance(&mut self) -> bool {
        self.bits.truncate(self.pos);
        self.pos = 0;
        while let Some((v, n)) = self.bits.pop() {
            if v + 1 < n {
                self.bits.push((v + 1, n));
                return true;
            }
        }
        false
    }
    pub fn show(&self) -> String {
        self.bits.iter().map(|(v, _)| v.to_string()).collect::<Vec<_>>().join("")
    }
}

// ---------------------------------------------------------------- strings
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum P {
    T(String),
    /// variable by name as written
    V(String),
    /// resolved local slot (filled by resolve)
    Slot(usize),
    G(String),
    M(usize),
}
pub type S = Vec<P>;
/// Parses "a${x}b${1}" into pieces.
pub fn s(t: &str) -> S {
    let mut v = vec![];
    let mut rest = t;
    while let Some(i) = rest.find("${") {
        if i > 0 {
            v.push(P::T(rest[..i].into()));
        }
        let e = rest[i..].find('}').unwrap() + i;
        let n = &rest[i + 2..e];
        v.push(match n.parse::<usize>() {
            Ok(n) => P::M(n),
            _ => P::V(n.into()),
        });
        rest = &rest[e + 1..];
    }
    if !rest.is_empty() {
        v.push(P::T(rest.into()));
    }
    v
}
pub fn text_of(t: &S) -> String {
    t.iter()
        .map(|p| match p {
            P::T(t) => t.clone(),
            P::V(n) | P::G(n) => format!("${{{n}}}"),
            P::M(n) => format!("${{{n}}}"),
            P::Slot(_) => unreachable!(),
        })
        .collect()
}
pub fn q(t: &str) -> String {
    let mut o = String::from("\"");
    for c in t.chars() {
        if c == '"' || c == '\\' {
            o.push('\\');
        }
        o.push(c);
    }
    o.push('"');
    o
}
fn qs(t: &S) -> String {
    q(&text_of(t))
}
fn ql(t: &[S]) -> String {
    if t.len() == 1 {
        qs(&t[0])
    } else {
        format!("[{}]", t.iter().map(qs).collect::<Vec<_>>().join(", "))
    }
}

// ---------------------------------------------------------------- AST
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Mt {
    Is,
    Contains,
    Matches,
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum T {
    True,
    False,
    /// host question: mailboxexists "h<id>"
    Host(u32),
    /// host question by external function in an expression: eval "h(<id>)"
    Fnc(u32),
    Not(Box<T>),
    All(Vec<T>),
    Any(Vec<T>),
    /// a test of the real language with a value known by construction
    Known(&'static str, bool),
    Str(Mt, Vec<S>, Vec<S>),
    HasFlag(Option<Vec<String>>, Vec<S>),
    /// any test with a match type: text before the keys, the values it examines, keys
    M(String, Vec<S>, Vec<MKey>),
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum MKey {
    Glob(S),
    Rx(super::rx::Rx),
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum FlagOp {
    Set,
    Add,
    Remove,
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum C {
    /// observable step: fileinto :copy "m<id><text>"
    Mark(u32, S),
    /// observes the current part: fileinto :copy "p<id> ${header.x-id}"
    MarkPart(u32),
    If(Vec<(T, Vec<C>)>, Option<Vec<C>>),
    Stop,
    Return,
    Error(S),
    /// unknown command (allowed through ihave), an error only if reached
    Unknown,
    Keep(Option<Vec<S>>),
    FileInto(bool, Option<Vec<S>>),
    Discard,
    /// copy, usable address; neither sent: (false, false) no address, (true, false) the user's own
    Redirect(bool, bool),
    Reject,
    Set { name: String, val: S, local: bool },
    SetSlot { slot: Result<usize, String>, val: S },
    Global(Vec<String>),
    Flag(FlagOp, Option<String>, Vec<S>),
    FlagSlot(FlagOp, Result<usize, String>, Vec<S>),
    Include { name: String, global: bool, once: bool, optional: bool },
    ForEvery(Option<String>, Vec<C>),
    /// while on a host answer (external function): at most `fuel` rounds explored
    While(u32, Vec<C>),
    Break(Option<String>),
    Continue,
    AddHeader,
    /// slots declared by a block (filled by resolve): cleared when the block is left
    Scope(Vec<usize>, Vec<C>),
}
pub type B = Vec<C>;

/// Numbers hosts and marks in text order.
pub fn number(b: &mut B, n: &mut u32) {
    fn t(x: &mut T, n: &mut u32) {
        match x {
            T::Host(i) | T::Fnc(i) => {
                *i = *n;
                *n += 1
            }
            T::Not(x) => t(x, n),
            T::All(v) | T::Any(v) => v.iter_mut().for_each(|x| t(x, n)),
            _ => (),
        }
    }
    for c in b {
        match c {
            C::Mark(i, _) | C::MarkPart(i) => {
                *i = *n;
                *n += 1
            }
            C::If(br, el) => {
                for (c, b) in br {
                    t(c, n);
                    number(b, n);
                }
                if let Some(b) = el {
                    number(b, n)
                }
            }
            C::ForEvery(_, b) => number(b, n),
            C::While(i, b) => {
                *i = *n;
                *n += 1;
                number(b, n)
            }
            _ => (),
        }
    }
}

// ---------------------------------------------------------------- rendering
pub const REQ: &str = "require [\"fileinto\", \"copy\", \"envelope\", \"variables\", \"imap4flags\", \"reject\", \"include\", \"foreverypart\", \"mime\", \"editheader\", \"ihave\", \"mailbox\", \"relational\", \"body\", \"environment\", \"date\", \"enotify\", \"duplicate\", \"spamtest\", \"virustest\", \"mboxmetadata\", \"servermetadata\", \"extlists\", \"subaddress\", \"regex\", \"index\", \"spamtestplus\", \"vnd.stalwart.while\", \"vnd.stalwart.expressions\"];\n";

pub fn render_t(x: &T, o: &mut String) {
    match x {
        T::True => o.push_str("true"),
        T::False => o.push_str("false"),
        T::Host(i) => o.push_str(&format!("mailboxexists \"h{i}\"")),
        T::Fnc(i) => o.push_str(&format!("eval \"h({i})\"")),
        T::Not(x) => {
            o.push_str("not ");
            render_t(x, o)
        }
        T::All(v) | T::Any(v) => {
            o.push_str(if matches!(x, T::All(_)) { "allof (" } else { "anyof (" });
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    o.push_str(", ");
                }
                render_t(x, o);
            }
            o.push(')');
        }
        T::Known(t, _) => o.push_str(t),
        T::Str(mt, v, k) => {
            o.push_str("string ");
            o.push_str(match mt {
                Mt::Is => ":is ",
                Mt::Contains => ":contains ",
                Mt::Matches => ":matches ",
            });
            o.push_str(&ql(v));
            o.push(' ');
            o.push_str(&ql(k));
        }
        T::M(pre, _, k) => {
            o.push_str(pre);
            o.push(' ');
            let k: Vec<S> = k
                .iter()
                .map(|k| match k {
                    MKey::Glob(k) => k.clone(),
                    MKey::Rx(r) => vec![P::T(r.text())],
                })
                .collect();
            o.push_str(&ql(&k));
        }
        T::HasFlag(vars, k) => {
            o.push_str("hasflag ");
            if let Some(v) = vars {
                o.push_str(&ql(&v.iter().map(|x| vec![P::T(x.clone())]).collect::<Vec<_>>()));
                o.push(' ');
            }
            o.push_str(&ql(k));
        }
    }
}
pub fn render_b(b: &B, ind: usize, o: &mut String) {
    for c in b {
        for _ in 0..ind {
            o.push(' ');
        }
        match c {
            C::Mark(i, t) => o.push_str(&format!("fileinto :copy {};\n", q(&format!("m{i}{}", text_of(t))))),
            C::MarkPart(i) => o.push_str(&format!("fileinto :copy \"p{i} ${{header.x-id[1]}}\";\n")),
            C::If(br, el) => {
                for (i, (t, b)) in br.iter().enumerate() {
                    o.push_str(if i == 0 { "if " } else { "elsif " });
                    render_t(t, o);
                    o.push_str(" {\n");
                    render_b(b, ind + 1, o);
                    for _ in 0..ind {
                        o.push(' ');
                    }
                    o.push_str("} ");
                }
                if let Some(b) = el {
                    o.push_str("else {\n");
                    render_b(b, ind + 1, o);
                    for _ in 0..ind {
                        o.push(' ');
                    }
                    o.push('}');
                }
                o.push('\n');
            }
            C::Stop => o.push_str("stop;\n"),
            C::Return => o.push_str("return;\n"),
            C::Error(t) => o.push_str(&format!("error {};\n", qs(t))),
            C::Unknown => o.push_str("frobnicate;\n"),
            C::Keep(f) => {
                o.push_str("keep");
                if let Some(f) = f {
                    o.push_str(" :flags ");
                    o.push_str(&ql(f));
                }
                o.push_str(";\n");
            }
            C::FileInto(copy, f) => {
                o.push_str("fileinto ");
                if *copy {
                    o.push_str(":copy ");
                }
                if let Some(f) = f {
                    o.push_str(":flags ");
                    o.push_str(&ql(f));
                    o.push(' ');
                }
                o.push_str("\"box\";\n");
            }
            C::Discard => o.push_str("discard;\n"),
            // the user's own address
            C::Redirect(true, false) => o.push_str("redirect \"Me@home.EXAMPLE\";\n"),
            C::Redirect(copy, ok) => o.push_str(&format!(
                "redirect {}\"{}\";\n",
                if *copy { ":copy " } else { "" },
                if *ok { "a@b.example" } else { "nobody" }
            )),
            C::Reject => o.push_str("reject \"no\";\n"),
            // "=7": a number, assigned as the value of an expression
            C::Set { name, val, .. } if matches!(&val[..], [P::T(t)] if t.starts_with('=')) => {
                let P::T(t) = &val[0] else { unreachable!() };
                o.push_str(&format!("let {} {};\n", q(name), q(&t[1..])))
            }
            C::Set { name, val, local } => {
                o.push_str(&format!("set {}{} {};\n", if *local { ":local " } else { "" }, q(name), qs(val)))
            }
            C::SetSlot { .. } | C::Scope(..) | C::FlagSlot(..) => unreachable!(),
            C::Global(v) => o.push_str(&format!(
                "global {};\n",
                ql(&v.iter().map(|x| vec![P::T(x.clone())]).collect::<Vec<_>>())
            )),
            C::Flag(op, var, f) => {
                o.push_str(match op {
                    FlagOp::Set => "setflag ",
                    FlagOp::Add => "addflag ",
                    FlagOp::Remove => "removeflag ",
                });
                if let Some(v) = var {
                    o.push_str(&q(v));
                    o.push(' ');
                }
                o.push_str(&ql(f));
                o.push_str(";\n");
            }
            C::Include { name, global, once, optional } => {
                o.push_str("include ");
                if *global {
                    o.push_str(":global ");
                }
                if *once {
                    o.push_str(":once ");
                }
                if *optional {
                    o.push_str(":optional ");
                }
                o.push_str(&q(name));
                o.push_str(";\n");
            }
            C::ForEvery(l, b) => {
                o.push_str("foreverypart ");
                if let Some(l) = l {
                    o.push_str(&format!(":name {} ", q(l)));
                }
                o.push_str("{\n");
                render_b(b, ind + 1, o);
                for _ in 0..ind {
                    o.push(' ');
                }
                o.push_str("}\n");
            }
            C::While(i, b) => {
                o.push_str(&format!("while \"h({i})\" {{\n"));
                render_b(b, ind + 1, o);
                for _ in 0..ind {
                    o.push(' ');
                }
                o.push_str("}\n");
            }
            C::Break(l) => {
                o.push_str("break");
                if let Some(l) = l {
                    o.push_str(&format!(" :name {}", q(l)));
                }
                o.push_str(";\n");
            }
            C::Continue => o.push_str("continue;\n"),
            C::AddHeader => o.push_str("addheader \"X-New\" \"v\";\n"),
        }
    }
}
pub fn render(b: &B) -> String {
    let mut o = String::from(REQ);
    render_b(b, 0, &mut o);
    o
}

// ---------------------------------------------------------------- name resolution (static scoping)
#[derive(Default)]
pub struct Res0 {
    pub slots: usize,
}
struct Scopes {
    stack: Vec<HashMap<String, usize>>,
    decl: Vec<Vec<usize>>,
    globals: Vec<String>,
    n: usize,
    /// a variable in use is declared global: the script is in error
    bad: bool,
}
impl Scopes {
    fn find(&self, n: &str) -> Option<usize> {
        self.stack.iter().rev().find_map(|m| m.get(n).copied())
    }
    fn var(&mut self, name: &str, local: bool) -> Result<usize, String> {
        let n = name.to_ascii_lowercase();
        if let Some(g) = n.strip_prefix("global.").or(n.strip_prefix("t.")) {
            return Err(g.into());
        }
        if self.globals.contains(&n) {
            return Err(n);
        }
        if let Some(i) = self.find(&n) {
            return Ok(i);
        }
        let i = self.n;
        self.n += 1;
        if local {
            // visible in the whole script from here on, never reset
            self.stack[0].insert(n, i);
        } else {
            self.stack.last_mut().unwrap().insert(n, i);
            self.decl.last_mut().unwrap().push(i);
        }
        Ok(i)
    }
    fn st(&self, x: &S) -> S {
        x.iter()
            .filter_map(|p| match p {
                P::V(n) => {
                    let n = n.to_ascii_lowercase();
                    if let Some(g) = n.strip_prefix("global.").or(n.strip_prefix("t.")) {
                        Some(P::G(g.into()))
                    } else if self.globals.contains(&n) {
                        Some(P::G(n))
                    } else {
                        self.find(&n).map(P::Slot)
                    }
                }
                p => Some(p.clone()),
            })
            .collect()
    }
    fn sl(&self, x: &[S]) -> Vec<S> {
        x.iter().map(|x| self.st(x)).collect()
    }
    fn t(&self, x: &T) -> T {
        match x {
            T::Not(x) => T::Not(Box::new(self.t(x))),
            T::All(v) => T::All(v.iter().map(|x| self.t(x)).collect()),
            T::Any(v) => T::Any(v.iter().map(|x| self.t(x)).collect()),
            T::Str(m, v, k) => T::Str(*m, self.sl(v), self.sl(k)),
            T::HasFlag(v, k) => T::HasFlag(v.clone(), self.sl(k)),
            T::M(p, v, k) => T::M(
                p.clone(),
                self.sl(v),
                k.iter()
                    .map(|k| match k {
                        MKey::Glob(k) => MKey::Glob(self.st(k)),
                        k => k.clone(),
                    })
                    .collect(),
            ),
            x => x.clone(),
        }
    }
    fn block(&mut self, b: &B) -> B {
        self.stack.push(HashMap::new());
        self.decl.push(vec![]);
        let o = self.cmds(b);
        self.stack.pop();
        let d = self.decl.pop().unwrap();
        vec![C::Scope(d, o)]
    }
    fn cmds(&mut self, b: &B) -> B {
        let mut o = vec![];
        for c in b {
            o.push(match c {
                C::Mark(i, t) => C::Mark(*i, self.st(t)),
                C::If(br, el) => {
                    let mut v = vec![];
                    for (t, b) in br {
                        let t = self.t(t);
                        v.push((t, self.block(b)));
                    }
                    C::If(v, el.as_ref().map(|b| self.block(b)))
                }
                C::Error(t) => C::Error(self.st(t)),
                C::Keep(f) => C::Keep(f.as_ref().map(|f| self.sl(f))),
                C::FileInto(c, f) => C::FileInto(*c, f.as_ref().map(|f| self.sl(f))),
                C::Set { name, val, local } => {
                    // the name is registered before the value is read
                    let slot = self.var(name, *local);
                    C::SetSlot { slot, val: self.st(val) }
                }
                C::Global(v) => {
                    for n in v {
                        self.bad |= self.find(&n.to_ascii_lowercase()).is_some();
                        self.globals.push(n.to_ascii_lowercase());
                    }
                    continue;
                }
                C::Flag(op, var, f) => {
                    let v = match var {
                        None => Err("__flags".to_string()),
                        Some(v) => self.var(v, false),
                    };
                    C::FlagSlot(*op, v, self.sl(f))
                }
                C::ForEvery(l, b) => C::ForEvery(l.clone(), self.block(b)),
                C::While(i, b) => C::While(*i, self.block(b)),
                c => c.clone(),
            });
        }
        o
    }
}
/// Resolved program and number of slots.
pub fn resolve(b: &B) -> (B, usize) {
    let mut sc = Scopes { stack: vec![HashMap::new()], decl: vec![vec![]], globals: vec![], n: 0, bad: false };
    let o = sc.cmds(b);
    (o, sc.n)
}
/// No global declaration of a name already in use as a local variable.
pub fn globals_ok(b: &B) -> bool {
    let mut sc = Scopes { stack: vec![HashMap::new()], decl: vec![vec![]], globals: vec![], n: 0, bad: false };
    sc.cmds(b);
    !sc.bad
}

// ---------------------------------------------------------------- reference matching
/// Case-folding of the default comparator (ASCII only).
pub fn fold(x: &str) -> String {
    x.to_ascii_lowercase()
}
/// Glob pattern in parsed form.
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Gp {
    Lit(char),
    One,
    Many,
}
pub fn parse_glob(p: &str) -> Vec<Gp> {
    let mut v = vec![];
    let mut it = p.chars();
    while let Some(c) = it.next() {
        match c {
            '\\' => match it.next() {
                Some(c) => v.push(Gp::Lit(c)),
                None => v.push(Gp::Lit('\\')),
            },
            '*' => v.push(Gp::Many),
            '?' => v.push(Gp::One),
            c => v.push(Gp::Lit(c)),
        }
    }
    v
}
/// Lazy leftmost match of the whole value; captured pieces per wildcard.
pub fn glob(p: &[Gp], v: &[char], ci: bool) -> Option<Vec<String>> {
    fn rec(p: &[Gp], v: &[char], ci: bool, caps: &mut Vec<String>) -> bool {
        match p.first() {
            None => v.is_empty(),
            Some(Gp::Lit(c)) => match v.first() {
                Some(x) if (ci && x.eq_ignore_ascii_case(c)) || x == c => rec(&p[1..], &v[1..], ci, caps),
                _ => false,
            },
            Some(Gp::One) => {
                if let Some(x) = v.first() {
                    caps.push(x.to_string());
                    if rec(&p[1..], &v[1..], ci, caps) {
                        return true;
                    }
                    caps.pop();
                }
                false
            }
            Some(Gp::Many) => {
                for n in 0..=v.len() {
                    caps.push(v[..n].iter().collect());
                    if rec(&p[1..], &v[n..], ci, caps) {
                        return true;
                    }
                    caps.pop();
                }
                false
            }
        }
    }
    let mut caps = vec![];
    rec(p, v, ci, &mut caps).then_some(caps)
}

// ---------------------------------------------------------------- interpreter
/// MIME structure of the message the model runs on: parent of each part (part 0 is the root) in document order.
#[derive(Clone, Debug)]
pub struct Msg {
    pub raw: Vec<u8>,
    pub parent: Vec<usize>,
}
impl Msg {
    pub fn simple() -> Msg {
        Msg { raw: b"X-Id: 0\r\nFrom: f@x.example\r\nTo: t@y.example\r\nSubject: hello\r\n\r\nbody\r\n".to_vec(), parent: vec![0] }
    }
    /// nested multipart with given parents; leaves are text parts
    pub fn tree(parent: &[usize]) -> Msg {
        fn part(i: usize, parent: &[usize], o: &mut String) {
            let kids: Vec<usize> = (1..parent.len()).filter(|&k| parent[k] == i).collect();
            o.push_str(&format!("X-Id: {i}\r\n"));
            if i == 0 {
                o.push_str("From: f@x.example\r\nSubject: hello\r\n");
            }
            if kids.is_empty() {
                o.push_str(&format!("Content-Type: text/plain\r\n\r\npart {i}\r\n"));
            } else {
                o.push_str(&format!("Content-Type: multipart/mixed; boundary=\"b{i}x\"\r\n\r\n"));
                for k in kids {
                    o.push_str(&format!("--b{i}x\r\n"));
                    part(k, parent, o);
                }
                o.push_str(&format!("--b{i}x--\r\n"));
            }
        }
        let mut o = String::new();
        part(0, parent, &mut o);
        Msg { raw: o.into_bytes(), parent: parent.to_vec() }
    }
    fn below(&self, p: usize) -> Vec<usize> {
        (0..self.parent.len())
            .filter(|&k| {
                let mut x = k;
                while x != 0 {
                    x = self.parent[x];
                    if x == p {
                        return true;
                    }
                }
                false
            })
            .collect()
    }
}

#[derive(Clone, Debug)]
pub struct World<'a> {
    pub msg: &'a Msg,
    /// (global?, name) → resolved program and slots; absent: the host has no such script
    pub scripts: &'a HashMap<(bool, String), (B, usize)>,
    pub max_nested: usize,
    /// bound on `true` answers per while condition evaluation chain
    pub fuel: usize,
    pub max_var: usize,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
enum Fin {
    Implicit,
    Keep(Vec<String>),
    Discard,
    None,
}
enum Flow {
    Next,
    Break(Option<String>),
    Continue,
    Return,
    Stop,
    Fail(String),
}

pub struct Model<'a> {
    w: &'a World<'a>,
    pub ch: &'a mut Choices,
    pub out: Vec<Ob>,
    slots: Vec<String>,
    matchv: Vec<String>,
    globals: HashMap<String, String>,
    fin: Fin,
    added: usize,
    changed: bool,
    main_id: usize,
    last_id: usize,
    part: usize,
    loops: usize,
    depth: usize,
    seen: Vec<(bool, String)>,
    fuel: usize,
    pub steps: u64,
    pub states: Vec<u64>,
    /// questions put to the host, in order, with the answer given
    pub answers: Vec<bool>,
    /// record, per command executed: events so far, and the disposition pending at that point
    pub record: bool,
    pub pending: Vec<(usize, Vec<Ob>)>,
    /// actions and questions executed before each event
    pub cost: Vec<u64>,
    done: u64,
}

pub fn dedup_flags(items: impl Iterator<Item = String>) -> Vec<String> {
    let mut lc: Vec<String> = vec![];
    let mut o = vec![];
    for f in items {
        let l = f.to_lowercase();
        if !lc.contains(&l) {
            lc.push(l);
            o.push(f);
        }
    }
    o
}

impl<'a> Model<'a> {
    pub fn new(w: &'a World<'a>, ch: &'a mut Choices) -> Self {
        Model {
            w,
            ch,
            out: vec![],
            slots: vec![],
            matchv: vec![],
            globals: HashMap::new(),
            fin: Fin::Implicit,
            added: 0,
            changed: false,
            main_id: 0,
            last_id: 0,
            part: 0,
            loops: 0,
            depth: 1,
            seen: vec![],
            fuel: w.fuel,
            steps: 0,
            states: vec![],
            answers: vec![],
            record: false,
            pending: vec![],
            cost: vec![],
            done: 0,
        }
    }
    /// the disposition if the run were cut off here
    fn note(&mut self) {
        if self.record {
            let n = self.out.len();
            let (fin, changed, ids) = (self.fin.clone(), self.changed, (self.main_id, self.last_id));
            self.finish();
            let d = self.out.split_off(n);
            self.cost.truncate(n);
            (self.fin, self.changed, self.main_id, self.last_id) = (fin, changed, ids.0, ids.1);
            if self.pending.last() != Some(&(n, d.clone())) {
                self.pending.push((n, d));
            }
        }
    }
    fn finish(&mut self) {
        match std::mem::replace(&mut self.fin, Fin::None) {
            Fin::Implicit => {
                let f = self.gflags();
                self.final_keep(f);
            }
            Fin::Keep(f) => self.final_keep(f),
            Fin::Discard => self.ev(Event::Discard),
            Fin::None => (),
        }
    }
    fn ev(&mut self, e: Event) {
        if self.record {
            self.cost.push(self.done);
        }
        self.out.push(Ob::Ev(e));
    }
    fn st(&self, x: &S) -> String {
        let mut o = String::new();
        for p in x {
            match p {
                P::T(t) => o.push_str(t),
                P::Slot(i) => o.push_str(&self.slots[*i]),
                P::G(n) => o.push_str(self.globals.get(n).map(|x| x.as_str()).unwrap_or("")),
                P::M(n) => o.push_str(self.matchv.get(*n).map(|x| x.as_str()).unwrap_or("")),
                P::V(_) => unreachable!(),
            }
        }
        o
    }
    fn flags(&self, x: &[S]) -> Vec<String> {
        x.iter().flat_map(|f| self.st(f).split_ascii_whitespace().map(|x| x.to_string()).collect::<Vec<_>>()).collect()
    }
    fn gflags(&self) -> Vec<String> {
        self.globals.get("__flags").map(|f| f.split_ascii_whitespace().map(|x| x.to_string()).collect()).unwrap_or_default()
    }
    fn get(&self, v: &Result<usize, String>) -> String {
        match v {
            Ok(i) => self.slots[*i].clone(),
            Err(g) => self.globals.get(g).cloned().unwrap_or_default(),
        }
    }
    fn put(&mut self, v: &Result<usize, String>, val: String) {
        let mut cut = val.len().min(self.w.max_var);
        while !val.is_char_boundary(cut) {
            cut -= 1;
        }
        let val = val[..cut].to_string();
        match v {
            Ok(i) => self.slots[*i] = val,
            Err(g) => {
                self.globals.insert(g.clone(), val);
            }
        }
    }
    fn ask(&mut self) -> bool {
        self.done += 1;
        let a = self.ch.choose(2) == 1;
        self.answers.push(a);
        self.note();
        a
    }
    fn test(&mut self, x: &T) -> bool {
        self.steps += 1;
        match x {
            T::True => true,
            T::False => false,
            T::Known(_, v) => *v,
            T::Host(i) => {
                self.ev(Event::MailboxExists { mailboxes: vec![Mailbox::Name(format!("h{i}"))], special_use: vec![] });
                self.ask()
            }
            T::Fnc(i) => {
                self.ev(Event::Function { id: 0, arguments: vec![Variable::Integer(*i as i64)] });
                self.ask()
            }
            T::Not(x) => !self.test(x),
            T::All(v) => {
                for x in v {
                    if !self.test(x) {
                        return false;
                    }
                }
                true
            }
            T::Any(v) => {
                for x in v {
                    if self.test(x) {
                        return true;
                    }
                }
                false
            }
            T::Str(mt, v, k) => {
                let keys: Vec<String> = k.iter().map(|k| self.st(k)).collect();
                let vals: Vec<String> = v.iter().map(|v| self.st(v)).collect();
                for v in &vals {
                    for k in &keys {
                        match mt {
                            Mt::Is => {
                                if fold(v) == fold(k) {
                                    return true;
                                }
                            }
                            Mt::Contains => {
                                if fold(v).contains(&fold(k)) {
                                    return true;
                                }
                            }
                            Mt::Matches => {
                                let vc: Vec<char> = v.chars().collect();
                                if let Some(c) = glob(&parse_glob(k), &vc, true) {
                                    self.matchv = std::iter::once(v.clone()).chain(c).collect();
                                    return true;
                                }
                            }
                        }
                    }
                }
                false
            }
            T::M(_, v, k) => {
                let vals: Vec<String> = v.iter().map(|v| self.st(v)).collect();
                for v in &vals {
                    for k in k {
                        let m = match k {
                            MKey::Glob(k) => {
                                let vc: Vec<char> = v.chars().collect();
                                glob(&parse_glob(&self.st(k)), &vc, true).map(|c| std::iter::once(v.clone()).chain(c).collect())
                            }
                            MKey::Rx(r) => r.find(v).map(|c| c.into_iter().map(|x| x.unwrap_or_default()).collect()),
                        };
                        if let Some(m) = m {
                            self.matchv = m;
                            return true;
                        }
                    }
                }
                false
            }
            T::HasFlag(vars, k) => {
                let set: Vec<String> = match vars {
                    None => self.gflags(),
                    Some(_) => unreachable!("resolved elsewhere"),
                };
                let keys = self.flags(k);
                keys.iter().any(|k| set.iter().any(|s| s.to_lowercase() == k.to_lowercase()))
            }
        }
    }
    fn announce(&mut self) {
        if self.changed {
            self.changed = false;
            self.last_id += 1;
            self.main_id = self.last_id;
            let mut m = Vec::new();
            for _ in 0..self.added {
                m.extend_from_slice(b"X-New: v\r\n");
            }
            m.extend_from_slice(&self.w.msg.raw);
            self.ev(Event::CreatedMessage { message_id: self.main_id, message: m });
        }
    }
    fn fileinto(&mut self, folder: String, flags: Vec<String>) {
        self.announce();
        let id = self.main_id;
        self.ev(Event::FileInto { folder, flags, mailbox_id: None, special_use: None, create: false, message_id: id });
    }
    fn snapshot(&mut self, c: *const C) {
        // state of the model: control location and all data
        let mut g: Vec<_> = self.globals.iter().collect();
        g.sort();
        self.states.push(h64(&(
            c as usize as u64 & 0, // locations are identified by the history below, not by address
            &self.slots,
            &self.matchv,
            g,
            &self.fin,
            (self.added, self.changed, self.main_id, self.part, self.loops, self.depth),
            self.out.len(),
            &self.answers,
        )));
    }
    fn block(&mut self, b: &B) -> Flow {
        for c in b {
            self.steps += 1;
            self.snapshot(c);
            self.note();
            if !matches!(c, C::Scope(..) | C::If(..) | C::Stop | C::Return | C::Error(_)) {
                self.done += 1;
            }
            let f = self.cmd(c);
            if !matches!(f, Flow::Next) {
                return f;
            }
        }
        Flow::Next
    }
    fn cmd(&mut self, c: &C) -> Flow {
        match c {
            C::Scope(d, b) => {
                for i in d {
                    self.slots[*i].clear();
                }
                let f = self.block(b);
                for i in d {
                    if !matches!(f, Flow::Stop | Flow::Fail(_)) {
                        self.slots[*i].clear();
                    }
                }
                return f;
            }
            C::Mark(i, t) => {
                let f = format!("m{i}{}", self.st(t));
                let g = self.gflags();
                self.fileinto(f, g);
            }
            C::MarkPart(i) => {
                let f = format!("p{i} {}", self.part);
                let g = self.gflags();
                self.fileinto(f, g);
            }
            C::If(br, el) => {
                for (t, b) in br {
                    if self.test(t) {
                        return self.block(b);
                    }
                }
                if let Some(b) = el {
                    return self.block(b);
                }
            }
            C::Stop => return Flow::Stop,
            C::Return => return Flow::Return,
            C::Error(t) => {
                let m = self.st(t);
                return Flow::Fail(format!("ScriptErrorMessage({m:?})"));
            }
            C::Unknown => return Flow::Fail("InvalidInstruction".into()),
            C::Keep(f) => {
                self.announce();
                let f = match f {
                    Some(f) => self.flags(f),
                    None => self.gflags(),
                };
                self.fin = Fin::Keep(f);
            }
            C::FileInto(copy, f) => {
                let f = match f {
                    Some(f) => self.flags(f),
                    None => self.gflags(),
                };
                if !copy {
                    self.cancel();
                }
                self.fileinto("box".into(), f);
            }
            C::Discard => {
                if !matches!(self.fin, Fin::Keep(_)) {
                    self.fin = Fin::Discard;
                }
            }
            C::Redirect(copy, ok) => {
                if *ok {
                    if !copy {
                        self.cancel();
                    }
                    self.announce();
                    let id = self.main_id;
                    self.ev(Event::SendMessage {
                        recipient: Recipient::Address("a@b.example".into()),
                        notify: Notify::Default,
                        return_of_content: Ret::Default,
                        by_time: ByTime::None,
                        message_id: id,
                    });
                }
            }
            C::Reject => {
                self.fin = Fin::None;
                self.ev(Event::Reject { extended: false, reason: "no".into() });
            }
            C::SetSlot { slot, val } => {
                let mut v = self.st(val);
                if matches!(&val[..], [P::T(t)] if t.starts_with('=')) {
                    v.remove(0);
                }
                self.put(slot, v);
            }
            C::FlagSlot(op, var, f) => {
                let new = self.flags(f);
                let cur: Vec<String> = self.get(var).split_ascii_whitespace().map(|x| x.to_string()).collect();
                let r = match op {
                    FlagOp::Set => dedup_flags(new.into_iter()),
                    FlagOp::Add => dedup_flags(cur.into_iter().chain(new)),
                    FlagOp::Remove => {
                        let rm: Vec<String> = new.iter().map(|x| x.to_lowercase()).collect();
                        cur.into_iter().filter(|f| !rm.contains(&f.to_lowercase())).collect()
                    }
                };
                self.put(var, r.join(" "));
            }
            C::Include { name, global, once, optional } => {
                let key = (*global, name.clone());
                if name.is_empty() || (*once && self.seen.contains(&key)) {
                    return Flow::Next;
                }
                if self.depth >= self.w.max_nested {
                    return Flow::Fail("TooManyIncludes".into());
                }
                if !self.seen.contains(&key) {
                    let sname = if *global { Script::Global(name.clone()) } else { Script::Personal(name.clone()) };
                    self.ev(Event::IncludeScript { name: sname, optional: *optional });
                }
                if let Some((b, n)) = self.w.scripts.get(&key) {
                    if !self.seen.contains(&key) {
                        self.seen.push(key);
                    }
                    let slots = std::mem::replace(&mut self.slots, vec![String::new(); *n]);
                    let mv = std::mem::take(&mut self.matchv);
                    self.depth += 1;
                    let f = self.block(b);
                    self.depth -= 1;
                    self.slots = slots;
                    self.matchv = mv;
                    if matches!(f, Flow::Stop | Flow::Fail(_)) {
                        return f;
                    }
                }
            }
            C::ForEvery(label, b) => {
                let parts = if self.loops == 0 {
                    if self.part == 0 {
                        (0..self.w.msg.parent.len()).collect()
                    } else {
                        unreachable!()
                    }
                } else {
                    self.w.msg.below(self.part)
                };
                let save = self.part;
                self.loops += 1;
                let mut res = Flow::Next;
                for p in parts {
                    self.part = p;
                    self.steps += 1;
                    self.note();
                    match self.block(b) {
                        Flow::Next => (),
                        Flow::Break(None) => break,
                        Flow::Break(Some(l)) if Some(&l) == label.as_ref() => break,
                        f => {
                            res = f;
                            break;
                        }
                    }
                }
                self.loops -= 1;
                self.part = save;
                return res;
            }
            C::While(i, b) => loop {
                self.steps += 1;
                self.note();
                self.ev(Event::Function { id: 0, arguments: vec![Variable::Integer(*i as i64)] });
                let a = if self.fuel > 0 {
                    self.ch.choose(2) == 1
                } else {
                    false
                };
                if a {
                    self.fuel -= 1;
                }
                self.answers.push(a);
                if !a {
                    break;
                }
                match self.block(b) {
                    Flow::Next | Flow::Continue => (),
                    Flow::Break(None) => break,
                    f => return f,
                }
            },
            C::Break(l) => return Flow::Break(l.clone()),
            C::Continue => return Flow::Continue,
            C::AddHeader => {
                self.added += 1;
                self.changed = true;
            }
            C::Set { .. } | C::Global(_) | C::Flag(..) => unreachable!("unresolved"),
        }
        Flow::Next
    }
    fn cancel(&mut self) {
        if !matches!(self.fin, Fin::Keep(_)) {
            self.fin = Fin::None;
        }
    }
    pub fn run(&mut self, main: &(B, usize)) {
        self.slots = vec![String::new(); main.1];
        // the main script is entered by the host under the empty name
        self.seen.push((false, String::new()));
        if let Flow::Fail(e) = self.block(&main.0) {
            self.out.push(Ob::Err(e));
        }
        self.note();
        self.finish();
        self.snapshot(std::ptr::null());
    }
    fn final_keep(&mut self, flags: Vec<String>) {
        self.announce();
        let id = self.main_id;
        self.ev(Event::Keep { flags, message_id: id });
    }
}

// ---------------------------------------------------------------- comparison
pub fn compiler() -> Compiler {
    let mut f = sieve::FunctionMap::new().with_external_function("h", 0, 1);
    Compiler::new().register_functions(&mut f)
}
pub fn runtime() -> Runtime {
    use sieve::compiler::grammar::Capability;
    Runtime::new()
        .with_capability(Capability::Expressions)
        .with_capability(Capability::While)
        .with_max_redirects(100)
        .with_max_out_messages(1000)
        .with_cpu_limit(100_000)
}
/// Drops a trailing Discard when something was delivered (it then says nothing), and error positions.
pub fn norm(mut v: Vec<Ob>) -> Vec<Ob> {
    let delivered = v.iter().any(|o| {
        matches!(o, Ob::Ev(Event::FileInto { .. } | Event::SendMessage { .. } | Event::Reject { .. }))
    });
    if delivered && matches!(v.last(), Some(Ob::Ev(Event::Discard))) {
        v.pop();
    }
    for o in &mut v {
        match o {
            Ob::Err(e) if e.starts_with("InvalidInstruction") => *e = "InvalidInstruction".into(),
            // order within a flag set carries no meaning
            Ob::Ev(Event::FileInto { flags, .. } | Event::Keep { flags, .. }) => flags.sort(),
            _ => (),
        }
    }
    v
}
#[derive(Default)]
pub struct Lib {
    pub compiled: HashMap<(bool, String), Arc<Sieve>>,
    pub resolved: HashMap<(bool, String), (B, usize)>,
    pub text: String,
}
impl Lib {
    pub fn add(&mut self, c: &Compiler, global: bool, name: &str, b: &B) -> Result<(), Fail> {
        let src = render(b);
        let k = (global, name.to_string());
        let sc = compile(c, &src).map_err(|o| Fail::new("compile", format!("{}\n{src}", show(&o))))?;
        self.text.push_str(&format!("--- {}{name}\n{}", if global { "global:" } else { "" }, &src[REQ.len()..]));
        self.compiled.insert(k.clone(), sc);
        self.resolved.insert(k, resolve(b));
        Ok(())
    }
}
pub struct Opts {
    pub max_nested: usize,
    pub fuel: usize,
    pub max_var: usize,
    /// also run with the host answering False instead of True to every action event
    pub both_acks: bool,
}
impl Default for Opts {
    fn default() -> Self {
        Opts { max_nested: 3, fuel: 3, max_var: 4096, both_acks: false }
    }
}
/// Compiles `b`, explores all host answers, compares model and implementation on each.
pub fn check(c: &Compiler, rt: &Runtime, b: &B, msg: &Msg, lib: &Lib, o: &Opts, cx: &mut Cx) -> Res {
    let src = render(b);
    let body = &src[REQ.len()..];
    let sc = match compile(c, &src) {
        Ok(s) => s,
        Err(e) => return Err(Fail::new(format!("compile:{body}"), format!("script must compile: {}\n{src}", show(&e)))),
    };
    let prog = resolve(b);
    check_compiled(rt, &sc, &prog, body, msg, lib, o, cx)
}
#[allow(clippy::too_many_arguments)]
pub fn check_compiled(rt: &Runtime, sc: &Arc<Sieve>, prog: &(B, usize), body: &str, msg: &Msg, lib: &Lib, o: &Opts, cx: &mut Cx) -> Res {
    let w = World { msg, scripts: &lib.resolved, max_nested: o.max_nested, fuel: o.fuel, max_var: o.max_var };
    let mut ch = Choices::default();
    let mut n = 0;
    loop {
        let (exp, answers) = {
            let mut m = Model::new(&w, &mut ch);
            m.run(prog);
            cx.step(m.steps);
            for s in &m.states {
                if cx.states.len() < 2_000_000 {
                    cx.states.insert(*s);
                }
            }
            (norm(m.out), m.answers)
        };
        for ack in 0..(1 + o.both_acks as usize) {
            let mut k = 0;
            let host = |e: &Event| -> Input {
                match e {
                    Event::MailboxExists { .. } => {
                        k += 1;
                        if answers.get(k - 1).copied().unwrap_or(false) { Input::True } else { Input::False }
                    }
                    Event::Function { .. } => {
                        k += 1;
                        Input::FncResult(Variable::from(answers.get(k - 1).copied().unwrap_or(false)))
                    }
                    Event::IncludeScript { name, .. } => {
                        let key = match name {
                            Script::Personal(n) => (false, n.clone()),
                            Script::Global(n) => (true, n.clone()),
                        };
                        match lib.compiled.get(&key) {
                            Some(s) => Input::Script { name: name.clone(), script: s.clone() },
                            None => Input::False,
                        }
                    }
                    _ => {
                        if ack == 0 {
                            Input::True
                        } else {
                            Input::False
                        }
                    }
                }
            };
            let got = norm(run_with(rt, sc, &msg.raw, |c| c.set_user_address("me@home.example"), host));
            cx.trace();
            if got != exp {
                return Err(Fail::new(
                    format!("{}|{}|{}", body.replace('\n', " "), ch.show(), ack),
                    format!(
                        "script:\n{body}{}\nhost answers (in order of questions): {:?}, acknowledgement of actions: {}\n{}",
                        lib.text,
                        answers,
                        ack == 0,
                        diff(&exp, &got)
                    ),
                ));
            }
            cx.outcome(&hash_obs(&got));
            cx.sample(|| format!("script `{}` answers {:?} -> {}", body.replace('\n', " "), answers, got.iter().map(show).collect::<Vec<_>>().join(" ; ")));
        }
        n += 1;
        if n > 200_000 {
            return Err(Fail::new("too-many-branches", body.to_string()));
        }
        if !ch.advance() {
            return Ok(());
        }
    }
}

// ---------------------------------------------------------------- enumeration of programs
/// All tests with exactly n nodes over the given leaves.
pub fn tests_of(leaves: &[T], max: usize) -> Vec<Vec<T>> {
    let mut by: Vec<Vec<T>> = vec![vec![]];
    for n in 1..=max {
        let mut v = vec![];
        if n == 1 {
            v.extend(leaves.iter().cloned());
        }
        if n >= 2 {
            for t in &by[n - 1] {
                v.push(T::Not(Box::new(t.clone())));
            }
            // sequences of tests with total size n-1 and at least one element
            for seq in seqs(&by, n - 1) {
                v.push(T::All(seq.clone()));
                v.push(T::Any(seq));
            }
        }
        by.push(v);
    }
    by
}
fn seqs(by: &[Vec<T>], n: usize) -> Vec<Vec<T>> {
    let mut out = vec![];
    fn rec(by: &[Vec<T>], n: usize, cur: &mut Vec<T>, out: &mut Vec<Vec<T>>) {
        if n == 0 {
            out.push(cur.clone());
            return;
        }
        for k in 1..=n {
            for t in &by[k] {
                cur.push(t.clone());
                rec(by, n - k, cur, out);
                cur.pop();
            }
        }
    }
    rec(by, n, &mut vec![], &mut out);
    out
}

#[derive(Clone, Default)]
pub struct Gram {
    pub leaves: Vec<C>,
    /// leaves usable only inside any loop / only inside while
    pub loop_leaves: Vec<C>,
    pub while_leaves: Vec<C>,
    pub tests: Vec<T>,
    pub max_branches: usize,
    pub with_else: bool,
    pub fep: bool,
    pub named: bool,
    pub whiles: bool,
    pub max_depth: usize,
    /// blocks may be empty
    pub empty: bool,
}
#[derive(Clone, Default, PartialEq, Eq, Hash)]
pub struct GCtx {
    depth: usize,
    /// innermost first: true = while
    loops: Vec<(bool, Option<String>)>,
    /// number of foreverypart directly crossed since innermost while
    labels: usize,
}
impl Gram {
    /// All blocks with exactly n nodes.
    pub fn blocks(&self, n: usize) -> Vec<B> {
        let e = Enum::new(self, n);
        (0..e.total(n)).map(|i| e.get(n, i)).collect()
    }
    pub fn blocks_upto(&self, n: usize) -> Vec<B> {
        (1..=n).flat_map(|k| self.blocks(k)).collect()
    }
    /// commands of size 1 that may stand here
    fn leaf_cmds(&self, g: &GCtx) -> Vec<C> {
        let mut v = self.leaves.clone();
        if !g.loops.is_empty() {
            v.extend(self.loop_leaves.iter().cloned());
            if g.loops.iter().any(|(w, _)| *w) {
                v.extend(self.while_leaves.iter().cloned());
            }
            if self.named {
                let mut seen = vec![];
                for (_, l) in &g.loops {
                    if let Some(l) = l {
                        if !seen.contains(l) {
                            seen.push(l.clone());
                            v.push(C::Break(Some(l.clone())));
                        }
                    }
                }
            }
        }
        v
    }
    /// compound commands of size n: (kind, contexts and sizes of the bodies)
    fn forms(&self, n: usize, g: &GCtx) -> Vec<Form> {
        let mut v = vec![];
        if g.depth >= self.max_depth {
            return v;
        }
        let body_min = if self.empty { 0 } else { 1 };
        let inner = GCtx { depth: g.depth + 1, ..g.clone() };
        if !self.tests.is_empty() && n >= 1 + body_min {
            for nb in 1..=self.max_branches {
                for el in 0..=(self.with_else as usize) {
                    let cost = nb + el;
                    if n < cost + body_min * cost {
                        continue;
                    }
                    let mut splits = vec![];
                    split(n - cost, cost, body_min, &mut vec![], &mut splits);
                    for sp in splits {
                        v.push(Form::If(nb, sp, inner.clone()));
                    }
                }
            }
        }
        if self.fep && n >= 1 + body_min && g.loops.iter().filter(|(w, _)| !*w).count() < 3 {
            let mut names = vec![None];
            if self.named {
                names.push(Some(format!("L{}", g.labels)));
            }
            for nm in names {
                let mut gi = inner.clone();
                gi.labels += nm.is_some() as usize;
                gi.loops.insert(0, (false, nm.clone()));
                v.push(Form::ForEvery(nm, n - 1, gi));
            }
        }
        if self.whiles && n >= 1 + body_min {
            let mut gi = inner.clone();
            gi.loops.insert(0, (true, None));
            v.push(Form::While(n - 1, gi));
        }
        v
    }
}
enum Form {
    If(usize, Vec<usize>, GCtx),
    ForEvery(Option<String>, usize, GCtx),
    While(usize, GCtx),
}
fn is_exit(c: &C) -> bool {
    matches!(c, C::Stop | C::Return | C::Break(_) | C::Continue)
}
/// Counts and unranks the programs of a grammar: every program up to the bound has an index and is built
/// on demand.
pub struct Enum {
    g: Gram,
    counts: HashMap<(usize, GCtx), u64>,
}
impl Enum {
    pub fn new(g: &Gram, n: usize) -> Enum {
        let mut e = Enum { g: g.clone(), counts: HashMap::new() };
        for k in 0..=n {
            e.count(k, &GCtx::default());
        }
        e
    }
    fn form_count(&mut self, f: &Form) -> u64 {
        match f {
            Form::If(nb, sp, gi) => {
                let mut c = (self.g.tests.len() as u64).pow(*nb as u32);
                for k in sp {
                    c *= self.count(*k, gi);
                }
                c
            }
            Form::ForEvery(_, k, gi) | Form::While(k, gi) => self.count(*k, gi),
        }
    }
    /// number of blocks with exactly n nodes
    fn count(&mut self, n: usize, g: &GCtx) -> u64 {
        if n == 0 {
            return 1;
        }
        if let Some(c) = self.counts.get(&(n, g.clone())) {
            return *c;
        }
        let mut total = 0;
        for k in 1..=n {
            let rest = self.count(n - k, g);
            if k == 1 {
                let leaves = self.g.leaf_cmds(g);
                let exits = leaves.iter().filter(|c| is_exit(c)).count() as u64;
                total += (leaves.len() as u64 - exits) * rest;
                if n == 1 {
                    total += exits;
                }
            }
            for f in self.g.forms(k, g) {
                total += self.form_count(&f) * rest;
            }
        }
        self.counts.insert((n, g.clone()), total);
        total
    }
    fn known(&self, n: usize, g: &GCtx) -> u64 {
        if n == 0 {
            1
        } else {
            self.counts[&(n, g.clone())]
        }
    }
    pub fn total(&self, n: usize) -> u64 {
        self.known(n, &GCtx::default())
    }
    /// the i-th block with exactly n nodes
    pub fn get(&self, n: usize, i: u64) -> B {
        let mut b = vec![];
        self.block(n, &GCtx::default(), i, &mut b);
        b
    }
    fn block(&self, n: usize, g: &GCtx, mut i: u64, out: &mut B) {
        if n == 0 {
            return;
        }
        for k in 1..=n {
            let rest = self.known(n - k, g);
            if k == 1 {
                for c in self.g.leaf_cmds(g) {
                    let w = if is_exit(&c) {
                        if n == 1 {
                            1
                        } else {
                            continue;
                        }
                    } else {
                        rest
                    };
                    if i < w {
                        out.push(c);
                        if n > 1 {
                            self.block(n - 1, g, i, out);
                        }
                        return;
                    }
                    i -= w;
                }
            }
            for f in self.g.forms(k, g) {
                let w = match &f {
                    Form::If(nb, sp, gi) => {
                        let mut c = (self.g.tests.len() as u64).pow(*nb as u32);
                        for k in sp {
                            c *= self.known(*k, gi);
                        }
                        c
                    }
                    Form::ForEvery(_, k, gi) | Form::While(k, gi) => self.known(*k, gi),
                };
                if i < w * rest {
                    let mut j = i / rest;
                    match f {
                        Form::If(nb, sp, gi) => {
                            let mut br = vec![];
                            let mut el = None;
                            for (p, k) in sp.iter().enumerate() {
                                let bc = self.known(*k, &gi);
                                let mut body = vec![];
                                self.block(*k, &gi, j % bc, &mut body);
                                j /= bc;
                                if p < nb {
                                    let nt = self.g.tests.len() as u64;
                                    br.push((self.g.tests[(j % nt) as usize].clone(), body));
                                    j /= nt;
                                } else {
                                    el = Some(body);
                                }
                            }
                            out.push(C::If(br, el));
                        }
                        Form::ForEvery(nm, k, gi) => {
                            let mut body = vec![];
                            self.block(k, &gi, j, &mut body);
                            out.push(C::ForEvery(nm, body));
                        }
                        Form::While(k, gi) => {
                            let mut body = vec![];
                            self.block(k, &gi, j, &mut body);
                            out.push(C::While(0, body));
                        }
                    }
                    self.block(n - k, g, i % rest, out);
                    return;
                }
                i -= w * rest;
            }
        }
        unreachable!("index beyond the number of programs");
    }
}
/// A set of programs addressed by index.
pub enum Progs {
    List(Vec<B>),
    Lazy(Enum, usize, usize, Box<dyn Fn(&B) -> bool + Send + Sync>),
}
impl From<Vec<B>> for Progs {
    fn from(v: Vec<B>) -> Progs {
        Progs::List(v.into_iter().map(numbered).collect())
    }
}
impl Progs {
    /// all programs with lo..=hi nodes that satisfy the filter
    pub fn lazy(g: &Gram, lo: usize, hi: usize, f: impl Fn(&B) -> bool + Send + Sync + 'static) -> Progs {
        Progs::Lazy(Enum::new(g, hi), lo, hi, Box::new(f))
    }
    pub fn len(&self) -> u64 {
        match self {
            Progs::List(v) => v.len() as u64,
            Progs::Lazy(e, lo, hi, _) => (*lo..=*hi).map(|n| e.total(n)).sum(),
        }
    }
    /// None: filtered out
    pub fn get(&self, mut i: u64) -> Option<B> {
        match self {
            Progs::List(v) => Some(v[i as usize].clone()),
            Progs::Lazy(e, lo, hi, f) => {
                for n in *lo..=*hi {
                    if i < e.total(n) {
                        let b = e.get(n, i);
                        return f(&b).then(|| numbered(b));
                    }
                    i -= e.total(n);
                }
                unreachable!()
            }
        }
    }
}
/// Does any command satisfy the predicate?
pub fn any_cmd(b: &B, f: &dyn Fn(&C) -> bool) -> bool {
    b.iter().any(|c| {
        f(c) || match c {
            C::If(br, el) => br.iter().any(|(_, b)| any_cmd(b, f)) || el.as_ref().is_some_and(|b| any_cmd(b, f)),
            C::ForEvery(_, b) | C::While(_, b) | C::Scope(_, b) => any_cmd(b, f),
            _ => false,
        }
    })
}
pub fn any_test(b: &B, f: &dyn Fn(&T) -> bool) -> bool {
    fn t(x: &T, f: &dyn Fn(&T) -> bool) -> bool {
        f(x) || match x {
            T::Not(x) => t(x, f),
            T::All(v) | T::Any(v) => v.iter().any(|x| t(x, f)),
            _ => false,
        }
    }
    any_cmd(b, &|c| matches!(c, C::If(br, _) if br.iter().any(|(x, _)| t(x, f))))
}
fn split(n: usize, k: usize, min: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
    if k == 1 {
        if n >= min {
            cur.push(n);
            out.push(cur.clone());
            cur.pop();
        }
        return;
    }
    for a in min..=n {
        cur.push(a);
        split(n - a, k - 1, min, cur, out);
        cur.pop();
    }
}
pub fn numbered(mut b: B) -> B {
    let mut n = 0;
    number(&mut b, &mut n);
    b
}
pub fn mark() -> C {
    C::Mark(0, vec![])
}
pub fn with_ctx(_: &mut Context) {}
struct ProgSuite {
    name: String,
    bounds: String,
    progs: Progs,
    c: Compiler,
    rt: Runtime,
    msg: Msg,
    lib: Lib,
    o: Opts,
}
impl Suite for ProgSuite {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn bounds(&self) -> String {
        self.bounds.clone()
    }
    fn total(&self) -> u64 {
        self.progs.len()
    }
    fn case(&self, idx: u64, cx: &mut Cx) -> Res {
        match self.progs.get(idx) {
            Some(b) => check(&self.c, &self.rt, &b, &self.msg, &self.lib, &self.o, cx),
            None => Ok(()),
        }
    }
}
/// A suite over core programs.
pub fn prog_suite(name: &str, bounds: &str, progs: impl Into<Progs>, msg: Msg, lib: Lib, o: Opts) -> Box<dyn Suite> {
    let rt = runtime().with_max_nested_includes(o.max_nested).with_max_variable_size(o.max_var);
    Box::new(ProgSuite { name: name.into(), bounds: bounds.into(), progs: progs.into(), c: compiler(), rt, msg, lib, o })
}
