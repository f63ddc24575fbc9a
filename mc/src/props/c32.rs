use crate::eng::*;
use crate::harness::*;
use sieve::runtime::Variable;
use sieve::{Compiler, Context, Event, FunctionMap, Input, Runtime};
use std::borrow::Cow;
use std::collections::BTreeMap;

/// parts: 0 the root, 1 text, 2 alternative with 3 and 4, 5 text
const MSG: &str = "From: a@b.example\r\nSubject: s\r\nMIME-Version: 1.0\r\nContent-Type: multipart/mixed; boundary=b1\r\n\r\n--b1\r\nContent-Type: text/plain\r\n\r\none\r\n--b1\r\nContent-Type: multipart/alternative; boundary=b2\r\n\r\n--b2\r\nContent-Type: text/plain\r\n\r\ntwo\r\n--b2\r\nContent-Type: text/html\r\n\r\n<b>two</b>\r\n--b2--\r\n--b1\r\nContent-Type: text/plain\r\n\r\nthree\r\n--b1--\r\n";
fn below(part: u32, outermost: bool) -> Vec<u32> {
    match (part, outermost) {
        (0, true) => vec![0, 1, 2, 3, 4, 5],
        (0, false) => vec![1, 2, 3, 4, 5],
        (2, _) => vec![3, 4],
        _ => vec![],
    }
}
#[derive(Clone, Debug)]
enum S {
    Leaf(usize),
    Break,
    Each(Vec<S>),
    If(bool, Vec<S>),
}
/// statement, what it does
#[derive(Clone, Copy, PartialEq, Debug)]
enum D {
    Set(&'static str, &'static str),
    Copy,
    Local,
    Edit,
    NoEdit,
    Send,
    File,
    Keep,
    Notify,
}
const LEAVES: &[(&str, D)] = &[
    ("set \"global.a\" \"one\";", D::Set("a", "String(\"one\")")),
    ("set :upper \"global.a\" \"two\";", D::Set("a", "String(\"TWO\")")),
    ("let \"global.a\" \"2\";", D::Set("a", "Integer(2)")),
    ("let \"global.B\" \"[1, 'x']\";", D::Set("b", "Array([Integer(1), String(\"x\")])")),
    ("set \"h\" \"\";", D::Set("h", "String(\"\")")),
    ("set \"global.b\" \"<${h}>${global.a}\";", D::Copy),
    ("set \"l\" \"local\";", D::Local),
    ("addheader \"X\" \"1\";", D::Edit),
    ("deleteheader \"Nothing\";", D::NoEdit),
    ("redirect :copy \"r@x.example\";", D::Send),
    ("fileinto :copy \"f\";", D::File),
    ("keep;", D::Keep),
    ("notify \"mailto:n@x.example\";", D::Notify),
];
fn text(p: &[S], o: &mut String) {
    for s in p {
        match s {
            S::Leaf(i) => {
                o.push_str(LEAVES[*i].0);
                o.push_str(" eval \"probe()\"; ");
            }
            S::Break => o.push_str("break; "),
            S::Each(b) => {
                o.push_str("foreverypart { ");
                text(b, o);
                o.push_str("} ");
            }
            S::If(c, b) => {
                o.push_str(if *c { "if true { " } else { "if false { " });
                text(b, o);
                o.push_str("} ");
            }
        }
    }
}
/// all blocks of exactly n statements
fn blocks(n: usize, depth: usize, each: usize) -> Vec<Vec<S>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for first in 1..=n {
        let mut heads: Vec<S> = vec![];
        if first == 1 {
            heads.extend((0..LEAVES.len()).map(S::Leaf));
            if each > 0 {
                heads.push(S::Break);
            }
        } else if depth > 0 {
            for b in blocks(first - 1, depth - 1, each) {
                heads.push(S::If(true, b.clone()));
                heads.push(S::If(false, b));
            }
            for b in blocks(first - 1, depth - 1, each + 1) {
                heads.push(S::Each(b));
            }
        }
        let tails = blocks(n - first, depth, each);
        for h in &heads {
            // nothing follows a break
            if matches!(h, S::Break) && n > 1 {
                continue;
            }
            for t in &tails {
                let mut b = vec![h.clone()];
                b.extend(t.iter().cloned());
                out.push(b);
            }
        }
    }
    out
}
/// what the host sees at one event
#[derive(PartialEq, Eq, Debug, Clone)]
struct Sight {
    event: &'static str,
    part: u32,
    changed: bool,
    globals: BTreeMap<String, String>,
}
fn kind(e: &Event) -> &'static str {
    match e {
        Event::Function { .. } => "function",
        Event::CreatedMessage { .. } => "created",
        Event::SendMessage { .. } => "send",
        Event::FileInto { .. } => "fileinto",
        Event::Keep { .. } => "keep",
        _ => "other",
    }
}
struct M {
    globals: BTreeMap<String, String>,
    part: u32,
    nested: usize,
    dirty: bool,
    changed: bool,
    seen: Vec<Sight>,
}
impl M {
    fn see(&mut self, event: &'static str) {
        self.seen.push(Sight { event, part: self.part, changed: self.changed, globals: self.globals.clone() })
    }
    fn announce(&mut self) {
        if std::mem::take(&mut self.dirty) {
            self.changed = true;
            self.see("created");
        }
    }
    fn plain(&self, n: &str) -> String {
        match self.globals.get(n).map(|s| s.as_str()) {
            None => "".into(),
            Some(s) => s.trim_start_matches("String(\"").trim_start_matches("Integer(").trim_end_matches(')').trim_end_matches('"').to_string(),
        }
    }
    /// true: a break was met
    fn run(&mut self, p: &[S]) -> bool {
        for s in p {
            match s {
                S::Break => return true,
                S::If(c, b) => {
                    if *c && self.run(b) {
                        return true;
                    }
                }
                S::Each(b) => {
                    let outer = self.part;
                    let parts = below(outer, self.nested == 0);
                    self.nested += 1;
                    for p in parts {
                        self.part = p;
                        if self.run(b) {
                            break;
                        }
                    }
                    self.part = outer;
                    self.nested -= 1;
                }
                S::Leaf(i) => {
                    match LEAVES[*i].1 {
                        D::Set(n, v) => {
                            self.globals.insert(n.into(), v.into());
                        }
                        D::Copy => {
                            let v = format!("String(\"<{}>{}\")", self.plain("h"), self.plain("a"));
                            self.globals.insert("b".into(), v);
                        }
                        D::Local | D::NoEdit => {}
                        D::Edit => self.dirty = true,
                        D::Send => {
                            self.announce();
                            self.see("send");
                        }
                        D::File => {
                            self.announce();
                            self.see("fileinto");
                        }
                        D::Keep => self.announce(),
                        D::Notify => {
                            self.see("created");
                            self.see("send");
                        }
                    }
                    self.see("function");
                }
            }
        }
        false
    }
}
fn functions() -> FunctionMap {
    FunctionMap::new().with_external_function("probe", 7, 0)
}
fn all() -> Runtime {
    let mut rt = Runtime::new().with_max_redirects(1000).with_max_out_messages(1000).with_cpu_limit(50000);
    for c in super::c07::ALLCAPS.split('"').skip(1).step_by(2) {
        rt = rt.with_capability(c);
    }
    rt
}
fn state(n: usize) -> Box<dyn Suite> {
    let c = Compiler::new().register_functions(&mut functions());
    let rt = all();
    let v: Vec<Vec<S>> = (0..=n).flat_map(|k| blocks(k, 3, 0)).collect();
    list(
        &format!("state-{n}"),
        &format!("{} programs of up to {n} of {} statements (assignments of global and local variables, edits, deliveries), if and foreverypart: at every event what the host reads of the globals, the part and whether the message changed", v.len(), LEAVES.len()),
        v,
        move |p, cx| {
            let mut src = String::from("require [\"variables\", \"include\", \"editheader\", \"copy\", \"fileinto\", \"foreverypart\", \"mime\", \"enotify\", \"vnd.stalwart.expressions\"]; global \"h\";\n");
            text(p, &mut src);
            let sc = compile(&c, &src).map_err(|e| Fail::new("state", format!("{src}\n{}", show(&e))))?;
            let host: BTreeMap<String, String> = [("a", "String(\"of the host\")"), ("k", "Integer(9)")].map(|(a, b)| (a.to_string(), b.to_string())).into();
            let mut m = M { globals: host, part: 0, nested: 0, dirty: false, changed: false, seen: vec![] };
            m.run(p);
            m.announce();
            m.see("keep");
            let mut seen = vec![];
            let mut end = None;
            guard(|| {
                let mut ctx = rt.filter(MSG.as_bytes());
                ctx.set_global_variable("a", "of the host");
                ctx.set_global_variable("k", 9i64);
                let mut input = Input::script("", sc.clone());
                while let Some(r) = ctx.run(input) {
                    let event = r.as_ref().map(kind).unwrap_or("error");
                    seen.push(look(&ctx, event));
                    input = if event == "function" { Input::result(Variable::Integer(1)) } else { Input::True };
                    if seen.len() > 5000 {
                        break;
                    }
                }
                end = Some(look(&ctx, "keep"));
            })
            .map_err(|p| Fail::new("panic", format!("{src}\n{p}")))?;
            cx.state(&m.seen.last().map(|s| (&s.globals, s.changed, m.seen.len())));
            cx.trace();
            cx.step(seen.len() as u64);
            cx.outcome(&m.seen.iter().map(|s| (s.event, s.part, s.changed)).collect::<Vec<_>>());
            if let Some(i) = (0..seen.len().max(m.seen.len())).find(|&i| seen.get(i) != m.seen.get(i)) {
                return Err(Fail::new("state", format!("{src}\nevent {i}: want {:?}\n got {:?}", m.seen.get(i), seen.get(i))));
            }
            if end.as_ref() != seen.last() {
                return Err(Fail::new("state-after", format!("{src}\nat the last event {:?}\nafter the run {end:?}", seen.last())));
            }
            Ok(())
        },
    )
}
fn look(ctx: &Context, event: &'static str) -> Sight {
    Sight {
        event,
        part: ctx.part(),
        changed: ctx.has_message_changed(),
        globals: ctx.global_variable_names().map(|n| (n.to_string(), ctx.global_variable(n).map(|v| format!("{v:?}")).unwrap_or_else(|| "missing".into()))).collect(),
    }
}
fn s(x: &str) -> Variable {
    Variable::from(x)
}
fn pool() -> Vec<Variable> {
    let mut v: Vec<Variable> = ["", "a", "1", "-1", "1.5", " ", "a\r\nb", "ü€", "\"", "\\", "${global.v0}", "${hex:41}", "\0", "a'b"].into_iter().map(s).collect();
    v.extend([0, 1, -1, 42, i64::MAX, i64::MIN].map(Variable::from));
    v.extend([0.0, 1.0, -1.5, 1e300, 0.1].map(Variable::from));
    v.push(Variable::from(Vec::<Variable>::new()));
    v.push(Variable::from(vec![s("")]));
    v.push(Variable::from(vec![s("a"), Variable::from(1i64), Variable::from(1.5)]));
    v.push(Variable::from(vec![Variable::from(vec![s("x"), s("")]), s("y")]));
    v
}
// what the functions of the library are given is kept here, in the order of the calls
thread_local!(static GIVEN: std::cell::RefCell<Vec<String>> = const { std::cell::RefCell::new(vec![]) });
thread_local!(static ANSWER: std::cell::RefCell<Variable> = const { std::cell::RefCell::new(Variable::Integer(0)) });
fn native(_: &Context<'_>, v: Vec<Variable>) -> Variable {
    GIVEN.with(|g| g.borrow_mut().push(format!("{v:?}")));
    ANSWER.with(|a| a.borrow().clone())
}
/// the values of every type, there and back
fn values(n: usize) -> Box<dyn Suite> {
    let p = pool();
    let mut f = FunctionMap::new();
    for i in 0..4 {
        f = f.with_function_args(format!("n{i}"), native, i).with_external_function(format!("e{i}"), 100 + i, i);
    }
    let c = Compiler::new().register_functions(&mut f);
    let rt = all().with_functions(&mut f).with_max_variable_size(100_000);
    let ways = ["let \"global.r\" \"F\";", "let \"l\" \"F\"; let \"global.r\" \"l\";", "let \"global.r\" \"[F]\";", "if eval \"F\" { let \"global.r\" \"'yes'\"; } else { let \"global.r\" \"'no'\"; }"];
    let scripts: Vec<_> = (0..2)
        .flat_map(|kind| (0..=n).flat_map(move |a| ways.map(move |w| (kind, a, w))))
        .map(|(kind, a, w)| {
            let call = format!("{}{a}({})", ["n", "e"][kind], (0..a).map(|i| format!("global.v{i}")).collect::<Vec<_>>().join(", "));
            let src = format!("require [\"variables\", \"include\", \"vnd.stalwart.expressions\"];\n{}", w.replace('F', &call));
            let sc = compile(&c, &src).unwrap_or_else(|e| panic!("{src} {}", show(&e)));
            (kind, a, w, src, sc)
        })
        .collect();
    let k = p.len();
    let words = nwords(k, n) as usize;
    radix(
        &format!("values-{n}"),
        &format!("every list of up to {n} of {k} values of all types as arguments of a function (of the library, of the host) x every value as its result x {} uses", ways.len()),
        vec![words, k, 2 * ways.len()],
        move |v, cx| {
            let w = word(k, v[0] as u64);
            let (kind, _, way, src, sc) = scripts.iter().filter(|s| s.1 == w.len()).nth(v[2]).unwrap();
            let args: Vec<Variable> = w.iter().map(|i| p[*i].clone()).collect();
            let want = format!("{args:?}");
            let answer = p[v[1]].clone();
            let mut got = vec![];
            let mut r = None;
            GIVEN.with(|g| g.borrow_mut().clear());
            ANSWER.with(|a| *a.borrow_mut() = answer.clone());
            guard(|| {
                let mut ctx = rt.filter(b"Subject: s\r\n\r\nb\r\n");
                for (i, a) in args.iter().enumerate() {
                    ctx.set_global_variable(format!("v{i}"), a.clone());
                }
                let mut input = Input::script("", sc.clone());
                while let Some(e) = ctx.run(input) {
                    input = match e {
                        Ok(Event::Function { id, arguments }) => {
                            got.push(format!("{id} {arguments:?}"));
                            Input::result(answer.clone())
                        }
                        _ => Input::True,
                    };
                    if got.len() > 50 {
                        break;
                    }
                }
                r = ctx.global_variable("r").cloned();
            })
            .map_err(|p| Fail::new("panic", format!("{src}\n{p}")))?;
            cx.state(&v);
            cx.trace();
            cx.step(1);
            cx.outcome(&format!("{r:?}"));
            let bad = |d: String| Err(Fail::new(format!("values:{way}"), format!("{src}\narguments {want}, result {answer:?}: {d}")));
            let calls = if *kind == 0 { GIVEN.with(|g| g.borrow().clone()) } else { got };
            let call = if *kind == 0 { want.clone() } else { format!("{} {want}", 100 + w.len()) };
            if calls != [call] {
                return bad(format!("calls {calls:?}"));
            }
            let truth = match &answer {
                Variable::String(s) => !s.is_empty(),
                Variable::Integer(n) => *n != 0,
                Variable::Float(n) => *n != 0.0,
                Variable::Array(l) => !l.is_empty(),
            };
            let result = match v[2] % ways.len() {
                2 => Variable::from(vec![answer.clone()]),
                3 => s(if truth { "yes" } else { "no" }),
                _ => answer.clone(),
            };
            if r.as_ref().map(|r| format!("{r:?}")) != Some(format!("{result:?}")) {
                return bad(format!("becomes {r:?}"));
            }
            Ok(())
        },
    )
}
/// a number as decimal text, by hand
fn decimal(t: &str) -> Option<i128> {
    let (neg, d) = match t.as_bytes().first()? {
        b'-' => (true, &t[1..]),
        b'+' => (false, &t[1..]),
        _ => (false, t),
    };
    if d.is_empty() || d.len() > 30 || !d.bytes().all(|c| c.is_ascii_digit()) {
        return None;
    }
    let n = d.bytes().fold(0i128, |n, c| n * 10 + (c - b'0') as i128);
    Some(if neg { -n } else { n })
}
fn conversions(n: usize) -> Box<dyn Suite> {
    let alphabet = ["0", "1", "9", "-", "+", ".", "e", "a", " ", "ü"];
    let mut v: Vec<Variable> = words_of(&alphabet, n).iter().map(|t| s(t)).collect();
    v.extend(["9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "99999999999999999999999"].map(s));
    let ints = [0, 1, -1, 7, 255, 1 << 31, 1 << 53, (1 << 53) + 1, i64::MAX, i64::MIN];
    v.extend(ints.map(Variable::from));
    v.extend([0.0, 0.5, -0.5, 1.0, 1.5, -1.5, 2.0, 1e10, -1e10, 1e300, f64::MAX, 0.1].map(Variable::from));
    // lists of up to two of these
    let items: Vec<Variable> = vec![s(""), s("a"), s("1"), s("-1.5"), Variable::from(3i64), Variable::from(1.5)];
    for w in words(items.len(), 3) {
        v.push(Variable::from(w.iter().map(|i| items[*i as usize].clone()).collect::<Vec<_>>()));
    }
    list(
        &format!("conversions-{n}"),
        &format!("{} values: texts of up to {n} of {} characters, numbers at the edges, lists of up to 3", v.len(), alphabet.len()),
        v,
        move |x, cx| {
            cx.state(&format!("{x:?}"));
            cx.trace();
            cx.step(12);
            let bad = |what: &str, d: String| Err(Fail::new(format!("conversion:{what}"), format!("{what} of {x:?}: {d}")));
            let check = guard(|| {
                let text: String = match x {
                    Variable::String(t) => t.to_string(),
                    Variable::Integer(n) => format!("{n}"),
                    Variable::Float(n) => format!("{n}"),
                    Variable::Array(l) => l.iter().map(|i| one(i)).fold(String::new(), |a, b| if a.is_empty() { b } else { format!("{a}\r\n{b}") }),
                };
                cx.outcome(&text);
                if x.to_string() != text {
                    return bad("to_string", format!("{:?}", x.to_string()));
                }
                let empty = matches!(x, Variable::String(t) if t.is_empty());
                if x.is_empty() != empty {
                    return bad("is_empty", String::new());
                }
                if let Variable::String(t) = x {
                    if x.len() != t.len() {
                        return bad("len", x.len().to_string());
                    }
                }
                let list: Vec<Variable> = match x {
                    Variable::Array(l) => l.to_vec(),
                    _ if empty => vec![],
                    _ => vec![x.clone()],
                };
                let d = format!("{list:?}");
                if format!("{:?}", x.to_array()) != d || format!("{:?}", x.clone().into_array()) != d {
                    return bad("to_array", format!("{:?} {:?}", x.to_array(), x.clone().into_array()));
                }
                if x.as_array().is_some() != matches!(x, Variable::Array(_)) || x.as_array().is_some_and(|a| format!("{a:?}") != d) {
                    return bad("as_array", format!("{:?}", x.as_array()));
                }
                let texts: Vec<String> = list.iter().map(one).collect();
                if x.to_string_array() != texts || x.clone().into_string_array() != texts {
                    return bad("to_string_array", format!("{:?} {:?}", x.to_string_array(), x.clone().into_string_array()));
                }
                let int = match x {
                    Variable::Integer(n) => *n as i128,
                    // towards zero, held at the edges
                    Variable::Float(f) if *f >= 9.3e18 => i64::MAX as i128,
                    Variable::Float(f) => f.trunc() as i128,
                    Variable::String(t) => decimal(t).filter(|n| *n >= i64::MIN as i128 && *n <= i64::MAX as i128).unwrap_or(0),
                    Variable::Array(_) => 0,
                };
                if x.to_integer() as i128 != int {
                    return bad("to_integer", x.to_integer().to_string());
                }
                let size = match x {
                    // the size of a negative number is open
                    Variable::Integer(n) if *n < 0 => None,
                    Variable::String(t) => Some(decimal(t).filter(|n| *n >= 0 && *n <= u64::MAX as i128 && !t.starts_with('-')).unwrap_or(0)),
                    Variable::Float(f) if *f >= 1e19 => None,
                    Variable::Float(f) => Some(f.max(0.0).trunc() as i128),
                    _ => Some(int),
                };
                if size.is_some_and(|n| n != x.to_usize() as i128) {
                    return bad("to_usize", x.to_usize().to_string());
                }
                let num = x.to_number_checked().map(|n| format!("{n:?}"));
                let want = match x {
                    Variable::Integer(n) => Some(format!("Integer({n})")),
                    Variable::Float(n) => Some(format!("Float({n:?})")),
                    Variable::String(t) if !t.contains('.') => decimal(t).filter(|n| *n >= i64::MIN as i128 && *n <= i64::MAX as i128).map(|n| format!("Integer({n})")),
                    Variable::String(t) => t.parse::<f64>().ok().map(|n| format!("Float({n:?})")),
                    _ => None,
                };
                if num != want {
                    return bad("to_number_checked", format!("{num:?}, want {want:?}"));
                }
                if let Some(w) = want {
                    if format!("{:?}", x.to_number()) != w {
                        return bad("to_number", format!("{:?}", x.to_number()));
                    }
                }
                let truth = match x {
                    Variable::Integer(n) => *n != 0,
                    Variable::Float(n) => *n != 0.0,
                    Variable::String(t) => !t.is_empty(),
                    Variable::Array(l) => !l.is_empty(),
                };
                if x.to_bool() != truth {
                    return bad("to_bool", x.to_bool().to_string());
                }
                if let Variable::String(t) = x {
                    let made = [Variable::from(t.to_string()), Variable::from(t.as_str()), Variable::from(&t.to_string()), Variable::from(Cow::Borrowed(t.as_str())), Variable::from(Cow::<str>::Owned(t.to_string()))];
                    if made.iter().any(|m| format!("{m:?}") != format!("{x:?}")) {
                        return bad("from", format!("{made:?}"));
                    }
                }
                if let Variable::Integer(n) = x {
                    let mut made = vec![Variable::from(*n), Variable::from(sieve::compiler::Number::from(*n))];
                    if let Ok(u) = u64::try_from(*n) {
                        made.extend([Variable::from(u), Variable::from(u as usize)]);
                    }
                    if let Ok(u) = i32::try_from(*n) {
                        made.push(Variable::from(u));
                    }
                    if let Ok(u) = u32::try_from(*n) {
                        made.push(Variable::from(u));
                    }
                    if *n == 0 || *n == 1 {
                        made.push(Variable::from(*n == 1));
                    }
                    if made.iter().any(|m| format!("{m:?}") != format!("{x:?}")) {
                        return bad("from", format!("{made:?}"));
                    }
                }
                Ok(())
            });
            check.map_err(|p| Fail::new("panic", format!("{x:?}: {p}")))?
        },
    )
}
fn one(x: &Variable) -> String {
    match x {
        Variable::String(t) => t.to_string(),
        Variable::Integer(n) => n.to_string(),
        Variable::Float(n) => n.to_string(),
        Variable::Array(_) => String::new(),
    }
}
fn words_of(alphabet: &[&str], n: usize) -> Vec<String> {
    words(alphabet.len(), n).iter().map(|w| w.iter().map(|i| alphabet[*i as usize]).collect()).collect()
}
pub fn property(thorough: bool) -> Property {
    Property {
        id: "C32",
        level: "model_checking",
        technique: "exhaustive enumeration of programs and of values of all types on the real interpreter with a host that reads the context at every event, judged by a small interpreter of assignments, loops and edits and by the definitions of the conversions",
        assumptions: vec![
            "what message() shows between edits is open; the announced content is C03".into(),
            "lists within lists have no text; numbers and booleans count as length 2".into(),
        ],
        suites: vec![state(5), values(if thorough { 3 } else { 2 }), conversions(if thorough { 6 } else { 5 }), registrations(if thorough { 5 } else { 4 })],
    }
}

thread_local!(static CALLED: std::cell::Cell<usize> = const { std::cell::Cell::new(0) });
fn at<const N: usize>(_: &Context<'_>, v: Vec<Variable>) -> Variable {
    CALLED.with(|c| c.set(c.get() * 100 + N * 10 + v.len()));
    Variable::Integer(N as i64)
}
/// functions registered in any order, under the same name again, of the library and of the host
fn registrations(n: usize) -> Box<dyn Suite> {
    let k = 2 * 2 * 3;
    let words = nwords(k, n) as usize;
    let fns: [fn(&Context<'_>, Vec<Variable>) -> Variable; 5] = [at::<1>, at::<2>, at::<3>, at::<4>, at::<5>];
    const IDS: [u32; 5] = [0, 7, 1000, 8, 1];
    radix(
        &format!("registrations-{n}"),
        &format!("every sequence of up to {n} registrations of 2 names for functions of the library or the host with 0 to 2 arguments, then a call of each name with 0 to 3 arguments: the last function registered is called, once, and other numbers of arguments and other names are refused"),
        vec![words, 3, 4],
        move |v, cx| {
            let w = word(k, v[0] as u64);
            let mut map = FunctionMap::new();
            let mut known: [Option<(bool, usize, usize)>; 2] = [None; 2];
            for (i, op) in w.iter().enumerate() {
                let (name, ext, args) = (op % 2, op / 2 % 2 == 1, op / 4);
                let text = ["aa", "ab"][name];
                map = match (ext, args) {
                    (true, _) => map.with_external_function(text, IDS[i], args as u32),
                    (_, 0) => map.with_function_no_args(text, fns[i]),
                    (_, 1) => map.with_function(text, fns[i]),
                    _ => map.with_function_args(text, fns[i], args as u32),
                };
                known[name] = Some((ext, i, args));
            }
            let c = Compiler::new().register_functions(&mut map);
            let rt = all().with_functions(&mut map);
            let call = format!("{}({})", ["aa", "ab", "zz"][v[1]], ["", "1", "1, 2", "1, 2, 3"][v[2]]);
            let src = format!("require [\"variables\", \"vnd.stalwart.expressions\"];\nlet \"x\" \"{call}\"; if eval \"x == 5\" {{ discard; }}");
            let f = known.get(v[1]).copied().flatten().filter(|f| f.2 == v[2]);
            cx.state(&(w.len(), f));
            cx.step(w.len() as u64 + 1);
            cx.trace();
            let bad = |d: String| Err(Fail::new("registrations", format!("{w:?} {call}: {d}")));
            let sc = match compile(&c, &src) {
                Ok(sc) if f.is_some() => sc,
                Ok(_) => return bad("accepted".into()),
                Err(e) if f.is_some() => return bad(show(&e)),
                Err(_) => {
                    cx.outcome(&0);
                    return Ok(());
                }
            };
            let (ext, i, args) = f.unwrap();
            CALLED.with(|c| c.set(0));
            let mut asked = vec![];
            let obs = run_with(&rt, &sc, b"Subject: s\r\n\r\nb\r\n", |_| (), |e| match e {
                Event::Function { id, arguments } => {
                    asked.push((*id, arguments.len()));
                    Input::result(Variable::Integer(5))
                }
                _ => Input::True,
            });
            let called = CALLED.with(|c| c.get());
            let discarded = obs.iter().any(|o| matches!(o, Ob::Ev(Event::Discard)));
            cx.outcome(&(called, asked.clone(), discarded));
            let ok = if ext { asked == [(IDS[i], args)] && called == 0 && discarded } else { asked.is_empty() && called == (i + 1) * 10 + args && discarded == (i == 4) };
            if !ok {
                return bad(format!("expected {f:?}, called {called}, asked {asked:?}\n{}", show_all(&obs)));
            }
            Ok(())
        },
    )
}
