use super::core::q;
use crate::eng::*;
use crate::harness::*;
use mail_parser::decoders::html::{html_to_text, text_to_html};
use sieve::runtime::Variable;
use sieve::{Compiler, Context, Event, FunctionMap, Input, Runtime, Sieve};
use std::sync::Arc;

/// shows what kind of value a variable has
fn dump<'x>(_: &'x Context<'x>, mut v: Vec<Variable>) -> Variable {
    fn one(v: &Variable) -> String {
        match v {
            Variable::Array(a) => format!("[{}]", a.iter().map(one).collect::<Vec<_>>().join("|")),
            Variable::Integer(i) => format!("#{i}"),
            v => format!("{:?}", v.to_string()),
        }
    }
    one(&v.pop().unwrap_or_default()).into()
}
fn map() -> FunctionMap {
    FunctionMap::new().with_function("dump", dump)
}
const RQ: &str = "require [\"variables\", \"fileinto\", \"vnd.stalwart.expressions\", \"foreverypart\", \"editheader\", \"replace\", \"enclose\", \"mime\"]; ";
fn compiler() -> Compiler {
    Compiler::new().register_functions(&mut map())
}
fn runtime() -> Runtime {
    Runtime::new().with_functions(&mut map()).with_capability(sieve::compiler::grammar::Capability::Expressions).with_cpu_limit(1_000_000).with_max_variable_size(100_000)
}

// ---- model

#[derive(Clone, Copy)]
enum Kind {
    Text(&'static str),
    Addrs(&'static [(&'static str, &'static str)]),
    /// a text field that holds an address all the same
    TextAddrs(&'static str, &'static [(&'static str, &'static str)]),
    Ids(&'static [&'static str]),
    /// words or message ids
    List(&'static [&'static str]),
    TextIds(&'static str, &'static [&'static str]),
    Ct(&'static str, &'static str, &'static [(&'static str, &'static str)]),
    Date(i64),
    TextDate(&'static str, i64),
    Rcvd(&'static [(&'static str, V)]),
}
#[derive(Clone, Copy)]
enum V {
    S(&'static str),
    N(i64),
}
struct Field {
    name: &'static str,
    raw: &'static str,
    kind: Kind,
}
use Kind::*;
use V::*;
const FIELDS: &[Field] = &[
    Field { name: "Subject", raw: "hello  big\r\n\tworld", kind: Text("hello  big world") },
    Field { name: "sUBJECT", raw: "=?utf-8?Q?caf=C3=A9_x?=", kind: Text("café x") },
    Field { name: "X-Foo", raw: "", kind: Text("") },
    Field { name: "X-Foo", raw: "a: b, <c>", kind: Text("a: b, <c>") },
    Field { name: "From", raw: "\"Last, First\" <first+tag@last.example>", kind: Addrs(&[("Last, First", "first+tag@last.example")]) },
    Field { name: "From", raw: "plain@from.example", kind: Addrs(&[("", "plain@from.example")]) },
    Field { name: "To", raw: "A B <a@b.example>, c+d@f.example,\r\n =?utf-8?B?w6k=?= <g@H.example>", kind: Addrs(&[("A B", "a@b.example"), ("", "c+d@f.example"), ("é", "g@H.example")]) },
    Field { name: "Cc", raw: "<cc@x.example>", kind: Addrs(&[("", "cc@x.example")]) },
    Field { name: "CC", raw: "Two <t@x.example>, One <o+@x.example>", kind: Addrs(&[("Two", "t@x.example"), ("One", "o+@x.example")]) },
    Field { name: "X-Addr", raw: "N M <n@m.example>, o@p.example", kind: TextAddrs("N M <n@m.example>, o@p.example", &[("N M", "n@m.example"), ("", "o@p.example")]) },
    Field { name: "Message-ID", raw: "<i@d.example>", kind: Ids(&["i@d.example"]) },
    Field { name: "References", raw: "<r1@d.example>\r\n <r2@d.example> <r3@d.example>", kind: List(&["r1@d.example", "r2@d.example", "r3@d.example"]) },
    Field { name: "Keywords", raw: "one, two words,=?utf-8?Q?dr=C3=A9i?= , four", kind: List(&["one", "two words", "dréi", "four"]) },
    Field { name: "KEYWORDS", raw: "single", kind: Text("single") },
    Field { name: "X-Id", raw: "<j@d.example> <k@d.example>", kind: TextIds("<j@d.example> <k@d.example>", &["j@d.example", "k@d.example"]) },
    Field { name: "Content-Type", raw: "Text/PLAIN; Charset=\"utf-8\"; name=\"a b.txt\"", kind: Ct("text", "plain", &[("charset", "utf-8"), ("name", "a b.txt")]) },
    Field { name: "Date", raw: "Tue, 1 Apr 2025 10:00:00 +0200", kind: Date(1743494400) },
    Field { name: "X-Date", raw: "Thu, 01 Jan 1970 00:00:07 +0000", kind: TextDate("Thu, 01 Jan 1970 00:00:07 +0000", 7) },
    Field {
        name: "Received",
        raw: "from helo.example (rdns.example [192.0.2.1]) by mx.example (Postfix)\r\n with ESMTPS id abc123 for <u@to.example>; Tue, 1 Apr 2025 10:00:00 +0200",
        kind: Rcvd(&[("from", S("helo.example")), ("from.name", S("helo.example")), ("from.ip", S("")), ("ip", S("192.0.2.1")), ("iprev", S("rdns.example")), ("by", S("mx.example")), ("by.name", S("mx.example")), ("by.ip", S("")), ("with", S("ESMTPS")), ("id", S("abc123")), ("for", S("u@to.example")), ("date", N(1743494400)), ("date.raw", S("Tue, 1 Apr 2025 10:00:00 +0200"))]),
    },
    Field {
        name: "ReceiveD",
        raw: "by b2.example with SMTP; Thu, 01 Jan 1970 00:00:07 +0000",
        kind: Rcvd(&[("from", S("")), ("from.name", S("")), ("from.ip", S("")), ("ip", S("")), ("iprev", S("")), ("by", S("b2.example")), ("by.name", S("b2.example")), ("by.ip", S("")), ("with", S("SMTP")), ("id", S("")), ("for", S("")), ("date", N(7)), ("date.raw", S("Thu, 1 Jan 1970 00:00:07 +0000"))]),
    },
];
#[derive(Clone, Debug, PartialEq)]
enum Val {
    S(String),
    N(i64),
}
use Val as L;
impl Val {
    fn text(&self) -> String {
        match self {
            L::S(s) => s.clone(),
            L::N(n) => n.to_string(),
        }
    }
    fn dump(&self) -> String {
        match self {
            L::S(s) => format!("{s:?}"),
            L::N(n) => format!("#{n}"),
        }
    }
}
fn s(t: &str) -> Val {
    L::S(t.to_string())
}
/// the element an index asks for: 0 all, from the front or from the back
fn pick<T: Clone>(v: &[T], i: i32) -> Vec<T> {
    match i {
        0 => v.to_vec(),
        i if i > 0 => v.get(i as usize - 1).cloned().into_iter().collect(),
        i => (v.len() as i32 + i >= 0).then(|| v[(v.len() as i32 + i) as usize].clone()).into_iter().collect(),
    }
}
fn address_part(name: &str, addr: &str, part: &str) -> String {
    let (l, d) = addr.rsplit_once('@').unwrap();
    match part {
        "name" => name,
        "addr" => addr,
        "addr.local" => l,
        "addr.domain" => d,
        "addr.user" => l.split_once('+').map_or(l, |x| x.0),
        "addr.detail" => l.split_once('+').map_or("", |x| x.1),
        _ => unreachable!(),
    }
    .to_string()
}
/// a blank for each run of white space, none at the end
fn squash(s: &str) -> String {
    let mut o = String::new();
    let mut sp = false;
    for c in s.chars() {
        if c.is_ascii_whitespace() {
            sp = true;
        } else {
            if sp {
                o.push(' ');
            }
            sp = false;
            o.push(c);
        }
    }
    o
}
/// the values of a field; None: open
fn values(f: &Field, part: &str, pidx: i32) -> Option<Vec<Val>> {
    let simple = [-1, 0, 1].contains(&pidx);
    // one that is not there is empty
    let list = |v: Vec<Val>| {
        let r = pick(&v, pidx);
        Some(if r.is_empty() && pidx != 0 { vec![s("")] } else { r })
    };
    match (part, &f.kind) {
        ("exists", _) => Some(vec![L::N(1)]),
        ("raw", _) => Some(vec![s(&squash(&format!(" {}\r\n", f.raw)))]),
        ("raw_name", _) => Some(vec![s(f.name)]),
        ("text" | "", Text(t) | TextAddrs(t, _) | TextIds(t, _) | TextDate(t, _)) if simple => Some(vec![s(t)]),
        ("text" | "", Addrs(a)) => list(a.iter().map(|(n, a)| L::S(if n.is_empty() { format!("<{a}>") } else { format!("{n} <{a}>") })).collect()),
        ("text" | "", List(v)) => list(v.iter().map(|v| s(v)).collect()),
        ("text" | "", Ids(v)) if simple => Some(vec![s(v[0])]),
        ("text" | "", Ct(t, u, _)) if simple => Some(vec![L::S(format!("{t}/{u}"))]),
        ("text" | "", Date(_)) if simple => Some(vec![s(f.raw)]),
        ("name" | "addr" | "addr.local" | "addr.domain" | "addr.user" | "addr.detail", Addrs(a) | TextAddrs(_, a)) => list(a.iter().map(|(n, a)| L::S(address_part(n, a, part))).collect()),
        ("id", Ids(v)) if simple => Some(vec![s(v[0])]),
        ("id", TextIds(_, v)) if pidx == 0 => Some(v.iter().map(|v| s(v)).collect()),
        ("type", Ct(t, ..)) if simple => Some(vec![s(t)]),
        ("subtype", Ct(_, t, _)) if simple => Some(vec![s(t)]),
        (p, Ct(_, _, a)) if p.starts_with("attr.") && simple => Some(vec![s(a.iter().find(|a| a.0.eq_ignore_ascii_case(&p[5..])).map_or("", |a| a.1))]),
        ("date", Date(t) | TextDate(_, t)) if simple => Some(vec![L::N(*t)]),
        (p, Rcvd(v)) if p.starts_with("rcvd.") && simple => v.iter().find(|x| x.0 == &p[5..]).map(|x| {
            vec![match x.1 {
                S(t) => s(t),
                N(n) => L::N(n),
            }]
        }),
        _ => None,
    }
}
const NAMES: &[(&str, &[&str])] = &[
    ("subject", &["", "text", "raw", "raw_name", "exists"]),
    ("Subject:x-foo", &["", "text", "raw", "raw_name", "exists"]),
    ("x-foo", &["text", "raw"]),
    ("from", &["", "name", "addr", "addr.local", "addr.domain", "addr.user", "addr.detail", "raw", "raw_name", "exists"]),
    ("to", &["", "text", "name", "addr", "addr.local", "addr.domain", "addr.user", "addr.detail"]),
    ("cc", &["text", "name", "addr", "addr.detail", "raw_name"]),
    ("to:cc", &["", "name", "addr", "addr.user", "raw", "exists"]),
    ("FROM:Cc:To", &["text", "name", "addr", "addr.local"]),
    ("x-addr", &["text", "name", "addr", "addr.domain"]),
    ("cc:x-addr:to", &["addr", "name", "addr.local"]),
    ("message-id", &["", "id", "raw"]),
    ("message-id:x-id", &["id", "raw"]),
    ("references", &["", "raw"]),
    ("Keywords", &["", "text", "raw", "raw_name", "exists"]),
    ("keywords:references:subject", &["text"]),
    ("content-type", &["", "text", "type", "subtype", "attr.charset", "attr.NAME", "attr.none", "raw"]),
    ("date", &["", "date", "raw"]),
    ("x-date:date", &["date", "text"]),
    ("received", &["rcvd.from", "rcvd.from.name", "rcvd.from.ip", "rcvd.ip", "rcvd.iprev", "rcvd.by", "rcvd.by.name", "rcvd.by.ip", "rcvd.with", "rcvd.id", "rcvd.for", "rcvd.date", "rcvd.date.raw", "raw", "raw_name", "exists"]),
    ("x-none", &["", "text", "addr", "exists"]),
    ("*", &["raw", "raw_name"]),
];
const IDX: &[(&str, i32)] = &[("", -1), ("[*]", 0), ("[0]", 1), ("[1]", 1), ("[2]", 2), ("[3]", 3), ("[-1]", -1), ("[-2]", -2), ("[-3]", -3), ("[-4]", -4)];
struct Q {
    text: String,
    names: Vec<String>,
    part: &'static str,
    hidx: i32,
    pidx: i32,
}
fn queries(idx: &[(&str, i32)]) -> Vec<Q> {
    let mut v = vec![];
    for (n, parts) in NAMES {
        for p in *parts {
            for (hi, h) in idx {
                for (pi, x) in idx {
                    if *n == "*" && (!hi.is_empty() || !pi.is_empty()) {
                        continue;
                    }
                    // without a name for the part the index follows the other one
                    if p.is_empty() && hi.is_empty() && !pi.is_empty() {
                        continue;
                    }
                    let text = if p.is_empty() { format!("header.{n}{hi}{pi}") } else { format!("header.{n}{hi}.{p}{pi}") };
                    let all = *n == "*";
                    v.push(Q { text, names: if all { vec![] } else { n.split(':').map(|n| n.to_ascii_lowercase()).collect() }, part: p, hidx: if all { 0 } else { *h }, pidx: if all { 0 } else { *x } });
                }
            }
        }
    }
    v
}
/// what a query gives on a message: how it prints, how it shows in dump
fn expect(fs: &[&Field], q: &Q) -> Option<(String, String)> {
    let sel: Vec<&Field> = fs.iter().copied().filter(|f| q.names.is_empty() || q.names.contains(&f.name.to_ascii_lowercase())).collect();
    let mut vals = vec![];
    for f in pick(&sel, q.hidx) {
        if q.names.is_empty() && q.part == "raw" {
            vals.push(L::S(squash(&format!("{}: {}\r\n", f.name, f.raw))));
            continue;
        }
        vals.extend(values(f, q.part, q.pidx)?);
    }
    if vals.is_empty() {
        return Some((String::new(), "\"\"".into()));
    }
    let text = vals.iter().map(|v| v.text()).collect::<Vec<_>>().join("\r\n");
    let single = vals.len() == 1 && q.hidx != 0 && q.pidx != 0;
    Some((text, if single { vals[0].dump() } else { format!("[{}]", vals.iter().map(|v| v.dump()).collect::<Vec<_>>().join("|")) }))
}
fn script(qs: &[Q]) -> String {
    let mut t = RQ.to_string();
    for x in qs {
        t += &format!("let \"d\" \"dump({})\"; fileinto \"D${{d}}\"; fileinto \"T${{{}}}E\"; ", x.text, x.text);
    }
    t
}
fn folders(o: &[Ob]) -> Vec<&str> {
    o.iter()
        .filter_map(|o| match o {
            Ob::Ev(Event::FileInto { folder, .. }) => Some(folder.as_str()),
            _ => None,
        })
        .collect()
}
const CHUNK: usize = 25;
fn headers(n: usize, idx: &'static [(&'static str, i32)], name: &str) -> Box<dyn Suite> {
    let c = compiler();
    let rt = runtime();
    let qs: Vec<Q> = queries(idx);
    let total = qs.len();
    let chunks: Vec<Vec<Q>> = {
        let mut v = vec![];
        let mut it = qs.into_iter().peekable();
        while it.peek().is_some() {
            v.push(it.by_ref().take(CHUNK).collect());
        }
        v
    };
    let compiled: Vec<Result<Arc<Sieve>, String>> = chunks.iter().map(|q| compile(&c, &script(q)).map_err(|e| format!("{}\n{e:?}", script(q)))).collect();
    radix(&format!("{name}-{n}"), &format!("{total} header variables (names, lists of names, indexes, parts, indexes of parts) as text and in expressions on every message of up to {n} out of {} fields", FIELDS.len()), vec![nwords(FIELDS.len(), n) as usize, chunks.len()], move |v, cx| {
        let w = word(FIELDS.len(), v[0] as u64);
        let fs: Vec<&Field> = w.iter().map(|i| &FIELDS[*i]).collect();
        let msg = fs.iter().map(|f| format!("{}: {}\r\n", f.name, f.raw)).collect::<String>() + "\r\nbody\r\n";
        let sc = match &compiled[v[1]] {
            Ok(s) => s,
            Err(e) => return Err(Fail::new("compile", e.clone())),
        };
        let o = run_with(&rt, sc, msg.as_bytes(), |_| (), yes);
        let f = folders(&o);
        cx.step(f.len() as u64);
        cx.trace();
        cx.state(&v[0]);
        for (i, x) in chunks[v[1]].iter().enumerate() {
            let Some((text, d)) = expect(&fs, x) else { continue };
            cx.outcome(&d);
            // lists print with line breaks of either kind
            let got = (f.get(2 * i).unwrap_or(&"nothing"), f.get(2 * i + 1).unwrap_or(&"nothing"));
            if *got.0 != format!("D{d}") {
                return Err(Fail::new("value", format!("{msg:?}\n{} is\n{}\ninstead of\nD{d}", x.text, got.0)));
            }
            // and empty values before the first other one leave no line
            let lines = |s: &str| s.replace("\r\n", "\n").replacen('T', "", 1).trim_start_matches('\n').to_string();
            if lines(got.1) != lines(&format!("T{text}E")) {
                return Err(Fail::new("text", format!("{msg:?}\n${{{}}} is\n{:?}\ninstead of\n{text:?}", x.text, got.1)));
            }
        }
        Ok(())
    })
}
/// queries that are not right
fn wrong() -> Box<dyn Suite> {
    let mut v: Vec<(String, bool)> = vec![];
    for h in ["header.", "header.subject.", "header.subject[1", "header.subject[x]", "header.subject[1][2][3]", "header.to.none", "header.to.addr.none", "header.content-type.attr", "header.received.rcvd.none", "header.to.addr[1.5]", "header.*x", "header.*:to", "header.to[--1]", "header.[1]", "header", "body.none", "part.none", "body", "part", "none.x", "header.to[1].addr[1][1]"] {
        v.push((h.to_string(), false));
    }
    for h in ["header.to.addr", "header.to.addr.local", "header.to[1].addr.domain[2]", "body.text", "part.raw", "header.to[-3][2]", "header.received.rcvd", "header.to:cc[*].addr[*]", "header.to.addr.user", "header.to.addr.detail", "HEADER.TO.ADDR", "header.received.rcvd.tls", "header.received.rcvd.cipher", "header.received.rcvd.ident"] {
        v.push((h.to_string(), true));
    }
    let c = compiler();
    list("names", "names of header, body and part variables that exist and that do not: the right ones compile in expressions, the wrong ones are refused with an error", v, move |(h, ok), cx| {
        cx.state(h);
        let e = compile(&c, &format!("{RQ}let \"d\" \"{h}\";"));
        cx.step(1);
        cx.outcome(&e.is_ok());
        match e {
            Err(Ob::Panic(p)) => Err(Fail::new("panic", p)),
            e if *ok && e.is_err() => Err(Fail::new("name", format!("{h} is refused: {e:?}"))),
            // an empty name of a part or a word that is no namespace is text
            Ok(_) if !*ok && !["header.subject[1", "header.subject[1][2][3]", "header.to[1].addr[1][1]", "header.subject.", "header", "body", "part", "header.", "header.[1]"].contains(&h.as_str()) => Err(Fail::new("name", format!("{h} is taken"))),
            _ => Ok(()),
        }
    })
}

// ---- bodies

#[derive(Clone)]
enum P {
    Leaf(&'static str, &'static str, String),
    Multi(&'static str, Vec<P>),
}
fn b64(s: &str) -> String {
    const T: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut o = String::new();
    for c in s.as_bytes().chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            o.push(if i <= c.len() { T[(n >> (18 - 6 * i) & 63) as usize] as char } else { '=' });
        }
    }
    o
}
impl P {
    fn write(&self, head: &str, depth: usize) -> String {
        match self {
            P::Leaf(h, enc, t) => {
                let (e, body) = match *enc {
                    "base64" => ("Content-Transfer-Encoding: base64\r\n", b64(t)),
                    "qp" => ("Content-Transfer-Encoding: quoted-printable\r\n", t.replace('=', "=3D").replace('é', "=C3=A9")),
                    _ => ("", t.clone()),
                };
                format!("{head}{h}{e}\r\n{body}")
            }
            P::Multi(sub, ps) => {
                let b = format!("b{depth}");
                let mut o = format!("{head}Content-Type: multipart/{sub}; boundary=\"{b}\"\r\n\r\n");
                for p in ps {
                    o += &format!("--{b}\r\n{}\r\n", p.write("", depth + 1));
                }
                o + &format!("--{b}--\r\n")
            }
        }
    }
    /// in the order the parts are visited: text, raw body
    fn parts(&self, depth: usize, out: &mut Vec<(String, String)>) {
        match self {
            P::Leaf(_, _, t) => {
                let w = self.write("", depth);
                out.push((t.clone(), w[w.find("\r\n\r\n").map_or(0, |p| p + 4)..].to_string()));
                if w.starts_with("\r\n") {
                    out.last_mut().unwrap().1 = w[2..].to_string();
                }
            }
            P::Multi(_, ps) => {
                let w = self.write("", depth);
                out.push((String::new(), w[w.find("\r\n\r\n").unwrap() + 4..].to_string()));
                for p in ps {
                    p.parts(depth + 1, out);
                }
            }
        }
    }
}
fn leaf(i: usize) -> P {
    let t = |h, e, s: &str| P::Leaf(h, e, s.to_string());
    match i {
        0 => t("", "", "plain é text"),
        1 => t("Content-Type: text/plain; charset=utf-8\r\n", "base64", "six é four"),
        2 => t("Content-Type: text/html; charset=utf-8\r\n", "qp", "<p>html é = <b>bold</b></p>"),
        3 => t("Content-Type: application/x-bin\r\n", "base64", "binary data"),
        4 => t("Content-Type: text/plain; charset=utf-8\r\nContent-Disposition: attachment\r\n", "", "attached"),
        _ => t("Content-Type: text/html\r\n", "", "<i>x</i> &amp; y"),
    }
}
fn trees(thorough: bool) -> Vec<P> {
    let mut v: Vec<P> = (0..6).map(leaf).collect();
    let mut multis = vec![];
    for sub in ["mixed", "alternative", "related"] {
        for a in 0..6 {
            multis.push(P::Multi(sub, vec![leaf(a)]));
            for b in 0..6 {
                multis.push(P::Multi(sub, vec![leaf(a), leaf(b)]));
                if thorough {
                    for c in 0..6 {
                        multis.push(P::Multi(sub, vec![leaf(a), leaf(b), leaf(c)]));
                    }
                }
            }
        }
    }
    v.extend(multis.iter().cloned());
    for sub in ["mixed", "related"] {
        for m in &multis {
            for a in [0, 2, 3] {
                v.push(P::Multi(sub, vec![m.clone(), leaf(a)]));
                v.push(P::Multi(sub, vec![leaf(a), m.clone()]));
            }
        }
    }
    v
}
/// the first part for text and the first for HTML, as mail clients choose them; None when that is a question of taste
fn bodies(p: &P) -> Option<(Option<P>, Option<P>)> {
    let text = |p: &P| matches!(p, P::Leaf(h, ..) if !h.contains("html") && !h.contains("x-bin"));
    let html = |p: &P| matches!(p, P::Leaf(h, ..) if h.contains("html"));
    let inline = |p: &P| matches!(p, P::Leaf(h, ..) if !h.contains("attachment"));
    match p {
        P::Leaf(..) if !inline(p) => None,
        P::Leaf(..) if text(p) || html(p) => Some((Some(p.clone()), Some(p.clone()))),
        P::Leaf(..) => Some((None, None)),
        P::Multi("alternative", ps) if ps.len() == 2 && text(&ps[0]) && html(&ps[1]) && inline(&ps[0]) => Some((Some(ps[0].clone()), Some(ps[1].clone()))),
        P::Multi("mixed", ps) if inline(&ps[0]) && (text(&ps[0]) || html(&ps[0])) => Some((Some(ps[0].clone()), Some(ps[0].clone()))),
        P::Multi("mixed", ps) if matches!(ps[0], P::Multi("alternative", _)) => bodies(&ps[0]),
        _ => None,
    }
}
fn content(p: &Option<P>, want_html: bool, convert: bool) -> String {
    match p {
        Some(P::Leaf(h, _, t)) => match (h.contains("html"), want_html) {
            (true, true) | (false, false) => t.clone(),
            (true, false) if convert => html_to_text(t),
            (false, true) if convert => text_to_html(t),
            _ => String::new(),
        },
        _ => String::new(),
    }
}
fn body_suite(thorough: bool) -> Box<dyn Suite> {
    let c = compiler();
    let rt = runtime();
    let v = trees(thorough);
    let sc = compile(&c, &format!("{RQ}let \"d\" \"body.text\"; fileinto \"a${{d}}\"; fileinto \"${{body.to_text}}\"; fileinto \"${{body.html}}\"; fileinto \"${{body.to_html}}\"; fileinto \"${{part.text}}\"; fileinto \"${{part.raw}}\"; foreverypart {{ fileinto \"${{part.text}}\"; fileinto \"${{part.raw}}\"; fileinto \"${{body.to_text}}\"; }} fileinto \"${{part.text}}\";"));
    list("bodies", &format!("{} messages with one or more parts, text, HTML and other data, encoded and not, attached and inline: body and part variables, also of each part in a loop", v.len()), v, move |p, cx| {
        let msg = p.write("Subject: x\r\n", 0);
        let sc = sc.as_ref().map_err(|e| Fail::new("compile", format!("{e:?}")))?;
        let o = run_with(&rt, sc, msg.as_bytes(), |_| (), yes);
        let f = folders(&o);
        cx.step(f.len() as u64);
        cx.trace();
        cx.state(&msg);
        let mut parts = vec![];
        p.parts(0, &mut parts);
        let mut want: Vec<Option<String>> = vec![];
        match bodies(p) {
            Some((t, h)) => {
                want.push(Some(format!("a{}", content(&t, false, false))));
                want.push(Some(content(&t, false, true)));
                want.push(Some(content(&h, true, false)));
                want.push(Some(content(&h, true, true)));
            }
            None => want.extend([None, None, None, None]),
        }
        want.push(Some(parts[0].0.clone()));
        want.push(Some(parts[0].1.clone()));
        for x in &parts {
            want.push(Some(x.0.clone()));
            want.push(Some(x.1.clone()));
            want.push(want[1].clone());
        }
        want.push(Some(parts[0].0.clone()));
        if want.len() != f.len() {
            return Err(Fail::new("count", format!("{msg}\n{} results instead of {}\n{f:?}", f.len(), want.len())));
        }
        // the line break before a boundary belongs to the boundary
        let trim = |s: &str| s.trim_end_matches(['\r', '\n']).to_string();
        for (i, (w, g)) in want.iter().zip(&f).enumerate() {
            if let Some(w) = w {
                cx.outcome(w);
                if trim(w) != trim(g) {
                    return Err(Fail::new("body", format!("{msg}\nresult {i}: {g:?}\ninstead of {w:?}")));
                }
            }
        }
        Ok(())
    })
}
/// after edits variables read the message as it has become: the same as reading the changed message in another run
fn edited(n: usize) -> Box<dyn Suite> {
    const E: &[&str] = &[
        "addheader \"Subject\" \"new one\";",
        "addheader :last \"Subject\" \"last é\";",
        "addheader \"From\" \"New N <n+x@new.example>, m@new.example\";",
        "addheader :last \"X-Foo\" \"a@b.example\";",
        "addheader \"Received\" \"by b.example with SMTP; Thu, 01 Jan 1970 00:00:09 +0000\";",
        "addheader \"Date\" \"Thu, 01 Jan 1970 00:00:09 +0000\";",
        "addheader \"X-Id\" \"<n@id.example>\";",
        "deleteheader \"Subject\";",
        "deleteheader :index 1 \"To\";",
        "deleteheader :index 1 :last \"Subject\";",
        "deleteheader \"x-foo\";",
        "deleteheader :contains \"Cc\" \"cc\";",
        "replace \"new text\";",
        "replace :subject \"rs\" :from \"r@s.example\" \"more text\";",
        "enclose :subject \"es\" \"enclosing\";",
        "foreverypart { if header :mime :contenttype \"content-type\" \"application/x-bin\" { replace \"for bin\"; break; } }",
        "foreverypart { if header :mime :type \"content-type\" \"multipart\" { replace \"for all\"; break; } }",
    ];
    const M: &[(&[usize], &str)] = &[
        (&[0, 4, 6, 7], "\r\nbody text\r\n"),
        (&[1, 0, 8, 3, 2, 5], "Content-Type: multipart/alternative; boundary=b\r\n\r\n--b\r\nContent-Type: text/plain\r\n\r\nplain\r\n--b\r\nContent-Type: text/html\r\n\r\n<p>html</p>\r\n--b--\r\n"),
        (&[14, 13, 15, 16, 11, 10, 9], "Content-Type: text/html; charset=utf-8\r\n\r\n<b>bold</b>\r\n"),
        (&[12, 0], "\r\nbody text\r\n"),
        (&[0], "Content-Type: multipart/mixed; boundary=b\r\n\r\n--b\r\nContent-Type: application/x-bin\r\nContent-Disposition: attachment\r\n\r\nbin\r\n--b\r\nContent-Type: text/plain\r\n\r\nlater\r\n--b--\r\n"),
    ];
    let c = compiler();
    let rt = runtime();
    const I: &[(&str, i32)] = &[("", -1), ("[*]", 0), ("[1]", 1), ("[2]", 2), ("[-2]", -2)];
    let mut ask = String::new();
    let mut names = vec![];
    for x in queries(I) {
        // the text of generated fields may be folded
        if x.part == "raw" || x.part == "raw_name" {
            continue;
        }
        ask += &format!("let \"d\" \"dump({})\"; fileinto \"D${{d}}\"; ", x.text);
        names.push(x.text);
    }
    for x in ["body.text", "body.to_html", "body.html", "part.text", "header.subject.raw", "header.subject[1].raw", "header.*[*].raw_name"] {
        ask += &format!("fileinto \"${{{x}}}\"; ");
        names.push(x.to_string());
    }
    let reader = compile(&c, &format!("{RQ}{ask}"));
    radix(&format!("edited-{n}"), &format!("{} variables after every sequence of up to {n} out of {} edits (fields added and deleted, text replaced and enclosed) on {} messages; compared to reading the message that has been made", names.len(), E.len(), M.len()), vec![nwords(E.len(), n) as usize, M.len()], move |v, cx| {
        let w = word(E.len(), v[0] as u64);
        let msg = M[v[1]].0.iter().map(|i| format!("{}: {}\r\n", FIELDS[*i].name, FIELDS[*i].raw)).collect::<String>() + M[v[1]].1;
        let ed: String = w.iter().map(|i| E[*i]).collect::<Vec<_>>().join(" ");
        let reader = reader.as_ref().map_err(|e| Fail::new("compile", format!("{e:?}")))?;
        let sc = compile(&c, &format!("{RQ}{ed} {ask} ")).map_err(|e| Fail::new("compile", format!("{e:?}")))?;
        let r = guard(|| {
            let mut ctx = rt.filter(msg.as_bytes());
            ctx.set_user_address("me@x.example");
            let mut o = vec![];
            drive(&mut ctx, Input::script("", sc), &mut o, &mut yes);
            let made = o.iter().find_map(|o| match o {
                Ob::Ev(Event::CreatedMessage { message, .. }) => Some(message.clone()),
                _ => None,
            });
            (o, made)
        });
        let (o, made) = r.map_err(|p| Fail::new("panic", format!("{ed}\n{msg:?}\n{p}")))?;
        let made = made.unwrap_or_else(|| msg.clone().into_bytes());
        let o2 = run_with(&rt, reader, &made, |c| c.set_user_address("me@x.example"), yes);
        cx.step(o.len() as u64);
        cx.trace();
        cx.state(v);
        cx.outcome(&hash_obs(&o2));
        let (f, f2) = (folders(&o), folders(&o2));
        if f.len() != f2.len() || f.len() != names.len() {
            return Err(Fail::new("count", format!("{ed}\n{msg:?}: {} and {} of {} results", f.len(), f2.len(), names.len())));
        }
        for (i, (a, b)) in f.iter().zip(&f2).enumerate() {
            if a.trim_end() != b.trim_end() {
                return Err(Fail::new("edited", format!("{ed}\n{msg:?}\n{}: {a:?}\nbut {b:?} in the message made\n{}", names[i], String::from_utf8_lossy(&made))));
            }
        }
        Ok(())
    })
}

pub fn property(thorough: bool) -> Property {
    const FEW: &[(&str, i32)] = &[("", -1), ("[*]", 0), ("[2]", 2), ("[-2]", -2)];
    let mut suites = vec![wrong(), headers(2, IDX, "headers"), headers(3, FEW, "headers"), body_suite(thorough), edited(if thorough { 3 } else { 2 })];
    if thorough {
        suites.push(headers(3, IDX, "headers-full"));
        suites.push(headers(4, FEW, "headers"));
    }
    let _ = q("");
    Property {
        id: "C29",
        level: "model_checking",
        technique: "exhaustive enumeration of messages over a catalogue of fields with known meaning crossed with every form of header, body and part variable on the real interpreter, against a reference evaluation; after edits against a second run on the message made",
        assumptions: vec!["parts asked of fields they do not fit (an address of a date) and identifiers or attributes with an index beyond the first are left open".into(), "which part is the body is checked where mail programs agree".into()],
        suites,
    }
}
