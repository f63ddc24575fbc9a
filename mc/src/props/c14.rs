use super::core::q;
use crate::eng::*;
use crate::harness::*;
use mail_parser::decoders::html::{html_to_text, text_to_html};
use sieve::{Compiler, Context, Event, Input, Runtime};
use std::collections::BTreeMap;

const RQ: &str = "require [\"variables\", \"fileinto\", \"copy\", \"editheader\", \"mime\", \"foreverypart\", \"replace\", \"enclose\", \"extracttext\", \"convert\", \"body\", \"include\"]; ";

/// a MIME entity: the model of what a message consists of
#[derive(Clone)]
struct Part {
    /// fields, each with everything up to its line end
    head: Vec<String>,
    body: Body,
}
#[derive(Clone)]
enum Body {
    /// media type, text as written, text once decoded
    Leaf(String, String, String),
    /// boundary, what stands before the first and after the last boundary
    Multi(String, String, Vec<Part>, String),
    Attached(Box<Part>),
    /// given by replace or convert: media type, text
    New(String, String),
    /// given by replace :mime with all of its header
    Entity(String),
    /// made by enclose
    Enclosing(usize, Vec<Part>),
}
use Body::*;
impl Part {
    fn render(&self, o: &mut String) {
        for h in &self.head {
            o.push_str(h);
            o.push_str("\r\n");
        }
        if let Entity(t) = &self.body {
            o.push_str(t);
            return;
        }
        if !matches!(self.body, Enclosing(..)) {
            o.push_str("\r\n");
        }
        match &self.body {
            Leaf(_, t, _) | New(_, t) => o.push_str(t),
            Attached(p) => p.render(o),
            Multi(b, pre, ps, post) => {
                o.push_str(pre);
                for p in ps {
                    o.push_str(&format!("--{b}\r\n"));
                    p.render(o);
                    o.push_str("\r\n");
                }
                o.push_str(&format!("--{b}--\r\n{post}"));
            }
            Enclosing(n, ps) => {
                for p in ps {
                    o.push_str(&format!("\r\n--\u{1}B{n}\u{1}\r\n"));
                    p.render(o);
                }
                o.push_str(&format!("\r\n--\u{1}B{n}\u{1}--\r\n"));
            }
            Entity(_) => unreachable!(),
        }
    }
    fn parts(&self) -> &[Part] {
        match &self.body {
            Multi(_, _, p, _) | Enclosing(_, p) => p,
            _ => &[],
        }
    }
    fn field(&self, name: &str) -> Option<&str> {
        self.head.iter().find_map(|h| h.split_once(':').filter(|(n, _)| n.eq_ignore_ascii_case(name)).map(|(_, v)| v.trim()))
    }
    fn id(&self) -> &str {
        self.field("X-Id").unwrap_or("")
    }
    /// paths of the parts in document order, the entity itself first
    fn paths(&self, at: &mut Vec<usize>, o: &mut Vec<Vec<usize>>) {
        o.push(at.clone());
        for (i, p) in self.parts().iter().enumerate() {
            at.push(i);
            p.paths(at, o);
            at.pop();
        }
    }
    fn get(&mut self, path: &[usize]) -> Option<&mut Part> {
        match path.split_first() {
            None => Some(self),
            Some((i, rest)) => match &mut self.body {
                Multi(_, _, p, _) | Enclosing(_, p) => p.get_mut(*i)?.get(rest),
                _ => None,
            },
        }
    }
    /// texts of the parts with type text, those of attached messages included
    fn texts(&self, o: &mut Vec<String>) {
        match &self.body {
            Leaf(t, _, s) | New(t, s) if t.starts_with("text/") => o.push(s.clone()),
            Attached(p) => p.texts(o),
            _ => self.parts().iter().for_each(|p| p.texts(o)),
        }
    }
    fn text(&self) -> String {
        match &self.body {
            Leaf(t, _, s) | New(t, s) if t == "text/html" => html_to_text(s),
            Leaf(t, _, s) | New(t, s) if t.starts_with("text/") => s.clone(),
            _ => String::new(),
        }
    }
    fn has_entity(&self) -> bool {
        matches!(self.body, Entity(_)) || self.parts().iter().any(|p| p.has_entity()) || matches!(&self.body, Attached(p) if p.has_entity())
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Op {
    Replace,
    ReplaceFrom,
    ReplaceMime,
    Enclose,
    EncloseHeaders,
    Add,
    AddLast,
    Delete,
    ToText,
    ToHtml,
    TextToHtml,
    File,
}
use Op::*;
const OPS: &[Op] = &[Replace, ReplaceFrom, ReplaceMime, Enclose, EncloseHeaders, Add, AddLast, Delete, ToText, ToHtml, TextToHtml, File];
impl Op {
    fn text(self) -> &'static str {
        match self {
            Replace => "replace \"new one\\r\\nand é\\r\\n\";".trim_end(),
            ReplaceFrom => "replace :subject \"Gone\" :from \"f@x.example\" \"new two\";",
            ReplaceMime => "replace :mime text:\r\nContent-Type: text/html\r\n\r\n<i>new three</i>\r\n.\r\n;",
            Enclose => "enclose \"note\";",
            EncloseHeaders => "enclose :subject \"Wrapped\" :headers [\"X-Extra: yes\", \" X-Blank :  a  b: c \", \"bad\", \"X-Empty:\", \"Original-Subject: no\", \"From: g@x.example\"] \"note two\\r\\n\";",
            Add => "addheader \"X-New\" \"n\";",
            AddLast => "addheader :last \"X-Last\" \"l\";",
            Delete => "deleteheader \"X-Extra\";",
            ToText => "convert \"text/html\" \"text/plain\" [\"\"];",
            ToHtml => "convert \"text/plain\" \"text/html\" [\"\"];",
            TextToHtml => "convert \"TEXT\" \"text/html\" [\"\"];",
            File => "fileinto \"k\";",
        }
    }
}
#[derive(Clone, Debug)]
enum Stmt {
    Top(Op),
    /// a loop over the parts that does something at the one with this name, then something else in it
    At(String, Op, Option<Op>),
    /// in a loop within the part with the first name at the one with the second
    Within(String, String, Op),
    /// at a part, then at every part within it
    Below(String, Op, Op),
    All(Op),
}
impl Stmt {
    fn text(&self) -> String {
        let at = |n: &str| format!("if header :is \"X-Id\" \"{n}\"");
        match self {
            Stmt::Top(o) => o.text().to_string(),
            Stmt::At(n, a, b) => format!("foreverypart {{ {} {{ {} {} }} }}", at(n), a.text(), b.map(|b| b.text()).unwrap_or("")),
            Stmt::Within(n, m, o) => format!("foreverypart {{ {} {{ foreverypart {{ {} {{ {} }} }} }} }}", at(n), at(m), o.text()),
            Stmt::Below(n, a, b) => format!("foreverypart {{ {} {{ {} foreverypart {{ {} }} }} }}", at(n), a.text(), b.text()),
            Stmt::All(o) => format!("foreverypart {{ {} }}", o.text()),
        }
    }
}
struct World {
    msg: Part,
    wraps: usize,
    marks: usize,
    changed: bool,
    /// messages as delivered
    filed: Vec<String>,
    /// replaced as a whole; what another replacement of everything keeps is not defined
    whole: bool,
    open: bool,
}
impl World {
    fn render(&self) -> String {
        let mut o = String::new();
        self.msg.render(&mut o);
        o
    }
    /// applies to the part; true when the message has been enclosed
    fn op(&mut self, op: Op, path: &[usize]) -> bool {
        self.marks += 1;
        let k = self.marks;
        let Some(p) = self.msg.get(path) else { return false };
        match op {
            File => {
                let m = self.render();
                self.filed.push(m);
            }
            Add => p.head.insert(0, "X-New: n".into()),
            AddLast => p.head.push("X-Last: l".into()),
            Delete => p.head.retain(|h| !h.starts_with("X-Extra:")),
            Replace | ReplaceFrom | ReplaceMime => {
                let text = match op {
                    Replace => "new one\r\nand é\r\n",
                    ReplaceFrom => "new two",
                    _ => "Content-Type: text/html\r\n\r\n<i>new three</i>\r\n",
                };
                let mut head = vec![];
                if path.is_empty() {
                    if self.whole {
                        self.open = true;
                    }
                    self.whole = true;
                    let is = |h: &str, n: &str| h.split_once(':').is_some_and(|x| x.0.eq_ignore_ascii_case(n));
                    for h in &p.head {
                        if ["From", "Subject"].iter().any(|n| is(h, n)) && op == ReplaceFrom {
                            head.push(format!("Original-{}:{}", if is(h, "From") { "From" } else { "Subject" }, h.split_once(':').unwrap().1));
                        } else if ["To", "Cc", "Bcc", "Received", "Date", "From", "Subject"].iter().any(|n| is(h, n)) {
                            head.push(h.clone());
                        }
                    }
                    head.push(format!("From: {}", if op == ReplaceFrom { "f@x.example" } else { "me@x.example" }));
                    if op == ReplaceFrom {
                        head.push("Subject: Gone".into());
                    }
                    if !p.head.iter().any(|h| is(h, "Date")) {
                        head.push(format!("Date: \u{1}D{k}\u{1}"));
                    }
                    head.push(format!("Message-ID: \u{1}M{k}\u{1}"));
                }
                p.body = if op == ReplaceMime {
                    Entity(text.into())
                } else {
                    head.push("Content-Type: text/plain; charset=utf-8".into());
                    New("text/plain".into(), text.into())
                };
                p.head = head;
            }
            Enclose | EncloseHeaders => {
                self.wraps += 1;
                let n = self.wraps;
                let mut head = vec![format!("Content-Type: multipart/mixed; boundary=\"\u{1}B{n}\u{1}\"")];
                let m = &mut self.msg;
                let subject = m.field("Subject").unwrap_or("").to_string();
                let (text, from) = if op == Enclose {
                    head.push(format!("Subject: {subject}"));
                    ("note", "From: me@x.example")
                } else {
                    head.extend(["Subject: Wrapped".to_string(), "X-Extra: yes".to_string(), "X-Blank: a  b: c".to_string()]);
                    ("note two\r\n", "From: g@x.example")
                };
                head.extend([from.to_string(), format!("Date: \u{1}D{k}\u{1}"), format!("Message-ID: \u{1}M{k}\u{1}")]);
                let inner = Part { head: vec!["Content-Type: message/rfc822".into()], body: Attached(Box::new(m.clone())) };
                *m = Part { head, body: Enclosing(n, vec![Part { head: vec!["Content-Type: text/plain; charset=utf-8".into()], body: New("text/plain".into(), text.into()) }, inner]) };
                self.whole = false;
                return true;
            }
            ToText | ToHtml | TextToHtml => {
                if self.msg.has_entity() {
                    self.open = true;
                }
                fn conv(p: &mut Part, op: Op, root: bool) {
                    let (t, s) = match &p.body {
                        Leaf(t, _, s) | New(t, s) => (t.clone(), s.clone()),
                        Multi(..) | Enclosing(..) => {
                            if let Multi(_, _, ps, _) | Enclosing(_, ps) = &mut p.body {
                                ps.iter_mut().for_each(|p| conv(p, op, false));
                            }
                            return;
                        }
                        _ => return,
                    };
                    let (ct, to, text) = match op {
                        ToText if t == "text/html" => ("text/plain; charset=utf8", "text/plain", html_to_text(&s)),
                        ToHtml if t == "text/plain" => ("text/html; charset=utf8", "text/html", text_to_html(&s)),
                        TextToHtml if t.starts_with("text/") && t != "text/html" => ("text/html; charset=utf8", "text/html", text_to_html(&s)),
                        _ => return,
                    };
                    if root {
                        p.head.retain(|h| !h.to_lowercase().starts_with("content-"));
                    } else {
                        p.head.clear();
                    }
                    p.head.push(format!("Content-Type: {ct}"));
                    p.body = New(to.into(), text);
                }
                conv(&mut self.msg, op, true);
            }
        }
        false
    }
    fn stmt(&mut self, s: &Stmt) {
        let mut loop_over = |w: &mut World, base: Vec<usize>, own: bool, f: &mut dyn FnMut(&mut World, &[usize]) -> bool| -> bool {
            let mut all = vec![];
            let Some(p) = w.msg.get(&base) else { return false };
            p.paths(&mut base.clone(), &mut all);
            for p in all {
                if (own || p != base) && w.msg.get(&p).is_some() && f(w, &p) {
                    return true;
                }
            }
            false
        };
        let is = |w: &mut World, p: &[usize], n: &str| w.msg.get(p).unwrap().id() == n;
        match s {
            Stmt::Top(o) => {
                self.op(*o, &[]);
            }
            Stmt::All(o) => {
                loop_over(self, vec![], true, &mut |w, p| w.op(*o, p));
            }
            Stmt::At(n, a, b) => {
                loop_over(self, vec![], true, &mut |w, p| {
                    if !is(w, p, n) {
                        return false;
                    }
                    if w.op(*a, p) {
                        // what follows in the body of the loop is at the new message
                        b.map(|b| w.op(b, &[]));
                        return true;
                    }
                    b.is_some_and(|b| w.op(b, p))
                });
            }
            Stmt::Within(n, m, o) => {
                loop_over(self, vec![], true, &mut |w, p| is(w, p, n) && { loop_over2(w, p, &mut |w, p| is(w, p, m) && w.op(*o, p)) });
            }
            Stmt::Below(n, a, b) => {
                loop_over(self, vec![], true, &mut |w, p| {
                    if !is(w, p, n) {
                        return false;
                    }
                    if w.op(*a, p) {
                        loop_over2(w, &[], &mut |w, p| w.op(*b, p));
                        return true;
                    }
                    loop_over2(w, p, &mut |w, p| w.op(*b, p))
                });
            }
        }
    }
}
/// a loop over the parts below one
fn loop_over2(w: &mut World, base: &[usize], f: &mut dyn FnMut(&mut World, &[usize]) -> bool) -> bool {
    let mut all = vec![];
    let Some(p) = w.msg.get(base) else { return false };
    p.paths(&mut base.to_vec(), &mut all);
    for p in all.into_iter().skip(1) {
        if w.msg.get(&p).is_some() && f(w, &p) {
            return true;
        }
    }
    false
}
/// compares with the layout, in which what is made up at run time is marked
fn matches(want: &str, got: &str, bound: &mut BTreeMap<String, String>) -> bool {
    let mut g = got;
    for (i, w) in want.split('\u{1}').enumerate() {
        if i % 2 == 0 {
            match g.strip_prefix(w) {
                Some(r) => g = r,
                None => return false,
            }
            continue;
        }
        match bound.get(w) {
            Some(b) => match g.strip_prefix(b.as_str()) {
                Some(r) => g = r,
                None => return false,
            },
            None => {
                let n = g.find(['"', '\r']).unwrap_or(g.len());
                let b = &g[..n];
                let ok = match w.as_bytes()[0] {
                    b'B' => !b.is_empty() && b.len() <= 70 && b.bytes().all(|c| c.is_ascii_alphanumeric() || b"'+_-./=?".contains(&c)) && !got.replacen(b, "", 1).contains(&format!("boundary=\"{b}\"")),
                    b'M' => b.starts_with('<') && b.ends_with('>') && b.contains('@'),
                    _ => b.len() > 20 && b.contains(':'),
                } && !bound.values().any(|v| w.as_bytes()[0] != b'D' && v == b);
                if !ok {
                    return false;
                }
                bound.insert(w.into(), b.into());
                g = &g[n..];
            }
        }
    }
    g.is_empty()
}
fn leaf(id: &str, t: &str, enc: &str, text: &str, plain: &str) -> Part {
    let mut head = vec![format!("Content-Type: {t}; charset=utf-8"), format!("X-Id: {id}"), format!("X-Extra: {id}")];
    if !enc.is_empty() {
        head.push(format!("Content-Transfer-Encoding: {enc}"));
    }
    Part { head, body: Leaf(t.into(), text.into(), plain.into()) }
}
fn bare(text: &str) -> Part {
    Part { head: vec![], body: Leaf("text/plain".into(), text.into(), text.into()) }
}
fn multi(id: &str, parts: Vec<Part>, plain: bool) -> Part {
    Part {
        head: vec![format!("Content-Type: multipart/mixed;\r\n boundary=\"bound-{id}\""), format!("X-Id: {id}")],
        body: Multi(format!("bound-{id}"), if plain { String::new() } else { "before\r\n".into() }, parts, if plain { String::new() } else { "after\r\n".into() }),
    }
}
fn attached(id: &str, inner: Part) -> Part {
    Part { head: vec![format!("X-Id: {id}"), "Content-Type: message/rfc822".into()], body: Attached(Box::new(inner)) }
}
fn top(mut p: Part, date: bool) -> Part {
    let mut head: Vec<String> = ["Received: from a by b; Tue, 1 Apr 2025 10:00:00 +0200", "From: Joe <joe@a.example>", "To: me@x.example,\r\n\tyou@x.example", "Subject: plans", "X-Extra: top"].map(String::from).to_vec();
    if date {
        head.push("Date: Tue, 1 Apr 2025 10:00:00 +0200".into());
    } else {
        head.extend(["Bcc: blind@x.example", "cC: copy@x.example", "Message-ID: <old@x.example>", "received: by c; Tue, 1 Apr 2025 10:00:00 +0200", "Reply-To: r@x.example", "TO: third@x.example", "Resent-To: again@x.example", "Sender: s@x.example", "Comments: none"].map(String::from));
    }
    head.append(&mut p.head);
    p.head = head;
    p
}
fn messages() -> Vec<Part> {
    let t = |i: &str| leaf(i, "text/plain", "", &format!("alpha {i}"), &format!("alpha {i}"));
    let h = |i: &str| leaf(i, "text/html", "", &format!("<p>beta {i}</p>"), &format!("<p>beta {i}</p>"));
    let b = |i: &str| leaf(i, "text/html", "base64", "PGI+Z2FtbWE8L2I+", "<b>gamma</b>");
    let qp = |i: &str| leaf(i, "text/plain", "quoted-printable", "caf=C3=A9 a=\r\nnd", "café and");
    let c = |i: &str| leaf(i, "text/calendar", "", "BEGIN:x", "BEGIN:x");
    let bin = |i: &str| leaf(i, "image/png", "base64", "AAEC", "");
    let inner = |p: Part| Part { head: ["From: in@x.example".to_string(), "Subject: inner".to_string()].into_iter().chain(p.head.into_iter().filter(|h| !h.starts_with("X-"))).collect(), body: p.body };
    vec![
        top(t("r"), true),
        top(h("r"), false),
        top(b("r"), true),
        top(attached("r", inner(h("i"))), false),
        top(multi("r", vec![t("a"), h("b")], false), true),
        top(multi("r", vec![multi("a", vec![t("b"), h("c")], false), qp("d")], false), false),
        top(multi("r", vec![t("a"), multi("b", vec![c("c"), b("d")], true)], true), true),
        top(multi("r", vec![t("a"), attached("b", inner(t("i"))), h("c")], true), true),
        top(multi("r", vec![multi("a", vec![multi("b", vec![h("c")], true), bin("d")], false)], true), true),
        top(multi("r", vec![attached("a", inner(multi("i", vec![t("j"), h("k")], false))), multi("b", vec![t("c")], false), t("d")], false), true),
        top(multi("r", vec![bare("plain text"), multi("b", vec![bare("more"), h("d")], false)], false), true),
    ]
}
fn names(p: &Part) -> (Vec<String>, Vec<(String, String)>) {
    let mut all = vec![];
    p.paths(&mut vec![], &mut all);
    let mut p = p.clone();
    let ids: Vec<(Vec<usize>, String)> = all.into_iter().map(|a| (a.clone(), p.get(&a).unwrap().id().to_string())).filter(|x| !x.1.is_empty()).collect();
    let pairs = ids.iter().flat_map(|a| ids.iter().filter(|b| b.0.len() > a.0.len() && b.0.starts_with(&a.0)).map(|b| (a.1.clone(), b.1.clone()))).collect();
    (ids.into_iter().map(|x| x.1).collect(), pairs)
}
/// level 0: one thing at one place; 1: also pairs of things within a loop
fn stmts(p: &Part, level: usize) -> Vec<Stmt> {
    let (ids, pairs) = names(p);
    let edits: Vec<Op> = OPS.iter().copied().filter(|o| *o != File).collect();
    let mut v: Vec<Stmt> = OPS[..OPS.len() - 1].iter().map(|o| Stmt::Top(*o)).collect();
    for o in &edits {
        v.push(Stmt::All(*o));
        v.extend(ids.iter().map(|i| Stmt::At(i.clone(), *o, None)));
        v.extend(pairs.iter().map(|(a, b)| Stmt::Within(a.clone(), b.clone(), *o)));
    }
    if level > 0 {
        for a in OPS {
            for b in OPS {
                for i in &ids {
                    v.push(Stmt::At(i.clone(), *a, Some(*b)));
                    v.push(Stmt::Below(i.clone(), *a, *b));
                }
            }
        }
    }
    v
}
const PROBE: &str = "foreverypart { if header :matches \"X-Id\" \"*\" { set \"global.i\" \"${1}\"; } else { set \"global.i\" \"-\"; } if header :matches \"X-New\" \"*\" { set \"global.i\" \"${global.i}n\"; } if header :matches \"Content-Type\" \"*/*;*\" { set \"global.i\" \"${global.i} ${1}\"; } extracttext \"global.t\"; set \"global.o\" \"${global.o}(${global.i}|${global.t})\"; } fileinto \"${global.o}\"; if header :matches \"Subject\" \"*\" { fileinto \"s ${1}\"; }";
const WORDS: &[&str] = &["alpha a", "alpha i", "beta b", "beta c", "gamma", "café", "new one", "new two", "note"];
fn check(c: &Compiler, rt: &Runtime, m: &Part, s: &[&Stmt], cx: &mut Cx) -> Res {
    let mut w = World { msg: m.clone(), wraps: 0, marks: 0, changed: false, filed: vec![], whole: false, open: false };
    let mut script = RQ.to_string();
    for s in s {
        script += &s.text();
        script += " fileinto \"k\"; ";
        w.stmt(s);
        w.op(File, &[]);
    }
    if w.open {
        return Ok(());
    }
    let raw = {
        let mut o = String::new();
        m.render(&mut o);
        o
    };
    let _ = w.changed;
    let mut folders: Vec<String> = vec![];
    if !w.msg.has_entity() {
        script += PROBE;
        let mut all = vec![];
        w.msg.paths(&mut vec![], &mut all);
        let mut o = String::new();
        for p in all {
            let p = w.msg.get(&p).unwrap();
            let ct = p.field("Content-Type").filter(|c| c.contains(';')).and_then(|c| c.split_once('/')).map(|c| format!(" {}", c.0)).unwrap_or_default();
            let id = p.field("X-Id").unwrap_or("-").to_string();
            o += &format!("({}{}{}|{})", id, if p.field("X-New").is_some() { "n" } else { "" }, ct, p.text());
        }
        folders.push(o);
        if let Some(s) = w.msg.field("Subject") {
            folders.push(format!("s {s}"));
        }
        let mut texts = vec![];
        w.msg.texts(&mut texts);
        for (i, word) in WORDS.iter().enumerate() {
            script += &format!(" if body :content \"text\" :contains {} {{ fileinto \"w{i}\"; }}", q(word));
            if texts.iter().any(|t| t.contains(word)) {
                folders.push(format!("w{i}"));
            }
        }
    }
    let sc = compile(c, &script).map_err(|e| Fail::new("compile", format!("{script}\n{e:?}")))?;
    let o = run_with(rt, &sc, raw.as_bytes(), |c: &mut Context| c.set_user_address("me@x.example"), |_| Input::True);
    cx.state(&(&raw, &script));
    cx.step(o.len() as u64);
    cx.trace();
    let mut contents: BTreeMap<usize, String> = [(0, raw.clone())].into();
    let mut filed = vec![];
    let mut seen = vec![];
    for x in &o {
        match x {
            Ob::Ev(Event::CreatedMessage { message_id, message }) => {
                contents.insert(*message_id, String::from_utf8_lossy(message).into_owned());
            }
            Ob::Ev(Event::FileInto { folder, message_id, .. }) if folder == "k" => filed.push(contents.get(message_id).cloned().unwrap_or_default()),
            Ob::Ev(Event::FileInto { folder, .. }) => seen.push(folder.clone()),
            x => return Err(Fail::new("event", format!("{raw}\n----\n{script}\n{}", show(x)))),
        }
    }
    let mut bound = BTreeMap::new();
    cx.outcome(&(filed.len(), &seen, w.filed.len()));
    for (i, (want, got)) in w.filed.iter().zip(filed.iter()).enumerate() {
        if !matches(want, got, &mut bound) {
            return Err(Fail::new("content", format!("{raw}\n----\n{script}\ndelivery {i} should be\n{}\n---- and is\n{}", want.replace('\u{1}', "~"), got)));
        }
    }
    if w.filed.len() != filed.len() {
        return Err(Fail::new("deliveries", format!("{raw}\n----\n{script}\n{} deliveries instead of {}", filed.len(), w.filed.len())));
    }
    if seen != folders {
        return Err(Fail::new("tests", format!("{raw}\n----\n{script}\nafterwards tests should see\n{folders:#?} and see\n{seen:#?}")));
    }
    Ok(())
}
fn edits(name: &str, levels: Vec<usize>, pick: Option<Vec<usize>>) -> Box<dyn Suite> {
    let ms: Vec<Part> = messages().into_iter().enumerate().filter(|(i, _)| pick.as_ref().is_none_or(|p| p.contains(i))).map(|x| x.1).collect();
    let st: Vec<Vec<Vec<Stmt>>> = ms.iter().map(|m| levels.iter().map(|l| stmts(m, *l)).collect()).collect();
    let mut r = vec![ms.len()];
    r.extend((0..levels.len()).map(|l| st.iter().map(|s| s[l].len()).max().unwrap()));
    let (c, rt) = (Compiler::new(), Runtime::new().with_max_variable_size(1 << 16));
    radix(name, &format!("{} messages of all shapes x every sequence of {} edits (replace, enclose, convert, addheader, deleteheader) at the message, at every part, in loops within loops{}, with a delivery after each; the bytes of every delivery and what tests see afterwards", ms.len(), levels.len(), if levels.contains(&1) { " and two at a time" } else { "" }), r, move |v, cx| {
        let mut s = vec![];
        for (l, i) in v[1..].iter().enumerate() {
            match st[v[0]][l].get(*i) {
                Some(x) => s.push(x),
                None => return Ok(()),
            }
        }
        check(&c, &rt, &ms[v[0]], &s, cx)
    })
}
pub fn property(thorough: bool) -> Property {
    let all = |quick: &[usize]| if thorough { None } else { Some(quick.to_vec()) };
    let mut suites = vec![edits("single", vec![1], None), edits("pairs", vec![0, 0], None), edits("deep pairs", vec![1, 0], all(&[0, 4, 7])), edits("pairs and deep", vec![0, 1], all(&[3, 5]))];
    if thorough {
        suites.push(edits("triples", vec![0, 0, 0], None));
    }
    Property {
        id: "C14",
        level: "model_checking",
        technique: "exhaustive enumeration of sequences of body and header edits over MIME trees on the real interpreter, checked byte for byte against a model of the tree",
        assumptions: vec!["bodies are converted between text and HTML as the mail-parser library does".into(), "messages with CRLF line ends and closed boundaries".into(), "what a second replacement of a whole message keeps, and what tests see of a part given by replace :mime, is left open".into()],
        suites,
    }
}
