use super::c10::{expect, Cmp, Ty};
use super::core::{compiler, q, runtime, REQ};
use crate::eng::*;
use crate::harness::*;
use sieve::{Compiler, Event, Runtime};

/// one field: name, value as a test sees it, the bytes in the message
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Field {
    pub name: String,
    pub value: String,
    pub raw: String,
}
/// a message: for every MIME part its fields, the text after them (up to the next part's fields), its parent
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Msg {
    pub parts: Vec<(Vec<Field>, String, usize)>,
    /// leading bytes before the first field
    pub eol: &'static str,
}
impl Msg {
    fn bytes(&self) -> String {
        self.parts.iter().map(|(h, t, _)| h.iter().map(|f| f.raw.as_str()).collect::<String>() + t).collect()
    }
    fn desc(&self, p: usize) -> Vec<usize> {
        (0..self.parts.len())
            .filter(|&i| {
                let mut j = i;
                loop {
                    if j == p {
                        return true;
                    }
                    if j == 0 {
                        return false;
                    }
                    j = self.parts[j].2;
                }
            })
            .collect()
    }
}
fn f(name: &str, value: &str, raw: &str) -> Field {
    Field { name: name.into(), value: value.into(), raw: raw.into() }
}
fn fl(list: &[(&str, &str)]) -> Vec<Field> {
    list.iter().map(|(n, v)| f(n, v, &format!("{n}: {v}\r\n"))).collect()
}
pub fn messages() -> Vec<Msg> {
    let one = |h: Vec<Field>, t: &str| Msg { parts: vec![(h, t.into(), 0)], eol: "\r\n" };
    let mut v = vec![
        one(fl(&[("Subject", "s"), ("X", "1"), ("Y", "a"), ("x", "2"), ("X", "1"), ("Original-Subject", "o")]), "\r\nbody\r\n"),
        // odd but legal forms
        one(
            vec![
                f("x", "2", "x:2\r\n"),
                f("X", "1", "X : 1\r\n"),
                f("Y", "a b", "Y: a\r\n b\r\n"),
                f("X", "", "X:\r\n"),
                f("Original-From", "o", "oRiGinal-FROM: o\r\n"),
                f("Subject", "é", "Subject: =?utf-8?q?=C3=A9?=\r\n"),
                f("X", "21", "X:\r\n\t21 \r\n"),
            ],
            "\r\n\r\nX: 1\r\nbody without end",
        ),
        // line feeds only
        one(vec![f("X", "1", "X: 1\n"), f("Y", "2", "Y: 2\n"), f("X", "2", "X: 2\n")], "\nbody\n"),
        // fields only
        one(fl(&[("X", "1"), ("Z", "1")]), "\r\n"),
        // multipart
        Msg {
            parts: vec![
                (fl(&[("X", "1"), ("MIME-Version", "1.0"), ("Content-Type", "multipart/mixed; boundary=b1"), ("X", "2")]), "\r\npreamble\r\n--b1\r\n".into(), 0),
                (fl(&[("Content-Type", "text/plain"), ("X", "1"), ("X-Id", "1")]), "\r\none\r\n--b1\r\n".into(), 0),
                (fl(&[("Content-Type", "multipart/alternative; boundary=b2"), ("X-Id", "2"), ("X", "2")]), "\r\n\r\n--b2\r\n".into(), 0),
                (fl(&[("X-Id", "3"), ("X", "2"), ("x", "1")]), "\r\nthree\r\n--b2\r\n".into(), 2),
                (fl(&[("Content-Type", "text/html"), ("X-Id", "4")]), "\r\n<b>four</b>\r\n--b2--\r\nepilogue2\r\n--b1\r\n".into(), 2),
                (fl(&[("Content-Type", "message/rfc822"), ("X-Id", "5")]), "\r\nX: 1\r\nSubject: inner\r\n\r\ninner body\r\n--b1--\r\nepilogue\r\n".into(), 0),
            ],
            eol: "\r\n",
        },
    ];
    // a single field, and one that is removed last
    v.push(one(fl(&[("X", "1")]), "\r\nb"));
    v
}
#[derive(Clone, Debug)]
enum Op {
    Add { name: &'static str, value: &'static str, last: bool },
    Del { name: &'static str, index: Option<usize>, last: bool, ty: Ty, keys: &'static [&'static str], mime: bool },
    /// an edit inside the loop on the part with this X-Id
    In(usize, Box<Op>),
}
impl Op {
    fn text(&self) -> String {
        match self {
            Op::Add { name, value, last } => format!("addheader {} {} {};", if *last { ":last" } else { "" }, q(name), q(value)),
            Op::Del { name, index, last, ty, keys, mime } => format!(
                "deleteheader {} {} {} {} {} {};",
                if *mime { ":mime :anychild" } else { "" },
                index.map_or(String::new(), |i| format!(":index {i}")),
                if *last { ":last" } else { "" },
                match ty {
                    Ty::Is => "",
                    Ty::Contains => ":contains",
                    Ty::Matches => ":matches",
                },
                q(name),
                match keys.len() {
                    0 => String::new(),
                    1 => q(keys[0]),
                    _ => format!("[{}]", keys.iter().map(|k| q(k)).collect::<Vec<_>>().join(", ")),
                }
            ),
            Op::In(id, op) => format!("foreverypart {{ if header :mime \"X-Id\" \"{id}\" {{ {} }} }}", op.text()),
        }
    }
    fn apply(&self, m: &mut Msg, part: usize) {
        match self {
            Op::Add { name, value, last } => {
                if protected(name) {
                    return;
                }
                let fld = f(name, value, &format!("{name}: {value}\r\n"));
                let h = &mut m.parts[part].0;
                if *last { h.push(fld) } else { h.insert(0, fld) }
            }
            Op::Del { name, index, last, ty, keys, mime } => {
                if protected(name) {
                    return;
                }
                for p in if *mime { m.desc(part) } else { vec![part] } {
                    let h = &mut m.parts[p].0;
                    let all: Vec<usize> = (0..h.len()).filter(|&i| h[i].name.eq_ignore_ascii_case(name)).collect();
                    let sel: Vec<usize> = match index {
                        None => all,
                        Some(i) => {
                            let n = all.len();
                            if *i < 1 || *i > n { vec![] } else { vec![all[if *last { n - i } else { i - 1 }]] }
                        }
                    };
                    for i in sel.into_iter().rev() {
                        if keys.is_empty() || keys.iter().any(|k| expect(*ty, Cmp::Casemap, &h[i].value, k)) {
                            h.remove(i);
                        }
                    }
                }
            }
            Op::In(id, op) => {
                let id = id.to_string();
                if let Some(p) = (0..m.parts.len()).find(|&p| m.parts[p].0.iter().any(|f| f.name == "X-Id" && f.value == id)) {
                    op.apply(m, p);
                }
            }
        }
    }
}
fn protected(name: &str) -> bool {
    ["original-subject", "original-from", "x-prot"].contains(&name.to_ascii_lowercase().as_str())
}
fn ops() -> Vec<Op> {
    let add = |name, value, last| Op::Add { name, value, last };
    let del = |name, index, last, ty, keys| Op::Del { name, index, last, ty, keys, mime: false };
    vec![
        add("X", "1", false),
        add("X", "3", true),
        add("z", "", false),
        add("Subject", "n w", true),
        add("Original-Subject", "p", false),
        add("x-prot", "p", true),
        del("X", None, false, Ty::Is, &[]),
        del("x", Some(1), false, Ty::Is, &[]),
        del("X", Some(2), false, Ty::Is, &[]),
        del("X", Some(1), true, Ty::Is, &[]),
        del("X", Some(2), true, Ty::Is, &["1"]),
        del("X", None, false, Ty::Is, &["1"]),
        del("X", None, false, Ty::Contains, &["zz", "2"]),
        del("X", Some(2), false, Ty::Matches, &["?"]),
        del("Y", None, false, Ty::Matches, &["*"]),
        del("Z", Some(1), true, Ty::Is, &[]),
        del("original-subject", None, false, Ty::Is, &[]),
        del("ORIGINAL-FROM", Some(1), false, Ty::Is, &[]),
        del("Subject", None, false, Ty::Is, &["é"]),
        del("Subject", Some(1), false, Ty::Is, &[]),
        del("none", None, false, Ty::Is, &[]),
        Op::Del { name: "X", index: None, last: false, ty: Ty::Is, keys: &[], mime: true },
        Op::Del { name: "X", index: Some(1), last: true, ty: Ty::Is, keys: &["2"], mime: true },
        Op::In(1, Box::new(add("X", "5", false))),
        Op::In(3, Box::new(add("New", "7", true))),
        Op::In(3, Box::new(del("X", None, false, Ty::Is, &["2"]))),
        Op::In(2, Box::new(Op::Del { name: "x", index: None, last: false, ty: Ty::Is, keys: &["1"], mime: true })),
        Op::In(4, Box::new(del("Content-Type", None, false, Ty::Is, &[]))),
        Op::In(5, Box::new(add("X", "9", true))),
        Op::In(5, Box::new(del("X-Id", None, false, Ty::Is, &[]))),
    ]
}
/// questions about the edited message, with the model's answers
fn questions(m: &Msg, dirty: bool) -> String {
    let mut s = String::new();
    let h = &m.parts[0].0;
    for name in ["X", "y", "Z", "subject", "original-subject"] {
        let vals: Vec<&Field> = h.iter().filter(|f| f.name.eq_ignore_ascii_case(name)).collect();
        let mut tests: Vec<(String, bool)> = vec![(format!("exists {}", q(name)), !vals.is_empty())];
        tests.push((format!("header :count \"eq\" {} \"{}\"", q(name), vals.len()), true));
        for v in ["1", "2", "", "é", "a b"] {
            tests.push((format!("header :is {} {}", q(name), q(v)), vals.iter().any(|f| f.value.to_lowercase() == v)));
        }
        if let (Some(a), Some(b)) = (vals.first(), vals.last()) {
            tests.push((format!("header :comparator \"i;octet\" :index 1 :is {} {}", q(name), q(&a.value)), true));
            tests.push((format!("header :comparator \"i;octet\" :index 1 :last :is {} {}", q(name), q(&b.value)), true));
        }
        for (t, v) in tests {
            s += &format!("if {}{t} {{ redirect \"wrong@x.example\"; }}\n", if v { "not " } else { "" });
        }
    }
    let len = m.bytes().len();
    s += &format!("if anyof(size :over {len}, size :under {len}) {{ redirect \"size@x.example\"; }}\n");
    if len > 0 {
        s += &format!("if not allof(size :over {}, size :under {}) {{ redirect \"size2@x.example\"; }}\n", len - 1, len + 1);
    }
    let _ = dirty;
    s
}
fn run_edits(c: &Compiler, rt: &Runtime, m0: &Msg, ops: &[&Op], cx: &mut Cx) -> Result<(), Fail> {
    let mut m = m0.clone();
    let mut t = String::from(REQ);
    for o in ops {
        t += &o.text();
        t += "\n";
        o.apply(&mut m, 0);
        cx.state(&m);
    }
    t += &questions(&m, true);
    cx.step(ops.len() as u64);
    cx.trace();
    let raw = m0.bytes();
    let got = run_script(c, rt, &t, raw.as_bytes(), |_| (), yes);
    verify(&t, &raw, &m.bytes(), &got, || format!("{}", ops.iter().map(|o| o.text()).collect::<Vec<_>>().join(" ")), cx)
}
fn verify(t: &str, raw: &str, want: &str, got: &[Ob], key: impl Fn() -> String, cx: &mut Cx) -> Result<(), Fail> {
    let bad = |w: String| Err(Fail::new(format!("edit:{}:{}", hash_obs(got), key()), format!("{t}\nmessage {raw:?}\n{w}\n{}", show_all(got))));
    // a message whose bytes did not change may or may not be announced again
    let out = match got {
        [Ob::Ev(Event::CreatedMessage { message, message_id: a }), Ob::Ev(Event::Keep { message_id: b, .. })] if a == b && *a == 1 => String::from_utf8_lossy(message).into_owned(),
        [Ob::Ev(Event::Keep { message_id: 0, .. })] => raw.to_string(),
        _ => return bad("expected a changed message and its keep, or the original's keep".into()),
    };
    cx.outcome(&(got.len(), out.len().cmp(&raw.len())));
    if out != want {
        return bad(format!("expected message {want:?}"));
    }
    Ok(())
}
fn edits(depth: usize) -> Box<dyn Suite> {
    let c = compiler();
    let rt = runtime().with_protected_header("X-Prot");
    let ms = messages();
    let os = ops();
    let (n, nm) = (os.len(), ms.len());
    let mut r = vec![nm];
    r.extend(vec![n; depth]);
    radix(
        &format!("edits-{depth}"),
        &format!("all sequences of {depth} of {n} addheader/deleteheader operations (positions, indexes, value matches, protected names, on the message, its parts and all parts at once) × {nm} messages (folded, empty, encoded, LF-only, multipart with nested message); afterwards tests on every field, size and the produced message"),
        r,
        move |v, cx| run_edits(&c, &rt, &ms[v[0]], &v[1..].iter().map(|&i| &os[i]).collect::<Vec<_>>(), cx),
    )
}
/// every selector on every short field list
fn select(n: usize) -> Box<dyn Suite> {
    let c = compiler();
    let rt = runtime();
    const F: [(&str, &str); 4] = [("X", "a"), ("x", "B"), ("Y", "a"), ("X", "ab")];
    const KEYS: [&[&str]; 6] = [&[], &["a"], &["b"], &["zz", "AB"], &["a*"], &["ab", "a"]];
    radix(
        "selectors",
        &format!("all lists of up to {n} fields × :index none, 0..=4 × :last × :is/:contains/:matches × 6 key lists"),
        vec![nwords(4, n) as usize, 6, 2, 3, KEYS.len()],
        move |v, cx| {
            if v[1] == 0 && v[2] == 1 {
                return Ok(()); // :last needs :index
            }
            let mut h = fl(&word(4, v[0] as u64).into_iter().map(|i| F[i]).collect::<Vec<_>>());
            h.push(f("S", "s", "S: s\r\n"));
            let m = Msg { parts: vec![(h, "\r\nb\r\n".into(), 0)], eol: "\r\n" };
            let op = Op::Del { name: "X", index: if v[1] == 0 { None } else { Some(v[1] - 1) }, last: v[2] == 1, ty: [Ty::Is, Ty::Contains, Ty::Matches][v[3]], keys: KEYS[v[4]], mime: false };
            run_edits(&c, &rt, &m, &[&op], cx)
        },
    )
}
/// what becomes of names and values
fn texts(n: usize) -> Box<dyn Suite> {
    const A: [&str; 8] = ["a", "é", "\r", "\n", " ", ":", "\t", "\u{1F600}"];
    let c = compiler();
    let mut rt = runtime().with_protected_header("X-Prot");
    rt = rt.with_max_header_size(8);
    let t = format!("{REQ}addheader \"X-New\" \"${{global.v}}\"; addheader :last \"X-Last\" \"p ${{global.v}}\"; set \"x\" \"${{header.x-new.raw}}\"; if not string :comparator \"i;octet\" \"${{x}}\" \"${{global.e}}\" {{ fileinto \"raw\"; }} if not header :comparator \"i;octet\" \"X-New\" \"${{global.e}}\" {{ fileinto \"bad\"; }} if not size \"${{global.len}}\" {{ stop; }}");
    let t = t.replace(" if not size \"${global.len}\" { stop; }", "").replace("set \"x\" \"${header.x-new.raw}\"; if not string :comparator \"i;octet\" \"${x}\" \"${global.e}\" { fileinto \"raw\"; } ", "");
    let sc = compile(&c, &t).ok().unwrap();
    list("texts", &format!("all values of up to {n} of {A:?} with a maximum header size of 8 bytes, added first and last"), (0..nwords(8, n)).collect::<Vec<u64>>(), move |&w, cx| {
        let v: String = word(8, w).into_iter().map(|i| A[i]).collect();
        // without line breaks, cut at a character boundary
        let clean = |v: &str| {
            let mut o = String::new();
            for ch in v.chars().filter(|c| *c != '\r' && *c != '\n') {
                if o.len() + ch.len_utf8() > 8 {
                    break;
                }
                o.push(ch);
            }
            o
        };
        let (a, b) = (clean(&v), clean(&format!("p {v}")));
        let raw = "S: s\r\n\r\nbody";
        let want = format!("X-New: {a}\r\nS: s\r\nX-Last: {b}\r\n\r\nbody");
        let got = run_with(
            &rt,
            &sc,
            raw.as_bytes(),
            |ctx| {
                ctx.set_global_variable("v", v.clone());
                ctx.set_global_variable("e", a.clone());
            },
            yes,
        );
        cx.state(&w);
        cx.step(1);
        cx.trace();
        verify(&t, raw, &want, &got, || format!("{v:?}"), cx)
    })
}
/// field names from variables
fn names(n: usize) -> Box<dyn Suite> {
    const A: [&str; 8] = ["X", "-", "_", "1", ":", " ", "\r\n", "é"];
    let c = compiler();
    let rt = runtime().with_protected_header("X-1");
    let t = format!("{REQ}addheader \"${{global.v}}\" \"n\"; deleteheader \"${{global.w}}\";");
    let sc = compile(&c, &t).ok().unwrap();
    list("names", &format!("all field names of up to {n} of {A:?}: valid ones are added unless protected, anything else adds nothing or only a valid field, and deletes nothing"), (0..nwords(8, n)).collect::<Vec<u64>>(), move |&w, cx| {
        let v: String = word(8, w).into_iter().map(|i| A[i]).collect();
        let valid = !v.is_empty() && v.chars().all(|c| c.is_ascii_alphanumeric() || c == '-' || c == '_');
        let prot = |n: &str| n.eq_ignore_ascii_case("x-1") || protected(n) && n.to_ascii_lowercase().starts_with("original");
        let raw = "S: s\r\nX: 1\r\nX-1: 2\r\n\r\nbody";
        // valid name: added and at once deleted elsewhere under another name
        let del = if valid { "X" } else { &v };
        let got = run_with(
            &rt,
            &sc,
            raw.as_bytes(),
            |ctx| {
                ctx.set_global_variable("v", v.clone());
                ctx.set_global_variable("w", del);
            },
            yes,
        );
        cx.state(&w);
        cx.step(1);
        cx.trace();
        if valid {
            let added = if prot(&v) || v == "X" { String::new() } else { format!("{v}: n\r\n") };
            verify(&t, raw, &format!("{added}S: s\r\nX-1: 2\r\n\r\nbody"), &got, || format!("{v:?}"), cx)
        } else {
            // what remains after leaving out what cannot stand in a name may be added
            let rest: String = v.chars().filter(|c| c.is_ascii_alphanumeric() || *c == '-' || *c == '_').collect();
            let out = match &got[..] {
                [Ob::Ev(Event::CreatedMessage { message, .. }), Ob::Ev(Event::Keep { .. })] => String::from_utf8_lossy(message).into_owned(),
                [Ob::Ev(Event::Keep { message_id: 0, .. })] => raw.into(),
                _ => String::new(),
            };
            if out == raw || !rest.is_empty() && !prot(&rest) && out == format!("{rest}: n\r\n{raw}") { Ok(()) } else { Err(Fail::new(format!("name:{v:?}"), format!("{t}\nname {v:?} {}", show_all(&got)))) }
        }
    })
}
/// fields whose value the library interprets are seen by the tests that interpret them
fn seen() -> Box<dyn Suite> {
    let c = compiler();
    let rt = runtime();
    let cases: Vec<(&str, &str, bool)> = vec![
        ("addheader \"From\" \"Joe <a@b.example>\";", "address :is \"from\" \"a@b.example\"", true),
        ("addheader \"From\" \"Joe <a@b.example>\";", "address :domain :is \"from\" \"b.example\"", true),
        ("deleteheader \"From\"; addheader \"From\" \"Joe <a@b.example>\";", "address :is \"from\" \"o@old.example\"", false),
        ("deleteheader \"From\";", "address :contains \"from\" \"\"", false),
        ("deleteheader \"From\";", "exists \"from\"", false),
        ("addheader \"To\" \"x@y.example, z@w.example\";", "address :count \"eq\" \"to\" \"2\"", true),
        ("deleteheader \"Date\"; addheader \"Date\" \"Thu, 10 Apr 2014 11:22:33 +0000\";", "date :zone \"+0000\" \"date\" \"day\" \"10\"", true),
        ("deleteheader \"Date\"; addheader \"Date\" \"Thu, 10 Apr 2014 11:22:33 +0000\";", "date :zone \"+0000\" \"date\" \"hour\" \"11\"", true),
        ("deleteheader \"Date\";", "date \"date\" \"year\" \"2014\"", false),
        ("deleteheader \"Subject\"; addheader \"Subject\" \"new\";", "header :is \"subject\" \"new\"", true),
        ("deleteheader \"Subject\"; addheader \"Subject\" \"new\";", "string :is \"${header.subject}\" \"new\"", true),
        ("addheader :last \"X-Var\" \"new\";", "string :is \"${header.x-var}\" \"new\"", true),
        ("deleteheader \"Subject\";", "string :is \"${header.subject}\" \"\"", true),
        ("addheader \"Content-Type\" \"text/html; charset=utf-8\";", "header :mime :subtype \"content-type\" \"html\"", true),
        ("addheader \"Content-Type\" \"text/html; charset=utf-8\";", "header :mime :param \"charset\" \"content-type\" \"utf-8\"", true),
        ("deleteheader \"From\"; addheader \"From\" \"n@n.example\";", "string :is \"${header.from.addr}\" \"n@n.example\"", true),
        ("addheader \"Received\" \"x\";", "header :count \"eq\" \"received\" \"1\"", true),
    ];
    let raw = "From: o@old.example\r\nDate: Tue, 01 Apr 2014 09:06:31 +0000\r\nSubject: old\r\n\r\nbody\r\n";
    let n = cases.len();
    radix("interpreted", "edits of From, To, Date, Subject and Content-Type followed by the tests and variables that interpret them, directly, in a loop over nothing and after a copy was filed", vec![n, 3, 2], move |v, cx| {
        let (e, t, exp) = cases[v[0]];
        let mid = ["", "fileinto :copy \"x\";", "if true { set \"y\" \"z\"; }"][v[1]];
        let not = v[2] == 1;
        let s = format!("{REQ}{e} {mid} if {} {t} {{ discard; }}", if not { "not" } else { "" });
        let got = run_script(&c, &rt, &s, raw.as_bytes(), |_| (), yes);
        cx.state(&v.to_vec());
        cx.step(1);
        cx.trace();
        let d = got.iter().any(|o| matches!(o, Ob::Ev(Event::Discard)));
        if d == (exp ^ not) { Ok(()) } else { Err(Fail::new(format!("interpreted:{e}:{t}"), format!("{s}\nexpected {exp}\n{}", show_all(&got)))) }
    })
}
pub fn property(thorough: bool) -> Property {
    let t = thorough as usize;
    let mut s = vec![edits(1), edits(2), edits(3), select(4 + t), texts(4 + t), names(4), seen()];
    if thorough {
        s.push(edits(4));
    }
    Property {
        id: "C13",
        level: "model_checking",
        technique: "exhaustive enumeration of sequences of header edits on a set of messages, replayed on the real library against a list model of the message (fields, parts, bytes)",
        assumptions: vec!["field values are short and contain no encoded words other than the one listed; a field name given as a constant is valid".into()],
        suites: s,
    }
}
