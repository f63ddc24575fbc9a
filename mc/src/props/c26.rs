use super::core::q;
use super::c07::ALLCAPS;
use crate::eng::*;
use crate::harness::*;
use sieve::{Compiler, Context, Event, Input, Mailbox, MatchAs, Metadata, Runtime, SpamStatus, VirusStatus};

const MSG: &[u8] = b"From: Joe <joe@Example.org>\r\nTo: a@b.example, c@d.example, a@b.example\r\nSubject: Hello\r\nX-Tag: one\r\nX-Tag: two\r\nX-Tag: one\r\nX-Num: 7\r\nX-Empty:\r\nX-Id: <id@x>\r\nX-Event: 42\r\nMessage-ID: <abc@def>\r\nDate: Tue, 01 Apr 2014 09:06:31 +0000\r\n\r\nbody\r\n";

fn req() -> String {
    let mut v: Vec<String> = ALLCAPS.split('"').skip(1).step_by(2).map(q).chain(["comparator-i;octet", "comparator-i;ascii-numeric"].map(q)).collect();
    v.sort();
    v.dedup();
    format!("require [{}]; ", v.join(", "))
}
fn rt() -> Runtime {
    let mut rt = Runtime::new().with_max_redirects(9);
    for c in ALLCAPS.split('"').skip(1).step_by(2) {
        rt = rt.with_capability(c);
    }
    rt
}
fn prep(ctx: &mut Context) {
    ctx.set_envelope(sieve::Envelope::From, "joe@example.org");
    ctx.set_envelope(sieve::Envelope::To, "me@home.example");
    ctx.set_global_variable("v", "val");
    ctx.set_global_variable("m", "mailto:a@b.example");
}
/// strings as a script writes them and what they evaluate to
fn ev(s: &str) -> String {
    s.replace("${global.v}", "val").replace("${global.m}", "mailto:a@b.example").replace("${global.none}", "")
}
fn lists(a: &[&'static str], n: usize) -> Vec<Vec<&'static str>> {
    (0..nwords(a.len(), n)).map(|i| word(a.len(), i).into_iter().map(|i| a[i]).collect::<Vec<_>>()).filter(|v| !v.is_empty()).collect()
}
fn wr(l: &[&str], single: bool) -> String {
    if single && l.len() == 1 {
        q(l[0])
    } else {
        format!("[{}]", l.iter().map(|x| q(x)).collect::<Vec<_>>().join(", "))
    }
}
fn evs(l: &[&str]) -> Vec<String> {
    l.iter().map(|x| ev(x)).collect()
}
/// reads the outcome marker; None when anything unexpected happened
fn verdict(o: &[Ob]) -> Option<(Vec<Event>, bool)> {
    let mut asked = vec![];
    let mut v = None;
    for o in o {
        match o {
            Ob::Ev(Event::FileInto { folder, .. }) if v.is_none() => v = Some(folder == "YES"),
            Ob::Ev(Event::Keep { .. }) => (),
            Ob::Ev(e @ (Event::MailboxExists { .. } | Event::ListContains { .. } | Event::DuplicateId { .. })) if v.is_none() => asked.push(e.clone()),
            _ => return None,
        }
    }
    v.map(|v| (asked, v))
}
#[derive(Clone)]
struct Question {
    test: String,
    /// None: answered without asking, with false
    event: Option<Event>,
}
/// ways to use a test, and whether its value is turned around
const USES: &[(&str, bool)] = &[
    ("if T { fileinto \"YES\"; } else { fileinto \"NO\"; }", false),
    ("if not T { fileinto \"YES\"; } else { fileinto \"NO\"; }", true),
    ("if not not T { fileinto \"YES\"; } else { fileinto \"NO\"; }", false),
    ("if not not not T { fileinto \"YES\"; } else { fileinto \"NO\"; }", true),
    ("if anyof (false, T) { fileinto \"YES\"; } else { fileinto \"NO\"; }", false),
    ("if allof (not false, not T, true) { fileinto \"YES\"; } else { fileinto \"NO\"; }", true),
    ("if not anyof (T, false) { fileinto \"YES\"; } else { fileinto \"NO\"; }", true),
    ("if false { stop; } elsif T { fileinto \"YES\"; } else { fileinto \"NO\"; }", false),
];
fn questions(n: usize) -> Vec<Question> {
    let mut o = vec![];
    let names = ["INBOX", "a/b", "${global.v}", "x${global.v}é", "", "${global.none}"];
    for l in lists(&names, n) {
        for single in [true, false] {
            if single && l.len() > 1 {
                continue;
            }
            let w = wr(&l, single);
            o.push(Question { test: format!("mailboxexists {w}"), event: Some(Event::MailboxExists { mailboxes: evs(&l).into_iter().map(Mailbox::Name).collect(), special_use: vec![] }) });
            o.push(Question { test: format!("mailboxidexists {w}"), event: Some(Event::MailboxExists { mailboxes: evs(&l).into_iter().map(Mailbox::Id).collect(), special_use: vec![] }) });
            for m in [None, Some("INBOX"), Some("${global.v}")] {
                o.push(Question {
                    test: format!("specialuse_exists {}{w}", m.map(|m| q(m) + " ").unwrap_or_default()),
                    event: Some(Event::MailboxExists { mailboxes: m.iter().map(|m| Mailbox::Name(ev(m))).collect(), special_use: evs(&l) }),
                });
            }
        }
    }
    // lists: the distinct values that are not empty, in order
    let keys = ["tag:l", "${global.v}", "addr"];
    for k in lists(&keys, n.min(2)) {
        for (cmp, m) in [("", MatchAs::Lowercase), (":comparator \"i;octet\"", MatchAs::Octet), (":comparator \"i;ascii-casemap\"", MatchAs::Lowercase), (":comparator \"i;ascii-numeric\"", MatchAs::Number)] {
            let src: &[(&str, &[&str])] = &[
                ("header C :list \"Subject\" K", &["Hello"]),
                ("header :list C \"X-Tag\" K", &["one", "two"]),
                ("header :list C [\"x-num\", \"x-none\", \"X-TAG\"] K", &["7", "one", "two"]),
                ("header :list C [\"X-Empty\", \"X-None\"] K", &[]),
                ("header :list C \"X-${global.v}\" K", &[]),
                ("address :list C \"From\" K", &["joe@Example.org"]),
                ("address C :domain :list \"To\" K", &["b.example", "d.example"]),
                ("address :localpart :list C [\"From\", \"To\"] K", &["joe", "a", "c"]),
                ("envelope :list C \"from\" K", &["joe@example.org"]),
                ("envelope :list C :domain [\"from\", \"to\"] K", &["example.org", "home.example"]),
                ("string :list C \"abc\" K", &["abc"]),
                ("string :list C [\"abc\", \"\", \"${global.v}\", \"abc\", \"ABC\"] K", &["abc", "val", "ABC"]),
                ("string :list C [\"\", \"${global.none}\"] K", &[]),
                ("date :originalzone :list C \"Date\" \"year\" K", &["2014"]),
                ("date :originalzone :list C \"X-None\" \"year\" K", &[]),
            ];
            for (t, v) in src {
                o.push(Question {
                    test: t.replacen('C', cmp, 1).replacen('K', &wr(&k, true), 1),
                    event: (!v.is_empty()).then(|| Event::ListContains { lists: evs(&k), values: v.iter().map(|x| x.to_string()).collect(), match_as: m.clone() }),
                });
            }
        }
    }
    // duplicate: every choice and order of arguments
    for h in [None, Some("h"), Some("${global.v}"), Some("")] {
        for (idt, id) in [("", "abc@def"), (":header \"X-Id\"", "id@x"), (":header \"Message-ID\"", "abc@def"), (":header \"X-None\"", ""), (":header \"X-Empty\"", ""), (":uniqueid \"u v\"", "u v"), (":uniqueid \"${global.v}\"", "val"), (":uniqueid \"\"", "")] {
            for (st, s) in [("", 604800u64), (":seconds 0", 0), (":seconds 60", 60), (":seconds 1K", 1024)] {
                for last in [false, true] {
                    let mut a: Vec<String> = vec![];
                    if let Some(h) = h {
                        a.push(format!(":handle {}", q(h)));
                    }
                    a.extend([idt, st].iter().filter(|x| !x.is_empty()).map(|x| x.to_string()));
                    if last {
                        a.push(":last".into());
                    }
                    for p in perms(a.len()) {
                        o.push(Question {
                            test: format!("duplicate {}", p.iter().map(|i| a[*i].clone()).collect::<Vec<_>>().join(" ")),
                            event: (!id.is_empty()).then(|| Event::DuplicateId { id: format!("{}{id}", ev(h.unwrap_or(""))), expiry: s, last }),
                        });
                    }
                }
            }
        }
    }
    o
}
fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut o = vec![];
    for p in perms(n - 1) {
        for i in 0..=p.len() {
            let mut p = p.clone();
            p.insert(i, n - 1);
            o.push(p);
        }
    }
    o
}
/// an id may be built from its handle and value in any way that shows both
fn same(a: &Event, b: &Event) -> bool {
    match (a, b) {
        (Event::DuplicateId { id: x, expiry, last }, Event::DuplicateId { id: y, expiry: e2, last: l2 }) => {
            let mut c = y.chars();
            expiry == e2 && last == l2 && (x == y || x.chars().all(|k| c.by_ref().any(|d| d == k)))
        }
        _ => a == b,
    }
}
fn asking(n: usize) -> Box<dyn Suite> {
    let qs = questions(n);
    let c = Compiler::new();
    let rt = rt().with_env_variable("host", "h.example");
    let rq = req();
    radix(
        &format!("asking-{n}"),
        &format!("{} tests that depend on the host (mailboxes, ids, special uses with lists of up to {n} names; duplicate with every choice and order of its arguments; :list on every test that takes it) x {} uses under not, anyof, allof, elsif x both answers: asked once with exactly the arguments, and the answer is the value", qs.len(), USES.len()),
        vec![qs.len(), USES.len(), 2],
        move |v, cx| {
            let (k, u, yes) = (&qs[v[0]], USES[v[1]], v[2] == 1);
            let body = u.0.replacen('T', &k.test, 1);
            let sc = match compile(&c, &format!("{rq}{body}")) {
                Ok(s) => s,
                Err(o) => return Err(Fail::new(format!("ask:{}", k.test), format!("{body}\n    {}", show(&o)))),
            };
            cx.state(&v);
            cx.trace();
            cx.step(1);
            let got = run_with(&rt, &sc, MSG, prep, |e| match e {
                Event::MailboxExists { .. } | Event::ListContains { .. } | Event::DuplicateId { .. } => Input::from(yes),
                _ => Input::True,
            });
            let ok = verdict(&got).is_some_and(|(asked, t)| {
                let value = match (&k.event, &asked[..]) {
                    (None, []) => false,
                    (Some(e), [a]) if same(e, a) => yes,
                    _ => return false,
                };
                t == (value != u.1)
            });
            cx.outcome(&hash_obs(&got));
            if ok {
                Ok(())
            } else {
                Err(Fail::new(format!("ask:{}", k.test.split(' ').next().unwrap()), format!("{body}\nexpected {:?}, answer {yes}\n    {}", k.event, show_all(&got))))
            }
        },
    )
}
/// questions about different things must differ
fn distinct(_: usize) -> Box<dyn Suite> {
    let a = ["", "a", "b", "ab", "a:", "\u{0}"];
    let pairs: Vec<(&str, &str)> = a.iter().flat_map(|h| a.iter().filter(|x| !x.is_empty()).map(move |i| (*h, *i))).collect();
    let c = Compiler::new();
    let rt = rt();
    let rq = req();
    radix("distinct", "all pairs of duplicate tests with different handles or ids over a few texts: the questions differ", vec![pairs.len(), pairs.len()], move |v, cx| {
        if v[0] <= v[1] {
            return Ok(());
        }
        let ask = |(h, i): (&str, &str)| {
            let got = run_script(&c, &rt, &format!("{rq} if duplicate :handle {} :uniqueid {} {{ }}", q(h), q(i)), MSG, prep, yes);
            match got.first() {
                Some(Ob::Ev(Event::DuplicateId { id, .. })) => Ok(id.clone()),
                _ => Err(show_all(&got)),
            }
        };
        cx.state(&v);
        cx.trace();
        cx.step(2);
        let (x, y) = (ask(pairs[v[0]]), ask(pairs[v[1]]));
        cx.outcome(&x);
        match (&x, &y) {
            (Ok(x), Ok(y)) if x != y => Ok(()),
            (Ok(_), Ok(_)) => {
                let cat = |p: (&str, &str)| format!("{}{}", p.0, p.1);
                let key = if cat(pairs[v[0]]) == cat(pairs[v[1]]) { "duplicate-handle-runs-into-id" } else { "distinct" };
                Err(Fail::new(key, format!("handles and ids {:?} and {:?} are both asked as {x:?}", pairs[v[0]], pairs[v[1]])))
            }
            _ => Err(Fail::new("distinct", format!("{x:?} {y:?}"))),
        }
    })
}

/// the value of any field can be the id
fn fields() -> Box<dyn Suite> {
    let c = Compiler::new();
    let rt = rt();
    let rq = req();
    let items = vec![("X-Id", "id@x"), ("Message-ID", "abc@def"), ("X-Event", "42"), ("X-Num", "7"), ("Subject", "Hello"), ("X-Tag", "one")];
    list("duplicate-header", "duplicate :header with fields that hold a message id and fields that hold plain text", items, move |(h, id), cx| {
        cx.state(h);
        cx.trace();
        cx.step(1);
        let got = run_script(&c, &rt, &format!("{rq} if duplicate :header {} {{ }}", q(h)), MSG, prep, yes);
        cx.outcome(&hash_obs(&got));
        match got.first() {
            Some(Ob::Ev(Event::DuplicateId { id: g, .. })) if g.contains(id) => Ok(()),
            _ => Err(Fail::new(if h.ends_with("-Id") || h.ends_with("-ID") { "duplicate-header" } else { "duplicate-header-needs-a-message-id" }, format!("{h}: {id}\n    {}", show_all(&got)))),
        }
    })
}

// ---------------------------------------------------------------------------------------------
// configured data
// ---------------------------------------------------------------------------------------------
type Entry = (Option<&'static str>, &'static str, &'static str);
fn meta(e: &Entry) -> Metadata<String> {
    match e.0 {
        Some(m) => Metadata::Mailbox { name: m.into(), annotation: e.1.into() },
        None => Metadata::Server { annotation: e.1.into() },
    }
}
fn truth<'r>(c: &Compiler, rt: &'r Runtime, src: &str, prep: impl FnOnce(&mut Context<'r>), cx: &mut Cx) -> Result<bool, String> {
    cx.trace();
    cx.step(1);
    let got = run_script(c, rt, src, MSG, prep, yes);
    match verdict(&got) {
        Some((a, t)) if a.is_empty() => Ok(t),
        _ => Err(format!("{src}\n    {}", show_all(&got))),
    }
}
fn body(t: &str, not: bool) -> String {
    format!("if {}{t} {{ fileinto \"YES\"; }} else {{ fileinto \"NO\"; }}", if not { "not " } else { "" })
}
fn metadata(n: usize) -> Box<dyn Suite> {
    const E: &[Entry] = &[(Some("INBOX"), "/private/x", "yes"), (Some("INBOX"), "/private/y", "No"), (Some("a"), "/private/x", "3"), (None, "/private/x", "yes"), (None, "/srv", ""), (Some(""), "/srv", "e")];
    let worlds: Vec<Vec<usize>> = (0..nwords(E.len() * 2, n)).map(|i| word(E.len() * 2, i)).filter(|w| w.iter().enumerate().all(|(i, x)| !w[..i].contains(x))).collect();
    let mut tests: Vec<(String, Box<dyn Fn(&dyn Fn(Option<&str>, &str) -> Option<String>) -> bool + Send + Sync>)> = vec![];
    let mbs = ["INBOX", "inbox", "a", ""];
    let ans = ["/private/x", "/PRIVATE/X", "/private/y", "/srv", "/none"];
    for m in mbs.iter().map(|m| Some(*m)).chain([None]) {
        let (cmd, ex) = (if m.is_some() { format!("metadata T {}", q(m.unwrap())) } else { "servermetadata T".into() }, if m.is_some() { format!("metadataexists {}", q(m.unwrap())) } else { "servermetadataexists".into() });
        for a in ans {
            for (t, keys, f) in [
                (":is", "[\"zzz\", \"YES\"]", (|v: &str| v.eq_ignore_ascii_case("yes")) as fn(&str) -> bool),
                (":contains", "\"\"", |_| true),
                (":comparator \"i;octet\" :is", "\"no\"", |v| v == "no"),
                (":matches", "[\"?\", \"n*\"]", |v| v.chars().count() == 1 || v.to_lowercase().starts_with('n')),
                (":value \"ge\" :comparator \"i;ascii-numeric\"", "\"3\"", |v| !v.starts_with(|c: char| c.is_ascii_digit()) || v == "3"),
                (":regex", "\"^[ny]\"", |v| v.to_lowercase().starts_with(['n', 'y'])),
                (":count \"eq\"", "\"1\"", |_| true),
                (":count \"ge\"", "\"2\"", |_| false),
            ] {
                // texts that are no numbers and case of regular expressions belong to other checks
                if t.starts_with(":regex") || t.starts_with(":value") {
                    continue;
                }
                tests.push((format!("{} {} {keys}", cmd.replacen('T', t, 1), q(a)), Box::new(move |g| g(m, a).is_some_and(|v| f(&v)))));
            }
        }
        for l in lists(&ans, 2) {
            tests.push((format!("{ex} {}", wr(&l, true)), Box::new(move |g| l.iter().all(|a| g(m, a).is_some()))));
        }
    }
    let c = Compiler::new();
    let rq = req();
    let nt = tests.len();
    radix(
        &format!("metadata-{n}"),
        &format!("every sequence of up to {n} of {} entries in the runtime or the context (which goes first) x {nt} metadata, servermetadata and existence tests, plain and negated", E.len()),
        vec![worlds.len(), nt, 2],
        move |v, cx| {
            let (w, (t, f), not) = (&worlds[v[0]], &tests[v[1]], v[2] == 1);
            let mut rt = rt();
            for i in w.iter().filter(|i| **i < E.len()) {
                rt.set_medatata(meta(&E[*i]), E[*i].2);
            }
            let get = |m: Option<&str>, a: &str| {
                // an entry of the context hides that of the runtime
                [true, false].into_iter().find_map(|ctx| w.iter().filter(|i| (**i >= E.len()) == ctx).map(|i| &E[*i % E.len()]).find(|e| e.0 == m && e.1.eq_ignore_ascii_case(a)).map(|e| if ctx { format!("{}c", e.2) } else { e.2.to_string() }))
            };
            cx.state(&v);
            let src = format!("{rq}{}", body(t, not));
            let got = truth(&c, &rt, &src, |ctx| {
                for i in w.iter().filter(|i| **i >= E.len()) {
                    let e = &E[*i - E.len()];
                    ctx.set_medatata(meta(e), format!("{}c", e.2));
                }
            }, cx);
            let want = f(&get) != not;
            cx.outcome(&want);
            if got == Ok(want) {
                Ok(())
            } else {
                Err(Fail::new("metadata", format!("{}: want {want} got {got:?} in {:?}", body(t, not), w.iter().map(|i| (E[*i % E.len()], if *i < E.len() { "runtime" } else { "context" })).collect::<Vec<_>>())))
            }
        },
    )
}
fn environment() -> Box<dyn Suite> {
    let vals = [None, Some(""), Some("h.example"), Some("H.Other"), Some("7")];
    let names = ["host", "HOST", "Host", "domain", "vnd.x-y", "nothing"];
    let tests: Vec<(&str, &str, fn(&str) -> bool)> = vec![
        (":is", "\"h.example\"", |v| v.eq_ignore_ascii_case("h.example")),
        (":contains", "[\"zz\", \"EXAM\"]", |v| v.to_lowercase().contains("exam")),
        (":contains", "\"\"", |_| true),
        (":comparator \"i;octet\" :is", "\"h.other\"", |v| v == "h.other"),
        (":matches", "\"h.*\"", |v| v.to_lowercase().starts_with("h.")),
        (":regex", "\"^[0-9]+$\"", |v| !v.is_empty() && v.bytes().all(|b| b.is_ascii_digit())),
        (":count \"eq\"", "\"1\"", |_| true),
        (":value \"eq\" :comparator \"i;ascii-numeric\"", "\"07\"", |v| v == "7"),
    ];
    let c = Compiler::new();
    let rq = req();
    radix(
        "environment",
        "environment tests with every match type on items set in the runtime, the context, both or neither, by names in any case, plain and negated, and the same items as variables",
        vec![vals.len(), vals.len(), names.len(), tests.len(), 2],
        move |v, cx| {
            let (r, k, n, (t, key, f), not) = (vals[v[0]], vals[v[1]], names[v[2]], tests[v[3]], v[4] == 1);
            let mut rt = rt();
            let lower = n.to_lowercase();
            if let Some(r) = r {
                if n != "nothing" {
                    rt.set_env_variable(lower.clone(), r);
                }
            }
            let value = if n == "nothing" { None } else { k.or(r) };
            cx.state(&v);
            let src = format!("{rq}{}", body(&format!("environment {t} {} {key}", q(n)), not));
            let prep = |ctx: &mut Context| {
                if let Some(k) = k {
                    if n != "nothing" {
                        ctx.set_env_variable(lower.clone(), k);
                    }
                }
            };
            let got = truth(&c, &rt, &src, prep, cx);
            // an empty item counts as no value
            let want = value.is_some_and(|x| !x.is_empty() && f(x)) != not;
            cx.outcome(&want);
            if got != Ok(want) {
                return Err(Fail::new("environment", format!("{src}\nruntime {r:?} context {k:?}: want {want} got {got:?}")));
            }
            if v[3] == 0 && !n.contains('-') {
                let src = format!("{rq}{}", body(&format!("string :comparator \"i;octet\" :is \"<${{env.{n}}}>\" {}", q(&format!("<{}>", value.unwrap_or("")))), not));
                let got = truth(&c, &rt, &src, prep, cx);
                if got != Ok(!not) {
                    return Err(Fail::new("environment", format!("{src}\nruntime {r:?} context {k:?}: got {got:?}")));
                }
            }
            Ok(())
        },
    )
}
/// the number a score test sees, found by asking for each
fn score(c: &Compiler, rt: &Runtime, rq: &str, test: &str, max: i64, prep: &dyn Fn(&mut Context), cx: &mut Cx) -> Result<i64, String> {
    let mut found = None;
    for k in 0..=max + 1 {
        for (r, f) in [("eq", (|a, b| a == b) as fn(i64, i64) -> bool), ("gt", |a, b| a > b), ("le", |a, b| a <= b)] {
            if r != "eq" && k % 5 > 1 {
                continue;
            }
            let src = format!("{rq}{}", body(&format!("{test} :value {} :comparator \"i;ascii-numeric\" {}", q(r), q(&k.to_string())), false));
            let t = truth(c, rt, &src, |ctx| prep(ctx), cx)?;
            if r == "eq" && t {
                if found.is_some() {
                    return Err(format!("{test} equals {found:?} and {k}"));
                }
                found = Some(k);
            }
            if let Some(v) = found {
                if f(v, k) != t {
                    return Err(format!("{test} is {v} and {r} {k} is {t}"));
                }
            } else if t != f(max + 2, k) {
                return Err(format!("{test} {r} {k} is {t} below its value"));
            }
        }
    }
    let v = found.ok_or(format!("{test} equals no number"))?;
    for (t, key, want) in [(":is", v.to_string(), true), (":is", (v + 1).to_string(), false), (":contains", String::new(), true), (":matches", format!("{v}*"), true), (":regex", format!("^{v}$"), true)] {
        for not in [false, true] {
            let src = format!("{rq}{}", body(&format!("{test} {t} {}", q(&key)), not));
            if truth(c, rt, &src, |ctx| prep(ctx), cx)? == (want == not) {
                return Err(format!("{test} is {v}: {src}"));
            }
        }
    }
    let src = format!("{rq} if {test} :matches \"*\" {{ if string :is \"${{1}}\" \"{v}\" {{ fileinto \"YES\"; }} }} else {{ fileinto \"NO\"; }}");
    if !truth(c, rt, &src, |ctx| prep(ctx), cx)? {
        return Err(format!("{test} is {v}: {src}"));
    }
    Ok(v)
}
fn spam(n: usize) -> Box<dyn Suite> {
    let mut items: Vec<Option<f64>> = (0..=n).map(|i| Some(i as f64 / n as f64)).collect();
    items.extend([Some(-1.0), Some(2.0), Some(1e-9), Some(0.9999999), Some(f64::NAN), Some(f64::INFINITY), None]);
    let c = Compiler::new();
    let rt = rt();
    let rq = req();
    list(
        &format!("spam-{n}"),
        &format!("spamtest and spamtest :percent for no status, ham, spam and every probability in steps of 1/{n} and outside the range: one number on the documented scale, consistent in every match type, growing with the probability; and for every numeric status"),
        items,
        move |p, cx| {
            cx.state(&p.map(|p| p.to_bits()));
            let get = |st: SpamStatus, cx: &mut Cx| -> Result<(i64, i64), String> {
                let prep = |ctx: &mut Context| ctx.set_spam_status(st.clone());
                Ok((score(&c, &rt, &rq, "spamtest", 10, &prep, cx)?, score(&c, &rt, &rq, "spamtest :percent", 100, &prep, cx)?))
            };
            let bad = |e: String| Fail::new("spam", format!("{p:?}: {e}"));
            match p {
                Some(p) => {
                    let (s, pc) = get(SpamStatus::MaybeSpam(*p), cx).map_err(bad)?;
                    cx.outcome(&(s, pc));
                    let x = p.clamp(0.0, 1.0);
                    // near the exact value, and away from the ends that stand for certainty
                    let near = p.is_nan() || ((s as f64 - x * 10.0).abs() <= 1.0 || s == 2 && x < 0.2 || s == 9 && x > 0.9) && (pc as f64 - x * 100.0).abs() <= 1.0;
                    if !(2..=9).contains(&s) || !(1..=100).contains(&pc) || !near {
                        return Err(bad(format!("{s} of 10, {pc} %")));
                    }
                    // not less than for the next smaller probability
                    let (s0, pc0) = get(SpamStatus::MaybeSpam(p - 1.0 / n as f64), cx).map_err(bad)?;
                    if !p.is_nan() && (s0 > s || pc0 > pc) {
                        return Err(bad(format!("{s} of 10, {pc} % but {s0} of 10, {pc0} % for a smaller probability")));
                    }
                    Ok(())
                }
                None => {
                    for (st, want) in [(SpamStatus::Unknown, (0, 0)), (SpamStatus::Ham, (1, 0)), (SpamStatus::Spam, (10, 100))] {
                        let g = get(st, cx).map_err(bad)?;
                        if g != want {
                            return Err(bad(format!("want {want:?} got {g:?}")));
                        }
                    }
                    for k in 0..=12u32 {
                        let g = get(SpamStatus::from(k), cx).map_err(bad)?;
                        let want = if k > 10 { 0 } else { k as i64 };
                        if g.0 != want || k < 11 && k > 1 && g.1 != want * 10 {
                            return Err(bad(format!("status {k}: got {g:?}")));
                        }
                    }
                    Ok(())
                }
            }
        },
    )
}
fn virus() -> Box<dyn Suite> {
    let c = Compiler::new();
    let rt = rt();
    let rq = req();
    list("virus", "virustest for every status and every numeric status", (0..=8u32).collect(), move |k, cx| {
        cx.state(k);
        let prep = |ctx: &mut Context| ctx.set_virus_status(VirusStatus::from(*k));
        let g = score(&c, &rt, &rq, "virustest", 5, &prep, cx);
        cx.outcome(&g);
        let want = if *k > 5 { 0 } else { *k as i64 };
        if g == Ok(want) {
            Ok(())
        } else {
            Err(Fail::new("virus", format!("status {k}: want {want} got {g:?}")))
        }
    })
}
/// :count of a score is 1 when there is one and 0 when there is none
fn scored() -> Box<dyn Suite> {
    let c = Compiler::new();
    let rt = rt();
    let rq = req();
    let mut items = vec![];
    for t in ["spamtest", "spamtest :percent", "virustest"] {
        for known in [false, true] {
            for r in ["gt", "ge", "lt", "le", "eq", "ne"] {
                for k in 0..=2i64 {
                    items.push((t, known, r, k));
                }
            }
        }
    }
    list("scored", "spamtest and virustest :count in every relation to 0, 1 and 2, with and without a status", items, move |(t, known, r, k), cx| {
        cx.state(&(t, known, r, k));
        let src = format!("{rq}{}", body(&format!("{t} :count {} {}", q(r), q(&k.to_string())), false));
        let got = truth(&c, &rt, &src, |ctx| if *known {
            ctx.set_spam_status(SpamStatus::Ham);
            ctx.set_virus_status(VirusStatus::Clean);
        }, cx);
        let n = *known as i64;
        let want = super::c11::holds(super::c11::RELS.iter().position(|x| x == r).unwrap(), n.cmp(k));
        cx.outcome(&want);
        if got == Ok(want) {
            Ok(())
        } else {
            Err(Fail::new(if *known && *k == 1 { "count-of-a-score-is-1.1" } else { "scored" }, format!("{src}\nwith status {known}: want {want} got {got:?}")))
        }
    })
}
fn notify(n: usize) -> Box<dyn Suite> {
    const URIS: &[&str] = &["mailto:a@b.example", "tel:+15551234", "MAILTO:a@b.example", "${global.m}", "xmpp:j@x.example", "", "nonsense", "://x"];
    const CONF: &[&str] = &["mailto", "tel", "xmpp:j@x.example", "xmpp:"];
    let ls = lists(URIS, n);
    let c = Compiler::new();
    let rq = req();
    fn valid(u: &str, conf: &[&str]) -> bool {
        let u = ev(u);
        let Some((s, _)) = u.split_once(':') else { return false };
        !s.is_empty() && (conf.contains(&s.to_ascii_lowercase().as_str()) || conf.contains(&u.as_str()))
    }
    radix(
        &format!("notify-methods-{n}"),
        &format!("valid_notify_method with every list of up to {n} of {URIS:?} and notify_method_capability with each of them, for every subset of the configured {CONF:?}, plain and negated"),
        vec![ls.len(), 1 << CONF.len(), 2],
        move |v, cx| {
            let l = &ls[v[0]];
            let conf: Vec<&str> = (0..CONF.len()).filter(|i| v[1] >> i & 1 == 1).map(|i| CONF[i]).collect();
            let rt = rt().with_valid_notification_uris(conf.iter().map(|c| c.to_string()));
            let not = v[2] == 1;
            // schemes are compared as written in the configuration
            if l.iter().any(|u| u.starts_with("MAILTO")) && conf.contains(&"mailto") {
                return Ok(());
            }
            cx.state(&v);
            let mut ask = vec![(format!("valid_notify_method {}", wr(l, true)), l.iter().all(|u| valid(u, &conf)))];
            if l.len() == 1 {
                let ok = valid(l[0], &conf);
                for (cap, t, k, w) in [
                    ("online", ":is", "\"maybe\"", true),
                    ("ONLINE", ":is", "[\"yes\", \"MAYBE\"]", true),
                    ("online", ":is", "[\"yes\", \"no\"]", false),
                    ("online", ":comparator \"i;octet\" :is", "\"Maybe\"", false),
                    ("online", ":contains", "\"ay\"", true),
                    ("online", ":matches", "\"m?y*\"", true),
                    ("online", ":regex", "\"^may\"", true),
                    ("online", ":value \"gt\"", "\"a\"", true),
                    ("online", ":count \"eq\"", "\"1\"", true),
                    ("offline", ":is", "\"maybe\"", false),
                    ("", ":contains", "\"\"", false),
                ] {
                    ask.push((format!("notify_method_capability {t} {} {} {k}", q(l[0]), q(cap)), w && ok));
                }
            }
            for (t, want) in ask {
                let src = format!("{rq}{}", body(&t, not));
                let got = truth(&c, &rt, &src, prep, cx);
                cx.outcome(&want);
                if got != Ok(want != not) {
                    return Err(Fail::new("notify", format!("{src}\nconfigured {conf:?}: want {} got {got:?}", want != not)));
                }
            }
            Ok(())
        },
    )
}
fn extlists(n: usize) -> Box<dyn Suite> {
    const L: &[&str] = &["tag:a", "tag:b", "${global.v}", "", "TAG:A"];
    const CONF: &[&str] = &["tag:a", "val", ""];
    let ls = lists(L, n);
    let c = Compiler::new();
    let rq = req();
    radix(&format!("lists-{n}"), &format!("valid_ext_list with every list of up to {n} of {L:?} for every subset of the configured {CONF:?}, configured one by one or at once, plain and negated"), vec![ls.len(), 1 << CONF.len(), 2, 2], move |v, cx| {
        let l = &ls[v[0]];
        let conf: Vec<&str> = (0..CONF.len()).filter(|i| v[1] >> i & 1 == 1).map(|i| CONF[i]).collect();
        let mut rt = rt();
        if v[3] == 0 {
            for c in &conf {
                rt.set_valid_ext_list(c.to_string());
            }
        } else {
            rt = rt.with_valid_ext_lists(conf.iter().map(|c| c.to_string()));
        }
        cx.state(&v);
        let want = l.iter().all(|u| conf.contains(&ev(u).as_str())) != (v[2] == 1);
        let src = format!("{rq}{}", body(&format!("valid_ext_list {}", wr(l, true)), v[2] == 1));
        let got = truth(&c, &rt, &src, prep, cx);
        cx.outcome(&want);
        if got == Ok(want) {
            Ok(())
        } else {
            Err(Fail::new("lists", format!("{src}\nconfigured {conf:?}: want {want} got {got:?}")))
        }
    })
}
pub fn property(thorough: bool) -> Property {
    let n = |q: usize, t: usize| if thorough { t } else { q };
    Property {
        id: "C26",
        level: "model_checking",
        technique: "exhaustive enumeration of host-dependent tests, their arguments, uses, host answers and configurations on the real interpreter against reference definitions",
        assumptions: vec![
            "names of environment items are given to the library in lower case".into(),
            "values asked about in lists are the distinct non-empty ones".into(),
            "how the id of a duplicate question is put together is left open, as long as it shows handle and value".into(),
        ],
        suites: vec![asking(n(2, 3)), distinct(2), fields(), metadata(n(2, 3)), environment(), spam(n(100, 1000)), virus(), scored(), notify(n(2, 3)), extlists(n(3, 5))],
    }
}
