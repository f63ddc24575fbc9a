use super::c21;
use crate::eng::*;
use crate::harness::*;
use mail_parser::{MessageParser, HeaderName};
use sieve::{compiler::grammar::Capability, runtime::Variable, Compiler, Context, Envelope, Event, FunctionMap, Input, Metadata, Runtime, Sieve, SpamStatus, VirusStatus};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

// every way to make a setting is an operation on the object under test and on its model
struct Op<T, M> {
    name: String,
    /// operations of one group on the same key leave open which value counts
    once: Option<&'static str>,
    real: Box<dyn Fn(T) -> T + Send + Sync>,
    model: Box<dyn Fn(&mut M) + Send + Sync>,
}
macro_rules! ops {
    ($v:ident, $T:ty, $M:ty) => {
        macro_rules! add {
            ($name:expr, $real:expr, $model:expr) => {
                add!($name, None, $real, $model)
            };
            ($name:expr, $once:expr, $real:expr, $model:expr) => {
                $v.push(Op::<$T, $M> { name: $name.to_string(), once: $once, real: Box::new($real), model: Box::new($model) })
            };
        }
    };
}
type Seen = Vec<(&'static str, String)>;

fn sequences<T: 'static, M: 'static + Default + Clone>(
    name: &str,
    what: &str,
    n: usize,
    ops: fn() -> Vec<Op<T, M>>,
    new: fn() -> T,
    see: Box<dyn Fn(T, &mut Cx) -> Result<Seen, Fail> + Send + Sync>,
    want: fn(&M) -> Seen,
) -> Box<dyn Suite> {
    let ops = ops();
    let k = ops.len();
    let bounds = format!("every sequence of up to {n} of {k} settings of {what}, each made in every way there is to make it: all of {} probes show exactly what the model of the settings says", want(&M::default()).len());
    radix(&format!("{name}-{n}"), &bounds, vec![nwords(k, n) as usize], move |v, cx| {
        let w = word(k, v[0] as u64);
        let mut t = new();
        let mut m = M::default();
        let mut once = vec![];
        for i in &w {
            if let Some(o) = ops[*i].once {
                if once.contains(&o) {
                    return Ok(());
                }
                once.push(o);
            }
            t = (ops[*i].real)(t);
            (ops[*i].model)(&mut m);
            cx.step(1);
        }
        let desc = || w.iter().map(|i| ops[*i].name.clone()).collect::<Vec<_>>().join(", ");
        let got = see(t, cx)?;
        let want = want(&m);
        cx.trace();
        cx.state(&want);
        cx.outcome(&want);
        for (g, w) in got.iter().zip(&want) {
            if g != w {
                return Err(Fail::new(g.0, format!("{}\n{}: expected {:?}, observed {:?}", desc(), w.0, w.1, g.1)));
            }
        }
        if got.len() != want.len() {
            return Err(Fail::new("probes", format!("{got:?}\n{want:?}")));
        }
        Ok(())
    })
}
fn sc(c: &Compiler, t: &str) -> Arc<Sieve> {
    Arc::new(c.compile(t.as_bytes()).unwrap_or_else(|e| panic!("{t}: {e}")))
}
/// what the first fileinto of a run names, else the errors
fn folder(o: &[Ob]) -> String {
    for o in o {
        match o {
            Ob::Ev(Event::FileInto { folder, .. }) => return folder.clone(),
            Ob::Ev(_) => (),
            Ob::Err(e) => return format!("error {}", e.split('(').next().unwrap()),
            o => return show(o),
        }
    }
    "nothing".into()
}

// ---------------------------------------------------------------------------
// Runtime
// ---------------------------------------------------------------------------
#[derive(Clone)]
struct R {
    cpu: usize,
    includes: usize,
    redirects: usize,
    out: usize,
    received: usize,
    var: usize,
    header: usize,
    vac: u64,
    dup: u64,
    caps: BTreeSet<&'static str>,
    protected: BTreeSet<&'static str>,
    env: BTreeMap<&'static str, String>,
    meta: BTreeMap<&'static str, String>,
    uris: BTreeSet<&'static str>,
    lists: BTreeSet<&'static str>,
    orig: bool,
    subject: String,
    prefix: String,
    host: String,
    fnc: String,
}
impl Default for R {
    fn default() -> R {
        R {
            cpu: 5000,
            includes: 3,
            redirects: 1,
            out: 3,
            received: 10,
            var: 4096,
            header: 1024,
            vac: 30 * 86400,
            dup: 7 * 86400,
            caps: ["mailbox"].into(),
            protected: ["Original-Subject", "Original-From"].into(),
            env: [("name", "Stalwart Sieve".to_string())].into(),
            meta: BTreeMap::new(),
            uris: BTreeSet::new(),
            lists: BTreeSet::new(),
            orig: false,
            subject: "Automated reply".into(),
            prefix: "Auto: ".into(),
            host: "localhost".into(),
            fnc: "none".into(),
        }
    }
}
fn fnc(v: &'static str) -> FunctionMap {
    let f: sieve::Function = if v == "one" { |_: &Context, _: Vec<Variable>| Variable::from("one") } else { |_: &Context, _: Vec<Variable>| Variable::from("two") };
    FunctionMap::new().with_function_no_args("f", f)
}
fn rt_ops() -> Vec<Op<Runtime, R>> {
    let mut v = vec![];
    ops!(v, Runtime, R);
    macro_rules! num {
        ($set:ident, $with:ident, $field:ident, $a:expr, $b:expr) => {
            for x in [$a, $b] {
                add!(format!("{}({x})", stringify!($set)), move |mut t: Runtime| { t.$set(x); t }, move |m: &mut R| m.$field = x);
                add!(format!("{}({x})", stringify!($with)), move |t: Runtime| t.$with(x), move |m: &mut R| m.$field = x);
            }
        };
    }
    num!(set_cpu_limit, with_cpu_limit, cpu, 200, 400);
    num!(set_max_nested_includes, with_max_nested_includes, includes, 2, 5);
    num!(set_max_redirects, with_max_redirects, redirects, 0, 2);
    num!(set_max_out_messages, with_max_out_messages, out, 0, 1);
    num!(set_max_received_headers, with_max_received_headers, received, 2, 5);
    num!(set_max_variable_size, with_max_variable_size, var, 4, 20);
    num!(set_max_header_size, with_max_header_size, header, 8, 2000);
    num!(set_default_vacation_expiry, with_default_vacation_expiry, vac, 100, 200);
    num!(set_default_duplicate_expiry, with_default_duplicate_expiry, dup, 300, 400);
    num!(set_vacation_use_orig_rcpt, with_vacation_use_orig_rcpt, orig, true, false);
    macro_rules! text {
        ($set:ident, $with:ident, $field:ident, $a:expr, $b:expr) => {
            for x in [$a, $b] {
                add!(format!("{}({x:?})", stringify!($set)), move |mut t: Runtime| { t.$set(x); t }, move |m: &mut R| m.$field = x.to_string());
                add!(format!("{}({x:?})", stringify!($with)), move |t: Runtime| t.$with(x), move |m: &mut R| m.$field = x.to_string());
            }
        };
    }
    text!(set_vacation_default_subject, with_vacation_default_subject, subject, "Gone", "Away");
    text!(set_vacation_subject_prefix, with_vacation_subject_prefix, prefix, "Re: ", "");
    text!(set_local_hostname, with_local_hostname, host, "mx.example.org", "h");
    for c in ["mailbox", "vnd.stalwart.while", "vnd.example"] {
        add!(format!("set_capability({c})"), move |mut t: Runtime| { t.set_capability(c); t }, move |m: &mut R| { m.caps.insert(c); });
        add!(format!("with_capability({c})"), move |t: Runtime| t.with_capability(c), move |m: &mut R| { m.caps.insert(c); });
        add!(format!("unset_capability({c})"), move |mut t: Runtime| { t.unset_capability(c); t }, move |m: &mut R| { m.caps.remove(c); });
        add!(format!("without_capability({c})"), move |t: Runtime| t.without_capability(c), move |m: &mut R| { m.caps.remove(c); });
    }
    add!("without_capabilities(mailbox, while)", |t: Runtime| t.without_capabilities(["mailbox", "vnd.stalwart.while"]), |m: &mut R| { m.caps.remove("mailbox"); m.caps.remove("vnd.stalwart.while"); });
    add!("without_capabilities(example)", |t: Runtime| t.without_capabilities([Capability::Other("vnd.example".into())]), |m: &mut R| { m.caps.remove("vnd.example"); });
    for h in ["X-P", "X-Q"] {
        add!(format!("set_protected_header({h})"), move |mut t: Runtime| { t.set_protected_header(h); t }, move |m: &mut R| { m.protected.insert(h); });
        add!(format!("with_protected_header({h})"), move |t: Runtime| t.with_protected_header(h), move |m: &mut R| { m.protected.insert(h); });
        add!(format!("with_protected_headers({h}, Original-From)"), move |t: Runtime| t.with_protected_headers([h, "Original-From"]), move |m: &mut R| m.protected = [h, "Original-From"].into());
    }
    for (k, x) in [("name", "n"), ("e", "1"), ("e", "2")] {
        add!(format!("set_env_variable({k}, {x})"), move |mut t: Runtime| { t.set_env_variable(k, x); t }, move |m: &mut R| { m.env.insert(k, x.into()); });
        add!(format!("with_env_variable({k}, {x})"), move |t: Runtime| t.with_env_variable(k, x), move |m: &mut R| { m.env.insert(k, x.into()); });
    }
    for x in ["1", "2"] {
        add!(format!("set_medatata(server, {x})"), Some("server"), move |mut t: Runtime| { t.set_medatata(Metadata::server("/private/s"), x); t }, move |m: &mut R| { m.meta.insert("server", x.into()); });
        add!(format!("with_metadata(server, {x})"), Some("server"), move |t: Runtime| t.with_metadata(Metadata::server("/private/s"), x), move |m: &mut R| { m.meta.insert("server", x.into()); });
        add!(format!("set_medatata(m, {x})"), Some("mailbox"), move |mut t: Runtime| { t.set_medatata(Metadata::mailbox("m", "/private/a"), x); t }, move |m: &mut R| { m.meta.insert("mailbox", x.into()); });
        add!(format!("with_metadata(m, {x})"), Some("mailbox"), move |t: Runtime| t.with_metadata(Metadata::mailbox("m", "/private/a"), x), move |m: &mut R| { m.meta.insert("mailbox", x.into()); });
    }
    for u in ["xmpp", "tel"] {
        add!(format!("set_valid_notification_uri({u})"), move |mut t: Runtime| { t.set_valid_notification_uri(u); t }, move |m: &mut R| { m.uris.insert(u); });
        add!(format!("with_valid_notification_uri({u})"), move |t: Runtime| t.with_valid_notification_uri(u), move |m: &mut R| { m.uris.insert(u); });
        add!(format!("with_valid_notification_uris({u})"), move |t: Runtime| t.with_valid_notification_uris([u]), move |m: &mut R| m.uris = [u].into());
    }
    for l in ["tag:x", "tag:y"] {
        add!(format!("set_valid_ext_list({l})"), move |mut t: Runtime| { t.set_valid_ext_list(l); t }, move |m: &mut R| { m.lists.insert(l); });
        add!(format!("with_valid_ext_list({l})"), move |t: Runtime| t.with_valid_ext_list(l), move |m: &mut R| { m.lists.insert(l); });
        add!(format!("with_valid_ext_lists({l})"), move |t: Runtime| t.with_valid_ext_lists([l]), move |m: &mut R| m.lists = [l].into());
    }
    for f in ["one", "two"] {
        add!(format!("set_functions({f})"), move |mut t: Runtime| { t.set_functions(&mut fnc(f)); t }, move |m: &mut R| m.fnc = f.into());
        add!(format!("with_functions({f})"), move |t: Runtime| t.with_functions(&mut fnc(f)), move |m: &mut R| m.fnc = f.into());
    }
    v
}
fn rt_new() -> Runtime {
    // a function table is needed to run the script that calls one
    Runtime::new().with_capability("vnd.stalwart.expressions").with_functions(&mut FunctionMap::new().with_function_no_args("f", |_: &Context, _: Vec<Variable>| Variable::from("none")))
}
const ENVS: &[&str] = &["name", "e"];
fn rt_want(m: &R) -> Seen {
    let mut s: Seen = vec![];
    let mut put = |k, v: String| s.push((k, v));
    put("cpu_limit", format!("{} {}", 250 < m.cpu, 450 < m.cpu));
    put("max_nested_includes", format!("{} asked, error TooManyIncludes", m.includes - 1));
    let mut n = 0;
    while n < 3 && n < m.redirects && n < m.out && 3 < m.received {
        n += 1;
    }
    put("max_redirects", format!("{n} sent"));
    put("max_out_messages", format!("{} sent", m.out.min(4)));
    let ok = m.out > 0 && 3 <= m.received;
    for (name, rcpt, subject) in [("vacation 1", false, true), ("vacation 2", false, false), ("vacation 3", true, true), ("vacation 4", true, false)] {
        put(
            name,
            if ok && rcpt == m.orig {
                format!("{} {}{} @{}", m.vac, if subject { &m.prefix } else { &m.subject }, if subject { "orig" } else { "" }, m.host)
            } else {
                "nothing".into()
            },
        );
    }
    put("default_duplicate_expiry", m.dup.to_string());
    put("max_variable_size", m.var.min(5000).to_string());
    put("max_header_size", m.header.min(1500).to_string());
    for (n, c) in [("capability mailbox", "mailbox"), ("capability while", "vnd.stalwart.while"), ("capability other", "vnd.example")] {
        put(
            n,
            if m.caps.contains(c) {
                "yes"
            } else if c == "vnd.example" {
                "error CapabilityNotSupported"
            } else {
                "error CapabilityNotAllowed"
            }
            .into(),
        );
    }
    put("protected_headers", HEADERS.iter().filter(|h| !m.protected.contains(**h)).copied().collect::<Vec<_>>().join(" "));
    put("environment", ENVS.iter().map(|e| m.env.get(e).cloned().unwrap_or_default()).collect::<Vec<_>>().join("|"));
    put("metadata", ["server", "mailbox"].map(|k| m.meta.get(k).cloned().unwrap_or("-".into())).join("|"));
    put("valid_notification_uris", ["xmpp", "tel"].map(|u| m.uris.contains(u).to_string()).join(" "));
    put("valid_ext_lists", ["tag:x", "tag:y"].map(|u| m.lists.contains(u).to_string()).join(" "));
    put("functions", m.fnc.clone());
    s
}
const HEADERS: &[&str] = &["X-P", "X-Q", "X-R", "Original-Subject", "Original-From"];
fn rt_see() -> Box<dyn Fn(Runtime, &mut Cx) -> Result<Seen, Fail> + Send + Sync> {
    let mut fm = fnc("one");
    let c = Compiler::new().with_max_header_size(10000).with_max_string_size(10000).with_max_includes(100).register_functions(&mut fm);
    let keeps = |n: usize| "keep;".repeat(n);
    let cpu = [sc(&c, &keeps(250)), sc(&c, &keeps(450))];
    let inc = sc(&c, "require \"include\"; include \"x\";");
    let inc: Vec<_> = std::iter::once(inc).chain((0..6).map(|i| sc(&c, &format!("require \"include\"; include \"x{i}\";")))).collect();
    let redirects = sc(&c, "redirect \"r1@x.example\"; redirect \"r2@x.example\"; redirect \"r3@x.example\";");
    let notify = sc(&c, &format!("require \"enotify\"; {}", "notify \"mailto:a@b.cc\";".repeat(4)));
    let vac = sc(&c, "require \"vacation\"; vacation \"r\";");
    let dup = sc(&c, "require \"duplicate\"; if duplicate { keep; }");
    let var = sc(&c, &format!("require [\"variables\", \"fileinto\"]; set \"a\" \"{}\"; fileinto \"${{a}}\";", "x".repeat(5000)));
    let hdr = sc(&c, &format!("require \"editheader\"; addheader \"X-A\" \"{}\"; keep;", "q".repeat(1500)));
    let caps = [
        sc(&c, "require [\"mailbox\", \"fileinto\"]; fileinto \"yes\";"),
        sc(&c, "require [\"vnd.stalwart.while\", \"fileinto\"]; fileinto \"yes\";"),
        sc(&c, "require [\"vnd.example\", \"fileinto\"]; fileinto \"yes\";"),
    ];
    let prot = sc(&c, &format!("require \"editheader\"; {}keep;", HEADERS.iter().map(|h| format!("addheader \"{h}\" \"1\"; ")).collect::<String>()));
    let env = sc(&c, "require [\"variables\", \"fileinto\", \"environment\"]; fileinto \"${env.name}|${env.e}\";");
    let ask = |t: &str| sc(&c, &format!("require [\"fileinto\", \"enotify\", \"extlists\", \"mboxmetadata\", \"servermetadata\", \"variables\"]; if {t} {{ fileinto \"yes\"; }}"));
    let meta: Vec<Vec<_>> = ["servermetadata \"/private/s\"", "metadata \"m\" \"/private/a\""].iter().map(|t| ["1", "2"].iter().map(|v| ask(&format!("{t} \"{v}\""))).collect()).collect();
    let uris: Vec<_> = ["xmpp:a@b.cc", "tel:+15551234"].iter().map(|u| ask(&format!("valid_notify_method \"{u}\""))).collect();
    let lists: Vec<_> = ["tag:x", "tag:y"].iter().map(|u| ask(&format!("valid_ext_list \"{u}\""))).collect();
    let call = sc(&c, "require [\"variables\", \"fileinto\", \"vnd.stalwart.expressions\"]; let \"a\" \"f()\"; fileinto \"${a}\";");
    let msg = |rcpt: &str, subject: bool| {
        format!("Received: by a.example; Wed, 1 Jan 2020 00:00:00 +0000\r\nReceived: by b.example; Wed, 1 Jan 2020 00:00:00 +0000\r\nReceived: by c.example; Wed, 1 Jan 2020 00:00:00 +0000\r\nFrom: a@b.cc\r\nTo: {rcpt}\r\n{}Message-ID: <1@b.cc>\r\n\r\nb\r\n", if subject { "Subject: orig\r\n" } else { "" })
    };
    let msgs = [msg("me@own.example", true), msg("me@own.example", false), msg("other@own.example", true), msg("other@own.example", false)];
    Box::new(move |rt, cx| {
        let mut s: Seen = vec![];
        let mut events = 0;
        let prep = |ctx: &mut Context| {
            ctx.set_envelope(Envelope::From, "a@b.cc");
            ctx.set_envelope(Envelope::To, "me@own.example");
            ctx.set_envelope(Envelope::Orcpt, "other@own.example");
        };
        let yes = |ev: &Event| Input::from(!matches!(ev, Event::DuplicateId { .. }));
        let mut run = |sc: &Arc<Sieve>, m: &str| {
            let m = m.as_bytes().to_vec();
            let o = run_with(&rt, sc, &m, prep, yes);
            events += o.len() as u64;
            o
        };
        let m = &msgs[0];
        let fine = |o: &[Ob]| o.iter().all(|o| matches!(o, Ob::Ev(_))).to_string();
        let sent = |o: &[Ob]| format!("{} sent", o.iter().filter(|o| matches!(o, Ob::Ev(Event::SendMessage { .. }))).count());
        let made = |o: &[Ob]| -> Option<Vec<u8>> { o.iter().find_map(|o| if let Ob::Ev(Event::CreatedMessage { message, .. }) = o { Some(message.clone()) } else { None }) };
        s.push(("cpu_limit", format!("{} {}", fine(&run(&cpu[0], m)), fine(&run(&cpu[1], m)))));
        let mut asked = 0;
        let o = run_with(&rt, &inc[0], m.as_bytes(), prep, |ev| match ev {
            Event::IncludeScript { name, .. } => {
                asked += 1;
                Input::script(name.clone(), inc[asked.min(6)].clone())
            }
            e => yes(e),
        });
        s.push(("max_nested_includes", format!("{asked} asked, {}", folder(&o))));
        s.push(("max_redirects", sent(&run(&redirects, m))));
        s.push(("max_out_messages", sent(&run(&notify, m))));
        for (i, name) in ["vacation 1", "vacation 2", "vacation 3", "vacation 4"].into_iter().enumerate() {
            let o = run(&vac, &msgs[i]);
            let t = match made(&o) {
                Some(b) => {
                    let p = MessageParser::new().parse(&b).unwrap();
                    let expiry = o.iter().find_map(|o| if let Ob::Ev(Event::DuplicateId { expiry, .. }) = o { Some(*expiry) } else { None });
                    format!("{} {} @{}", expiry.unwrap_or(0), p.subject().unwrap_or(""), p.message_id().unwrap_or("").rsplit('@').next().unwrap())
                }
                None => "nothing".into(),
            };
            s.push((name, t));
        }
        let o = run(&dup, m);
        s.push(("default_duplicate_expiry", o.iter().find_map(|o| if let Ob::Ev(Event::DuplicateId { expiry, .. }) = o { Some(expiry.to_string()) } else { None }).unwrap_or_default()));
        s.push(("max_variable_size", folder(&run(&var, m)).len().to_string()));
        let b = made(&run(&hdr, m)).unwrap_or_default();
        s.push(("max_header_size", b.iter().filter(|b| **b == b'q').count().to_string()));
        for (i, n) in ["capability mailbox", "capability while", "capability other"].into_iter().enumerate() {
            s.push((n, folder(&run(&caps[i], m))));
        }
        let b = made(&run(&prot, m)).unwrap_or_default();
        let p = MessageParser::new().parse(&b).ok_or_else(|| Fail::new("protected_headers", "no message"))?;
        s.push(("protected_headers", HEADERS.iter().filter(|h| p.header(HeaderName::Other((**h).into())).is_some()).copied().collect::<Vec<_>>().join(" ")));
        s.push(("environment", folder(&run(&env, m))));
        let meta: Vec<String> = meta
            .iter()
            .map(|k| {
                let v: Vec<_> = ["1", "2"].iter().zip(k).filter(|(_, s)| folder(&run(s, m)) == "yes").map(|(v, _)| *v).collect();
                if v.is_empty() { "-".into() } else { v.join("+") }
            })
            .collect();
        s.push(("metadata", meta.join("|")));
        let mut each = |l: &[Arc<Sieve>]| l.iter().map(|s| (folder(&run(s, m)) == "yes").to_string()).collect::<Vec<_>>().join(" ");
        s.push(("valid_notification_uris", each(&uris)));
        s.push(("valid_ext_lists", each(&lists)));
        s.push(("functions", folder(&run(&call, m))));
        cx.step(events);
        Ok(s)
    })
}

// ---------------------------------------------------------------------------
// Compiler
// ---------------------------------------------------------------------------
#[derive(Clone)]
struct K {
    script: usize,
    string: usize,
    name: usize,
    blocks: usize,
    tests: usize,
    parts: usize,
    local: usize,
    includes: usize,
    header: usize,
    nocheck: bool,
}
impl Default for K {
    fn default() -> K {
        K { script: 1024 * 1024, string: 4096, name: 32, blocks: 15, tests: 15, parts: 3, local: 128, includes: 6, header: 1024, nocheck: false }
    }
}
fn c_ops() -> Vec<Op<Compiler, K>> {
    let mut v = vec![];
    ops!(v, Compiler, K);
    macro_rules! num {
        ($set:ident, $with:ident, $field:ident, $a:expr, $b:expr) => {
            for x in [$a, $b] {
                add!(format!("{}({x})", stringify!($set)), move |mut t: Compiler| { t.$set(x); t }, move |m: &mut K| m.$field = x);
                add!(format!("{}({x})", stringify!($with)), move |t: Compiler| t.$with(x), move |m: &mut K| m.$field = x);
            }
        };
    }
    num!(set_max_script_size, with_max_script_size, script, 2000, 4000);
    num!(set_max_string_size, with_max_string_size, string, 50, 100);
    num!(set_max_variable_name_size, with_max_variable_name_size, name, 4, 8);
    num!(set_max_nested_blocks, with_max_nested_blocks, blocks, 4, 6);
    num!(set_max_nested_tests, with_max_nested_tests, tests, 2, 4);
    num!(set_max_nested_foreverypart, with_max_nested_foreverypart, parts, 0, 1);
    num!(set_max_local_variables, with_max_local_variables, local, 2, 4);
    num!(set_max_includes, with_max_includes, includes, 1, 3);
    num!(set_max_header_size, with_max_header_size, header, 5, 10);
    num!(set_no_capability_check, with_no_capability_check, nocheck, true, false);
    v
}
/// probes: name, script, whether the settings accept it
fn c_probes() -> Vec<(&'static str, String, fn(&K) -> bool)> {
    let nest = |n: usize, a: &str, b: &str| format!("{}{}", a.repeat(n), b.repeat(n));
    let mut v: Vec<(&'static str, String, fn(&K) -> bool)> = vec![];
    v.push(("script of 3000", " ".repeat(3000), |k| k.script > 3000));
    v.push(("script of 5000", " ".repeat(5000), |k| k.script > 5000));
    v.push(("script of 2 MB", " ".repeat(2_000_000), |_| false));
    v.push(("string of 75", format!("require \"fileinto\"; fileinto \"{}\";", "x".repeat(75)), |k| k.string > 75));
    v.push(("string of 150", format!("require \"fileinto\"; fileinto \"{}\";", "x".repeat(150)), |k| k.string > 150));
    v.push(("name of 6", "require [\"variables\", \"include\"]; global \"abcdef\";".into(), |k| k.name > 6));
    v.push(("name of 12", "require [\"variables\", \"include\"]; global \"abcdefghijkl\";".into(), |k| k.name > 12));
    v.push(("3 blocks", nest(3, "if true {", "}"), |_| true));
    v.push(("5 blocks", nest(5, "if true {", "}"), |k| k.blocks > 5));
    v.push(("9 blocks", nest(9, "if true {", "}"), |k| k.blocks > 9));
    v.push(("20 blocks", nest(20, "if true {", "}"), |_| false));
    v.push(("3 tests", format!("if {} {{ keep; }}", format!("{}true{}", "anyof(".repeat(3), ")".repeat(3))), |k| k.tests >= 3));
    v.push(("6 tests", format!("if {} {{ keep; }}", format!("{}true{}", "allof(".repeat(6), ")".repeat(6))), |k| k.tests >= 6));
    v.push(("20 tests", format!("if {} {{ keep; }}", format!("{}true{}", "allof(".repeat(20), ")".repeat(20))), |_| false));
    v.push(("2 loops", format!("require \"foreverypart\"; {}", nest(2, "foreverypart {", "}")), |k| k.parts >= 1));
    v.push(("3 loops", format!("require \"foreverypart\"; {}", nest(3, "foreverypart {", "}")), |k| k.parts >= 2));
    v.push(("8 loops", format!("require \"foreverypart\"; {}", nest(8, "foreverypart {", "}")), |_| false));
    v.push(("3 variables", format!("require \"variables\"; {}", "abc".chars().map(|c| format!("set \"{c}\" \"1\";")).collect::<String>()), |k| k.local >= 3));
    v.push(("6 variables", format!("require \"variables\"; {}", "abcdef".chars().map(|c| format!("set \"{c}\" \"1\";")).collect::<String>()), |k| k.local >= 6));
    v.push(("2 includes", format!("require \"include\"; {}", "include \"a\";".repeat(2)), |k| k.includes >= 2));
    v.push(("5 includes", format!("require \"include\"; {}", "include \"a\";".repeat(5)), |k| k.includes >= 5));
    v.push(("9 includes", format!("require \"include\"; {}", "include \"a\";".repeat(9)), |_| false));
    v.push(("header of 7", "require \"editheader\"; addheader \"X\" \"abcdefg\";".into(), |k| k.header >= 7));
    v.push(("header of 12", "require \"editheader\"; addheader \"X\" \"abcdefghijkl\";".into(), |k| k.header >= 12));
    v.push(("no require", "fileinto \"x\"; if date \"date\" \"year\" \"2020\" { keep; }".into(), |k| k.nocheck));
    v
}
fn c_want(k: &K) -> Seen {
    c_probes().into_iter().map(|(n, _, f)| (n, f(k).to_string())).collect()
}
fn c_see() -> Box<dyn Fn(Compiler, &mut Cx) -> Result<Seen, Fail> + Send + Sync> {
    let p = c_probes();
    Box::new(move |c, cx| {
        let mut s = vec![];
        for (n, t, _) in &p {
            cx.step(1);
            s.push((
                *n,
                match compile(&c, t) {
                    Ok(_) => "true".into(),
                    Err(Ob::CompileErr(_)) => "false".into(),
                    Err(o) => show(&o),
                },
            ));
        }
        Ok(s)
    })
}

// ---------------------------------------------------------------------------
// Context
// ---------------------------------------------------------------------------
type Cfg = Vec<Box<dyn Fn(Context<'static>) -> Context<'static>>>;
#[derive(Clone, Default)]
struct X {
    env: BTreeMap<&'static str, String>,
    envelope: Vec<(&'static str, &'static str)>,
    global: BTreeMap<&'static str, &'static str>,
    meta: BTreeMap<&'static str, &'static str>,
    addr: &'static str,
    full: &'static str,
    spam: &'static str,
    virus: &'static str,
}
fn x_ops() -> Vec<Op<Cfg, X>> {
    let mut v: Vec<Op<Cfg, X>> = vec![];
    let mut add = |name: String, once: Option<&'static str>, real: fn(Context<'static>, usize) -> Context<'static>, i: usize, model: Box<dyn Fn(&mut X) + Send + Sync>| {
        v.push(Op {
            name,
            once,
            real: Box::new(move |mut t: Cfg| {
                t.push(Box::new(move |c| real(c, i)));
                t
            }),
            model,
        })
    };
    const E: [(&str, &str); 5] = [("from", "a@x.example"), ("from", "<b@x.example>"), ("to", "c@x.example"), ("to", "d@x.example"), ("ret", "full")];
    fn plain(s: &'static str) -> &'static str {
        s.trim_matches(['<', '>'])
    }
    for i in 0..E.len() {
        add(format!("set_envelope{:?}", E[i]), None, |mut c, i| { c.set_envelope(E[i].0, E[i].1); c }, i, Box::new(move |m| m.envelope.push((E[i].0, plain(E[i].1)))));
        add(format!("with_envelope{:?}", E[i]), None, |c, i| c.with_envelope(E[i].0, E[i].1), i, Box::new(move |m| m.envelope.push((E[i].0, plain(E[i].1)))));
    }
    add("set_envelope(Envelope::To)".into(), None, |mut c, _| { c.set_envelope(Envelope::To, "e@x.example"); c }, 0, Box::new(|m| m.envelope.push(("to", "e@x.example"))));
    add("set_envelope(unknown)".into(), None, |mut c, _| { c.set_envelope("unknown", "e@x.example"); c }, 0, Box::new(|_| ()));
    add("clear_envelope".into(), None, |mut c, _| { c.clear_envelope(); c }, 0, Box::new(|m| m.envelope.clear()));
    add(
        "with_envelope_list".into(),
        None,
        |c, _| c.with_envelope_list(vec![(Envelope::To, Variable::from("f@x.example")), (Envelope::From, Variable::from("g@x.example"))]),
        0,
        Box::new(|m| m.envelope = vec![("to", "f@x.example"), ("from", "g@x.example")]),
    );
    const N: [&str; 2] = ["me@own.example", "you@own.example"];
    const F: [&str; 2] = ["Jo", "J \"Q\" B"];
    for i in 0..2 {
        add(format!("set_user_address({})", N[i]), None, |mut c, i| { c.set_user_address(N[i]); c }, i, Box::new(move |m| m.addr = N[i]));
        add(format!("with_user_address({})", N[i]), None, |c, i| c.with_user_address(N[i]), i, Box::new(move |m| m.addr = N[i]));
        add(format!("set_user_full_name({})", F[i]), None, |mut c, i| { c.set_user_full_name(F[i]); c }, i, Box::new(move |m| m.full = F[i]));
        add(format!("with_user_full_name({})", F[i]), None, |c, i| c.with_user_full_name(F[i]), i, Box::new(move |m| m.full = F[i]));
    }
    const V: [(&str, &str); 3] = [("name", "n"), ("e", "1"), ("e", "2")];
    for i in 0..3 {
        add(format!("set_env_variable{:?}", V[i]), None, |mut c, i| { c.set_env_variable(V[i].0, V[i].1); c }, i, Box::new(move |m| { m.env.insert(V[i].0, V[i].1.into()); }));
        add(format!("with_env_variable{:?}", V[i]), None, |c, i| c.with_env_variable(V[i].0, V[i].1), i, Box::new(move |m| { m.env.insert(V[i].0, V[i].1.into()); }));
        add(format!("set_global_variable{:?}", V[i]), None, |mut c, i| { c.set_global_variable(V[i].0, V[i].1); c }, i, Box::new(move |m| { m.global.insert(V[i].0, V[i].1); }));
        add(format!("with_global_variable{:?}", V[i]), None, |c, i| c.with_global_variable(V[i].0, V[i].1), i, Box::new(move |m| { m.global.insert(V[i].0, V[i].1); }));
    }
    add("with_vars_env".into(), None, |c, _| c.with_vars_env([("e".into(), Variable::from("3"))].into_iter().collect()), 0, Box::new(|m| m.env = [("e", "3".to_string())].into()));
    add("with_vars_env()".into(), None, |c, _| c.with_vars_env(Default::default()), 0, Box::new(|m| m.env.clear()));
    const D: [&str; 2] = ["1", "2"];
    for i in 0..2 {
        add(format!("set_medatata(server, {})", D[i]), Some("server"), |mut c, i| { c.set_medatata(Metadata::server("/private/s"), D[i]); c }, i, Box::new(move |m| { m.meta.insert("server", D[i]); }));
        add(format!("with_metadata(server, {})", D[i]), Some("server"), |c, i| c.with_metadata(Metadata::server("/private/s"), D[i]), i, Box::new(move |m| { m.meta.insert("server", D[i]); }));
        add(format!("set_medatata(m, {})", D[i]), Some("mailbox"), |mut c, i| { c.set_medatata(Metadata::mailbox("m", "/private/a"), D[i]); c }, i, Box::new(move |m| { m.meta.insert("mailbox", D[i]); }));
        add(format!("with_metadata(m, {})", D[i]), Some("mailbox"), |c, i| c.with_metadata(Metadata::mailbox("m", "/private/a"), D[i]), i, Box::new(move |m| { m.meta.insert("mailbox", D[i]); }));
    }
    const SP: [(SpamStatus, &str); 2] = [(SpamStatus::Spam, "10"), (SpamStatus::Ham, "1")];
    const VI: [(VirusStatus, &str); 2] = [(VirusStatus::Virus, "5"), (VirusStatus::Clean, "1")];
    for i in 0..2 {
        add(format!("set_spam_status{:?}", SP[i]), None, |mut c, i| { c.set_spam_status(SP[i].0); c }, i, Box::new(move |m| m.spam = SP[i].1));
        add(format!("with_spam_status{:?}", SP[i]), None, |c, i| c.with_spam_status(SP[i].0), i, Box::new(move |m| m.spam = SP[i].1));
        add(format!("set_virus_status{:?}", VI[i]), None, |mut c, i| { c.set_virus_status(VI[i].0); c }, i, Box::new(move |m| m.virus = VI[i].1));
        add(format!("with_virus_status{:?}", VI[i]), None, |c, i| c.with_virus_status(VI[i].0), i, Box::new(move |m| m.virus = VI[i].1));
    }
    v
}
const PEOPLE: &[&str] = &["a@x.example", "b@x.example", "c@x.example", "d@x.example", "e@x.example", "f@x.example", "g@x.example", "full"];
fn x_want(m: &X) -> Seen {
    let mut s: Seen = vec![];
    for e in ["from", "to", "ret"] {
        let l: Vec<_> = PEOPLE.iter().filter(|p| m.envelope.iter().any(|x| x.0 == e && x.1 == **p)).copied().collect();
        s.push((e, format!("{} {}", m.envelope.iter().filter(|x| x.0 == e).count(), l.join(" "))));
    }
    // the runtime has values of its own for the environment
    s.push(("environment", format!("{}|{}", m.env.get("name").cloned().unwrap_or("rt".into()), m.env.get("e").cloned().unwrap_or("rt-e".into()))));
    s.push(("global", ["name", "e"].map(|e| m.global.get(e).copied().unwrap_or("")).join("|")));
    s.push(("globals", m.global.keys().copied().collect::<Vec<_>>().join(" ")));
    s.push(("metadata", ["server", "mailbox"].map(|e| m.meta.get(e).copied().unwrap_or(if e == "server" { "rt" } else { "-" })).join("|")));
    s.push(("user", format!("{}/{}", if m.addr.is_empty() { "-" } else { m.full }, m.addr)));
    s.push(("spam", if m.spam.is_empty() { "0" } else { m.spam }.into()));
    s.push(("virus", if m.virus.is_empty() { "0" } else { m.virus }.into()));
    s
}
fn x_see() -> Box<dyn Fn(Cfg, &mut Cx) -> Result<Seen, Fail> + Send + Sync> {
    let c = Compiler::new().with_no_capability_check(true);
    let rt: &'static Runtime = Box::leak(Box::new(
        Runtime::new().with_env_variable("name", "rt").with_env_variable("e", "rt-e").with_metadata(Metadata::server("/private/s"), "rt").with_capability("spamtestplus"),
    ));
    let req = "require [\"fileinto\", \"variables\", \"envelope\", \"relational\", \"envelope-dsn\", \"environment\", \"spamtest\", \"spamtestplus\", \"virustest\", \"mboxmetadata\", \"servermetadata\", \"enotify\", \"comparator-i;ascii-numeric\"];\n";
    // one script shows everything but the sender of notifications
    let mut t = format!("{req}fileinto \"${{env.name}}|${{env.e}}\"; fileinto \"${{global.name}}|${{global.e}}\";\n");
    for e in ["from", "to", "ret"] {
        for n in 0..6 {
            t.push_str(&format!("if envelope :count \"eq\" \"{e}\" \"{n}\" {{ fileinto \"{e} {n}\"; }}\n"));
        }
        for p in PEOPLE {
            t.push_str(&format!("if envelope \"{e}\" \"{p}\" {{ fileinto \"{e}={p}\"; }}\n"));
        }
    }
    for v in ["1", "2", "rt"] {
        t.push_str(&format!("if servermetadata \"/private/s\" \"{v}\" {{ fileinto \"server={v}\"; }} if metadata \"m\" \"/private/a\" \"{v}\" {{ fileinto \"mailbox={v}\"; }}\n"));
    }
    for n in 0..11 {
        t.push_str(&format!("if spamtest :value \"eq\" :comparator \"i;ascii-numeric\" \"{n}\" {{ fileinto \"spam={n}\"; }} if virustest :value \"eq\" :comparator \"i;ascii-numeric\" \"{n}\" {{ fileinto \"virus={n}\"; }}\n"));
    }
    t.push_str("notify :message \"hi\" \"mailto:n@b.cc\";\n");
    let script = sc(&c, &t);
    Box::new(move |cfg, cx| {
        let mut o = vec![];
        let mut globals = vec![];
        guard(|| {
            let mut ctx = rt.filter(b"From: z@z.example\r\nSubject: s\r\n\r\nb\r\n");
            for f in &cfg {
                ctx = f(ctx);
            }
            drive(&mut ctx, Input::script("", script.clone()), &mut o, &mut |_: &Event| Input::True);
            globals = ctx.global_variable_names().map(|s| s.to_string()).collect();
            globals.sort_by_key(|g| g.to_string());
            for g in &globals {
                if ctx.global_variable(g).is_none() {
                    panic!("global_variable({g}) is missing");
                }
            }
        })
        .map_err(|p| Fail::new("panic", p))?;
        cx.step(o.len() as u64);
        let names: Vec<&str> = o.iter().filter_map(|o| if let Ob::Ev(Event::FileInto { folder, .. }) = o { Some(folder.as_str()) } else { None }).collect();
        let mut s: Seen = vec![];
        let all = |p: &str| names.iter().filter_map(|n| n.strip_prefix(p)).collect::<Vec<_>>();
        for e in ["from", "to", "ret"] {
            s.push((e, format!("{} {}", all(&format!("{e} ")).join("+"), all(&format!("{e}=")).join(" "))));
        }
        s.push(("environment", names.first().unwrap_or(&"").to_string()));
        s.push(("global", names.get(1).unwrap_or(&"").to_string()));
        s.push(("globals", globals.join(" ")));
        s.push(("metadata", ["server=", "mailbox="].map(|e| { let l = all(e); if l.is_empty() { "-".to_string() } else { l.join("+") } }).join("|")));
        let made = o.iter().rev().find_map(|o| if let Ob::Ev(Event::CreatedMessage { message, .. }) = o { Some(message.clone()) } else { None }).unwrap_or_default();
        let p = MessageParser::new().parse(&made).ok_or_else(|| Fail::new("user", "no notification"))?;
        let from = p.from().and_then(|a| a.first());
        s.push(("user", format!("{}/{}", if from.and_then(|f| f.address()).is_none() { "-" } else { from.and_then(|f| f.name()).unwrap_or("") }, from.and_then(|f| f.address()).unwrap_or(""))));
        s.push(("spam", all("spam=").join("+")));
        s.push(("virus", all("virus=").join("+")));
        Ok(s)
    })
}
fn parsed() -> Box<dyn Suite> {
    let c = c21::compiler();
    let rt = c21::runtime();
    let sub = compile(&c, c21::SUB).unwrap_or_else(|e| panic!("{}", show(&e)));
    let msgs: Vec<Vec<u8>> = c21::MSGS.iter().map(|m| m.as_bytes().to_vec()).chain(PARSED.iter().map(|m| m.as_bytes().to_vec())).collect();
    let v = c21::corpus();
    list(
        "parsed",
        &format!("{} scripts (every action and test with texts and variables at each place) on {} messages: the same whether the host hands over the message as text or parsed", v.len(), msgs.len()),
        v,
        move |t, cx| {
            let Ok(sc) = compile(&c, t) else { return Ok(()) };
            for m in &msgs {
                let mut go = |whole: bool| {
                    let mut o = vec![];
                    let mut h = c21::host(0, &sub);
                    let r = guard(|| {
                        let mut ctx = if whole { rt.filter(m) } else { rt.filter_parsed(MessageParser::new().parse(&m[..]).unwrap()) };
                        super::known::prep(&mut ctx);
                        drive(&mut ctx, Input::script("", sc.clone()), &mut o, &mut h);
                    });
                    if let Err(p) = r {
                        o.push(Ob::Panic(p));
                    }
                    scrub_obs(o)
                };
                let (a, b) = (go(true), go(false));
                cx.step(a.len() as u64);
                cx.trace();
                cx.state(&(t, m));
                cx.outcome(&hash_obs(&a));
                if a != b {
                    return Err(Fail::new("parsed", format!("{t}\n{}\nas text: {}\nparsed: {}", String::from_utf8_lossy(m), show_all(&a), show_all(&b))));
                }
            }
            Ok(())
        },
    )
}
const PARSED: &[&str] = &[
    "Subject: s\n\nbody\n",
    "Content-Type: multipart/mixed; boundary=b\r\nSubject: s\r\n\r\npre\r\n--b\r\nContent-Type: text/plain\r\n\r\none\r\n--b\r\nContent-Type: message/rfc822\r\n\r\nSubject: in\r\nX-Part: two\r\n\r\ninner\r\n--b\r\nContent-Type: text/html\r\nContent-Transfer-Encoding: base64\r\n\r\nPGI+aGk8L2I+\r\n--b--\r\nepi\r\n",
];
pub fn property(thorough: bool) -> Property {
    Property {
        id: "C31",
        level: "model_checking",
        technique: "explicit-state exploration: all sequences of settings made on the real compiler, runtime and context, each compared with a model of the settings through probe scripts",
        assumptions: vec!["open: which value counts when the same metadata is given twice; the limit of match variables is not enforced".into()],
        suites: {
            let mut v = vec![
                sequences("compiler", "the compiler", if thorough { 4 } else { 3 }, c_ops, Compiler::new, c_see(), c_want),
                sequences("runtime", "the runtime", 3, rt_ops, rt_new, rt_see(), rt_want),
                sequences("context", "the context of a run", if thorough { 4 } else { 3 }, x_ops, Vec::new, x_see(), x_want),
                parsed(),
            ];
            if thorough {
                v.push(sequences("runtime-set", "the runtime (those that change it in place)", 4, || rt_ops().into_iter().filter(|o| o.name.contains("set_")).collect(), rt_new, rt_see(), rt_want));
            }
            v
        },
    }
}
