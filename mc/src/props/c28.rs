use super::core::{compiler, q, runtime};
use crate::eng::*;
use crate::harness::*;
use sieve::{Context, Envelope, Event, Recipient};
use std::sync::Arc;

const REQS: &str = "require [\"enotify\", \"variables\", \"fcc\", \"copy\", \"fileinto\", \"vacation\", \"editheader\", \"mime\", \"foreverypart\", \"replace\", \"enclose\", \"extlists\", \"body\", \"extracttext\"];\n";

const PLAIN: &str = "From: Joe <joe@x.example>\r\nTo: me@own.example\r\nSubject: orig\r\nMessage-ID: <m@x>\r\n\r\nbody\r\n";
const MULTI: &str = "From: Joe <joe@x.example>\r\nTo: me@own.example\r\nSubject: orig\r\nMIME-Version: 1.0\r\nContent-Type: multipart/mixed; boundary=\"b\"\r\n\r\n--b\r\nContent-Type: text/plain\r\nX-P: 1\r\n\r\none\r\n--b\r\nContent-Type: text/html\r\n\r\n<p>\r\n--b--\r\n";

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    /// the text is (part of) a header value
    Value,
    /// the text is part of a field name or of a whole field
    Name,
    /// the text is a body
    Body,
    /// the text is (part of) a redirect address
    Address,
}
struct Slot {
    script: &'static str,
    msg: &'static str,
    kind: Kind,
}
/// ${global.e} is the text
const SLOTS: &[(&str, &str, Kind)] = &[
    ("addheader \"X-A\" \"v${global.e}w\"; keep;", PLAIN, Kind::Value),
    ("addheader :last \"X-A\" \"${global.e}\"; keep;", PLAIN, Kind::Value),
    ("addheader :last \"X-A\" \"${global.e}\"; fileinto \"x\";", MULTI, Kind::Value),
    ("addheader \"X${global.e}Y\" \"v\"; redirect \"a@b.cc\";", PLAIN, Kind::Name),
    ("addheader \"${global.e}\" \"v\"; keep;", PLAIN, Kind::Name),
    ("addheader \"X-A\" \"${global.e}\"; if header :matches \"x-a\" \"*\" { addheader \"X-B\" \"q${1}\"; } deleteheader \"x-a\"; keep;", PLAIN, Kind::Value),
    ("set \"v\" \"${global.e}\"; set :quotewildcard \"w\" \"${v}\"; addheader \"X-A\" \"${v}\"; keep;", PLAIN, Kind::Value),
    ("foreverypart { if header :mime :contenttype \"content-type\" \"text/plain\" { addheader \"X-A\" \"${global.e}\"; } } keep;", MULTI, Kind::Value),
    ("foreverypart { addheader :last \"X${global.e}\" \"v\"; break; } keep;", MULTI, Kind::Name),
    ("replace :subject \"${global.e}\" \"b\"; keep;", PLAIN, Kind::Value),
    ("replace :from \"${global.e}\" \"b\"; keep;", PLAIN, Kind::Value),
    ("replace :from \"${global.e}\" :subject \"s\" \"b\"; fileinto \"x\";", MULTI, Kind::Value),
    ("replace \"x${global.e}\"; keep;", PLAIN, Kind::Body),
    ("enclose :subject \"${global.e}\" \"b\"; keep;", PLAIN, Kind::Value),
    ("enclose :headers \"X-A: v${global.e}\" \"b\"; keep;", PLAIN, Kind::Value),
    ("enclose :headers [\"X-B: 1\", \"X${global.e}: v\"] \"b\"; keep;", MULTI, Kind::Name),
    ("enclose :headers [\"X-B: 1\", \"X${global.e}\"] \"b\"; keep;", PLAIN, Kind::Name),
    ("enclose :subject \"s\" \"x${global.e}\"; redirect \"a@b.cc\";", PLAIN, Kind::Body),
    ("vacation :subject \"${global.e}\" \"gone\";", PLAIN, Kind::Value),
    ("vacation :subject \"s\" :from \"me@own.example${global.e}\" \"gone\";", PLAIN, Kind::Value),
    ("vacation :subject \"s\" \"x${global.e}\";", PLAIN, Kind::Body),
    ("vacation :subject \"s\" :handle \"${global.e}\" :fcc \"f\" \"gone\";", PLAIN, Kind::Body),
    ("notify :message \"${global.e}\" \"mailto:a@b.cc?body=b\";", PLAIN, Kind::Value),
    ("notify :from \"me@own.example${global.e}\" \"mailto:a@b.cc?body=b\";", PLAIN, Kind::Value),
    ("notify :from \"${global.e}me@own.example\" :fcc \"f\" \"mailto:a@b.cc?body=b\";", PLAIN, Kind::Value),
    ("notify :importance \"${global.e}\" \"mailto:a@b.cc?body=b\";", PLAIN, Kind::Body),
    ("notify :options \"${global.e}\" \"mailto:a@b.cc?body=b\";", PLAIN, Kind::Body),
    ("notify :message \"x${global.e}\" \"mailto:a@b.cc?subject=s\";", PLAIN, Kind::Body),
    ("redirect \"${global.e}\";", PLAIN, Kind::Address),
    ("redirect \"a@b.cc${global.e}\";", PLAIN, Kind::Address),
    ("redirect \"${global.e}a@b.cc\";", PLAIN, Kind::Address),
    ("redirect \"\\\"${global.e}\\\" <a@b.cc>\";", PLAIN, Kind::Address),
    ("redirect \"\\\"${global.e}\\\"@b.cc\";", PLAIN, Kind::Address),
    ("redirect \"<a@b.cc>${global.e}\";", PLAIN, Kind::Address),
    ("redirect \"<a@b.cc${global.e}>\";", PLAIN, Kind::Address),
    ("redirect :list \"tag:${global.e}\";", PLAIN, Kind::Address),
];
fn run(rt: &sieve::Runtime, sc: &Arc<sieve::Sieve>, msg: &str, e: &str) -> Vec<Ob> {
    let e = e.to_string();
    let o = run_with(
        rt,
        sc,
        msg.as_bytes(),
        move |ctx: &mut Context| {
            ctx.set_user_address("me@own.example");
            ctx.set_envelope(Envelope::From, "joe@x.example");
            ctx.set_global_variable("e", e);
        },
        |ev| sieve::Input::from(!matches!(ev, Event::DuplicateId { .. })),
    );
    scrub_obs(o)
}
fn solid(t: &str) -> String {
    t.chars().filter(|c| !c.is_whitespace() && !c.is_control()).collect()
}
fn unfold(m: &[u8]) -> Vec<String> {
    let m = String::from_utf8_lossy(m).replace("\r\n ", " ").replace("\r\n\t", " ");
    // a boundary varies from run to run
    m.split("\r\n").map(|l| l.split("boundary=").next().unwrap().to_string()).map(|l| if l.starts_with("--") && l.len() > 8 { "--boundary".into() } else { l }).collect()
}
/// header lines of a message (up to the first empty line), and the rest
fn split(m: &[u8]) -> (Vec<String>, Vec<String>) {
    let l = unfold(m);
    let p = l.iter().position(|x| x.is_empty()).unwrap_or(l.len());
    (l[..p].to_vec(), l[p..].to_vec())
}
/// everything but the messages and recipients
fn skeleton(o: &[Ob]) -> Vec<String> {
    o.iter()
        .map(|x| match x {
            Ob::Ev(Event::CreatedMessage { message_id, .. }) => format!("new {message_id}"),
            Ob::Ev(Event::DuplicateId { .. }) => "ask".into(),
            x => show(x),
        })
        .collect()
}
const MARK: &str = "QBENIGNQ";
fn judge(kind: Kind, e: &str, base: &[Ob], got: &[Ob]) -> Result<(), String> {
    if kind == Kind::Address {
        for o in got {
            match o {
                Ob::Ev(Event::Keep { .. } | Event::Discard) => (),
                Ob::Ev(Event::SendMessage { recipient: Recipient::Address(a), .. }) => {
                    // one address, nothing that could start another one
                    let tail = a.rsplit('@').next().unwrap();
                    if a.chars().any(|c| c.is_control()) || a.contains([',', ';', '<', '>']) && !e.contains('"') || tail.contains([' ', ',']) || !a.contains('@') {
                        return Err(format!("recipient {a:?}"));
                    }
                }
                Ob::Ev(Event::SendMessage { recipient: Recipient::List(a), .. }) if !a.chars().any(|c| c.is_control()) && a.starts_with("tag:") => (),
                o => return Err(format!("unexpected {}", show(o))),
            }
        }
        return Ok(());
    }
    let msgs = |o: &[Ob]| -> Vec<Vec<u8>> {
        o.iter()
            .filter_map(|x| match x {
                Ob::Ev(Event::CreatedMessage { message, .. }) => Some(message.clone()),
                _ => None,
            })
            .collect()
    };
    let (b, g) = (msgs(base), msgs(got));
    if skeleton(base) != skeleton(got) {
        // nothing was added at all, so there is no new message
        let nothing: Vec<String> = skeleton(base).into_iter().filter(|x| !x.starts_with("new")).map(|x| x.replace("message_id: 1", "message_id: 0")).collect();
        if g.is_empty() && b.len() == 1 && skeleton(got) == nothing {
            return Ok(());
        }
        return Err("other events or recipients than with harmless text".into());
    }
    for (b, g) in b.iter().zip(&g) {
        if kind == Kind::Body {
            let (bh, _) = split(b);
            let (gh, _) = split(g);
            if bh != gh {
                return Err(format!("a body changed the header: {gh:?}"));
            }
            continue;
        }
        let (b, g) = (unfold(b), unfold(g));
        let p = b.iter().position(|l| l.contains(MARK)).ok_or("no mark")?;
        let mut with = b.clone();
        with.remove(p);
        if g == with {
            // an empty value or unusable name: the field is not there
            if kind == Kind::Name || solid(e).is_empty() {
                continue;
            }
            return Err("the field is missing".into());
        }
        if g.len() != b.len() || (0..b.len()).any(|i| i != p && b[i] != g[i]) {
            return Err(format!("line {p} is not the only one that differs:\n{g:#?}"));
        }
        let (n, v) = g[p].split_once(':').ok_or(format!("not a field: {:?}", g[p]))?;
        if solid(e).is_empty() && (n == "From" || n == "Subject") {
            // no author or subject given: the usual one
            continue;
        }
        if n.is_empty() || n.chars().any(|c| !c.is_ascii_graphic()) {
            return Err(format!("field name {n:?}"));
        }
        if v.contains(['\r', '\n']) {
            return Err(format!("bare line break in {v:?}"));
        }
        if kind == Kind::Value && g[p].split(':').next() != b[p].split(':').next() {
            return Err(format!("another field: {:?}", g[p]));
        }
        if kind == Kind::Value && solid(&g[p]) != solid(&b[p].replace(MARK, e)) {
            return Err(format!("value {:?}", g[p]));
        }
    }
    Ok(())
}
fn slots(n: usize) -> Box<dyn Suite> {
    let k = ["a", "\r", "\n", " ", ":", "\t", "\0", "X-Evil: 1", "\u{e9}"];
    let c = compiler();
    let rt = runtime();
    let all: Vec<(Slot, Arc<sieve::Sieve>, Vec<Ob>)> = SLOTS
        .iter()
        .map(|s| {
            let sc = compile(&c, &format!("{REQS}{}", s.0)).unwrap_or_else(|o| panic!("{} {}", s.0, show(&o)));
            // a whole field needs a value
            let base = run(&rt, &sc, s.1, if s.0.contains("\"X${global.e}\"]") { "QBENIGNQ: v" } else { MARK });
            (Slot { script: s.0, msg: s.1, kind: s.2 }, sc, base)
        })
        .collect();
    radix(
        &format!("script-texts-{n}"),
        &format!("every text of up to {n} pieces from {k:?} computed by a script, in each of {} places (added field names and values at the top and in parts, replace, enclose, vacation, notify, redirect): compared line by line with the same script and a harmless text", SLOTS.len()),
        vec![all.len(), nwords(k.len(), n) as usize],
        move |v, cx| {
            let (s, sc, base) = &all[v[0]];
            let e: String = word(k.len(), v[1] as u64).iter().map(|&i| k[i]).collect();
            cx.step(1);
            cx.trace();
            cx.state(&v);
            let got = run(&rt, sc, s.msg, &e);
            cx.outcome(&(v[0], got.len()));
            judge(s.kind, &e, base, &got).map_err(|w| Fail::new("smuggle", format!("{}\ntext {e:?}: {w}\nharmless:\n    {}\ngot:\n    {}", s.script, show_all(base), show_all(&got))))
        },
    )
}
/// URI pieces: whatever is in a parameter value stays there
fn uris(n: usize) -> Box<dyn Suite> {
    let k = ["a", "%0d", "%0A", "%0D%0ABcc:z@z.zz", "@", ",", "%2C", "%3C", "%3E", "\r\n", " ", ":", "%00", "%26to=z@z.zz", "?"];
    // (uri with a place for the text, kind: 0 other field, 1 subject, 2 body, 3 name)
    let places: &[(&str, u8)] = &[("mailto:a@b.cc?body=b&x-h=@@", 0), ("mailto:a@b.cc?x-h=v@@&body=b", 0), ("mailto:a@b.cc?body=b&subject=v@@", 1), ("mailto:a@b.cc?subject=s&body=b@@", 2), ("mailto:a@b.cc?body=b&x-@@=v", 3), ("mailto:a@b.cc?body=b&@@", 3), ("mailto:a@b.cc?body=b&date=@@", 0), ("mailto:a@b.cc?body=b&message-id=m@@", 0)];
    let c = compiler();
    let rt = runtime();
    let sc = compile(&c, &format!("{REQS}notify \"${{global.e}}\";")).unwrap();
    let base: Vec<Vec<Ob>> = places.iter().map(|p| run(&rt, &sc, PLAIN, &p.0.replace("@@", if p.1 == 3 { "name=QBENIGNQ" } else { MARK }))).collect();
    let places = places.to_vec();
    radix(
        &format!("uri-texts-{n}"),
        &format!("every text of up to {n} pieces from {k:?} in each of {} places of a mailto URI behind the question mark: the recipients stay the same and only the named field differs", places.len()),
        vec![places.len(), nwords(k.len(), n) as usize],
        move |v, cx| {
            let (p, kind) = places[v[0]];
            let e: String = word(k.len(), v[1] as u64).iter().map(|&i| k[i]).collect();
            let uri = p.replace("@@", &e);
            cx.step(1);
            cx.trace();
            cx.state(&v);
            let got = run(&rt, &sc, PLAIN, &uri);
            cx.outcome(&(v[0], got.len()));
            let bad = |w: String| Err(Fail::new("uri", format!("{uri:?}: {w}\n    {}", show_all(&got))));
            // not accepted: nothing happens
            if matches!(&got[..], [Ob::Ev(Event::Keep { .. })]) {
                return Ok(());
            }
            let [Ob::Ev(Event::CreatedMessage { message, .. }), Ob::Ev(Event::SendMessage { recipient: Recipient::Group(r), .. }), Ob::Ev(Event::Keep { .. })] = &got[..] else {
                return bad("events".into());
            };
            if *r != ["a@b.cc"] {
                return bad("recipients".into());
            }
            let Some(Ob::Ev(Event::CreatedMessage { message: bm, .. })) = base[v[0]].first() else { return bad("no harmless run".into()) };
            let (gh, gb) = split(message);
            let (bh, bb) = split(bm);
            if kind != 2 && gb != bb {
                return bad("body".into());
            }
            // the order of the fields is the same, at most one line is different or missing or comes from the generator
            let rest: Vec<&String> = bh.iter().filter(|l| !l.contains(MARK)).collect();
            let extra: Vec<&String> = gh.iter().filter(|l| !rest.contains(l)).collect();
            let missing = rest.iter().filter(|l| !gh.contains(l)).count();
            if missing > 0 || extra.len() > 1 || gh.len() > bh.len() {
                return bad(format!("other fields: {extra:?}, {missing} missing"));
            }
            for x in &extra {
                let Some((name, val)) = x.split_once(':') else { return bad(format!("no field {x:?}")) };
                if name.is_empty() || name.chars().any(|c| !c.is_ascii_graphic()) || val.contains(['\r', '\n']) {
                    return bad(format!("field {x:?}"));
                }
                if kind == 0 && !p.to_lowercase().contains(&format!("{}=", name.to_lowercase())) || kind == 1 && name != "Subject" {
                    return bad(format!("field {x:?}"));
                }
            }
            Ok(())
        },
    )
}
/// texts of the received message that end up in generated ones
fn originals(n: usize) -> Box<dyn Suite> {
    // pieces of decoded text
    let k = ["a", "\r", "\n", " ", ":", "\0", "X-Evil: 1", "<z@z.zz>", "\""];
    fn b64(t: &[u8]) -> String {
        const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
        t.chunks(3)
            .map(|c| {
                let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
                (0..4).map(|i| if i <= c.len() { A[(n >> (18 - 6 * i) & 63) as usize] as char } else { '=' }).collect::<String>()
            })
            .collect()
    }
    // (message, with the encoded text at @@; script)
    let msgs = [
        "From: Joe <joe@x.example>\r\nTo: me@own.example\r\nSubject: @@\r\nMessage-ID: <m@x>\r\n\r\nbody\r\n",
        "From: @@ <joe@x.example>\r\nTo: me@own.example\r\nSubject: s\r\nMessage-ID: <m@x>\r\n\r\nbody\r\n",
        "From: Joe <joe@x.example>\r\nTo: @@ <me@own.example>\r\nSubject: s\r\nMessage-ID: <m@x>\r\nX-H: @@\r\n\r\nbody\r\n",
        "From: Joe <joe@x.example>\r\nTo: me@own.example\r\nSubject: s\r\nMessage-ID: <@@>\r\nReferences: @@\r\n\r\nbody\r\n",
    ];
    let scripts = [
        "vacation \"gone\";",
        "notify \"mailto:a@b.cc?body=b\";",
        "enclose \"b\"; fileinto \"x\";",
        "replace \"b\"; fileinto \"x\";",
        "if header :matches \"subject\" \"*\" { set \"s\" \"${1}\"; } addheader \"X-S\" \"q${s}\"; addheader \"X-${s}\" \"v\"; redirect \"a@b.cc\";",
        "if address :matches :all \"from\" \"*\" { set \"s\" \"${1}\"; } vacation :subject \"${s}\" :from \"${s} <me@own.example>\" \"gone\";",
        "if header :matches [\"x-h\", \"subject\"] \"*\" { notify :message \"${1}\" :from \"${1} <me@own.example>\" \"mailto:a@b.cc?body=b\"; }",
        "if header :matches \"subject\" \"*\" { enclose :headers [\"X-A: ${1}\", \"X-${1}: v\"] :subject \"${1}\" \"b\"; replace :subject \"${1}\" :from \"${1}\" \"c\"; fileinto \"x\"; }",
    ];
    // names of the fields that may be there
    let known = ["from", "to", "subject", "original-subject", "original-from", "message-id", "date", "in-reply-to", "references", "auto-submitted", "content-type", "importance", "x-priority", "x-sieve", "x-h", "x-s", "x-a", "mime-version"];
    let c = compiler();
    let rt = runtime();
    let scs: Vec<_> = scripts.iter().map(|s| compile(&c, &format!("{REQS}{s}")).unwrap_or_else(|o| panic!("{s} {}", show(&o)))).collect();
    radix(
        &format!("message-texts-{n}"),
        &format!("every text of up to {n} pieces from {k:?}, encoded in the Subject, display names, Message-ID and References of the received message, with {} scripts that use these in replies, notifications, enclosures, replacements and added fields: the produced header has only the fields of the action, each once, and the prescribed recipients", scripts.len()),
        vec![msgs.len(), scs.len(), nwords(k.len(), n) as usize],
        move |v, cx| {
            let e: String = word(k.len(), v[2] as u64).iter().map(|&i| k[i]).collect();
            let m = msgs[v[0]].replace("@@", &format!("=?utf-8?B?{}?=", b64(e.as_bytes())));
            cx.step(1);
            cx.trace();
            cx.state(&v);
            let got = run(&rt, &scs[v[1]], &m, "");
            cx.outcome(&(v[1], got.len()));
            let bad = |w: String| Err(Fail::new("message", format!("{w}\n{}\n{m:?}\n    {}", scripts[v[1]], show_all(&got))));
            for o in &got {
                match o {
                    Ob::Ev(Event::SendMessage { recipient: Recipient::Address(a), .. }) if a == if v[1] == 4 { "a@b.cc" } else { "joe@x.example" } => (),
                    Ob::Ev(Event::SendMessage { recipient: Recipient::Group(a), .. }) if *a == ["a@b.cc"] => (),
                    Ob::Ev(Event::SendMessage { .. }) => return bad("recipient".into()),
                    Ob::Ev(Event::CreatedMessage { message, .. }) => {
                        let (h, _) = split(message);
                        let mut seen: Vec<String> = vec![];
                        for l in &h {
                            let Some((n, val)) = l.split_once(':') else { return bad(format!("no field: {l:?}")) };
                            let n = n.to_lowercase();
                            if val.contains(['\r', '\n']) || n.chars().any(|c| !c.is_ascii_graphic()) || n.is_empty() {
                                return bad(format!("field {l:?}"));
                            }
                            // one field may have a computed name
                            let name = if known.contains(&n.as_str()) { n } else if n.starts_with("x-") && (v[1] == 4 || v[1] == 7) { "x-*".to_string() } else { return bad(format!("field {l:?}")) };
                            // replace adds the author of the replacement next to the original one (pinned by the test suite)
                            if seen.contains(&name) && !(name == "from" && matches!(v[1], 3 | 7) && seen.iter().filter(|x| **x == "from").count() == 1) && !((v[1] == 4 || v[1] == 7) && name.starts_with("x-")) {
                                return bad(format!("field twice: {l:?}"));
                            }
                            seen.push(name);
                        }
                    }
                    _ => (),
                }
            }
            Ok(())
        },
    )
}
fn names(n: usize) -> Box<dyn Suite> {
    let k = ["a", " ", "\"", "\\", "<", ">", "@", ",", "\u{e9}", "b@c.dd"];
    let c = compiler();
    let rt = runtime();
    let scripts = [
        "vacation \"gone\";",
        "notify \"mailto:a@b.cc\";",
        "enclose \"b\"; fileinto \"x\";",
        "replace \"b\"; fileinto \"x\";",
        "notify :from \"else@b.cc\" :fcc \"Sent\" \"tel:+1555\";",
    ];
    let all: Vec<Arc<sieve::Sieve>> = scripts.iter().map(|s| compile(&c, &format!("{REQS}{s}")).unwrap()).collect();
    radix(
        &format!("user-names-{n}"),
        &format!("every full name of the user of up to {n} pieces from {k:?}, with {} scripts that produce a message in the user's name: exactly one From field with the name as one quoted string and the user's address", scripts.len()),
        vec![scripts.len(), nwords(k.len(), n) as usize],
        move |v, cx| {
            let name: String = word(k.len(), v[1] as u64).iter().map(|&i| k[i]).collect();
            let shown = name.clone();
            cx.step(1);
            cx.trace();
            cx.state(&v);
            let own = name.clone();
            let o = run_with(
                &rt,
                &all[v[0]],
                PLAIN.replace("From: ", "X-From: ").as_bytes(),
                move |ctx: &mut Context| {
                    ctx.set_user_address("me@own.example");
                    ctx.set_user_full_name(&own);
                    ctx.set_envelope(Envelope::From, "joe@x.example");
                },
                |ev| sieve::Input::from(!matches!(ev, Event::DuplicateId { .. })),
            );
            let bad = |w: &str, o: &[Ob]| Err(Fail::new(scripts[v[0]], format!("{} with the name {shown:?}: {w}\n{}", scripts[v[0]], show_all(o))));
            let mut msgs = 0;
            for m in o.iter().filter_map(|o| match o {
                Ob::Ev(Event::CreatedMessage { message, .. }) => Some(String::from_utf8_lossy(message).into_owned()),
                _ => None,
            }) {
                msgs += 1;
                let head = m.split("\r\n\r\n").next().unwrap_or("");
                let from: Vec<&str> = head.split("\r\n").filter_map(|l| l.strip_prefix("From: ")).collect();
                if from.len() != 1 {
                    return bad("not one From field", &o);
                }
                let (decoded, rest) = match from[0].strip_prefix('"') {
                    Some(t) if !name.is_empty() => {
                        let mut out = String::new();
                        let mut it = t.char_indices();
                        let mut end = t.len();
                        while let Some((i, ch)) = it.next() {
                            match ch {
                                '\\' => out.extend(it.next().map(|c| c.1)),
                                '"' => {
                                    end = i + 1;
                                    break;
                                }
                                _ => out.push(ch),
                            }
                        }
                        (out, &t[end..])
                    }
                    _ => (String::new(), from[0]),
                };
                cx.outcome(&decoded.len());
                if decoded != name || rest != if name.is_empty() { "me@own.example" } else { " <me@own.example>" } {
                    return bad("the From field does not name the user", &o);
                }
            }
            if msgs != 1 {
                return bad("not one message", &o);
            }
            Ok(())
        },
    )
}
pub fn property(thorough: bool) -> Property {
    let _ = q;
    Property {
        id: "C28",
        level: "model_checking",
        technique: "exhaustive enumeration of hostile texts in every place a script or message text reaches a produced header or recipient, on the real interpreter, compared line by line with a harmless run",
        assumptions: vec![
            "fields of the received message that an action keeps are copied as they are".into(),
            "a text the script puts in front of the question mark of a mailto URI names recipients by definition; texts with & separate parameters by definition".into(),
            "with vacation :mime and replace :mime the text supplies content fields by definition".into(),
        ],
        suites: vec![slots(if thorough { 6 } else { 5 }), uris(if thorough { 5 } else { 4 }), originals(if thorough { 5 } else { 4 }), names(if thorough { 6 } else { 5 })],
    }
}
