use super::core::{compiler, runtime, REQ};
use crate::eng::*;
use crate::harness::*;
use sieve::compiler::grammar::actions::action_redirect::{ByMode, ByTime, Notify, NotifyItem, Ret};
use sieve::{Context, Envelope, Event, Input, Recipient};

const MAIL: &[u8] = b"From: x@y.zz\r\nTo: me@own.example\r\nSubject: s\r\n\r\nbody";
const OWN: &str = "Me@Own.example";

/// what a script's redirect to a given text has to do
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Want {
    /// sent to exactly this address
    Must(String),
    /// not sent
    Never,
    /// unspecified whether it is sent, but if so, then to this address
    May(String),
}
fn valid(t: &str) -> bool {
    match t.split_once('@') {
        Some((l, d)) => {
            !l.is_empty()
                && !d.contains('@')
                && d.split('.').count() > 1
                && d.split('.').all(|x| !x.is_empty())
                && !t.contains([',', ';', '(', ')', '<', '>'])
        }
        None => false,
    }
}
/// the reference for texts without quotes
fn want(t: &str) -> Want {
    let strip = |t: &str| t.chars().filter(|c| !c.is_ascii_whitespace()).collect::<String>();
    let (lt, gt) = (t.matches('<').count(), t.matches('>').count());
    let (core, sure, prefix) = if lt == 0 && gt == 0 {
        (t, true, "")
    } else if lt == 1 && gt == 1 && t.find('<') < t.find('>') {
        let (p, r) = t.split_once('<').unwrap();
        let (c, after) = r.split_once('>').unwrap();
        if !after.trim().is_empty() {
            return Want::Never;
        }
        (c, true, p)
    } else {
        let r = t.rsplit('<').next().unwrap();
        (r.split('>').next().unwrap(), false, "")
    };
    let a = strip(core);
    if !valid(&a) {
        return Want::Never;
    }
    let local = a.split('@').next().unwrap();
    let odd = local.starts_with('.') || local.ends_with('.') || local.contains("..");
    if sure && core.trim() == a && !odd && !prefix.contains(['@', ',']) {
        Want::Must(a)
    } else {
        Want::May(a)
    }
}
fn send(to: Recipient, id: usize) -> Ob {
    Ob::Ev(Event::SendMessage {
        recipient: to,
        notify: Notify::Default,
        return_of_content: Ret::Default,
        by_time: ByTime::None,
        message_id: id,
    })
}
fn keep() -> Ob {
    Ob::Ev(Event::Keep { flags: vec![], message_id: 0 })
}
fn judge(w: &Want, got: &[Ob], what: &str) -> Result<(), Fail> {
    let ok = |e: &[Ob]| got == e;
    let sent = |a: &String| vec![send(Recipient::Address(a.clone()), 0)];
    if match w {
        Want::Must(a) => ok(&sent(a)),
        Want::Never => ok(&[keep()]),
        Want::May(a) => ok(&sent(a)) || ok(&[keep()]),
    } {
        Ok(())
    } else {
        Err(Fail::new("address", format!("redirect to {what:?}: wanted {w:?}, got\n    {}", show_all(got))))
    }
}
fn one(t: String, w: Want, rt: &sieve::Runtime, sc: &std::sync::Arc<sieve::Sieve>, cx: &mut Cx) -> Result<(), Fail> {
    cx.state(&t);
    cx.outcome(&w);
    cx.step(1);
    cx.trace();
    let tt = t.clone();
    let got = run_with(
        rt,
        sc,
        MAIL,
        move |ctx: &mut Context| {
            ctx.set_user_address(OWN);
            ctx.set_global_variable("a", tt);
        },
        yes,
    );
    cx.sample(|| format!("{t:?} -> {}", show_all(&got)));
    judge(&w, &got, &t)
}
fn addresses(max: usize) -> Box<dyn Suite> {
    let k = ["a", "@", ".", "<", ">", " ", ","];
    let sc = compile(&compiler(), &format!("{REQ}redirect \"${{global.a}}\";")).unwrap();
    let rt = runtime();
    radix(
        &format!("addresses-{max}"),
        &format!("redirect to every text of up to {max} characters from {}, against a reference that says which are addresses", k.join(" ")),
        vec![nwords(k.len(), max) as usize],
        move |v, cx| {
            let t: String = word(k.len(), v[0] as u64).iter().map(|&i| k[i]).collect();
            let w = want(&t);
            one(t, w, &rt, &sc, cx)
        },
    )
}
fn composed() -> Box<dyn Suite> {
    // (text, 0 = fine, 1 = unspecified but never another address)
    let names: &[(&str, u8)] = &[
        ("", 0),
        ("Joe ", 0),
        ("\"Joe Doe\" ", 0),
        ("\"Doe, Joe (x); y\" ", 0),
        ("\"<no@no.example>\" ", 0),
        ("\"a \\\" <no@no.example> b\" ", 0),
        ("Doe, Joe ", 1),
        ("Jos\u{e9} \u{1f600} ", 0),
        (" \r\n\t", 0),
        ("no@no.example ", 1),
        ("\"x\r\ny\" ", 3),
    ];
    // (text, denoted, class); class 2 = not an address
    let locals: &[(&str, &str, u8)] = &[
        ("a", "a", 0),
        ("a+b-c_d", "a+b-c_d", 0),
        ("\"Stephan Bosch\"", "Stephan Bosch", 0),
        ("me", "me", 0),
        ("ME", "ME", 0),
        ("a\u{e9}", "a\u{e9}", 0),
        ("o'brien", "o'brien", 0),
        ("", "", 2),
        ("a,b", "", 2),
        ("a;b", "", 2),
        ("(a)b", "", 2),
        ("a@b", "", 2),
        ("\"a\r\nb\"", "", 2),
        ("\"a\tb\"", "", 2),
        ("\"a\u{0}\"", "", 2),
        ("a\u{7f}", "", 2),
    ];
    let domains: &[(&str, u8)] = &[
        ("b.cc", 0),
        ("own.example", 0),
        ("OWN.EXAMPLE", 0),
        ("b.c.d.ee", 0),
        ("[1.2.3.4]", 0),
        ("\u{e9}.cc", 0),
        ("b", 2),
        ("b.", 2),
        (".b", 2),
        ("b..c", 2),
        ("", 2),
        (".", 2),
        ("b.c,d.e", 2),
        ("b.c;", 2),
        ("b.c\u{1}", 2),
        ("\"b.c\"", 2),
    ];
    let forms: &[(&str, &str, bool)] = &[("<", ">", false), ("<", "> ", false), ("<", ">\r\n", false), ("<", "> x", true), ("<", ">,<c@d.ee>", true), ("<", ">;x", true), ("", "", false), (" ", "\r\n", false)];
    let sc = compile(&compiler(), &format!("{REQ}redirect \"${{global.a}}\";")).unwrap();
    let rt = runtime();
    radix(
        "composed",
        &format!("redirect to every combination of {} display names, {} local parts, {} domains and {} forms (quotes, control characters, separators, non-ASCII, trailing text; the user's own address in different letter case)", names.len(), locals.len(), domains.len(), forms.len()),
        vec![names.len(), locals.len(), domains.len(), forms.len()],
        move |v, cx| {
            let (n, l, d, f) = (names[v[0]], locals[v[1]], domains[v[2]], forms[v[3]]);
            let bare = !f.0.contains('<');
            if bare && !n.0.trim().is_empty() {
                return Ok(()); // a name without brackets is part of the address
            }
            let t = format!("{}{}{}@{}{}", n.0, f.0, l.0, d.0, f.1);
            let a = format!("{}@{}", l.1, d.0);
            let w = if l.2 == 2 || d.1 == 2 || f.2 || a.eq_ignore_ascii_case(OWN) {
                Want::Never
            } else if n.1 != 0 {
                Want::May(a)
            } else {
                Want::Must(a)
            };
            one(t, w, &rt, &sc, cx)
        },
    )
}
fn options() -> Box<dyn Suite> {
    type Nt = (&'static str, Notify);
    let nts: Vec<Nt> = vec![
        ("", Notify::Default),
        (":notify \"never\" ", Notify::Never),
        (":notify \"NEVER\" ", Notify::Never),
        (":notify \"success\" ", Notify::Items(vec![NotifyItem::Success])),
        (":notify \"FAILURE, delay\" ", Notify::Items(vec![NotifyItem::Failure, NotifyItem::Delay])),
        (":notify \"delay,success,failure\" ", Notify::Items(vec![NotifyItem::Delay, NotifyItem::Success, NotifyItem::Failure])),
    ];
    let rets = [("", Ret::Default), (":ret \"full\" ", Ret::Full), (":ret \"HDRS\" ", Ret::Hdrs)];
    let modes = [("", ByMode::Default), (":bymode \"notify\" ", ByMode::Notify), (":bymode \"RETURN\" ", ByMode::Return)];
    // (text, relative limit, absolute limit)
    let times: Vec<(&str, Option<u64>, Option<i64>)> = vec![
        ("", None, None),
        (":bytimerelative 600 ", Some(600), None),
        (":bytimerelative 2k ", Some(2048), None),
        (":bytimerelative 18446744073709551614 ", Some(u64::MAX - 1), None),
        (":bytimeabsolute \"2013-12-31T23:59:59Z\" ", None, Some(1388534399)),
        (":bytimeabsolute \"1970-01-01T01:00:00+01:00\" ", None, Some(0)),
        (":bytimeabsolute \"${global.t}\" ", None, Some(1396339591)),
        (":bytimeabsolute \"tomorrow\" ", None, Some(0)),
        (":bytimeabsolute \"\" ", None, Some(0)),
    ];
    // (text of the address, :list, own address, recipient)
    let to: Vec<(&str, Option<Recipient>)> = vec![
        ("\"a@b.cc\"", Some(Recipient::Address("a@b.cc".into()))),
        ("\"${global.a}\"", Some(Recipient::Address("g@h.ii".into()))),
        ("\"ME@own.example\"", None),
        ("\"nobody\"", None),
        (":list \":addrbook:default\"", Some(Recipient::List(":addrbook:default".into()))),
        (":list \"tag:example.com,2010-05-28:mylist\"", Some(Recipient::List("tag:example.com,2010-05-28:mylist".into()))),
        (":list \"urn:ietf:params:sieve:addrbook:default\"", Some(Recipient::List("urn:ietf:params:sieve:addrbook:default".into()))),
        (":list \"me@own.example\"", Some(Recipient::List("me@own.example".into()))),
    ];
    let c = compiler();
    let rt = runtime();
    let dims = vec![2, nts.len(), rets.len(), times.len(), modes.len(), 2, to.len(), 2];
    radix(
        "options",
        "every combination of :copy, :notify, :ret, :bytimerelative/:bytimeabsolute, :bymode, :bytrace and address or list (own, invalid, computed), with the options before each other in both orders: the one event carries exactly them, and the keep is cancelled only if something is sent without :copy",
        dims,
        move |v, cx| {
            let copy = v[0] == 1;
            let mut o = vec![if copy { ":copy " } else { "" }, nts[v[1]].0, rets[v[2]].0, times[v[3]].0, modes[v[4]].0, if v[5] == 1 { ":bytrace " } else { "" }];
            let (list, addr) = match to[v[6]].0.strip_prefix(":list ") {
                Some(a) => (":list ", a),
                None => ("", to[v[6]].0),
            };
            o.push(list);
            if v[7] == 1 {
                o.reverse();
            }
            let t = format!("require [\"variables\", \"copy\", \"extlists\", \"redirect-dsn\", \"redirect-deliverby\"];\nredirect {}{addr};", o.concat());
            cx.step(1);
            cx.trace();
            cx.state(&t);
            let mut e = vec![];
            if let Some(r) = &to[v[6]].1 {
                let mode = modes[v[4]].1.clone();
                let trace = v[5] == 1;
                e.push(Ob::Ev(Event::SendMessage {
                    recipient: r.clone(),
                    notify: nts[v[1]].1.clone(),
                    return_of_content: rets[v[2]].1.clone(),
                    by_time: match times[v[3]] {
                        (_, Some(r), _) => ByTime::Relative { rlimit: r, mode, trace },
                        (_, _, Some(a)) => ByTime::Absolute { alimit: a, mode, trace },
                        _ => ByTime::None,
                    },
                    message_id: 0,
                }));
            }
            if copy || e.is_empty() {
                e.push(keep());
            }
            let got = run_script(
                &c,
                &rt,
                &t,
                MAIL,
                |ctx: &mut Context| {
                    ctx.set_user_address(OWN);
                    ctx.set_global_variable("a", "G H <g@h.ii>");
                    ctx.set_global_variable("t", "2014-04-01T09:06:31+01:00");
                },
                yes,
            );
            
            cx.outcome(&show_all(&got));
            if got == e {
                Ok(())
            } else {
                Err(Fail::new("options", format!("{t}\n{}", diff(&e, &got))))
            }
        },
    )
}

const ACTS: &[&str] = &[
    "redirect \"a@b.cc\";",
    "redirect :copy \"c@d.ee\";",
    "redirect \"me@OWN.example\";",
    "redirect \"broken@\";",
    "redirect :list \"me@own.example\";",
    "notify \"mailto:n@o.pp\";",
    "notify \"tel:+15551234\";",
    "vacation \"gone\";",
    "fileinto \"f\";",
    "keep;",
    "include :personal \"sub\";",
    "redirect \"${global.none}\";",
];
fn model(acts: &[usize], mut red: usize, mut out: usize) -> Vec<Ob> {
    let (mut imp, mut expl) = (true, false);
    let mut id = 0;
    let mut e = vec![];
    let created = |id: usize| Ob::Ev(Event::CreatedMessage { message_id: id, message: vec![] });
    let mut redirect = |r: Recipient, copy: bool, own: bool, imp: &mut bool, out: &mut usize, e: &mut Vec<Ob>, expl: bool| {
        if own || red == 0 || *out == 0 {
            return;
        }
        red -= 1;
        *out -= 1;
        if !copy && !expl {
            *imp = false;
        }
        e.push(send(r, 0));
    };
    let addr = |a: &str| Recipient::Address(a.into());
    for &a in acts {
        match a {
            0 => redirect(addr("a@b.cc"), false, false, &mut imp, &mut out, &mut e, expl),
            1 => redirect(addr("c@d.ee"), true, false, &mut imp, &mut out, &mut e, expl),
            2 | 3 | 11 => redirect(addr(""), false, true, &mut imp, &mut out, &mut e, expl),
            4 => redirect(Recipient::List("me@own.example".into()), false, false, &mut imp, &mut out, &mut e, expl),
            5 => {
                if out > 0 {
                    out -= 1;
                    id += 1;
                    e.push(created(id));
                    e.push(nosend(Recipient::Group(vec!["n@o.pp".into()]), id));
                }
            }
            6 => {
                if out > 0 {
                    out -= 1;
                    e.push(Ob::Ev(Event::Notify { method: "tel:+15551234".into(), from: None, importance: sieve::Importance::Normal, options: vec![], message: "s".into() }));
                }
            }
            7 => {
                if out > 0 {
                    out -= 1;
                    id += 1;
                    e.push(Ob::Ev(Event::DuplicateId { id: String::new(), expiry: 0, last: false }));
                    e.push(created(id));
                    e.push(nosend(addr("x@y.zz"), id));
                }
            }
            8 => {
                if !expl {
                    imp = false;
                }
                e.push(Ob::Ev(Event::FileInto { folder: "f".into(), flags: vec![], mailbox_id: None, special_use: None, create: false, message_id: 0 }));
            }
            9 => {
                expl = true;
                imp = true;
            }
            _ => redirect(addr("i@j.kk"), false, false, &mut imp, &mut out, &mut e, expl),
        }
    }
    if imp {
        e.push(keep());
    }
    e
}
fn nosend(to: Recipient, id: usize) -> Ob {
    Ob::Ev(Event::SendMessage { recipient: to, notify: Notify::Never, return_of_content: Ret::Default, by_time: ByTime::None, message_id: id })
}
fn limits(n: usize) -> Box<dyn Suite> {
    let c = compiler();
    let rts: Vec<sieve::Runtime> = (0..16)
        .map(|i| {
            let mut r = runtime();
            r.set_max_redirects(i / 4);
            r.set_max_out_messages(i % 4);
            r
        })
        .collect();
    let sub = compile(&c, &format!("{REQ}redirect \"i@j.kk\";")).unwrap();
    let mut dims = vec![16];
    dims.extend(vec![ACTS.len() + 1; n]);
    radix(
        &format!("limits-{n}"),
        &format!("all sequences of up to {n} actions from {} (redirects that are valid, copying, own, broken, to a list or in an included script; notifications, vacation, fileinto, keep) under every pair of limits 0..3 for redirects and outgoing messages", ACTS.len()),
        dims,
        move |v, cx| {
            let a: Vec<usize> = v[1..].iter().copied().filter(|&i| i < ACTS.len()).collect();
            // one way to write a shorter sequence
            if v[1..].iter().skip_while(|&&i| i < ACTS.len()).any(|&i| i < ACTS.len()) {
                return Ok(());
            }
            let t = a.iter().map(|&i| ACTS[i]).collect::<Vec<_>>().join(" ");
            let e = model(&a, v[0] / 4, v[0] % 4);
            cx.step(a.len() as u64);
            cx.trace();
            cx.state(&v);
            let sub = sub.clone();
            let mut got = run_script(
                &c,
                &rts[v[0]],
                &format!("require \"vacation\";{REQ}{t}"),
                MAIL,
                |ctx: &mut Context| {
                    ctx.set_user_address(OWN);
                    ctx.set_envelope(Envelope::From, "x@y.zz");
                    ctx.set_envelope(Envelope::To, "me@own.example");
                },
                |ev| match ev {
                    Event::IncludeScript { name, .. } => Input::script(name.clone(), sub.clone()),
                    Event::DuplicateId { .. } => Input::False,
                    _ => Input::True,
                },
            );
            got.retain(|o| !matches!(o, Ob::Ev(Event::IncludeScript { .. })));
            for o in &mut got {
                match o {
                    Ob::Ev(Event::CreatedMessage { message, .. }) => message.clear(),
                    Ob::Ev(Event::DuplicateId { id, expiry, .. }) => {
                        id.clear();
                        *expiry = 0;
                    }
                    _ => (),
                }
            }
            cx.outcome(&show_all(&e));
            cx.sample(|| format!("limits {}/{}: {t}\n{}", v[0] / 4, v[0] % 4, show_all(&got)));
            // Discard carries no information next to or instead of a delivery
            got.retain(|o| !matches!(o, Ob::Ev(Event::Discard)));
            if got == e {
                Ok(())
            } else {
                Err(Fail::new("limits", format!("max_redirects {} max_out_messages {}: {t}\n{}", v[0] / 4, v[0] % 4, diff(&e, &got))))
            }
        },
    )
}
fn hops(n: usize) -> Box<dyn Suite> {
    let c = compiler();
    const F: &[(&str, usize)] = &[
        ("Received: from a by b; Tue, 01 Apr 2014 09:06:31 +0000\r\n", 1),
        ("RECEIVED:\r\n", 1),
        ("received: x\r\n y\r\n", 1),
        ("X-Received: from a by b\r\n", 0),
        ("Resent-From: Received: x\r\n", 0),
        ("Subject: x\r\n Received: y\r\n", 0),
    ];
    // header edits before the redirect: their effect on the number of Received fields
    const E: &[(&str, fn(usize) -> usize)] = &[
        ("", |k| k),
        ("addheader \"Received\" \"from here\";", |k| k + 1),
        ("addheader :last \"X-Received\" \"from here\";", |k| k),
        ("deleteheader \"received\";", |_| 0),
        ("deleteheader :index 1 \"Received\";", |k| k.saturating_sub(1)),
    ];
    let rts: Vec<sieve::Runtime> = (0..5)
        .map(|i| {
            let mut r = runtime();
            r.set_max_received_headers(i);
            r
        })
        .collect();
    let mut dims = vec![5, E.len(), 3];
    dims.extend(vec![F.len() + 1; n]);
    radix(
        "hops",
        &format!("every header of up to {n} fields from {} (Received in different spellings and look-alikes) with a limit of 0..4 hops, {} header edits before the redirect, redirect with and without :copy and to a list", F.len(), E.len()),
        dims,
        move |v, cx| {
            let fs: Vec<usize> = v[3..].iter().copied().filter(|&i| i < F.len()).collect();
            if v[3..].iter().skip_while(|&&i| i < F.len()).any(|&i| i < F.len()) {
                return Ok(());
            }
            let mut m: String = fs.iter().map(|&i| F[i].0).collect();
            m += "To: me@own.example\r\n\r\nReceived: in the body\r\nReceived: z\r\n";
            let k = (E[v[1]].1)(fs.iter().map(|&i| F[i].1).sum());
            let sent = k < v[0];
            let act = ["redirect \"a@b.cc\";", "redirect :copy \"a@b.cc\";", "redirect :list \"tag:x\";"][v[2]];
            let t = format!("{REQ}{}{act}", E[v[1]].0);
            cx.step(1);
            cx.trace();
            cx.state(&(&m, v[0], v[1], v[2]));
            cx.outcome(&sent);
            let got = run_script(&c, &rts[v[0]], &t, m.as_bytes(), |ctx: &mut Context| ctx.set_user_address(OWN), yes);
            let sends = got.iter().filter(|o| matches!(o, Ob::Ev(Event::SendMessage { .. }))).count();
            let keeps = got.iter().filter(|o| matches!(o, Ob::Ev(Event::Keep { .. }))).count();
            let other = got.iter().any(|o| !matches!(o, Ob::Ev(Event::SendMessage { .. } | Event::Keep { .. } | Event::CreatedMessage { .. })));
            if sends == sent as usize && keeps == (!sent || v[2] == 1) as usize && !other {
                Ok(())
            } else {
                Err(Fail::new("hops", format!("limit {} with {k} Received fields, {}{act}\n{m:?}\n    {}", v[0], E[v[1]].0, show_all(&got))))
            }
        },
    )
}
pub fn property(thorough: bool) -> Property {
    let mut suites = vec![addresses(if thorough { 8 } else { 7 }), composed(), options(), limits(4), hops(5)];
    if thorough {
        suites.push(limits(5));
    }
    Property {
        id: "C16",
        level: "model_checking",
        technique: "exhaustive enumeration of redirect addresses, options, action sequences, limits and hop counts on the real interpreter, each run compared with a model of the counters and a reference for addresses",
        assumptions: vec![
            "the user's own address is the configured user address, compared ignoring ASCII case; lists are never the own address".into(),
            "texts that are neither clearly an address nor clearly not one (white space inside, unclosed or repeated brackets, unquoted comma in a display name) may be refused, but are never sent to another address".into(),
        ],
        suites,
    }
}
