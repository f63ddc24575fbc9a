use super::c17::{fields, keep, send, squash};
use super::core::{compiler, runtime};
use crate::eng::*;
use crate::harness::*;
use sieve::compiler::grammar::actions::action_redirect::{ByTime, Notify, Ret};
use sieve::runtime::actions::action_notify::validate_uri;
use sieve::{Context, Envelope, Event, Importance, Input, Recipient};

const REQN: &str = "require [\"enotify\", \"variables\", \"fcc\", \"mailbox\", \"mailboxid\", \"special-use\", \"imap4flags\", \"copy\", \"fileinto\", \"vacation\", \"editheader\"];\n";

#[derive(Default, Clone, Debug)]
struct Uri {
    to: Vec<String>,
    cc: Vec<String>,
    bcc: Vec<String>,
    fields: Vec<(String, String)>,
    subject: Option<String>,
    body: Option<String>,
    /// unspecified whether it is accepted
    lax: bool,
}
fn unpercent(t: &str) -> Option<Vec<u8>> {
    let b = t.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' {
            let h = std::str::from_utf8(b.get(i + 1..i + 3)?).ok()?;
            if h.starts_with('+') {
                return None;
            }
            o.push(u8::from_str_radix(h, 16).ok()?);
            i += 3;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    Some(o)
}
/// the recipient address of a mailbox
fn addr(v: &str) -> &str {
    match v.strip_suffix('>').and_then(|v| v.rsplit_once('<')) {
        Some((_, a)) => a,
        None => v,
    }
}
impl Uri {
    fn addresses(&mut self, which: &str, list: &str) -> Option<()> {
        let list = list.replace("%2C", ",").replace("%2c", ",");
        let n = list.split(',').count();
        for (i, e) in list.split(',').enumerate() {
            if e.is_empty() {
                if i + 1 < n {
                    return None;
                }
                // nothing at all, or nothing after a comma
                self.lax |= n > 1;
                continue;
            }
            if e.contains('=') {
                return None;
            }
            let v = String::from_utf8(unpercent(e)?).ok()?;
            let v = v.trim_matches(' ').to_string();
            let a = addr(&v);
            let (l, d) = a.split_once('@')?;
            let name = if v.len() > a.len() { v.rsplit_once('<').unwrap().0 } else { "" };
            if l.is_empty() || d.is_empty() || v.matches('@').count() != 1 || v.chars().any(|c| c.is_control()) || a.contains([' ', '<', '>']) || name.contains(['<', '>']) {
                return None;
            }
            let known = self.to.iter().chain(&self.cc).chain(&self.bcc).any(|x| x.eq_ignore_ascii_case(&v));
            if !known {
                match which {
                    "to" => &mut self.to,
                    "cc" => &mut self.cc,
                    _ => &mut self.bcc,
                }
                .push(v);
            }
        }
        Some(())
    }
    /// reference reader; None: not a valid method
    fn parse(t: &str) -> Option<Uri> {
        let mut u = Uri::default();
        // percent signs must be followed by two digits everywhere
        unpercent(t)?;
        if t.is_empty() {
            return None;
        }
        let (path, query) = match t.split_once('?') {
            Some((p, q)) => (p, Some(q)),
            None => (t, None),
        };
        if path.contains('&') {
            return Some(Uri { lax: true, to: vec!["?".into()], ..Default::default() });
        }
        u.addresses("to", path)?;
        if let Some(q) = query {
            if path.ends_with(',') {
                u.lax = true;
            }
            let n = q.split('&').count();
            for (i, p) in q.split('&').enumerate() {
                if p.is_empty() {
                    if i + 1 < n {
                        return None;
                    }
                    continue; // a trailing separator
                }
                let (name, value) = p.split_once('=')?;
                if name.is_empty() || !name.chars().all(|c| c.is_ascii_alphanumeric() || c == '-' || c == '_') {
                    return None;
                }
                let l = name.to_lowercase();
                match l.as_str() {
                    "to" | "cc" | "bcc" => {
                        if value.is_empty() || value.ends_with(',') || value.to_lowercase().ends_with("%2c") {
                            u.lax = true;
                        }
                        if value.contains('?') {
                            // not allowed there, whatever is made of it
                            return Some(Uri { lax: true, to: vec!["?".into()], ..Default::default() });
                        }
                        u.addresses(&l, value)?;
                    }
                    _ => {
                        let v = String::from_utf8(unpercent(value)?).ok()?;
                        if v.is_empty() {
                            continue;
                        }
                        match l.as_str() {
                            "subject" => u.subject = Some(v),
                            "body" => u.body = Some(v),
                            "from" | "auto-submitted" | "x-sieve" | "importance" | "x-priority" | "content-type" => (),
                            "date" | "message-id" if u.fields.iter().any(|f| f.0.eq_ignore_ascii_case(&l)) => (),
                            _ => u.fields.push((name.to_string(), v)),
                        }
                    }
                }
            }
        }
        if u.to.is_empty() && u.cc.is_empty() && u.bcc.is_empty() {
            return None;
        }
        Some(u)
    }
    fn recipients(&self) -> Vec<String> {
        self.to.iter().chain(&self.cc).chain(&self.bcc).map(|v| addr(v).to_string()).collect()
    }
}
struct Want<'a> {
    from: &'a str,
    message: Option<&'a str>,
    original: Option<&'a str>,
    importance: &'a str,
}
fn cut(t: &str) -> String {
    let mut s: String = t.chars().take(256).collect();
    if t.chars().count() > 256 {
        s.push('\u{2026}');
    }
    s
}
/// The one message a notification produces.
fn judge_message(m: &[u8], u: &Uri, w: &Want) -> Result<(), String> {
    let (f, b) = fields(m)?;
    let body = u.body.as_deref().or(w.message).or(w.original).unwrap_or("");
    if b != body.as_bytes() {
        return Err(format!("body {:?}, expected {body:?}", String::from_utf8_lossy(&b)));
    }
    let subject = u.subject.as_deref().or(w.message).or(w.original).unwrap_or("");
    let join = |v: &[String]| v.iter().map(|a| if a.contains('<') { a.clone() } else { format!("<{a}>") }).collect::<Vec<_>>().join(", ");
    let (imp, pri) = match w.importance {
        "1" => ("High", "1 (High)"),
        "3" => ("Low", "5 (Low)"),
        _ => ("Normal", "3 (Normal)"),
    };
    let mut e: Vec<(String, Option<String>)> = vec![
        ("from".into(), Some(w.from.into())),
        ("subject".into(), Some(cut(subject))),
        ("importance".into(), Some(imp.into())),
        ("x-priority".into(), Some(pri.into())),
        ("auto-submitted".into(), Some("auto-notified".into())),
        ("x-sieve".into(), Some("yes".into())),
        ("content-type".into(), Some("text/plain; charset=utf-8".into())),
    ];
    for (n, v) in [("to", &u.to), ("cc", &u.cc)] {
        if !v.is_empty() {
            e.push((n.into(), Some(join(v))));
        }
    }
    for n in ["date", "message-id"] {
        if !u.fields.iter().any(|f| f.0.eq_ignore_ascii_case(n)) {
            e.push((n.into(), None));
        }
    }
    for (n, v) in &u.fields {
        e.push((n.to_lowercase(), Some(v.clone())));
    }
    for x in &mut e {
        x.1 = x.1.as_deref().map(squash);
    }
    let mut g: Vec<(String, String)> = f.iter().map(|(n, v)| (n.to_lowercase(), squash(v))).collect();
    e.sort();
    g.sort();
    // a generated value sorts before every other one of its name, and there is only one of it
    if g.len() != e.len() || g.iter().zip(&e).any(|(g, e)| g.0 != e.0 || e.1.as_ref().map_or(g.1.is_empty(), |v| *v != g.1)) {
        return Err(format!("fields {g:?}\nexpected {e:?}"));
    }
    Ok(())
}
fn group(r: Vec<String>, id: usize) -> Ob {
    send(Recipient::Group(r), id)
}
const MAIL: &[u8] = b"From: x@y.zz\r\nSubject: orig\r\n\r\nbody";

fn uris(name: &str, toks: Vec<&'static str>, n: usize) -> Box<dyn Suite> {
    let c = compiler();
    let sc = compile(&c, &format!("{REQN}notify \"${{global.u}}\";")).unwrap();
    let rt = runtime();
    let k = toks.len();
    radix(
        &format!("uris-{name}-{n}"),
        &format!("notify with mailto: and every sequence of up to {n} pieces from {}, against a reference reader of the URI: message, fields, recipients, acceptance by notify, by valid_notify_method and by the compiler", toks.join(" ")),
        vec![nwords(k, n) as usize],
        move |v, cx| {
            let t: String = word(k, v[0] as u64).iter().map(|&i| toks[i]).collect();
            let uri = format!("mailto:{t}");
            let u = Uri::parse(&t);
            cx.step(1);
            cx.trace();
            cx.state(&t);
            cx.outcome(&format!("{u:?}").len());
            let u2 = uri.clone();
            let got = run_with(
                &rt,
                &sc,
                MAIL,
                move |ctx: &mut Context| {
                    ctx.set_user_address("me@own.example");
                    ctx.set_global_variable("u", u2);
                },
                yes,
            );
            cx.sample(|| format!("{uri:?} -> {}", show_all(&got)));
            let bad = |w: String| Err(Fail::new("uri", format!("{uri:?}: {w}\nreference: {u:?}\n    {}", show_all(&got))));
            let sent = got.len() == 3;
            if validate_uri(&uri).is_some() != sent {
                return bad(format!("validate_uri says {:?}", validate_uri(&uri)));
            }
            if !sent {
                if got != [keep()] {
                    return bad("neither sent nor ignored".into());
                }
                return if u.as_ref().is_some_and(|u| !u.lax) { bad("not sent".into()) } else { Ok(()) };
            }
            let Some(u) = &u else { return bad("sent".into()) };
            let Ob::Ev(Event::CreatedMessage { message_id: 1, message }) = &got[0] else { return bad("no message".into()) };
            if got[2] != keep() {
                return bad("no keep".into());
            }
            if u.lax && u.to == ["?"] {
                return fields(message).map(|_| ()).or_else(bad);
            }
            if got[1] != group(u.recipients(), 1) {
                return bad(format!("recipients, expected {:?}", u.recipients()));
            }
            judge_message(message, u, &Want { from: "me@own.example", message: None, original: Some("orig"), importance: "" }).or_else(bad)
        },
    )
}
fn args() -> Box<dyn Suite> {
    let long = "\u{e9}".repeat(256);
    let longer = "\u{e9}".repeat(257);
    // (argument, value)
    let from: Vec<(&str, &str)> = vec![("", ""), (":from \"Boss <ME@own.example>\" ", "Boss <ME@own.example>"), (":from \"other@y.example\" ", "other@y.example"), (":from \"${global.f}\" ", "me@own.example\r\nBcc: z@z.zz\r\n")];
    let imp = [("", ""), (":importance \"1\" ", "1"), (":importance \"2\" ", "2"), (":importance \"${global.i}\" ", "3"), (":importance \"9\" ", "9")];
    let msg: Vec<(&str, Option<&str>)> = vec![("", None), (":message \"Hi\" ", Some("Hi")), (":message \"${global.m}\" ", Some("a\r\nX-Evil: 1\r\n\r\nb")), (":message \"${global.l}\" ", Some("L")), (":message \"${global.ll}\" ", Some("LL")), (":message \"\" ", Some(""))];
    let subj = [("", None), ("Subject: orig\r\n", Some("orig")), ("Subject: =?utf-8?Q?a=0D=0AX-Evil:_1=0D=0A=0D=0Ab?=\r\n", Some("a\r\nX-Evil: 1\r\n\r\nb"))];
    let opts: Vec<(&str, Vec<&str>)> = vec![("", vec![]), (":options \"a=b\" ", vec!["a=b"]), (":options [\"a=b\", \"${global.i}\"] ", vec!["a=b", "3"])];
    let fccs = [("", false), (":fcc \"Sent\" :flags [\"\\\\Seen\", \"x\"] :create :mailboxid \"id\" ", true)];
    // (text, value, kind: 0 mail, 1 other valid or computed, 2 nothing)
    let meth: Vec<(&str, &str, u8)> = vec![
        ("\"mailto:a@b.cc\"", "mailto:a@b.cc", 0),
        ("\"MAILTO:a@b.cc?Subject=uri%20s&body=uri%0D%0Ab&x-h=1\"", "MAILTO:a@b.cc?Subject=uri%20s&body=uri%0D%0Ab&x-h=1", 0),
        ("\"${global.u}\"", "mailto:?bcc=a@b.cc", 0),
        ("\"tel:+15551234\"", "tel:+15551234", 1),
        ("\"HTTPS://x.example/?a=b\"", "HTTPS://x.example/?a=b", 1),
        ("\"xmpp:a@b.cc?message;x=y\"", "xmpp:a@b.cc?message;x=y", 1),
        ("\"${global.n}\"", "no uri", 2),
        ("\"${global.e}\"", "mailto:", 2),
        ("\"${global.none}\"", "", 2),
    ];
    // (field, notification allowed)
    let auto = [("", true), ("Auto-Submitted: no\r\n", true), ("AUTO-submitted: No\r\n", true), ("Auto-Submitted: auto-generated\r\n", false), ("X-Auto-Submitted: auto-generated\r\n", true)];
    let names = [("", "me@own.example"), ("Me Myself", "\"Me Myself\" <me@own.example>"), ("Me \"M\\\"", "\"Me \\\"M\\\\\\\"\" <me@own.example>"), ("Me\\", "\"Me\\\\\" <me@own.example>")];
    let c = compiler();
    let rt = runtime();
    let dims = vec![from.len(), imp.len(), msg.len(), subj.len(), opts.len(), 2, meth.len(), auto.len(), names.len()];
    radix(
        "arguments",
        "every combination of :from, :importance, :message, :options, :fcc, method (mailto, other schemes, computed, invalid), original subject, Auto-Submitted and full name: exactly the prescribed events, message fields and body",
        dims,
        move |v, cx| {
            let (mt, mv, kind) = meth[v[6]];
            let fcc = fccs[v[5]].1;
            let t = format!("{REQN}notify {}{}{}{}{}{mt};", from[v[0]].0, imp[v[1]].0, msg[v[2]].0, opts[v[4]].0, fccs[v[5]].0);
            let m = format!("From: x@y.zz\r\n{}{}\r\nAuto-Submitted: auto-generated\r\n", subj[v[3]].0, auto[v[7]].0);
            cx.step(1);
            cx.trace();
            cx.state(&v);
            let (l, ll) = (long.clone(), longer.clone());
            let got = run_script(
                &c,
                &rt,
                &t,
                m.as_bytes(),
                |ctx: &mut Context| {
                    ctx.set_user_address("me@own.example");
                    ctx.set_user_full_name(names[v[8]].0);
                    for (n, v) in [("f", "me@own.example\r\nBcc: z@z.zz\r\n"), ("i", "3"), ("m", "a\r\nX-Evil: 1\r\n\r\nb"), ("l", &l), ("ll", &ll), ("u", "mailto:?bcc=a@b.cc"), ("n", "no uri"), ("e", "mailto:")] {
                        ctx.set_global_variable(n, v.to_string());
                    }
                },
                yes,
            );
            let bad = |w: String| Err(Fail::new("arguments", format!("{w}\n{t}\n{m:?}\n    {}", show_all(&got))));
            cx.outcome(&(got.len(), kind));
            if kind == 2 || !auto[v[7]].1 {
                return if got == [keep()] { Ok(()) } else { bad("no notification expected".into()) };
            }
            let message = match msg[v[2]].1 {
                Some("L") => Some(long.as_str()),
                Some("LL") => Some(longer.as_str()),
                x => x,
            };
            let mut g = &got[..];
            if kind == 0 || fcc {
                let Some(Ob::Ev(Event::CreatedMessage { message_id: 1, message: text })) = g.first() else { return bad("no message".into()) };
                g = &g[1..];
                let u = if kind == 0 { Uri::parse(&mv[7..]).unwrap() } else { Uri::default() };
                let own = from[v[0]].1.to_lowercase().contains("me@own.example");
                let w = Want { from: if own { from[v[0]].1 } else { names[v[8]].1 }, message, original: subj[v[3]].1, importance: imp[v[1]].1 };
                if let Err(e) = judge_message(text, &u, &w) {
                    return bad(e);
                }
            }
            let mut e = vec![];
            if kind == 0 {
                e.push(group(vec!["a@b.cc".into()], 1));
            } else {
                e.push(Ob::Ev(Event::Notify {
                    method: mv.into(),
                    from: (!from[v[0]].0.is_empty()).then(|| from[v[0]].1.to_string()),
                    importance: match imp[v[1]].1 {
                        "1" => Importance::High,
                        "3" => Importance::Low,
                        _ => Importance::Normal,
                    },
                    options: opts[v[4]].1.iter().map(|s| s.to_string()).collect(),
                    message: message.or(subj[v[3]].1).unwrap_or("").to_string(),
                }));
            }
            if fcc {
                e.push(Ob::Ev(Event::FileInto { folder: "Sent".into(), flags: vec!["\\Seen".into(), "x".into()], mailbox_id: Some("id".into()), special_use: None, create: true, message_id: 1 }));
            }
            e.push(keep());
            if g == e {
                Ok(())
            } else {
                bad(format!("expected\n    {}", show_all(&e)))
            }
        },
    )
}
fn limits(n: usize) -> Box<dyn Suite> {
    // (text, messages sent, "m" mail / "e" notification event / "r" redirect / "v" vacation, filed copies)
    const A: &[(&str, &str)] = &[
        ("notify \"mailto:a@b.cc\";", "m"),
        ("notify \"tel:+1\";", "e"),
        ("notify :fcc \"Sent\" \"mailto:a@b.cc\";", "mf"),
        ("notify :fcc \"Sent\" \"tel:+1\";", "nef"),
        ("notify \"${global.none}\";", ""),
        ("redirect :copy \"a@b.cc\";", "r"),
        ("vacation \"gone\";", "v"),
        ("addheader :last \"Auto-Submitted\" \"yes\";", "!"),
    ];
    let c = compiler();
    let rts: Vec<sieve::Runtime> = (0..5)
        .map(|i| {
            let mut r = runtime();
            r.set_max_redirects(9);
            r.set_max_out_messages(i);
            r
        })
        .collect();
    let mut d = vec![5];
    d.extend(vec![A.len() + 1; n]);
    radix(
        &format!("limits-{n}"),
        &format!("all sequences of up to {n} actions from {} (notifications by mail and otherwise, with and without a copy, redirect, vacation, marking the message as automatic) with a limit of 0..4 outgoing messages: what exceeds it produces nothing at all", A.len()),
        d,
        move |v, cx| {
            if v[1..].iter().skip_while(|&&i| i < A.len()).any(|&i| i < A.len()) {
                return Ok(());
            }
            let a: Vec<usize> = v[1..].iter().copied().filter(|&i| i < A.len()).collect();
            let mut out = v[0];
            let mut auto = false;
            let mut e = String::new();
            for &i in &a {
                let k = A[i].1;
                match k {
                    "" => (),
                    "!" => auto = true,
                    _ if out == 0 => (),
                    "r" => {
                        out -= 1;
                        e.push('r');
                    }
                    "v" => {
                        if !auto {
                            out -= 1;
                            e.push('v');
                        }
                    }
                    k => {
                        if !auto {
                            out -= 1;
                            e += k;
                        }
                    }
                }
            }
            cx.step(n as u64);
            cx.trace();
            cx.state(&v);
            cx.outcome(&e);
            let t = format!("{REQN}{}", a.iter().map(|&i| A[i].0).collect::<Vec<_>>().join(" "));
            let got = run_script(
                &c,
                &rts[v[0]],
                &t,
                b"To: me@own.example\r\nSubject: s\r\n\r\nx",
                |ctx: &mut Context| {
                    ctx.set_user_address("me@own.example");
                    ctx.set_envelope(Envelope::From, "x@y.zz");
                },
                |ev| Input::from(!matches!(ev, Event::DuplicateId { .. })),
            );
            // a message counts for what refers to it
            let mut g = String::new();
            let mut fresh = None;
            for (i, o) in got.iter().enumerate() {
                match o {
                    Ob::Ev(Event::CreatedMessage { message, message_id }) => {
                        let next = got.get(i + 1);
                        if String::from_utf8_lossy(message).contains("auto-notified") && matches!(next, Some(Ob::Ev(Event::Notify { .. }))) {
                            g.push('n');
                        }
                        fresh = Some(*message_id);
                    }
                    Ob::Ev(Event::SendMessage { recipient: Recipient::Group(_), message_id, .. }) if Some(*message_id) == fresh => g.push('m'),
                    Ob::Ev(Event::SendMessage { recipient: Recipient::Address(a), message_id, notify: Notify::Never, return_of_content: Ret::Default, by_time: ByTime::None }) if a == "x@y.zz" && Some(*message_id) == fresh => g.push('v'),
                    Ob::Ev(Event::SendMessage { .. }) => g.push('r'),
                    Ob::Ev(Event::Notify { .. }) => g.push('e'),
                    Ob::Ev(Event::FileInto { message_id, .. }) if Some(*message_id) == fresh => g.push('f'),
                    Ob::Ev(Event::DuplicateId { .. } | Event::Keep { .. }) => (),
                    _ => g.push('?'),
                }
            }
            if g == e && matches!(got.last(), Some(Ob::Ev(Event::Keep { .. }))) {
                Ok(())
            } else {
                Err(Fail::new("limits", format!("limit {}: {t}\nexpected {e:?}, got {g:?}\n    {}", v[0], show_all(&got))))
            }
        },
    )
}
pub fn property(thorough: bool) -> Property {
    let shape = vec!["a", "@", "b.cc", ",", "?", "&", "=", "to", "subject", "x-h", "%40", "%2C", "%"];
    let values = vec!["a@b.cc", "C@d", "A@B.CC", ",", "?", "&", "to=", "cc=", "BCC=", "subject=", "body=", "from=", "Auto-Submitted=", "date=", "x=", "v", "%0d%0aX-Evil:%20", "%3C", "%3E", "%20", "%c3%a9", "%ff"];
    Property {
        id: "C18",
        level: "model_checking",
        technique: "exhaustive enumeration of mailto URIs, arguments, action sequences and limits on the real interpreter, compared with a reference URI reader, an event model and a strict reader of the produced message",
        assumptions: vec![
            "%2C separates addresses like a comma, as in RFC 2368".into(),
            "unspecified and accepted either way: empty address lists, a comma at the end, an ampersand before the question mark, a question mark inside an address parameter".into(),
            "of repeated subject or body parameters the last counts, of repeated Date and Message-ID the first".into(),
        ],
        suites: vec![uris("shape", shape, if thorough { 6 } else { 5 }), uris("values", values, if thorough { 5 } else { 4 }), args(), limits(if thorough { 6 } else { 5 })],
    }
}
