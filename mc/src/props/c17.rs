use super::core::{compiler, q, runtime};
use crate::eng::*;
use crate::harness::*;
use sieve::compiler::grammar::actions::action_redirect::{ByTime, Notify, Ret};
use sieve::{Context, Envelope, Event, Input, Recipient};
use std::sync::Arc;

const REQV: &str = "require [\"vacation\", \"vacation-seconds\", \"variables\", \"fcc\", \"mailbox\", \"mailboxid\", \"special-use\", \"imap4flags\", \"editheader\", \"fileinto\", \"copy\", \"encoded-character\"];\n";

pub fn keep() -> Ob {
    Ob::Ev(Event::Keep { flags: vec![], message_id: 0 })
}
pub fn send(to: Recipient, id: usize) -> Ob {
    Ob::Ev(Event::SendMessage { recipient: to, notify: Notify::Never, return_of_content: Ret::Default, by_time: ByTime::None, message_id: id })
}

// ---------------------------------------------------------------- who gets a reply

/// (envelope sender, may get a reply)
const SENDERS: &[(&str, bool)] = &[
    ("joe@x.example", true),
    ("<Joe@X.example>", true),
    ("", false),
    ("<>", false),
    ("MAILER-DAEMON", false),
    ("mailer-daemon@x.example", false),
    ("MAILER-DAEMON@x.example", false),
    ("owner-list@x.example", false),
    ("Owner-list@x.example", false),
    ("list-request@x.example", false),
    ("list-REQUEST@x.example", false),
    ("me@own.example", false),
    ("ME@own.Example", false),
    ("alias@own.example", true), // unless it is one of the user's addresses
    ("downer-list@x.example", true),
    ("list-requests@x.example", true),
    ("request@x.example", true),
];
/// (header fields, user addresses named)
const RCPTS: &[(&str, &[&str])] = &[
    ("To: me@own.example\r\n", &["me@own.example"]),
    ("To: other@y.example\r\n", &[]),
    ("", &[]),
    ("To: \"Me\" <ME@OWN.example>, other@y.example\r\n", &["me@own.example"]),
    ("Cc: other@y.example, alias@own.example\r\n", &["alias@own.example"]),
    ("Bcc: group: other@y.example, me@own.example;\r\n", &["me@own.example"]),
    ("Resent-To: me@own.example\r\nTo: other@y.example\r\n", &["me@own.example"]),
    ("To: other@y.example\r\nResent-Cc: alias@own.example\r\n", &["alias@own.example"]),
    ("Resent-Bcc: me@own.example\r\n", &["me@own.example"]),
    ("From: me@own.example\r\nReply-To: me@own.example\r\nX-To: me@own.example\r\nTo: \"me@own.example\" <other@y.example>\r\n", &[]),
    ("To: other@y.example\r\nTo: alias@own.example\r\n", &["alias@own.example"]),
    ("To: orig@own.example\r\n", &["orig@own.example"]),
];
/// (header field, forbids a reply)
const MARKS: &[(&str, bool)] = &[
    ("", false),
    ("Auto-Submitted: no\r\n", false),
    ("Auto-Submitted: No\r\n", false),
    ("Auto-Submitted: auto-replied\r\n", true),
    ("AUTO-SUBMITTED: auto-generated\r\n", true),
    ("Auto-Submitted: auto-notified; owner-email=\"x@y.zz\"\r\n", true),
    ("List-Id: <l.x.example>\r\n", true),
    ("List-Post: NO\r\n", true),
    ("List-Archive: <http://x>\r\n", true),
    ("List-Help: <http://x>\r\n", true),
    ("List-Owner: <mailto:x@y.zz>\r\n", true),
    ("list-subscribe: <mailto:x@y.zz>\r\n", true),
    ("List-Unsubscribe: <mailto:x@y.zz>\r\n", true),
    ("X-List-Id: <l.x.example>\r\n", false),
    ("Precedence: bulk\r\n", true),
    ("precedence: LIST\r\n", true),
    ("Precedence: Junk\r\n", true),
    ("Precedence: first-class\r\n", false),
    ("X-Auto-Response-Suppress: OOF\r\n", true),
    ("X-Auto-Response-Suppress: All\r\n", true),
    ("x-auto-response-suppress: DR, oof, AutoReply\r\n", true),
    ("X-Auto-Response-Suppress: DR, RN\r\n", false),
    ("Subject: Auto-Submitted: auto-replied\r\n List-Id: x\r\n", false),
    ("X-Note: Precedence: bulk\r\n", false),
    ("X-Mood: junk\r\nComments: list\r\n", false),
    ("X-Precedence: bulk\r\nX-Mood: oof\r\nX-Submitted: auto-replied\r\n", false),
    ("Precedence: auto-replied\r\nPrecedence-Note: bulk\r\n", false),
    ("Auto-Submitted-By: auto-generated\r\nList: <x>\r\nAuto: auto-replied\r\n", false),
];
const ADDRS: &[(&str, &[&str])] = &[("", &[]), (":addresses \"alias@own.example\" ", &["alias@own.example"]), (":addresses [\"\", \"ALIAS@own.example\", \"orig@own.example\"] ", &["alias@own.example", "orig@own.example"])];

fn decide() -> Box<dyn Suite> {
    let c = compiler();
    let scs: Vec<_> = ADDRS.iter().map(|a| compile(&c, &format!("{REQV}vacation {}\"gone\";", a.0)).unwrap()).collect();
    let rts: Vec<sieve::Runtime> = (0..2)
        .map(|i| {
            let mut r = runtime();
            r.set_vacation_use_orig_rcpt(i == 1);
            r
        })
        .collect();
    const TO: [&str; 3] = ["", "me@own.example", "<Alias@own.example>"];
    const ORCPT: [&str; 2] = ["", "orig@own.example"];
    const USER: [&str; 2] = ["", "Me@own.example"];
    radix(
        "decide",
        &format!("every combination of {} senders, {} recipient headers, {} marks (automatic, list, bulk and look-alikes), :addresses, envelope recipient, original recipient with and without its use, and user address", SENDERS.len(), RCPTS.len(), MARKS.len()),
        vec![SENDERS.len(), RCPTS.len(), MARKS.len(), ADDRS.len(), TO.len(), ORCPT.len(), USER.len(), 2],
        move |v, cx| {
            let (from, ok) = SENDERS[v[0]];
            let (rc, named) = RCPTS[v[1]];
            let (mark, bad) = MARKS[v[2]];
            let strip = |t: &str| t.trim_matches(['<', '>']).to_lowercase();
            let mut own: Vec<String> = ADDRS[v[3]].1.iter().map(|a| a.to_string()).collect();
            let rcpt = if v[7] == 1 { ORCPT[v[5]] } else { TO[v[4]] };
            for a in [rcpt, USER[v[6]]] {
                if !a.is_empty() {
                    own.push(strip(a));
                }
            }
            let sender = strip(from);
            // the table's own-address senders are judged by the addresses of this case
            let ok = if sender.ends_with("@own.example") { !own.contains(&sender) } else { ok };
            let reply = ok && !bad && named.iter().any(|n| own.contains(&n.to_string()));
            let m = format!("{mark}{rc}Subject: s\r\n\r\nList-Id: in the body\r\n");
            cx.step(1);
            cx.trace();
            cx.state(&v);
            cx.outcome(&reply);
            let got = run_with(
                &rts[v[7]],
                &scs[v[3]],
                m.as_bytes(),
                |ctx: &mut Context| {
                    ctx.set_envelope(Envelope::From, from);
                    if !TO[v[4]].is_empty() {
                        ctx.set_envelope(Envelope::To, TO[v[4]]);
                    }
                    if !ORCPT[v[5]].is_empty() {
                        ctx.set_envelope(Envelope::Orcpt, ORCPT[v[5]]);
                    }
                    ctx.set_user_address(USER[v[6]]);
                },
                |ev| match ev {
                    Event::DuplicateId { .. } => Input::False,
                    _ => Input::True,
                },
            );
            let good = if reply {
                got.len() == 4
                    && matches!(&got[0], Ob::Ev(Event::DuplicateId { .. }))
                    && matches!(&got[1], Ob::Ev(Event::CreatedMessage { message_id: 1, .. }))
                    && matches!(&got[2], Ob::Ev(Event::SendMessage { recipient: Recipient::Address(a), message_id: 1, .. }) if a.eq_ignore_ascii_case(&sender))
                    && got[3] == keep()
            } else {
                got == [keep()]
            };
            if good {
                Ok(())
            } else {
                Err(Fail::new(
                    "decide",
                    format!("reply expected: {reply}; from {from:?} to {:?} orcpt {:?} (use: {}) user {:?} {}\n{m}\n    {}", TO[v[4]], ORCPT[v[5]], v[7], USER[v[6]], ADDRS[v[3]].0, show_all(&got)),
                ))
            }
        },
    )
}
/// marks in any number and order around the recipient, hop counts, limits, host answers
fn many(n: usize) -> Box<dyn Suite> {
    let sc = compile(&compiler(), &format!("{REQV}vacation \"gone\";")).unwrap();
    let mut f: Vec<(&str, bool, bool)> = MARKS[1..].iter().map(|m| (m.0, m.1, false)).collect();
    f.push(("To: me@own.example\r\n", false, true));
    f.push(("To: other@y.example\r\n", false, false));
    f.push(("From: joe@x.example\r\n", false, false));
    let rt = runtime();
    radix(
        &format!("marks-{n}"),
        &format!("every header made of up to {n} of {} fields in every order: one forbidding field anywhere is enough, and the user has to be a recipient", f.len()),
        vec![f.len() + 1; n],
        move |v, cx| {
            if v.iter().skip_while(|&&i| i < f.len()).any(|&i| i < f.len()) {
                return Ok(());
            }
            let fs: Vec<_> = v.iter().filter(|&&i| i < f.len()).map(|&i| f[i]).collect();
            let reply = fs.iter().any(|x| x.2) && !fs.iter().any(|x| x.1);
            let m: String = fs.iter().map(|x| x.0).collect::<String>() + "\r\nx";
            cx.step(n as u64);
            cx.trace();
            cx.state(&m);
            cx.outcome(&reply);
            let got = run_with(&rt, &sc, m.as_bytes(), prep, |ev| Input::from(!matches!(ev, Event::DuplicateId { .. })));
            let sends = got.iter().any(|o| matches!(o, Ob::Ev(Event::SendMessage { .. })));
            if sends == reply && got.last() == Some(&keep()) && got.len() == if reply { 4 } else { 1 } {
                Ok(())
            } else {
                Err(Fail::new("decide", format!("reply expected: {reply}\n{m}\n    {}", show_all(&got))))
            }
        },
    )
}
fn prep(ctx: &mut Context) {
    ctx.set_user_address("me@own.example");
    ctx.set_envelope(Envelope::From, "joe@x.example");
    ctx.set_envelope(Envelope::To, "me@own.example");
}
fn hops() -> Box<dyn Suite> {
    let c = compiler();
    let rts: Vec<sieve::Runtime> = (0..5)
        .map(|i| {
            let mut r = runtime();
            r.set_max_received_headers(i);
            r.set_max_out_messages(2);
            r.set_max_redirects(1);
            r
        })
        .collect();
    radix(
        "hops-and-limits",
        "0..6 Received fields against a limit of 0..4 hops, 0..3 messages sent before, two vacation actions in a row, every host answer for each: a reply at the limit or after too many hops is not even asked about, an answered question decides, the keep stays",
        vec![7, 5, 4, 2, 2],
        move |v, cx| {
            let m = "Received: x\r\n".repeat(v[0]) + "To: me@own.example\r\n\r\nx";
            let pre = "redirect :copy \"a@b.cc\";".repeat(v[2]);
            let t = format!("{REQV}{pre}vacation \"one\"; vacation :handle \"h\" \"two\";");
            // redirects need fewer Received fields than the limit, at most one redirect is allowed
            let mut out = if v[2] > 0 && v[0] < v[1] { 1 } else { 0 };
            let mut e: Vec<&str> = vec![];
            if out == 1 {
                e.push("send");
            }
            for a in [v[3], v[4]] {
                if out < 2 && v[0] <= v[1] {
                    e.push("ask");
                    if a == 0 {
                        out += 1;
                        e.push("new");
                        e.push("send");
                    }
                }
            }
            e.push("keep");
            let mut k = 0;
            cx.step(3);
            cx.trace();
            cx.state(&v);
            cx.outcome(&e);
            let got = run_script(&c, &rts[v[1]], &t, m.as_bytes(), prep, |ev| match ev {
                Event::DuplicateId { .. } => {
                    k += 1;
                    Input::from(v[2 + k] == 1)
                }
                _ => Input::True,
            });
            let g: Vec<&str> = got
                .iter()
                .map(|o| match o {
                    Ob::Ev(Event::SendMessage { .. }) => "send",
                    Ob::Ev(Event::DuplicateId { .. }) => "ask",
                    Ob::Ev(Event::CreatedMessage { .. }) => "new",
                    Ob::Ev(Event::Keep { .. }) => "keep",
                    _ => "other",
                })
                .collect();
            if g == e {
                Ok(())
            } else {
                Err(Fail::new("limits", format!("{} Received, limit {}, {t}\nexpected {e:?}\n    {}", v[0], v[1], show_all(&got))))
            }
        },
    )
}

// ---------------------------------------------------------------- the question

fn question() -> Box<dyn Suite> {
    // (text after vacation, what the question depends on besides the sender)
    let mut s: Vec<(String, String, Option<u64>)> = vec![];
    for (ht, hv) in [("", ""), (":handle \"h1\" ", "h1"), (":handle \"h2\" ", "h2"), (":handle \"\" ", ""), (":handle \"${global.h}\" ", "HH")] {
        for (rt_, rv) in [("\"r1\"", "r1"), ("\"r2\"", "r2"), ("\"R1\"", "R1"), ("\"${global.h} x\"", "HH x"), ("text:\r\nr1\r\n.\r\n", "r1\r\n")] {
            for (pt, pv) in [("", None), (":days 1 ", Some(86400)), (":days 7 ", Some(7 * 86400)), (":seconds 1800 ", Some(1800)), (":days 0 ", Some(0)), (":days 18446744073709551614 ", Some(u64::MAX)), (":seconds 4G ", Some(4 << 30))] {
                for o in ["", ":subject \"sub\" ", ":from \"me@own.example\" :mime ", ":addresses [\"z@own.example\"] "] {
                    let key = if ht.is_empty() { rv } else { hv };
                    s.push((format!("{o}{pt}{ht}{rt_}"), key.to_string(), pv));
                    if !pt.is_empty() && o.is_empty() {
                        s.push((format!("{ht}{pt}{rt_}"), key.to_string(), pv));
                    }
                }
            }
        }
    }
    let senders = ["joe@x.example", "JOE@x.example", "ann@x.example", "joe@x.org"];
    let defaults = [3600u64, 30 * 86400];
    let c = compiler();
    let rts: Vec<sieve::Runtime> = defaults
        .iter()
        .map(|d| {
            let mut r = runtime();
            r.set_default_vacation_expiry(*d);
            r
        })
        .collect();
    let ask = move |i: usize, sender: usize, d: usize, rts: &[sieve::Runtime], c: &sieve::Compiler, s: &[(String, String, Option<u64>)], mail: &[u8]| -> Result<(String, u64), String> {
        let got = run_script(
            c,
            &rts[d],
            &format!("{REQV}vacation {};", s[i].0),
            mail,
            |ctx: &mut Context| {
                ctx.set_user_address("me@own.example");
                ctx.set_envelope(Envelope::From, senders[sender]);
                ctx.set_global_variable("h", "HH");
            },
            yes,
        );
        match &got[..] {
            [Ob::Ev(Event::DuplicateId { id, expiry, last: false }), k] if *k == keep() => Ok((id.clone(), *expiry)),
            _ => Err(show_all(&got)),
        }
    };
    let m1: &[u8] = b"To: me@own.example\r\nSubject: s\r\nFrom: a@b.cc\r\n\r\nx";
    let m2: &[u8] = b"To: me@own.example\r\nSubject: other\r\nMessage-ID: <x@y>\r\nFrom: z@b.cc\r\n\r\nother";
    // the identity asked about: the same for the same key, different for different keys
    let mut ids: Vec<Result<(String, u64), String>> = vec![];
    for i in 0..s.len() {
        for w in 0..senders.len() {
            ids.push(ask(i, w, 0, &rts, &c, &s, m1));
        }
    }
    let ns = senders.len();
    let n = s.len();
    let key = {
        let s = s.clone();
        move |i: usize, w: usize| (senders[w].to_lowercase(), s[i].1.clone())
    };
    radix(
        "question",
        &format!("{n} argument lists (handle, reason, period and unrelated arguments) x {ns} senders x two messages x two default periods: the period is the given one, and the identities of any two questions agree exactly if sender and handle (or, without one, reason) agree (checked against all {} others)", n * ns),
        vec![n, ns, 2],
        move |v, cx| {
            let (i, w) = (v[0], v[1]);
            cx.step(1);
            cx.trace();
            cx.state(&v);
            let desc = format!("vacation {}; from {}", s[i].0, senders[w]);
            let (id, exp) = ask(i, w, v[2], &rts, &c, &s, if v[2] == 1 { m2 } else { m1 }).map_err(|e| Fail::new("question", format!("{desc}\n    {e}")))?;
            cx.outcome(&(&id, exp));
            let e = s[i].2.unwrap_or(defaults[v[2]]);
            if exp != e {
                return Err(Fail::new("period", format!("{desc}: period {exp}, expected {e}")));
            }
            for j in 0..n {
                for x in 0..ns {
                    if let Ok((o, _)) = &ids[j * ns + x] {
                        if (*o == id) != (key(i, w) == key(j, x)) {
                            return Err(Fail::new("identity", format!("{desc}: {id:?}\nvacation {}; from {}: {o:?}", s[j].0, senders[x])));
                        }
                    }
                }
            }
            Ok(())
        },
    )
}

// ---------------------------------------------------------------- the reply

/// Strict reader of a produced header: fields in order (name, value with folding undone), and the body.
pub fn fields(m: &[u8]) -> Result<(Vec<(String, String)>, Vec<u8>), String> {
    let mut f: Vec<(String, String)> = vec![];
    let mut i = 0;
    loop {
        let e = m[i..].windows(2).position(|w| w == b"\r\n").ok_or("no end of the header")? + i;
        let l = &m[i..e];
        i = e + 2;
        if l.is_empty() {
            return Ok((f, m[i..].to_vec()));
        }
        let l = String::from_utf8_lossy(l).into_owned();
        if l.contains(['\r', '\n']) {
            return Err(format!("bare line break in {l:?}"));
        }
        if l.starts_with([' ', '\t']) {
            f.last_mut().ok_or("folded first line")?.1 += &l;
        } else {
            let (n, v) = l.split_once(':').ok_or(format!("no field: {l:?}"))?;
            if n.is_empty() || n.chars().any(|c| !c.is_ascii_graphic()) {
                return Err(format!("bad field name: {l:?}"));
            }
            f.push((n.to_string(), v.to_string()));
        }
    }
}
pub fn squash(t: &str) -> String {
    t.split(|c: char| c.is_whitespace() || c.is_control()).filter(|x| !x.is_empty()).collect::<Vec<_>>().join(" ")
}
fn reply() -> Box<dyn Suite> {
    let long = "x".repeat(300);
    // (original field, decoded subject)
    let mut subj: Vec<(String, Option<String>)> = vec![
        (String::new(), None),
        ("Subject: Hello\r\n".into(), Some("Hello".into())),
        ("Subject: two\r\n lines\r\n".into(), Some("two lines".into())),
        ("Subject: =?utf-8?Q?caf=C3=A9?=\r\n".into(), Some("caf\u{e9}".into())),
        ("Subject: =?utf-8?Q?a=0D=0AX-Evil:_1=0D=0A=0D=0Ab?=\r\n".into(), Some("a X-Evil: 1 b".into())),
        (format!("Subject: {long}\r\n"), Some(long.clone())),
        (format!("Subject: {}\r\n", "\u{e9}".repeat(252)), Some("\u{e9}".repeat(252))),
        (format!("Subject: {}\r\n", "\u{e9}".repeat(253)), Some("\u{e9}".repeat(253))),
        ("Subject:\r\n".into(), None),
    ];
    subj.dedup();
    // (argument, value)
    let args: Vec<(&str, Option<String>)> = vec![
        ("", None),
        (":subject \"Away\" ", Some("Away".into())),
        (":subject \"${global.evil}\" ", Some("a X-Evil: 1 Bcc: z@z.zz".into())),
        (":subject \"\" ", None),
        (":subject \"a${hex: 0d 0a}b\" ", Some("a b".into())),
    ];
    // (fields, whole To value when it is copied)
    let from: Vec<(&str, Option<&str>)> = vec![
        ("", None),
        ("From: Joe <joe@x.example>\r\n", Some("Joe <joe@x.example>")),
        ("From: \"Joe\r\n Doe\"\r\n\t<JOE@x.example>\r\n", Some("\"Joe Doe\" <JOE@x.example>")),
        ("From: other@y.example\r\n", None),
        ("From: joe@x.example, other@y.example\r\n", None),
        ("From: other@y.example\r\nSender: joe@x.example\r\n", Some("joe@x.example")),
        ("From: Joe\r\n \r\n <joe@x.example>\n", Some("Joe <joe@x.example>")),
    ];
    // (fields, message id, old references)
    let refs: Vec<(&str, Option<&str>, &str)> = vec![
        ("", None, ""),
        ("Message-ID: <m1@x>\r\n", Some("m1@x"), ""),
        ("References: <r1@x> <r2@x>\r\nMessage-ID: <m1@x>\r\n", Some("m1@x"), "<r1@x> <r2@x>"),
        ("Message-ID: <m1@x>\r\nReferences: <r1@x>\r\n <r2@x>\r\n\t<r3@x>\r\n", Some("m1@x"), "<r1@x> <r2@x> <r3@x>"),
        ("References: <r1@x>\r\n", None, "<r1@x>"),
        ("Message-ID: <m1@x>\r\nReferences: <r1@x>\n", Some("m1@x"), "<r1@x>"),
        ("Message-ID: <m1@x>\r\nReferences:\r\n", Some("m1@x"), ""),
    ];
    // (argument, full name, From)
    let me: Vec<(&str, &str, &str)> = vec![
        ("", "", "me@own.example"),
        ("", "Me Myself", "\"Me Myself\" <me@own.example>"),
        (":from \"Boss <boss@own.example>\" ", "Me", "Boss <boss@own.example>"),
        (":from \"${global.evil}\" ", "", "a X-Evil: 1 Bcc: z@z.zz"),
    ];
    // (argument, reason)
    let body: Vec<(&str, bool, &str)> = vec![
        ("\"gone\"", false, "gone"),
        ("text:\r\nline 1\r\n..\r\n.\r\n", false, "line 1\r\n.\r\n"),
        (":mime \"Content-Type: text/html\r\nX-Own: 1\r\n\r\n<p>\"", true, "Content-Type: text/html\r\nX-Own: 1\r\n\r\n<p>"),
        ("\"${global.evil}\"", false, "a\r\nX-Evil: 1\r\n Bcc: z@z.zz\r\n"),
    ];
    // last part of the original message
    let ends = ["\r\nbody", "", "\r\n"];
    let prefixes = [("Auto: ", "Automated reply"), ("", "Away \u{2013} gone")];
    let rts: Vec<sieve::Runtime> = prefixes
        .iter()
        .map(|p| {
            let mut r = runtime();
            r.set_vacation_subject_prefix(p.0);
            r.set_vacation_default_subject(p.1);
            r
        })
        .collect();
    let c = compiler();
    let dims = vec![subj.len(), args.len(), from.len(), refs.len(), me.len(), body.len(), ends.len(), 2];
    radix(
        "reply",
        "every combination of original subject (none, folded, encoded with line breaks, too long), :subject, From/Sender, Message-ID/References (folded, bare LF, last line without line end), :from, full name, reason (plain, multi-line, :mime), message without body or cut off in the header, prefix and default subject: the reply has exactly the prescribed fields in a well-formed header, the given body and one recipient",
        dims,
        move |v, cx| {
            let m = format!("To: me@own.example\r\n{}{}{}{}", subj[v[0]].0, from[v[2]].0, refs[v[3]].0, ends[v[6]]);
            if v[6] == 1 && !refs[v[3]].0.lines().last().is_some_and(|l| l.starts_with("References")) {
                return Ok(()); // the mail parser loses other fields that are cut off
            }
            let m = if v[6] == 1 { m.trim_end().to_string() } else { m };
            let t = format!("{REQV}vacation {}{}{};", args[v[1]].0, me[v[4]].0, body[v[5]].0);
            cx.step(1);
            cx.trace();
            cx.state(&v);
            let got = run_script(
                &c,
                &rts[v[7]],
                &t,
                m.as_bytes(),
                |ctx: &mut Context| {
                    prep(ctx);
                    ctx.set_user_full_name(me[v[4]].1);
                    ctx.set_global_variable("evil", "a\r\nX-Evil: 1\r\n Bcc: z@z.zz\r\n");
                },
                |ev| Input::from(!matches!(ev, Event::DuplicateId { .. })),
            );
            let bad = |w: String| Err(Fail::new("reply", format!("{w}\n{t}\n{m:?}\n    {}", show_all(&got))));
            let msg = match &got[..] {
                [Ob::Ev(Event::DuplicateId { .. }), Ob::Ev(Event::CreatedMessage { message_id: 1, message }), s, k] if *k == keep() && *s == send(Recipient::Address("joe@x.example".into()), 1) => message,
                _ => return bad("expected question, message, one recipient, keep".into()),
            };
            let mime = body[v[5]].1;
            let (mut f, b) = match fields(msg) {
                Ok(r) => r,
                Err(e) => return bad(e),
            };
            if b != body[v[5]].2.as_bytes() && !mime {
                return bad(format!("body {:?}", String::from_utf8_lossy(&b)));
            }
            if mime {
                // the reason supplies the last fields and the body
                if b != b"<p>" || f.len() < 2 || f[f.len() - 2..] != [("Content-Type".to_string(), " text/html".to_string()), ("X-Own".to_string(), " 1".to_string())] {
                    return bad("mime reason".into());
                }
                f.truncate(f.len() - 2);
            }
            let subject = match (&args[v[1]].1, &subj[v[0]].1) {
                (Some(s), _) => s.clone(),
                (None, Some(s)) => {
                    let full: Vec<char> = format!("{}{s}", prefixes[v[7]].0).chars().collect();
                    // the limit applies to the text before line breaks are made harmless, only long texts come near it
                    let mut t: String = full.iter().take(256).collect();
                    if full.len() > 256 {
                        t.push('\u{2026}');
                    }
                    if t.is_empty() { prefixes[v[7]].1.to_string() } else { t }
                }
                (None, None) => prefixes[v[7]].1.to_string(),
            };
            let mut e: Vec<(&str, Option<String>)> = vec![("From", Some(me[v[4]].2.to_string())), ("To", Some(from[v[2]].1.unwrap_or("joe@x.example").to_string())), ("Subject", Some(subject))];
            if let Some(id) = refs[v[3]].1 {
                e.push(("In-Reply-To", Some(format!("<{id}>"))));
                e.push(("References", Some(format!("{} <{id}>", refs[v[3]].2))));
            }
            e.extend([("Date", None), ("Message-ID", None), ("Auto-Submitted", Some("auto-replied".to_string()))]);
            if !mime {
                e.push(("Content-type", Some("text/plain; charset=utf-8".to_string())));
            }
            // the order of fields carries no meaning
            let mut f2: Vec<(String, String)> = f.iter().map(|(n, v)| (n.to_lowercase(), squash(v))).collect();
            f2.sort();
            let mut e2: Vec<(String, Option<String>)> = e.iter().map(|(n, v)| (n.to_lowercase(), v.as_deref().map(squash))).collect();
            e2.sort();
            cx.outcome(&e2);
            if f2.len() != e2.len() || f2.iter().zip(&e2).any(|((n, v), (m, w))| n != m || w.as_ref().map_or(v.is_empty(), |w| w != v)) {
                return bad(format!("fields {f2:?}\nexpected {e2:?}"));
            }
            let d = f.iter().find(|x| x.0.eq_ignore_ascii_case("date")).unwrap();
            let id = f.iter().find(|x| x.0.eq_ignore_ascii_case("message-id")).unwrap();
            if mail_parser::DateTime::parse_rfc822(d.1.trim()).is_none() || !(id.1.trim().starts_with('<') && id.1.trim().ends_with('>') && id.1.contains('@')) {
                return bad(format!("date or message id: {d:?} {id:?}"));
            }
            Ok(())
        },
    )
}
/// the copy of the reply
fn fcc() -> Box<dyn Suite> {
    let c = compiler();
    let rt = runtime();
    let flags: [(&str, Vec<String>); 3] = [("", vec![]), (":flags \"\\\\Seen\" ", vec!["\\Seen".into()]), (":flags [\"a\", \"${global.f}\"] ", vec!["a".into(), "b".into(), "c".into()])];
    let create = [("", false), (":create ", true)];
    let su = [("", None), (":specialuse \"\\\\Sent\" ", Some("\\Sent".to_string()))];
    let mid = [("", None), (":mailboxid \"${global.f}\" ", Some("b c".to_string()))];
    let boxes = [("\"Sent\"", "Sent"), ("\"x${global.f}\"", "xb c")];
    radix(
        "fcc",
        "every combination of :fcc mailbox, :flags, :create, :specialuse and :mailboxid, with and without an answer that a reply was sent: the copy is filed exactly with them, after the reply was sent, and only if it was sent",
        vec![flags.len(), create.len(), su.len(), mid.len(), boxes.len(), 2, 2],
        move |v, cx| {
            let opts = [flags[v[0]].0, create[v[1]].0, su[v[2]].0, mid[v[3]].0];
            let mut o: Vec<String> = opts.iter().map(|s| s.to_string()).collect();
            o.push(format!(":fcc {} ", boxes[v[4]].0));
            if v[6] == 1 {
                o.reverse();
            }
            let t = format!("{REQV}setflag \"zz\"; vacation {}\"gone\";", o.concat());
            cx.step(1);
            cx.trace();
            cx.state(&t);
            let got = run_script(
                &c,
                &rt,
                &t,
                b"To: me@own.example\r\n\r\nx",
                |ctx: &mut Context| {
                    prep(ctx);
                    ctx.set_global_variable("f", "b c");
                },
                |ev| Input::from(!matches!(ev, Event::DuplicateId { .. }) || v[5] == 1),
            );
            let k = Ob::Ev(Event::Keep { flags: vec!["zz".into()], message_id: 0 });
            let e: Vec<Ob> = if v[5] == 1 {
                vec![k]
            } else {
                let mut fl = flags[v[0]].1.clone();
                if fl.is_empty() && !flags[v[0]].0.is_empty() {
                    fl = vec![];
                }
                vec![
                    send(Recipient::Address("joe@x.example".into()), 1),
                    Ob::Ev(Event::FileInto { folder: boxes[v[4]].1.into(), flags: fl, mailbox_id: mid[v[3]].1.clone(), special_use: su[v[2]].1.clone(), create: create[v[1]].1, message_id: 1 }),
                    k,
                ]
            };
            let g: Vec<Ob> = got.iter().filter(|o| !matches!(o, Ob::Ev(Event::DuplicateId { .. } | Event::CreatedMessage { .. }))).cloned().collect();
            cx.outcome(&show_all(&e));
            // without :flags the copy has no flags of its own or those of the script (unspecified)
            let mut e2 = e.clone();
            if flags[v[0]].0.is_empty() && v[5] == 0 {
                if let Ob::Ev(Event::FileInto { flags, .. }) = &mut e2[1] {
                    *flags = vec!["zz".into()];
                }
            }
            if g == e || g == e2 {
                Ok(())
            } else {
                Err(Fail::new("fcc", format!("{t}\n{}", diff(&e, &got))))
            }
        },
    )
}
pub fn property(thorough: bool) -> Property {
    let _: Option<Arc<()>> = None;
    let _ = q;
    Property {
        id: "C17",
        level: "model_checking",
        technique: "exhaustive enumeration of senders, recipients, headers, arguments, limits and host answers on the real interpreter, compared with a decision model and a strict reader of the reply",
        assumptions: vec![
            "the identity asked about is the sender followed by handle or reason (pinned by the tests); pairs whose concatenations coincide are not enumerated".into(),
            "a reply is allowed up to and including the configured number of Received fields".into(),
            "with :mime the reason supplies the content fields itself".into(),
        ],
        suites: vec![decide(), many(if thorough { 5 } else { 4 }), hops(), question(), reply(), fcc()],
    }
}
