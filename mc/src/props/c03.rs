use super::core::{compiler, runtime, REQ};
use crate::eng::*;
use crate::harness::*;
use sieve::{Compiler, Context, Envelope, Event, Recipient, Runtime};
use std::collections::HashMap;
use std::sync::RwLock;

const MSG: &str = "From: sender@else.example\r\nTo: me@my.example\r\nSubject: hello\r\nS: s\r\nMessage-ID: <1@x>\r\nMIME-Version: 1.0\r\nContent-Type: multipart/mixed; boundary=b1\r\n\r\n--b1\r\nContent-Type: text/plain\r\nX-Id: 1\r\n\r\none\r\n--b1\r\nContent-Type: text/html\r\nX-Id: 2\r\n\r\n<b>two</b>\r\n--b1--\r\n";

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum K {
    /// changes the message (index of the edit), or leaves it
    Edit(usize),
    Nop,
    Keep,
    File(bool),
    Redirect(bool),
    Vacation,
    Notify,
    Discard,
    Error,
    Stop,
    /// file carbon copies of what was sent
    VacationFcc,
    Reject,
}
const REQ2: &str = "require [\"vacation\", \"fcc\", \"enotify\", \"replace\", \"enclose\", \"extracttext\", \"convert\", \"mime\", \"foreverypart\", \"editheader\", \"reject\"];\n";
const EDITS: [&str; 6] = [
    "addheader \"X\" \"1\";",
    "deleteheader \"S\";",
    "foreverypart { if header :mime \"X-Id\" \"1\" { replace \"new text\"; } }",
    "enclose :subject \"enc\" \"see below\";",
    "foreverypart { if header :mime \"X-Id\" \"2\" { addheader \"X-P\" \"2\"; } }",
    "if convert \"text/html\" \"text/plain\" [\"x\"] { } deleteheader :mime :anychild \"X-P\";",
];
fn stmts() -> Vec<(&'static str, K)> {
    let mut v: Vec<(&'static str, K)> = EDITS[..5].iter().enumerate().map(|(i, e)| (*e, K::Edit(i))).collect();
    v.extend([
        ("deleteheader \"none\"; addheader \"Original-Subject\" \"x\";", K::Nop),
        ("keep;", K::Keep),
        ("fileinto \"a\";", K::File(false)),
        ("fileinto :copy \"b\";", K::File(true)),
        ("redirect \"r@r.example\";", K::Redirect(false)),
        ("redirect :copy \"q@r.example\";", K::Redirect(true)),
        ("vacation \"away\";", K::Vacation),
        ("vacation :fcc \"sent\" \"away\";", K::VacationFcc),
        ("notify \"mailto:n@n.example\";", K::Notify),
        ("discard;", K::Discard),
        ("error \"e\";", K::Error),
        ("stop;", K::Stop),
        ("reject \"no\";", K::Reject),
    ]);
    v
}
fn rt() -> Runtime {
    let mut r = super::known::runtime(runtime());
    r.set_max_redirects(20);
    r.set_max_out_messages(40);
    r
}
fn prep<'a>(ctx: &mut Context<'a>) {
    ctx.set_envelope(Envelope::From, "sender@else.example");
    ctx.set_envelope(Envelope::To, "me@my.example");
    ctx.set_user_address("me@my.example");
}
/// the message after these edits: what a script of only these edits keeps
fn content(cache: &RwLock<HashMap<Vec<usize>, Vec<u8>>>, c: &Compiler, rt: &Runtime, edits: &[usize]) -> Vec<u8> {
    if let Some(v) = cache.read().unwrap().get(edits) {
        return v.clone();
    }
    let t = format!("{REQ}{REQ2}{}", edits.iter().map(|&e| EDITS[e]).collect::<Vec<_>>().join("\n"));
    let got = scrub_obs(run_script(c, rt, &t, MSG.as_bytes(), prep, yes));
    let v = match &got[..] {
        [Ob::Ev(Event::CreatedMessage { message, .. }), Ob::Ev(Event::Keep { .. })] => message.clone(),
        [Ob::Ev(Event::Keep { .. })] => MSG.as_bytes().to_vec(),
        _ => format!("unexpected {}", show_all(&got)).into_bytes(),
    };
    cache.write().unwrap().insert(edits.to_vec(), v.clone());
    v
}
/// what is expected: announcements and references
#[derive(Debug, Clone, PartialEq)]
enum X {
    New(usize, Option<Vec<usize>>),
    Ref(&'static str, usize),
    Other(&'static str),
}
fn sequences(depth: usize) -> Box<dyn Suite> {
    let c = compiler();
    let rt = rt();
    let st = stmts();
    let n = st.len();
    let cache = RwLock::new(HashMap::new());
    radix(
        &format!("sequences-{depth}"),
        &format!("all sequences of {depth} of {n} statements: edits of the message (header of the whole or of a part, replacing a part, enclosing, no effect), keep, fileinto and redirect with and without :copy, vacation with and without :fcc, notify, discard, reject, error, stop; vacation and notify only answer the unedited fields"),
        vec![n; depth],
        move |v, cx| {
            let mut t = format!("{REQ}{REQ2}");
            let mut edits: Vec<usize> = vec![];
            let mut announced: Vec<usize> = vec![];
            let (mut last, mut cur) = (0usize, 0usize);
            let mut keep = true;
            let mut explicit = false;
            let mut want: Vec<X> = vec![];
            let mut enclosed = false;
            let mut sent = 0;
            for &i in v {
                let (s, k) = st[i];
                t += s;
                t += "\n";
                if want.contains(&X::Other("stop")) {
                    continue;
                }
                // announces the message if it changed
                let announce = |edits: &Vec<usize>, announced: &mut Vec<usize>, last: &mut usize, cur: &mut usize, want: &mut Vec<X>| {
                    if edits != announced {
                        *last += 1;
                        *cur = *last;
                        *announced = edits.clone();
                        want.push(X::New(*cur, Some(edits.clone())));
                    }
                };
                match k {
                    K::Edit(e) => {
                        // deleting what is gone changes nothing; parts are looked for by their own fields
                        let inside = e == 2 || e == 4;
                        let nothing = e == 1 && (edits.contains(&1) || enclosed) || inside && enclosed;
                        if enclosed && inside {
                            return Ok(()); // edits of parts of an enclosed message belong to C14
                        }
                        if inside && e == 4 && edits.contains(&2) {
                            // another part, still there
                        }
                        if e == 2 && edits.contains(&2) {
                            return Ok(()); // the replaced part has lost its mark
                        }
                        if e == 3 {
                            enclosed = true;
                        }
                        if !nothing {
                            edits.push(e);
                        }
                    }
                    K::Nop => {}
                    K::Keep => {
                        announce(&edits, &mut announced, &mut last, &mut cur, &mut want);
                        keep = true;
                        explicit = true;
                    }
                    K::File(copy) => {
                        announce(&edits, &mut announced, &mut last, &mut cur, &mut want);
                        want.push(X::Ref(if copy { "b" } else { "a" }, cur));
                        if !copy && !explicit {
                            keep = false;
                        }
                    }
                    K::Redirect(copy) => {
                        announce(&edits, &mut announced, &mut last, &mut cur, &mut want);
                        want.push(X::Ref(if copy { "q@r.example" } else { "r@r.example" }, cur));
                        if !copy && !explicit {
                            keep = false;
                        }
                    }
                    K::Vacation | K::VacationFcc => {
                        // an enclosed message is addressed to nobody
                        if enclosed {
                            continue;
                        }
                        sent += 1;
                        last += 1;
                        want.push(X::New(last, None));
                        want.push(X::Ref("sender@else.example", last));
                        if k == K::VacationFcc {
                            want.push(X::Ref("sent", last));
                        }
                    }
                    K::Notify => {
                        sent += 1;
                        last += 1;
                        want.push(X::New(last, None));
                        want.push(X::Ref("n@n.example", last));
                    }
                    K::Discard => {
                        if !explicit {
                            keep = false;
                        }
                    }
                    K::Error => {
                        want.push(X::Other("error"));
                        want.push(X::Other("stop"));
                    }
                    K::Stop => want.push(X::Other("stop")),
                    K::Reject => {
                        want.push(X::Other("reject"));
                        keep = false;
                        explicit = false;
                    }
                }
                cx.state(&(&edits, &announced, last, cur, keep, explicit, sent));
            }
            want.retain(|x| x != &X::Other("stop"));
            if keep {
                if edits != announced {
                    last += 1;
                    cur = last;
                    want.push(X::New(cur, Some(edits.clone())));
                }
                want.push(X::Ref("keep", cur));
            }
            let got = scrub_obs(run_script(&c, &rt, &t, MSG.as_bytes(), prep, |e| match e {
                Event::DuplicateId { .. } => sieve::Input::False,
                _ => sieve::Input::True,
            }));
            cx.step(v.len() as u64);
            cx.trace();
            let mut have: Vec<X> = vec![];
            let bad = |w: String| {
                let key = format!("ids:{}", v.iter().map(|&i| i.to_string()).collect::<Vec<_>>().join(","));
                Err(Fail::new(key, format!("{}\nexpected {want:?}\n{w}\n{}", &t[REQ.len() + REQ2.len()..], show_all(&got))))
            };
            for o in &got {
                match o {
                    Ob::Ev(Event::CreatedMessage { message_id, message }) => {
                        let x = want.get(have.len()).cloned();
                        match x {
                            Some(X::New(id, Some(e))) if id == *message_id => {
                                let w = content(&cache, &c, &rt, &e);
                                if &w != message {
                                    return bad(format!("message {id} differs from the message with these edits: {:?}", String::from_utf8_lossy(&w)));
                                }
                                have.push(X::New(id, Some(e)));
                            }
                            _ => {
                                have.push(X::New(*message_id, None));
                            }
                        }
                    }
                    Ob::Ev(Event::FileInto { folder, message_id, .. }) => have.push(X::Ref(["a", "b", "sent"].into_iter().find(|x| x == folder).unwrap_or("?"), *message_id)),
                    Ob::Ev(Event::Keep { message_id, .. }) => have.push(X::Ref("keep", *message_id)),
                    Ob::Ev(Event::SendMessage { recipient, message_id, .. }) => {
                        let r = match recipient {
                            Recipient::Address(a) => a.clone(),
                            Recipient::Group(g) => g.join(","),
                            Recipient::List(l) => l.clone(),
                        };
                        have.push(X::Ref(["q@r.example", "r@r.example", "sender@else.example", "n@n.example"].into_iter().find(|x| *x == r).unwrap_or("?"), *message_id));
                    }
                    Ob::Ev(Event::Reject { .. }) => have.push(X::Other("reject")),
                    Ob::Ev(Event::DuplicateId { .. } | Event::Discard) => {}
                    Ob::Err(_) => have.push(X::Other("error")),
                    _ => have.push(X::Other("?")),
                }
            }
            cx.outcome(&have.iter().map(|x| matches!(x, X::New(..))).collect::<Vec<_>>());
            if have != want {
                return bad(format!("got {have:?}"));
            }
            Ok(())
        },
    )
}
pub fn property(thorough: bool) -> Property {
    let mut s = vec![sequences(1), sequences(2), sequences(3), sequences(4), sequences(5)];
    if thorough {
        s.push(sequences(6));
    }
    Property {
        id: "C03",
        level: "model_checking",
        technique: "exhaustive enumeration of sequences of edits and deliveries to a depth bound, replayed on the real library against a model of message ids; contents compared with the message produced by the edits alone",
        assumptions: vec![
            "what edits do to the message is decided by C13 and C14; here the content is the one a script with the same edits and a keep produces".into(),
            "generated boundaries, message ids and the current date are not compared".into(),
        ],
        suites: s,
    }
}
