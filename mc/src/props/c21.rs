use super::core::q;
use super::templates::{self, TPLS};
use super::{c20, c27, known};
use crate::eng::*;
use crate::harness::*;
use sieve::{Compiler, Event, Input, Runtime, Sieve};
use std::sync::Arc;

pub const MSGS: &[&str] = &[
    known::MSG,
    "From: \"A, B\" <x@y.example>, z@w.example\r\nSubject: plain text\r\nDate: Tue, 1 Apr 2025 10:00:00 +0200\r\nX-Num: 5\r\n\r\n<b>hello</b> text\r\n",
    "Subject: Re: hello world\r\nFrom: env@from.example\r\nContent-Type: text/html\r\nReceived: from a by b; Tue, 1 Apr 2025 10:00:00 +0200\r\nX-Num: -2.5\r\nX-Num: 70\r\n\r\n<p>second x</p>\r\n",
];
/// how the text in a template is given
fn forms(v: &str) -> Vec<(String, String)> {
    vec![
        (String::new(), v.to_string()),
        (format!("set \"v\" {}; ", q(v)), "${v}".into()),
        (format!("set \"global.g\" {}; ", q(v)), "${global.g}".into()),
        (format!("if string :matches {} \"*\" {{}} ", q(v)), "${1}".into()),
        (format!("set \"v\" {}; ", q(&v.chars().skip(1).collect::<String>())), format!("{}${{v}}", v.chars().next().map(String::from).unwrap_or_default())),
        (String::new(), "${env.name}${envelope.from}${header.subject[1].text}${header.x-num[*]}${body.text}${part.raw}".into()),
    ]
}
const VALS: &[&str] = &["Subject", "a@b.example", "2030-01-01T00:00:00Z", "mailto:a@b.example", "NEVER", "/", "17", "1.5", "*l*o*", "é\\n"];
pub const MORE: &[&str] = &[
    "if header :regex \"subject\" [\"^(h)(e)l+o\", \"(w?)(x)?\"] { fileinto \"${0}-${1}-${2}\"; }",
    "if header :regex :comparator \"i;ascii-casemap\" \"subject\" \"^H(.*)D$\" { fileinto \"r${1}\"; }",
    "if address :regex :domain [\"from\", \"to\"] \"^(.*)\\\\.example$\" { fileinto \"d${1}\"; }",
    "set \"p\" \"h(.)llo\"; if header :regex \"subject\" \"${p}\" { fileinto \"p${1}\"; }",
    "if header :regex \"subject\" \"${global.none}h(.)llo\" { fileinto \"q${1}\"; }",
    "foreverypart :name \"outer\" { foreverypart { if header :regex \"x-part\" \"t(.)o\" { fileinto \"part${1}\"; break :name \"outer\"; } } }",
    "if body :text :regex \"(f)irst|(s)econd\" { fileinto \"b${1}${2}\"; }",
    "if header :matches \"subject\" [\"*x*\", \"*?*l*\"] { fileinto \"${0}|${1}|${2}|${3}\"; }",
    "if header :count \"ge\" [\"received\", \"x-num\"] \"2\" { fileinto \"count\"; }",
    "if header :value \"gt\" :comparator \"i;ascii-numeric\" \"x-num\" [\"100\", \"4\"] { fileinto \"value\"; }",
    "if date :originalzone :value \"ge\" \"date\" \"hour\" \"09\" { fileinto \"hour\"; }",
    "if date :zone \"+0130\" \"date\" \"std11\" \"zz\" { stop; } else { fileinto \"${hex:40 41}\"; }",
    "if anyof (not allof (true, false, true), header \"a\" \"b\") { fileinto \"nest\"; } elsif size :over 1K { stop; } else { discard; }",
    "while \"n < 3\" { let \"n\" \"n + 1\"; if eval \"n == 2\" { continue; } fileinto \"n${n}\"; }",
    "let \"n\" \"9223372036854775807\"; let \"m\" \"n - 1.5\"; let \"k\" \"'x' + [1, 2.25, 'y'] \"; fileinto \"${n} ${m} ${k}\";",
    "let \"a\" \"header.received[*].rcvd.date\"; let \"b\" \"a[0] > a[1] || !header.from.name.exists\"; fileinto \"${a} ${b} ${header.from[-1].addr[1]} ${header.*[*].raw_name}\";",
    "global [\"x\", \"y\"]; set \"x\" \"1\"; set :upperfirst :quotewildcard :length \"y\" \"*${x}\"; fileinto \"${y}${x}\"; include :personal :once :optional \"sub\"; include :global \"sub\"; return;",
    "setflag [\"\\\\Seen\", \"${global.none}x\"]; addflag \"f\" \"a b\"; removeflag \"f\" \"A\"; if hasflag :count \"ge\" [\"f\", \"g\"] \"1\" { fileinto :flags \"${f}\" :create :copy \"x\"; }",
    "redirect :copy :notify \"SUCCESS,FAILURE\" :ret \"FULL\" :bytimerelative 3600 :bymode \"return\" :bytrace \"a@b.example\"; redirect :notify \"never\" :bytimeabsolute \"2030-01-01T00:00:00Z\" :bymode \"notify\" \"c@d.example\";",
    "vacation :days 3 :subject \"s\" :from \"me@x.example\" :addresses [\"user@to.example\", \"b@c.example\"] :mime :handle \"h\" :fcc \"Sent\" :create :flags \"\\\\Seen\" \"Content-Type: text/plain\\r\\n\\r\\nx\";",
    "notify :from \"a@b.example\" :importance \"1\" :options [\"a=b\", \"c\"] :message \"m ${global.none}\" :fcc \"Sent\" \"mailto:a@b.example?subject=x\";",
    "deleteheader :index 1 :last :regex \"received\" \"f(r)om\"; deleteheader :matches \"x-num\" [\"*7\", \"?\"]; addheader :last \"X-New\" \"${1}\"; keep :flags [\"a\", \"b\"];",
    "if duplicate :handle \"h\" :last :seconds 77 { stop; } if duplicate :header \"message-id\" { discard; } if duplicate :uniqueid \"${global.none}u\" { keep; }",
    "if ihave [\"fileinto\", \"vnd.none\"] { test_unknown; } else { error \"none\"; }",
    "ereject text:\nno\n.thing\n.\n;",
    "replace :mime :subject \"s\" :from \"f@x.example\" \"Content-Type: text/x\\r\\n\\r\\nx\"; enclose :subject \"t\" :headers [\"A: b\", \"C: ${global.none}d\"] \"e\"; convert \"text/html\" \"text/plain\" [\"x=y\"]; extracttext :first 5 :upper \"v\"; fileinto \"${v}\";",
];
pub fn corpus() -> Vec<String> {
    let c = compiler();
    let rq = c20::req();
    let mut v: Vec<String> = vec![];
    for t in TPLS {
        for val in VALS {
            for (pre, x) in forms(val) {
                v.push(format!("{rq}{pre}{} fileinto \"end${{v}}${{1}}\";", templates::body(t, &x)));
            }
        }
    }
    v.extend(known::KNOWN.iter().map(|k| format!("{rq} if {} {{ fileinto \"yes\"; }} if not {} {{ fileinto \"no\"; }}", k.0, k.0)));
    v.extend(c27::MORE.iter().chain(MORE).map(|m| format!("{rq}{m}")));
    let tests = ["header M \"subject\" P", "header :index 2 :last M [\"x-num\", \"received\"] [P, \"zz\"]", "address :localpart M \"from\" P", "envelope M \"from\" P", "string M \"hello world\" P", "body :raw M P", "hasflag M P", "environment M \"host\" P", "date M \"date\" \"iso8601\" P", "currentdate M \"year\" P"];
    let matches = [":is", ":contains", ":matches", ":regex", ":value \"lt\"", ":count \"ge\"", ":list"];
    let comps = ["", ":comparator \"i;octet\"", ":comparator \"i;ascii-casemap\"", ":comparator \"i;ascii-numeric\""];
    let pats = ["\"1\"", "\"hello world\"", "\"h(.).*o?\"", "\"${global.none}h*\"", "[\"a*b\", \"(o)\"]", "\"\"", "\"2030\""];
    for t in tests {
        for m in matches {
            for k in comps {
                for p in pats {
                    v.push(format!("{rq}if {} {{ fileinto \"y${{0}}${{1}}\"; }} else {{ fileinto \"n\"; }}", t.replace('M', &format!("{k} {m}")).replace('P', p)));
                }
            }
        }
    }
    v.retain(|s| c.compile(s.as_bytes()).is_ok());
    v
}
pub fn compiler() -> Compiler {
    Compiler::new().register_functions(&mut c20::fns(&mut Default::default()))
}
pub fn runtime() -> Runtime {
    let mut map = Default::default();
    c20::rt().with_functions(&mut c20::fns(&mut map)).with_cpu_limit(1000)
}
/// answers that depend on the question and on how many there have been
pub fn host(k: usize, sub: &Arc<Sieve>) -> impl FnMut(&Event) -> Input + '_ {
    let mut n = 0;
    move |e: &Event| {
        n += 1;
        match e {
            Event::IncludeScript { name, .. } => Input::script(name.clone(), sub.clone()),
            Event::Function { id, .. } => Input::result((*id as i64 + k as i64).into()),
            _ => Input::from(match k {
                0 => true,
                1 => false,
                _ => n % 2 == 0,
            }),
        }
    }
}
pub fn rkyv_bytes(s: &Sieve) -> Result<Vec<u8>, String> {
    match guard(|| rkyv::to_bytes::<rkyv::rancor::Error>(s)) {
        Ok(Ok(b)) => Ok(b.to_vec()),
        Ok(Err(e)) => Err(format!("storing: {e}")),
        Err(p) => Err(format!("storing panics: {p}")),
    }
}
pub fn rkyv_load(b: &[u8]) -> Result<Result<Sieve, String>, String> {
    guard(|| {
        let mut a: rkyv::util::AlignedVec<16> = rkyv::util::AlignedVec::with_capacity(b.len());
        a.extend_from_slice(b);
        rkyv::from_bytes::<Sieve, rkyv::rancor::Error>(&a).map_err(|e| e.to_string())
    })
}
fn json_load(b: &[u8]) -> Result<Result<Sieve, String>, String> {
    guard(|| serde_json::from_slice::<Sieve>(b).map_err(|e| e.to_string()))
}
/// stores and loads in both formats; what comes back has to be equal and to be stored the same again
fn stored(text: &str, s: &Sieve) -> Result<Vec<Arc<Sieve>>, Fail> {
    let f = |k: &str, d: String| Fail::new(k, format!("{text}\n{d}"));
    let b = rkyv_bytes(s).map_err(|e| f("rkyv", e))?;
    let j = serde_json::to_vec(s).map_err(|e| f("json", e.to_string()))?;
    let r = rkyv_load(&b).map_err(|p| f("rkyv", format!("loading panics: {p}")))?.map_err(|e| f("rkyv", format!("loading: {e}")))?;
    let t = json_load(&j).map_err(|p| f("json", format!("loading panics: {p}")))?.map_err(|e| f("json", format!("loading: {e}")))?;
    for (k, l) in [("rkyv", &r), ("json", &t)] {
        if l != s {
            return Err(f(k, format!("{l:?}\ninstead of\n{s:?}")));
        }
        // stored again (sets may be written in another order)
        let b2 = rkyv_bytes(l).map_err(|e| f(k, e))?;
        if b2 != b && rkyv_load(&b2) != Ok(Ok(s.clone())) || json_load(&serde_json::to_vec(l).unwrap()) != Ok(Ok(s.clone())) {
            return Err(f(k, "stored again it differs".into()));
        }
    }
    // through both, and stored once more after loading
    let both = json_load(&serde_json::to_vec(&r).unwrap()).unwrap().map_err(|e| f("json", e))?;
    Ok(vec![Arc::new(r), Arc::new(t), Arc::new(both)])
}
fn same(text: &str, c: &Compiler, rt: &Runtime, sub: &Arc<Sieve>, sub2: &Arc<Sieve>, msgs: &[&str], cx: &mut Cx) -> Res {
    let s = match compile(c, text) {
        Ok(s) => s,
        Err(_) => return Ok(()),
    };
    let loaded = stored(text, &s)?;
    cx.state(text);
    for m in msgs {
        for h in 0..3 {
            let run = |s: &Arc<Sieve>, sub: &Arc<Sieve>| scrub_obs(run_with(rt, s, m.as_bytes(), known::prep, host(h, sub)));
            let mut want = run(&s, sub);
            cx.outcome(&hash_obs(&want));
            for (k, l) in loaded.iter().enumerate() {
                let mut got = run(l, sub2);
                cx.step(got.len() as u64);
                cx.trace();
                // the clock may have gone on between the two
                for _ in 0..3 {
                    if got != want {
                        (want, got) = (run(&s, sub), run(l, sub2));
                    }
                }
                if got != want {
                    return Err(Fail::new("run", format!("{text}\n{m:?}\nanswers {h}, loaded {}\nfresh:\n{}loaded:\n{}", ["with rkyv", "as JSON", "with both"][k], show_all(&want), show_all(&got))));
                }
            }
        }
    }
    // once it has been run it is stored the same
    stored(text, &s).map(|_| ())
}
pub const SUB: &str = "require [\"variables\", \"fileinto\", \"regex\", \"include\"]; global \"x\"; if string :regex \"${x}abc\" \"a(.)c\" { fileinto \"sub${1}${x}\"; } set \"x\" \"changed\";";
fn scripts_suite() -> Box<dyn Suite> {
    let c = compiler();
    let (rt, v) = (runtime(), corpus());
    let sub = compile(&c, SUB).unwrap();
    let sub2 = stored(SUB, &sub).map(|v| v[0].clone()).unwrap_or_else(|e| panic!("{}", e.detail));
    list("scripts", &format!("{} scripts: every action and test with texts, variables of every kind and lists at each place, every match type with every comparator and kind of pattern; stored with rkyv and as JSON, loaded and run on {} messages with 3 ways to answer, with a stored included script", v.len(), MSGS.len()), v, move |t, cx| same(t, &c, &rt, &sub, &sub2, MSGS, cx))
}
fn expressions(n: usize) -> Box<dyn Suite> {
    const T: &[&str] = &["1", "-2", "2.5", "-", "+", "*", "/", "!", "==", "<", "&&", "||", "(", ")", "[", "]", ",", "'a'", "v", "w", "one(", "two(", "none()", "ask(", "9223372036854775807", "header.subject", "header.received[*].rcvd.ip", "env.host", "envelope.from", "body.text", "global.x"];
    let c = compiler();
    let (rt, sub) = (runtime(), compile(&c, SUB).unwrap());
    let rq = c20::req();
    radix(&format!("expressions-{n}"), &format!("every expression of up to {n} out of {} tokens", T.len()), vec![nwords(T.len(), n) as usize, 2], move |v, cx| {
        let e = word(T.len(), v[0] as u64).into_iter().map(|i| T[i]).collect::<Vec<_>>().join(" ");
        let s = if v[1] == 0 { format!("{rq}set \"v\" \"7\"; set \"w\" \"ab\"; let \"n\" \"{e}\"; fileinto \"${{n}}\";") } else { format!("{rq}set \"v\" \"\"; set \"w\" \"\"; if eval \"{e}\" {{ fileinto \"y\"; }}") };
        cx.step(1);
        same(&s, &c, &rt, &sub, &sub, &MSGS[..1], cx)
    })
}
/// pairs of scripts, so that positions of jumps and numbers of variables differ
fn joined(n: usize) -> Box<dyn Suite> {
    let base: Vec<&str> = MORE.to_vec();
    let c = compiler();
    let (rt, sub) = (runtime(), compile(&c, SUB).unwrap());
    let rq = c20::req();
    let bounds = format!("{n} out of {} longer scripts after one another or within blocks and loops of one another", base.len());
    let mut r = vec![base.len(); n];
    r.push(3);
    radix(&format!("joined-{n}"), &bounds, r, move |v, cx| {
        let mut s = rq.clone();
        for i in &v[..n] {
            let b = base[*i];
            match v[n] {
                0 => s += b,
                1 => s += &format!("if true {{ {b} }} else {{ {} }} ", base[v[0]]),
                _ => s += &format!("foreverypart {{ {b} if eval \"1\" {{ break; }} }} "),
            }
            s += " ";
        }
        same(&s, &c, &rt, &sub, &sub, &MSGS[..2], cx)
    })
}
fn damage(json: bool, deep: bool) -> Box<dyn Suite> {
    let c = compiler();
    let rq = c20::req();
    let mut v: Vec<String> = MORE.iter().map(|m| format!("{rq}{m}")).collect();
    if deep {
        v.extend(corpus().into_iter().step_by(17));
    }
    let data: Vec<Vec<u8>> = v
        .iter()
        .filter_map(|s| c.compile(s.as_bytes()).ok())
        // the requires only make the stored form longer
        .map(|s| if json { serde_json::to_vec(&s).unwrap() } else { rkyv_bytes(&s).unwrap_or_else(|e| panic!("{e}")) })
        .collect();
    let max = data.iter().map(|d| d.len()).max().unwrap();
    const J: &[u8] = b"0{}[]\",:-9eE.nt\\\xff\x00";
    let n = if json { J.len() } else { 14 };
    radix(if json { "damaged-json" } else { "damaged-rkyv" }, &format!("{} stored scripts with each byte changed in {n} ways, everything from it on cut off or everything before it left out: loading gives a script or an error", data.len()), vec![data.len(), max, n + 2], move |v, cx| {
        let (d, i) = (&data[v[0]], v[1]);
        if i >= d.len() {
            return Ok(());
        }
        let mut b = d.clone();
        match v[2] {
            0 => b.truncate(i),
            1 => drop(b.drain(..i)),
            k if json => b[i] = J[k - 2],
            k => {
                b[i] = match k - 2 {
                    x @ 0..=7 => b[i] ^ (1 << x),
                    8 => 0,
                    9 => 255,
                    10 => 127,
                    11 => 128,
                    12 => b[i].wrapping_add(1),
                    _ => b[i].wrapping_sub(1),
                }
            }
        }
        cx.trace();
        let r = if json { json_load(&b) } else { rkyv_load(&b) };
        match r {
            Ok(Ok(s)) => {
                cx.outcome(&"script");
                // what was loaded can be looked at and stored
                let _ = guard(|| format!("{s:?}")).map_err(|p| Fail::new("damage", format!("a loaded script panics: {p}")))?;
                Ok(())
            }
            Ok(Err(_)) => {
                cx.outcome(&"error");
                Ok(())
            }
            Err(p) => Err(Fail::new("damage", format!("script {} byte {i} change {}: loading panics: {p}", v[0], v[2]))),
        }
    })
}
pub fn property(thorough: bool) -> Property {
    let mut suites = vec![scripts_suite(), expressions(if thorough { 4 } else { 3 }), joined(1), joined(2), damage(false, thorough), damage(true, thorough)];
    if thorough {
        suites.push(joined(3));
    }
    Property {
        id: "C21",
        level: "model_checking",
        technique: "exhaustive enumeration of scripts (all actions, tests, argument forms, expressions), each stored, loaded and run against the fresh one on the real interpreter for all ways to answer, and of damaged stored forms",
        assumptions: vec!["the formats are rkyv 0.8 with checks and JSON (serde_json)".into(), "what a script loaded from damaged data does when it is run is left open".into()],
        suites,
    }
}
