use super::core::q;
use super::templates::{self, Kind, TPLS};
use super::{c07::ALLCAPS, known};
use crate::eng::*;
use crate::harness::*;
use sieve::{Compiler, Event, Input, Runtime};

fn caps() -> Vec<String> {
    ALLCAPS.split('"').skip(1).step_by(2).map(|s| s.to_string()).chain(["encoded-character", "comparator-i;octet", "comparator-i;ascii-casemap", "comparator-i;ascii-numeric"].map(String::from)).collect()
}
fn all() -> Runtime {
    let mut rt = known::runtime(Runtime::new()).with_max_redirects(9).with_max_out_messages(9);
    for c in caps() {
        rt = rt.with_capability(c.as_str());
    }
    rt
}
fn req<S: AsRef<str>>(c: &[S]) -> String {
    if c.is_empty() {
        return String::new();
    }
    format!("require [{}];\n", c.iter().map(|c| q(c.as_ref())).collect::<Vec<_>>().join(", "))
}
/// extensions that a template cannot be used without
fn needed(t: &templates::Tpl) -> Vec<&'static str> {
    t.caps
        .iter()
        .copied()
        .filter(|c| match *c {
            // editheader has :index and :last of its own
            "index" => !t.text.starts_with("deleteheader"),
            // :mime of replace is its own; foreverypart and extracttext need no mime
            "mime" => !t.text.contains("replace :mime") && !(t.text.starts_with("foreverypart") && !t.text.contains(":mime")),
            // the global and envelope namespaces are available without further ado
            "include" => t.text.starts_with("include") || t.text.starts_with("global "),
            "envelope" => !t.text.starts_with("set "),
            "variables" => !t.text.starts_with("let ") && !t.text.contains("extracttext"),
            _ => true,
        })
        .collect()
}
fn with_value(t: &templates::Tpl) -> String {
    let v = match t.text {
        x if x.starts_with("redirect :notify") => "NEVER",
        x if x.starts_with("redirect :bytimeabsolute") => "2030-01-01T00:00:00Z",
        x if x.starts_with("notify :from") => "a@b.example",
        "notify \"§\";" => "mailto:a@b.example",
        _ => "Subject",
    };
    templates::body(t, v)
}
/// ways to place the require line and the use
const PLACES: &[(&str, bool)] = &[
    ("R\nU", true),
    ("redirect \"x@y.example\"; R U", true),
    ("if true { R U }", true),
    ("R if true { if true { U } }", true),
    ("if false { } else { R U }", true),
    ("if false { U } R", false),
    ("if true { R } U", false),
    ("if true { R } else { U }", false),
    ("if true { R } if true { U }", false),
    ("U R", false),
    ("R R U R", true),
];
fn place(p: &str, r: &str, u: &str) -> String {
    // the holes are the letters standing alone
    p.split_inclusive([' ', '\n'])
        .map(|w| match w.trim() {
            "R" => r.to_string() + "\n",
            "U" => u.to_string() + "\n",
            _ => w.to_string(),
        })
        .collect()
}
fn declared() -> Box<dyn Suite> {
    let c = Compiler::new();
    let mut items = vec![];
    for t in TPLS {
        let n = needed(t);
        for s in 0..1usize << n.len() {
            for p in 0..PLACES.len() {
                items.push((t, s, p));
            }
        }
    }
    let pool = caps();
    list(
        "declared",
        &format!("{} uses of commands, tests and arguments x every subset of the extensions they need x with all other extensions required or not x one or several require lines x {} placements of the lines (before, in an enclosing block, in a block that has ended, in the other branch, behind the use)", TPLS.len(), PLACES.len()),
        items,
        move |(t, s, p), cx| {
            let n = needed(t);
            let have: Vec<&str> = n.iter().enumerate().filter(|(i, _)| s >> i & 1 == 1).map(|x| *x.1).collect();
            let missing: Vec<&str> = n.iter().enumerate().filter(|(i, _)| s >> i & 1 == 0).map(|x| *x.1).collect();
            for mode in 0..4 {
                let mut names: Vec<&str> = have.clone();
                if mode & 1 == 1 {
                    names.extend(pool.iter().map(|x| x.as_str()).filter(|x| !n.contains(x)));
                    // spamtestplus includes spamtest
                    if missing.contains(&"spamtest") {
                        names.retain(|x| *x != "spamtestplus");
                    }
                } else {
                    // helpers of the template that are no part of what is tested
                    names.extend(t.caps.iter().filter(|x| !n.contains(x)));
                }
                let r = if mode & 2 == 0 { req(&names).replace('\n', " ") } else { names.iter().map(|x| format!("require {}; ", q(x))).collect() };
                let src = place(PLACES[*p].0, &r, &with_value(t));
                let ok = n.is_empty() || missing.is_empty() && PLACES[*p].1;
                cx.state(&(t.text, s, p, mode));
                cx.trace();
                cx.step(1);
                let g = compile(&c, &src);
                let bad = |what: &str| Err(Fail::new(format!("declared:{}", t.text), format!("{what}\n{src}")));
                match g {
                    Ok(_) if ok => cx.outcome(&true),
                    Ok(_) => return bad("compiles without the require"),
                    Err(Ob::CompileErr(e)) if !ok => {
                        cx.outcome(&e);
                        let blamed = e.strip_prefix("Undeclared capability '").and_then(|x| x.split_once('\'')).map(|x| x.0.to_string());
                        let may: &[&str] = if PLACES[*p].1 { &missing } else { &n };
                        // a use of :percent without spamtestplus is seen after spamtest
                        if !blamed.as_deref().is_some_and(|b| may.contains(&b) || b == "spamtest" && may.contains(&"spamtestplus")) {
                            return bad(&format!("lacking {may:?} the compiler says {e:?}"));
                        }
                        let line: usize = e.rsplit_once("line ").unwrap().1.split(',').next().unwrap().parse().unwrap();
                        if line == 0 || line > src.lines().count() + 1 {
                            return bad(&format!("no such line: {e:?}"));
                        }
                    }
                    Err(e) => return bad(&format!("all it needs is required, yet: {}", show(&e))),
                }
            }
            Ok(())
        },
    )
}
/// with the check disabled nothing needs a require but ihave
fn unchecked() -> Box<dyn Suite> {
    let c = Compiler::new();
    let u = Compiler::new().with_no_capability_check(true);
    let rt = all();
    list("unchecked", &format!("{} uses of commands, tests and arguments, compiled without the check and without any require: same run as with everything required; ihave and error still need a require", TPLS.len()), TPLS.to_vec(), move |t, cx| {
        let body = with_value(t);
        cx.state(&t.text);
        cx.trace();
        cx.step(2);
        let g = compile(&u, &body);
        if t.caps.contains(&"ihave") {
            return match g {
                Err(Ob::CompileErr(_)) => Ok(()),
                _ => Err(Fail::new("unchecked-ihave", body)),
            };
        }
        let run = |sc| scrub_obs(run_with(&rt, &sc, known::MSG.as_bytes(), known::prep, yes));
        let bad = |d: String| Err(Fail::new(format!("unchecked:{}", t.text), format!("{body}\n{d}")));
        let a = match (compile(&c, &format!("{}{body}", req(t.caps))), g) {
            (Ok(a), Ok(b)) => (run(a), run(b)),
            (_, Err(e)) => return bad(show(&e)),
            (Err(e), _) => return bad(show(&e)),
        };
        cx.outcome(&hash_obs(&a.1));
        if a.0 == a.1 {
            Ok(())
        } else {
            bad(diff(&a.0, &a.1))
        }
    })
}
/// extensions switched off at run time
fn allowed(pairs: bool) -> Box<dyn Suite> {
    let c = Compiler::new();
    let pool = caps();
    let full = all();
    let off: Vec<Vec<usize>> = (0..pool.len()).map(|i| vec![i]).chain((0..pool.len()).flat_map(|i| (0..i).map(move |j| vec![j, i])).filter(|_| pairs)).collect();
    // name by name and by the list
    let rts: Vec<Runtime> = off.iter().map(|o| if o.len() == 1 { all().without_capability(pool[o[0]].as_str()) } else { all().without_capabilities(o.iter().map(|i| pool[*i].as_str())) }).collect();
    let forms = 6;
    let middle = compile(&c, "require \"include\"; include \"inner\";").unwrap();
    radix(
        if pairs { "allowed-2" } else { "allowed-1" },
        &format!("{} uses of commands, tests and arguments x every {} of {} extensions not allowed at run time x require at the start, behind an action, in a branch taken, in one not taken, in an included script, and in one included by an included script", TPLS.len(), if pairs { "pair" } else { "one" }, pool.len()),
        vec![TPLS.len(), off.len(), forms],
        move |v, cx| {
            let t = &TPLS[v[0]];
            let body = with_value(t);
            let r = req(t.caps);
            let src = match v[2] {
                0 => format!("{r}{body}"),
                1 => format!("redirect \"before@x.example\";\n{r}{body}"),
                2 => format!("redirect \"before@x.example\"; if true {{ {r} {body} }}"),
                4 => "require \"include\"; redirect \"before@x.example\"; include \"inner\";".into(),
                5 => "require \"include\"; redirect \"before@x.example\"; include \"middle\";".into(),
                _ => format!("redirect \"before@x.example\"; if false {{ {r} {body} }} redirect \"after@x.example\";"),
            };
            let sc = match compile(&c, &src) {
                Ok(sc) => sc,
                Err(e) => return Err(Fail::new(format!("allowed:{}", t.text), format!("{src}\n{}", show(&e)))),
            };
            let inner = match compile(&c, &format!("{r}{body}")) {
                Ok(sc) => sc,
                Err(e) => return Err(Fail::new(format!("allowed:{}", t.text), format!("{src}\n{}", show(&e)))),
            };
            let host = |e: &Event| match e {
                Event::IncludeScript { name, .. } if name == &sieve::Script::Personal("inner".into()) => Input::script(name.clone(), inner.clone()),
                Event::IncludeScript { name, .. } if name == &sieve::Script::Personal("middle".into()) => Input::script(name.clone(), middle.clone()),
                _ => Input::True,
            };
            let run = |rt| scrub_obs(run_with(rt, &sc, known::MSG.as_bytes(), known::prep, host));
            cx.state(&v);
            cx.trace();
            cx.step(2);
            let (a, b) = (run(&full), run(&rts[v[1]]));
            cx.outcome(&hash_obs(&b));
            let includes = v[2] > 3;
            let refused: Vec<&str> = off[v[1]].iter().map(|i| pool[*i].as_str()).filter(|x| t.caps.contains(x) || *x == "spamtest" && t.caps.contains(&"spamtestplus") || includes && *x == "include").collect();
            let bad = |what: &str| Err(Fail::new(format!("allowed:{}", t.text), format!("not allowed: {:?}: {what}\n{src}\n{}", off[v[1]].iter().map(|i| &pool[*i]).collect::<Vec<_>>(), diff(&a, &b))));
            if refused.is_empty() || v[2] == 3 {
                // ihave asks for fileinto
                if t.text.contains("ihave") && off[v[1]].iter().any(|i| pool[*i] == "fileinto") {
                    return Ok(());
                }
                return if a == b { Ok(()) } else { bad("runs differently") };
            }
            let n = !(v[2] == 0 || includes && refused.contains(&"include")) as usize;
            let named = |o: Option<&Ob>| matches!(o, Some(Ob::Err(e)) if refused.iter().any(|r| format!("{e:?}").to_lowercase().replace(['-', '_'], "").contains("capabilitynotallowed") && cap_named(e, r)));
            let first = b.iter().position(|o| matches!(o, Ob::Err(_)));
            if first.is_none() || !named(b.get(first.unwrap())) {
                return bad("no error that names it");
            }
            let acts: Vec<&Ob> = b.iter().filter(|o| !matches!(o, Ob::Err(_) | Ob::Ev(Event::CreatedMessage { .. }))).filter(|o| !(includes && matches!(o, Ob::Ev(Event::IncludeScript { .. })))).collect();
            // what was done before, and the implicit keep
            if b[..first.unwrap()].iter().filter(|o| matches!(o, Ob::Ev(Event::SendMessage { .. }))).count() != n || acts.iter().any(|o| !matches!(o, Ob::Ev(Event::SendMessage { .. } | Event::Keep { .. }))) || acts.len() > n + 1 {
                return bad("something else happened");
            }
            Ok(())
        },
    )
}
/// error text names the extension
fn cap_named(e: &str, cap: &str) -> bool {
    let n = |s: &str| s.to_lowercase().replace("vnd.stalwart.", "").chars().filter(|c| c.is_ascii_alphanumeric()).collect::<String>();
    n(e).contains(&format!("({}", cap.len())) || n(e).contains(&n(cap)) || n(e).contains(&n(&cap.replace("special-use", "specialuse")))
}
/// names asked for with ihave
fn ihave_names() -> Vec<String> {
    let mut v = caps();
    v.extend(["nonsense", "", "FileInto", "fileint", "comparator-i;unknown", "comparator-", "vnd.stalwart.testsuite", "fileinto "].map(String::from));
    v
}
fn ihave_truth(n: usize) -> Box<dyn Suite> {
    let names = ihave_names();
    let pool = caps();
    let rts: Vec<Runtime> = (0..=pool.len()).map(|i| if i < pool.len() { all().without_capability(pool[i].as_str()) } else { all() }).collect();
    let k = names.len();
    let c = Compiler::new();
    radix(
        &format!("ihave-{n}"),
        &format!("ihave with every list of 1 to {n} of {k} names (all extensions, unknown, empty, other letter case) x every single extension not allowed and none: plain and under not"),
        vec![nwords(k, n) as usize - 1, rts.len()],
        move |v, cx| {
            let w = word(k, v[0] as u64 + 1);
            let l = w.iter().map(|i| q(&names[*i])).collect::<Vec<_>>().join(", ");
            let l = if w.len() == 1 { l } else { format!("[{l}]") };
            let src = format!("require \"ihave\"; if ihave {l} {{ redirect \"yes@x.example\"; }} if not ihave {l} {{ redirect \"no@x.example\"; }}");
            let sc = compile(&c, &src).map_err(|e| Fail::new("ihave", format!("{src} {}", show(&e))))?;
            cx.state(&v);
            cx.trace();
            cx.step(2);
            let o = run_with(&rts[v[1]], &sc, known::MSG.as_bytes(), known::prep, yes);
            cx.outcome(&hash_obs(&o));
            if v[1] < pool.len() && pool[v[1]] == "ihave" {
                return match o.first() {
                    Some(Ob::Err(_)) => Ok(()),
                    _ => Err(Fail::new("ihave", format!("{src}\n{}", show_all(&o)))),
                };
            }
            let to: Vec<String> = o.iter().filter_map(|x| match x {
                Ob::Ev(Event::SendMessage { recipient: sieve::Recipient::Address(a), .. }) => Some(a.clone()),
                _ => None,
            }).collect();
            // variables and encoded-character change the meaning of the text itself and cannot be asked for
            let has = w.iter().all(|&i| (i < pool.len() && i != v[1]) && names[i] != "variables" && names[i] != "encoded-character");
            if to == [if has { "yes@x.example" } else { "no@x.example" }] {
                Ok(())
            } else {
                Err(Fail::new("ihave", format!("{src}\nnot allowed: {:?}\nwant {has}, got {to:?}", pool.get(v[1]))))
            }
        },
    )
}
/// conditions over ihave
#[derive(Clone, Debug)]
enum T {
    Have(&'static [usize]),
    Const(bool),
    Use(usize),
    Not(Box<T>),
    All(Vec<T>),
    Any(Vec<T>),
}
/// extensions asked for, and how a test can use them
const X: [(&str, &str); 2] = [("body", "body :contains \"first\""), ("date", "date :contains \"Date\" \"year\" \"2014\"")];
fn show_t(t: &T) -> String {
    match t {
        T::Have(v) => format!("ihave [{}]", v.iter().map(|i| q(X[*i].0)).collect::<Vec<_>>().join(", ")),
        T::Const(b) => b.to_string(),
        T::Use(i) => X[*i].1.into(),
        T::Not(t) => format!("not {}", show_t(t)),
        T::All(v) => format!("allof({})", v.iter().map(show_t).collect::<Vec<_>>().join(", ")),
        T::Any(v) => format!("anyof({})", v.iter().map(show_t).collect::<Vec<_>>().join(", ")),
    }
}
fn conds(depth: usize, width: usize) -> Vec<T> {
    let mut r = vec![T::Have(&[0]), T::Have(&[1]), T::Have(&[0, 1]), T::Const(true), T::Const(false), T::Use(0), T::Use(1)];
    if depth == 0 {
        return r;
    }
    let sub = conds(depth - 1, width);
    r.extend(sub.iter().map(|t| T::Not(Box::new(t.clone()))));
    for n in 1..=width {
        for k in 0..sub.len().pow(n as u32) {
            let mut k = k;
            let mut v = vec![];
            for _ in 0..n {
                v.push(sub[k % sub.len()].clone());
                k /= sub.len();
            }
            r.push(T::All(v.clone()));
            r.push(T::Any(v));
        }
    }
    r
}
/// the places where a test uses an extension that may not be there: Err on the first; value otherwise
/// `known` are the extensions that ihave has found on the way
fn truth(t: &T, allowed: &[bool; 2], unsafe_use: &mut bool) -> bool {
    match t {
        T::Have(v) => v.iter().all(|i| allowed[*i]),
        T::Const(b) => *b,
        T::Use(i) => {
            *unsafe_use |= !allowed[*i];
            true
        }
        T::Not(t) => !truth(t, allowed, unsafe_use),
        T::All(v) => v.iter().all(|t| truth(t, allowed, unsafe_use)),
        T::Any(v) => v.iter().any(|t| truth(t, allowed, unsafe_use)),
    }
}
/// what simple conjunctions are known to guarantee; None when a use is not covered by it
fn guaranteed(t: &T, have: &mut [bool; 2], conj: bool, neg: bool) -> bool {
    match t {
        T::Have(v) => {
            if conj && !neg {
                for i in *v {
                    have[*i] = true;
                }
            }
            true
        }
        T::Const(_) => true,
        T::Use(i) => have[*i],
        T::Not(t) => guaranteed(t, have, conj, !neg),
        T::All(v) => v.iter().all(|t| guaranteed(t, have, conj && !neg, neg)),
        T::Any(v) => v.iter().all(|t| guaranteed(t, have, conj && neg, neg)),
    }
}
/// shapes with the condition ¿ and the use § of extension 0 as a command block
const SHAPES: &[&str] = &["if C { USE }", "if true { if C { if true { USE } } }", "if C { } else { USE }", "if C { } USE", "if false { } elsif C { USE }", "if C { } elsif true { USE }", "if C { stop; } USE", "if C { if true { } USE }"];
fn ihave_guards(depth: usize, width: usize) -> Box<dyn Suite> {
    let cs = conds(depth, width);
    let c = Compiler::new();
    let rts: Vec<([bool; 2], Runtime)> = (0..4usize)
        .map(|m| {
            let mut rt = all();
            for (i, x) in X.iter().enumerate() {
                if m >> i & 1 == 0 {
                    rt = rt.without_capability(x.0);
                }
            }
            ([m & 1 == 1, m & 2 == 2], rt)
        })
        .collect();
    let useit = format!("if {} {{ redirect \"used@x.example\"; }}", X[0].1);
    radix(
        &format!("guards-{depth}-{width}"),
        &format!("{} conditions over ihave for two extensions, constants and uses of them, with not, allof and anyof (depth {depth}, up to {width} tests each) x {} shapes with a use in the guarded block, an inner block, the other branches and behind it x every set of allowed extensions: what ihave guards compiles, what it does not guard does not, and nothing that is not allowed is ever evaluated", cs.len(), SHAPES.len()),
        vec![cs.len(), SHAPES.len()],
        move |v, cx| {
            let t = &cs[v[0]];
            let shape = SHAPES[v[1]];
            let src = format!("require \"ihave\";\n{}\nredirect \"end@x.example\";", shape.replace("USE", &useit).replace('C', &show_t(t)));
            let mut have = [false; 2];
            let cond_ok = guaranteed(t, &mut have, true, false);
            let inside = matches!(v[1], 0 | 1 | 4 | 7);
            let must = cond_ok && inside && have[0];
            cx.state(&v);
            cx.trace();
            cx.step(4);
            let bad = |what: String| Err(Fail::new("guard", format!("{src}\n{what}")));
            // what the script does with a set of extensions
            let model = |allowed: &[bool; 2]| -> (Vec<&'static str>, bool) {
                let mut bad = false;
                let mut out = vec![];
                let val = truth(t, allowed, &mut bad);
                let used = match v[1] {
                    0 | 1 | 4 | 7 => val,
                    2 | 5 | 6 => !val,
                    _ => true,
                };
                if used {
                    bad |= !allowed[0];
                    out.push("used@x.example");
                }
                if !(v[1] == 6 && val) {
                    out.push("end@x.example");
                }
                (out, bad)
            };
            let may = rts.iter().all(|(a, _)| !model(a).1);
            match compile(&c, &src) {
                Err(Ob::CompileErr(e)) => {
                    cx.outcome(&false);
                    if must {
                        return bad(e);
                    }
                }
                Err(e) => return bad(show(&e)),
                Ok(sc) => {
                    if !may {
                        return bad("compiles although an extension may be used that is not allowed".into());
                    }
                    for (a, rt) in &rts {
                        let o = run_with(rt, &sc, known::MSG.as_bytes(), known::prep, yes);
                        cx.outcome(&hash_obs(&o));
                        let to: Vec<&str> = o.iter().filter_map(|x| match x {
                            Ob::Ev(Event::SendMessage { recipient: sieve::Recipient::Address(a), .. }) => Some(a.as_str()),
                            Ob::Ev(Event::Keep { .. } | Event::CreatedMessage { .. }) => None,
                            _ => Some("?"),
                        }).collect();
                        let w = model(a).0;
                        if to != w {
                            return bad(format!("allowed {a:?}: want {w:?}, got {}", show_all(&o)));
                        }
                    }
                }
            }
            Ok(())
        },
    )
}
const UNKNOWN_CMDS: &[(&str, &str)] = &[
    ("frop;", "frop"),
    ("frop \"x\";", "frop"),
    ("frop :tag 5 [\"a\", \"b\"] \"c\";", "frop"),
    ("frop { keep; }", "frop"),
    ("frop \"a\" { if true { keep; } elsif false { stop; } foreverypart { discard; } }", "frop"),
    ("frop text:\nline; { }\n.\n;", "frop"),
    ("Frop_9 5K;", "Frop_9"),
    ("frop test (a, b(c), \"d\");", "frop"),
    ("true;", "true"),
    ("header \"a\" \"b\";", "header"),
    ("# c\nfrop /* ; */ ;", "frop"),
];
const UNKNOWN_TESTS: &[(&str, &str)] = &[
    ("frop", "frop"),
    ("frop \"x\"", "frop"),
    ("frop :tag 5K [\"a\", \")\"] \"c\"", "frop"),
    ("frop (true, anyof(false, x \"y\"))", "frop"),
    ("keep", "keep"),
    ("Frop_9", "Frop_9"),
    ("frop text:\n) , {\n.\n", "frop"),
];
/// U is the unknown thing, reached when the flag is set; every other action is a redirect
const CMD_AT: &[(&str, bool)] = &[
    ("A U B", true),
    ("if true { A U } B", true),
    ("if false { A U } B", false),
    ("if true { A } else { U } B", false),
    ("if false { A } else { U } B", true),
    ("if false { } elsif true { U } B", true),
    ("if true { } elsif true { U } B", false),
    ("A stop; U B", false),
    ("A foreverypart { U } B", true),
    ("foreverypart { A break; U } B", false),
    ("A if ihave \"none\" { U U U } B", false),
    ("if not ihave \"none\" { U } B", true),
    ("U", true),
    ("if false { U if true { U } U } A", false),
    ("A if false { while \"1\" { U } } B", false),
];
const TEST_AT: &[(&str, bool)] = &[
    ("if U { A } B", true),
    ("if not U { A } else { B }", true),
    ("A if allof(true, U) { } B", true),
    ("A if allof(false, U) { } B", false),
    ("A if anyof(true, U) { } B", false),
    ("A if anyof(false, U, true) { } B", true),
    ("A if anyof(false, not U, true) { } B", true),
    ("A if not allof(false, U, true) { } B", false),
    ("A if allof(anyof(false, true, U), not anyof(allof(false, U), false)) { } B", false),
    ("A if allof(anyof(false, false, U), true) { } B", true),
    ("if true { A } elsif U { } B", false),
    ("if false { } elsif U { A } B", true),
    ("if false { if U { A } } B", false),
    ("A if allof(ihave \"none\", U) { } B", false),
    ("A if anyof(ihave \"ihave\", U) { } B", false),
    ("foreverypart { A if U { } } B", true),
];
fn unknown() -> Box<dyn Suite> {
    let c = Compiler::new();
    let rt = all();
    let n = UNKNOWN_CMDS.len() * CMD_AT.len() + UNKNOWN_TESTS.len() * TEST_AT.len();
    let items: Vec<usize> = (0..n).collect();
    list(
        "unknown",
        &format!("{} unknown commands at {} places and {} unknown tests at {} places of a script (branches, loops, short-circuited tests, behind stop, guarded by ihave), with and without ihave: only reaching one is an error, which names it and its line, and nothing happens after it", UNKNOWN_CMDS.len(), CMD_AT.len(), UNKNOWN_TESTS.len(), TEST_AT.len()),
        items,
        move |i, cx| {
            let nc = UNKNOWN_CMDS.len() * CMD_AT.len();
            let ((u, name), (at, reached)) = if *i < nc { (UNKNOWN_CMDS[i % UNKNOWN_CMDS.len()], CMD_AT[i / UNKNOWN_CMDS.len()]) } else { (UNKNOWN_TESTS[(i - nc) % UNKNOWN_TESTS.len()], TEST_AT[(i - nc) / UNKNOWN_TESTS.len()]) };
            for (with, lead) in [(true, ""), (false, ""), (true, "\n\n  ")] {
                let req = if with { "require [\"ihave\", \"foreverypart\", \"vnd.stalwart.while\"]; " } else { "require [\"foreverypart\", \"vnd.stalwart.while\"]; " };
                if !with && at.contains("ihave") {
                    continue;
                }
                // line of the first unknown thing that is reached
                let pre = at.split('U').next().unwrap();
                let body = at.replace('A', "redirect \"a@x.example\";").replace('B', "redirect \"b@x.example\";").replace('U', u);
                let src = format!("{req}{lead}{body}");
                cx.state(&(i, with, lead));
                cx.trace();
                cx.step(1);
                let key = if *i < nc { "unknown-command" } else { "unknown-test" };
                let bad = |d: String| Err(Fail::new(key, format!("{src}\n{d}")));
                let sc = match compile(&c, &src) {
                    Ok(sc) if with => sc,
                    Err(Ob::CompileErr(e)) if !with => {
                        cx.outcome(&e);
                        continue;
                    }
                    Ok(_) => return bad("compiles without ihave".into()),
                    Err(e) => return bad(show(&e)),
                };
                let o = run_with(&rt, &sc, b"Subject: x\r\n\r\nb\r\n", known::prep, yes);
                cx.outcome(&hash_obs(&o));
                let got: Vec<String> = o.iter().filter_map(|x| match x {
                    Ob::Ev(Event::SendMessage { recipient: sieve::Recipient::Address(a), .. }) => Some(a[..1].to_string()),
                    Ob::Ev(Event::Keep { .. }) => None,
                    Ob::Err(e) => Some(e.clone()),
                    x => Some(show(x)),
                }).collect();
                let err = got.iter().position(|x| x.len() > 1);
                let line = 1 + lead.matches('\n').count() + u.split("frop").next().unwrap().matches('\n').count();
                if !reached {
                    let want: Vec<&str> = match at {
                        _ if at.contains("stop;") || !at.contains('B') => vec!["a"],
                        _ if at.starts_with("if false") || !at.contains('A') => vec!["b"],
                        _ => vec!["a", "b"],
                    };
                    if got != want {
                        return bad(format!("want {want:?}, got {got:?}"));
                    }
                    continue;
                }
                let before = pre.contains('A') && !pre.starts_with("if false { A") as usize == 1;
                let mut want: Vec<String> = vec![];
                if before {
                    want.push("a".into());
                }
                let Some(e) = err else { return bad(format!("no error: {got:?}")) };
                if got[..e] != want[..] || got.len() != e + 1 {
                    return bad(format!("want {want:?} and an error, got {got:?}"));
                }
                if !got[e].to_lowercase().contains(&name.to_lowercase()) || !got[e].contains(&format!("line_num: {line},")) {
                    return bad(format!("the error should name {name:?} in line {line}: {}", got[e]));
                }
            }
            Ok(())
        },
    )
}
/// the two extensions that change the meaning of text
const PIECES: &[(&str, &str, u8)] = &[
    ("${hex:41}", "A", 2),
    ("${unicode:e9}", "é", 2),
    ("${hex:24 7b}global.g}", "${global.g}", 2),
    ("${global.g}", "G", 1),
    ("${none}", "", 1),
    ("x", "x", 0),
    ("${", "${", 0),
    ("7", "7", 0),
];
fn literal(n: usize) -> Box<dyn Suite> {
    let c = Compiler::new();
    let rt = all();
    radix(
        &format!("literal-{n}"),
        &format!("texts of up to {n} of {} pieces (encoded bytes and code points, variables, digits, unfinished references) x neither, either or both of variables and encoded-character required x as an address, in a list and in a comparison", PIECES.len()),
        vec![nwords(PIECES.len(), n) as usize, 4, 3],
        move |v, cx| {
            let w = word(PIECES.len(), v[0] as u64);
            // an unfinished reference would swallow what follows it
            if w.iter().rev().skip(1).any(|i| PIECES[*i].0 == "${") {
                return Ok(());
            }
            let have = v[1] as u8;
            let text: String = w.iter().map(|i| PIECES[*i].0).collect();
            let value = |have: u8| -> String {
                w.iter()
                    .map(|i| {
                        let (t, m, need) = PIECES[*i];
                        if need & have != need {
                            t.to_string()
                        } else if m.contains("${") && need == 2 && have & 1 == 1 {
                            "G".into()
                        } else {
                            m.to_string()
                        }
                    })
                    .collect()
            };
            let mut r = vec!["fileinto", "imap4flags"];
            if have & 1 == 1 {
                r.push("variables");
            }
            if have & 2 == 2 {
                r.push("encoded-character");
            }
            let use_ = match v[2] {
                0 => format!("fileinto \"{text}\";"),
                1 => format!("fileinto :flags [\"f\", \"{text}\"] \"i\";"),
                _ => format!("if header :is \"x-v\" \"{text}\" {{ fileinto \"same\"; }}"),
            };
            let src = format!("{}{use_}", req(&r));
            let sc = compile(&c, &src).map_err(|e| Fail::new("literal", format!("{src} {}", show(&e))))?;
            cx.state(&v);
            cx.trace();
            cx.step(1);
            let judge = |want: &str| -> Result<bool, Fail> {
                let msg = format!("X-V: {want}\r\n\r\nb\r\n");
                let o = run_with(&rt, &sc, msg.as_bytes(), |c| {
                    known::prep(c);
                    c.set_global_variable("g", "G")
                }, yes);
                Ok(match (o.first(), v[2]) {
                    (Some(Ob::Ev(Event::FileInto { folder, .. })), 0) => folder == want,
                    (Some(Ob::Ev(Event::FileInto { flags, .. })), 1) => {
                        // flags are a set of words
                        let mut l: Vec<&str> = vec![];
                        for x in want.split_whitespace() {
                            if x != "f" && !l.contains(&x) {
                                l.push(x);
                            }
                        }
                        flags.iter().skip(1).map(|x| x.as_str()).eq(l)
                    }
                    (o, 2) => matches!(o, Some(Ob::Ev(Event::FileInto { .. }))),
                    _ => false,
                })
            };
            let want = value(have);
            cx.outcome(&want);
            if judge(&want)? {
                return Ok(());
            }
            let key = if have & 1 == 0 && judge(&value(have | 1))? { "variables-without-require" } else { "literal" };
            Err(Fail::new(key, format!("{src}\nshould be the text {want:?}")))
        },
    )
}
pub fn property(thorough: bool) -> Property {
    let _ = Kind::Act;
    let mut suites = vec![
        declared(),
        unchecked(),
        allowed(false),
        ihave_truth(if thorough { 3 } else { 2 }),
        ihave_guards(1, 3),
        unknown(),
        literal(if thorough { 5 } else { 4 }),
    ];
    if thorough {
        suites.push(allowed(true));
        suites.push(ihave_guards(2, 2));
    }
    Property {
        id: "C19",
        level: "model_checking",
        technique: "exhaustive enumeration of uses of every extension, require and ihave placements and allowed sets on the real compiler and interpreter, judged by a table of what needs what and a truth-value model of guards",
        assumptions: vec![
            "require may stand anywhere and is valid for the rest of its block; the comparators of the library, the variable namespaces and :local need no require".into(),
            "what ihave guards is the block and the later tests of a condition that is a conjunction; other conditions may be refused".into(),
            "variables and encoded-character cannot be enabled with ihave".into(),
        ],
        suites,
    }
}
