use super::core::*;
use super::rx::{self, Rx};
use crate::eng::*;
use crate::harness::*;
use sieve::Event;

const HDR: &str = "require [\"variables\", \"fileinto\", \"regex\", \"imap4flags\", \"include\"];\n";

fn folder(got: &[Ob]) -> Option<&str> {
    match got.first() {
        Some(Ob::Ev(Event::FileInto { folder, .. })) => Some(folder),
        _ => None,
    }
}
fn expect(key: String, sc: &str, exp: &str, got: &[Ob], cx: &mut Cx) -> Res {
    cx.step(1);
    cx.trace();
    cx.outcome(exp);
    if folder(got) == Some(exp) {
        Ok(())
    } else {
        Err(Fail::new(key, format!("script:\n{sc}\nexpected {exp:?}\ngot: {}", show_all(got))))
    }
}

/// every pattern × every value: result and all captures
fn captures(np: usize, nv: usize) -> Box<dyn Suite> {
    const PA: [&str; 6] = ["a", "b", "*", "?", "\\*", "é"];
    const VA: [&str; 4] = ["a", "B", "*", "é"];
    let c = compiler();
    let rt = runtime();
    let vals: Vec<String> = (0..nwords(4, nv)).map(|i| word(4, i).into_iter().map(|i| VA[i]).collect()).collect();
    radix(
        "wildcards",
        &format!("all patterns of up to {np} symbols of {PA:?} × all values of up to {nv} of {VA:?} × pattern literal/from a variable: result, ${{0}} and all captures"),
        vec![nwords(6, np) as usize, 2],
        move |v, cx| {
            let p: String = word(6, v[0] as u64).into_iter().map(|i| PA[i]).collect();
            let g = parse_glob(&p);
            let wild = g.iter().filter(|x| !matches!(x, Gp::Lit(_))).count();
            let refs: String = (0..=(wild + 1)).map(|i| format!("${{{i}}}|")).collect();
            // an earlier match leaves text in every variable
            let before = "if string :matches \"k0k1k2k3k4k5k6k7\" \"k?k?k?k?k?k?k?k?\" {}";
            let sc = if v[1] == 0 {
                format!("{HDR}{before}\nif string :matches \"${{global.v}}\" {} {{ fileinto \"{refs}\"; }} else {{ fileinto \"no {refs}\"; }}", q(&p))
            } else {
                format!("{HDR}{before}\nif string :matches \"${{global.v}}\" \"${{global.p}}\" {{ fileinto \"{refs}\"; }} else {{ fileinto \"no {refs}\"; }}")
            };
            let comp = compile(&c, &sc).map_err(|e| Fail::new(format!("wc:{p}"), format!("{sc}\n{}", show(&e))))?;
            for val in &vals {
                let vc: Vec<char> = val.chars().collect();
                let exp = match glob(&g, &vc, true) {
                    Some(caps) => {
                        let mut o = format!("{val}|");
                        for i in 0..=wild {
                            o.push_str(&format!("{}|", caps.get(i).map(|x| x.as_str()).unwrap_or("")));
                        }
                        o
                    }
                    None => {
                        let mut o = "no k0k1k2k3k4k5k6k7|".to_string();
                        for i in 0..=wild {
                            o.push_str(&format!("{i}|"));
                        }
                        o
                    }
                };
                let got = run_with(&rt, &comp, b"S: x\r\n\r\nb\r\n", |ctx| {
                    ctx.set_global_variable("v", val.clone());
                    ctx.set_global_variable("p", p.clone());
                }, yes);
                cx.state(&(&p, val));
                expect(format!("wc:{p}:{val}:{}", v[1]), &format!("{sc}\nvalue {val:?} pattern {p:?}"), &exp, &got, cx)?;
            }
            cx.sample(|| format!("{} with {} values", p, vals.len()));
            Ok(())
        },
    )
}
/// many wildcards
fn many() -> Box<dyn Suite> {
    let c = compiler().with_max_match_variables(64);
    let rt = runtime();
    radix(
        "many-wildcards",
        "patterns with 1..=34 wildcards (only ?, only *, alternating, pairs of *) × each reference ${1}..${31}",
        vec![34, 4, 31],
        move |v, cx| {
            let n = v[0] + 1;
            let (mut p, mut val, mut caps) = (String::new(), String::new(), vec![]);
            for i in 0..n {
                let ch = char::from(b'a' + (i % 26) as u8);
                match v[1] {
                    0 => {
                        p.push('?');
                        val.push(ch);
                        caps.push(ch.to_string());
                    }
                    1 => {
                        p.push_str("*.");
                        val.push_str(&format!("{ch}{ch}."));
                        caps.push(format!("{ch}{ch}"));
                    }
                    2 if i % 2 == 0 => {
                        p.push_str("*-");
                        val.push_str(&format!("{ch}-"));
                        caps.push(ch.to_string());
                    }
                    2 => {
                        p.push('?');
                        val.push(ch);
                        caps.push(ch.to_string());
                    }
                    _ => {
                        // ** : the first takes nothing
                        p.push_str(if i % 2 == 0 { "*" } else { "*:" });
                        if i % 2 == 0 {
                            caps.push(String::new());
                        } else {
                            val.push_str(&format!("{ch}:"));
                            caps.push(ch.to_string());
                        }
                        if i + 1 == n && i % 2 == 0 {
                            caps.pop();
                            caps.push("end".into());
                            val.push_str("end");
                        }
                    }
                }
            }
            let r = v[2] + 1;
            let sc = format!("{HDR}if string :matches {} {} {{ fileinto \"|${{{r}}}\"; }}", q(&val), q(&p));
            let got = run_script(&c, &rt, &sc, b"S: x\r\n\r\nb\r\n", |_| (), yes);
            cx.state(&(&p, r));
            expect(format!("many:{}:{n}:{r}", v[1]), &sc, &format!("|{}", caps.get(r - 1).map(|x| x.as_str()).unwrap_or("")), &got, cx)
        },
    )
}
/// every small regular expression × every value
fn regexes(n: usize, nv: usize, anchors: bool, name: &str) -> Box<dyn Suite> {
    let c = compiler();
    let rt = runtime();
    let vals: Vec<String> = (0..nwords(2, nv)).map(|i| word(2, i).into_iter().map(|i| ["a", "b"][i]).collect()).collect();
    let atoms = [Rx::Ch('a'), Rx::Ch('b'), Rx::Any];
    let v = rx::all(&atoms, n, anchors);
    list(
        name,
        &format!("all regular expressions with up to {n} nodes over a, b, . with groups, alternatives, repetition (greedy and lazy){} × all values of up to {nv} letters: result, matched text and all groups", if anchors { ", anchored and not" } else { "" }),
        v,
        move |r, cx| {
            let p = r.text();
            let ng = r.groups();
            let refs: String = (0..=(ng + 1)).map(|i| format!("${{{i}}}|")).collect();
            let sc = format!("{HDR}if string :matches \"k0k1k2k3k4k5\" \"k?k?k?k?k?k?\" {{}}\nif string :regex \"${{global.v}}\" {} {{ fileinto \"{refs}\"; }} else {{ fileinto \"no {refs}\"; }}", q(&p));
            let comp = compile(&c, &sc).map_err(|e| Fail::new(format!("rx:{p}"), format!("{sc}\n{}", show(&e))))?;
            for val in &vals {
                let exp = match r.find(val) {
                    Some(caps) => (0..=(ng + 1)).map(|i| format!("{}|", caps.get(i).and_then(|x| x.as_deref()).unwrap_or(""))).collect::<String>(),
                    None => format!("no k0k1k2k3k4k5|{}", (0..=ng).map(|i| format!("{i}|")).collect::<String>()),
                };
                let got = run_with(&rt, &comp, b"S: x\r\n\r\nb\r\n", |ctx| ctx.set_global_variable("v", val.clone()), yes);
                cx.state(&(&p, val));
                expect(format!("rx:{p}:{val}"), &format!("{sc}\nvalue {val:?}"), &exp, &got, cx)?;
            }
            cx.sample(|| format!("{p} with {} values", vals.len()));
            Ok(())
        },
    )
}

fn m(v: &str, k: &str) -> T {
    T::Str(Mt::Matches, vec![s(v)], vec![s(k)])
}
fn gm(pre: &str, v: &[&str], k: &[&str]) -> T {
    T::M(pre.into(), v.iter().map(|x| vec![P::T(x.to_string())]).collect(), k.iter().map(|k| MKey::Glob(s(k))).collect())
}
fn rxm(pre: &str, v: &str, r: Rx) -> T {
    T::M(pre.into(), vec![vec![P::T(v.into())]], vec![MKey::Rx(r)])
}
fn grp(x: Rx) -> Rx {
    Rx::Grp(Box::new(x))
}
fn lit(t: &str) -> Rx {
    Rx::Seq(t.chars().map(Rx::Ch).collect())
}
/// (b)|a(c)?  on "ac"/"b": groups that take no part
fn rx2() -> Rx {
    Rx::Alt(vec![grp(Rx::Ch('b')), Rx::Seq(vec![Rx::Ch('a'), grp(Rx::Ch('c'))])])
}
fn tests(full: bool) -> Vec<T> {
    let ok = m("abc", "a*c");
    let fail = m("n", "z*");
    let two = m("xy", "?*");
    let mut v = vec![
        ok.clone(),
        two.clone(),
        m("q", "q"),
        fail.clone(),
        rxm("string :regex \"ac\"", "ac", rx2()),
        T::Not(Box::new(ok.clone())),
        T::Any(vec![fail.clone(), two.clone()]),
        T::All(vec![ok.clone(), fail.clone()]),
        m("${1}w", "*w"),
        T::Host(0),
    ];
    if full {
        v.extend([
            T::Not(Box::new(fail.clone())),
            T::Any(vec![ok.clone(), two.clone()]),
            T::All(vec![ok.clone(), two.clone()]),
            T::All(vec![two.clone(), m("${2}${1}", "*x")]),
            T::Any(vec![T::Host(0), ok.clone()]),
            T::All(vec![ok.clone(), T::Host(0)]),
            T::Not(Box::new(T::Any(vec![fail, T::Not(Box::new(ok))]))),
            T::Str(Mt::Is, vec![s("a")], vec![s("a")]),
            T::Str(Mt::Contains, vec![s("abc")], vec![s("b")]),
            gm("header :matches \"subject\"", &["hello"], &["h*l*"]),
            rxm("string :regex \"zz\"", "zz", lit("z")),
        ]);
    }
    v
}
fn refs() -> Vec<C> {
    vec![C::Mark(0, s("[${0}]")), C::Mark(0, s("[${1}|${2}]"))]
}
fn wants(b: &B) -> bool {
    any_cmd(b, &|c| matches!(c, C::Mark(..))) && any_test(b, &|t| matches!(t, T::Str(Mt::Matches, ..) | T::M(..)))
}

/// every kind of test with :matches / :regex on values known by construction
fn kinds() -> Box<dyn Suite> {
    // (test text before the keys, values examined in order)
    let kinds: Vec<(&str, Vec<&str>)> = vec![
        ("header :matches \"subject\"", vec!["Hello World"]),
        ("header :matches [\"x-none\", \"x-num\", \"subject\"]", vec!["17", "Hello World"]),
        ("header :mime :anychild :matches \"x-part\"", vec!["one", "two"]),
        ("header :mime :anychild :type :matches \"content-type\"", vec!["multipart", "text", "text"]),
        ("header :mime :anychild :subtype :matches \"content-type\"", vec!["mixed", "plain", "html"]),
        ("header :mime :anychild :contenttype :matches \"content-type\"", vec!["multipart/mixed", "text/plain", "text/html"]),
        ("header :mime :param \"boundary\" :matches \"content-type\"", vec!["xx"]),
        ("address :matches \"from\"", vec!["joe+tag@Example.org"]),
        ("address :localpart :matches \"to\"", vec!["one", "three"]),
        ("address :domain :matches \"to\"", vec!["two.example", "four.example"]),
        ("address :detail :matches \"from\"", vec!["tag"]),
        ("address :user :matches \"from\"", vec!["joe"]),
        ("envelope :matches \"from\"", vec!["env@from.example"]),
        ("envelope :localpart :matches \"to\"", vec!["user"]),
        ("date :originalzone :matches \"date\" \"date\"", vec!["2014-04-01"]),
        ("date :zone \"+0100\" :matches \"date\" \"time\"", vec!["17:06:31"]),
        ("environment :matches \"host\"", vec!["mail.example"]),
        ("metadata :matches \"INBOX\" \"/private/x\"", vec!["yes"]),
        ("servermetadata :matches \"/srv\"", vec!["on"]),
        ("string :matches \"${global.v}\"", vec!["va lue"]),
        ("string :matches [\"zero\", \"${global.v}\"]", vec!["zero", "va lue"]),
        ("hasflag :matches", vec!["fl1"]),
        ("hasflag :matches [\"global.fv\"]", vec!["fl2", "fl3"]),
        ("spamtest :matches", vec!["8"]),
        ("spamtest :percent :matches", vec!["80"]),
        ("virustest :matches", vec!["1"]),
    ];
    let keys = ["*", "?*", "*e*", "?", "??", "*o", "x", "one", "1", "*1", "17", "*.example", "*-*-*", "*:*:*", "\\*", "*a*e", "two", "*@*.*", "*l*", "text"];
    let c = compiler();
    let rt = super::known::runtime(runtime()).with_capability(sieve::compiler::grammar::Capability::SpamTestPlus);
    let nk = kinds.len();
    radix(
        "test-kinds",
        "every kind of test that takes :matches (26 forms, values known by construction) × 20 patterns × plain/under not/after an earlier match × pattern literal or in a variable × references ${0} ${1} ${2} ${3} or ${2} alone",
        vec![nk, keys.len(), 3, 2, 2],
        move |v, cx| {
            let (pre, vals) = &kinds[v[0]];
            let key = keys[v[1]];
            let k = parse_glob(key);
            let refs = if v[4] == 0 { "${0}|${1}|${2}|${3}" } else { "|${2}" };
            let before = if v[2] == 2 { "if string :matches \"k1k2k3\" \"k?k?k?\" {}" } else { "" };
            let old = if v[2] == 2 { vec!["k1k2k3".to_string(), "1".into(), "2".into(), "3".into()] } else { vec![String::new(); 4] };
            let not = if v[2] == 1 { "not " } else { "" };
            let hit = vals.iter().find_map(|x| glob(&k, &x.chars().collect::<Vec<_>>(), true).map(|c| {
                let mut o = vec![x.to_string()];
                o.extend(c);
                o
            }));
            let r = hit.clone().unwrap_or(old);
            let g = |i: usize| r.get(i).map(|x| x.as_str()).unwrap_or("");
            let rr = if v[4] == 0 { format!("{}|{}|{}|{}", g(0), g(1), g(2), g(3)) } else { format!("|{}", g(2)) };
            let exp = format!("{}{rr}", if hit.is_some() ^ (v[2] == 1) { "yes " } else { "no " });
            let ktext = if v[3] == 0 { q(key) } else { "\"${global.k}\"".to_string() };
            let sc = format!("{REQ}addflag \"fl1\"; setflag \"global.fv\" [\"fl2\", \"fl3\"];\n{before}\nif {not}{pre} {ktext} {{ fileinto \"yes {refs}\"; }} else {{ fileinto \"no {refs}\"; }}");
            let got = run_script(&c, &rt, &sc, super::known::MSG.as_bytes(), |ctx| {
                super::known::prep(ctx);
                ctx.set_global_variable("v", "va lue");
                ctx.set_global_variable("k", key);
            }, yes);
            cx.state(&(pre, key, v[2]));
            expect(format!("kind:{pre}:{key}:{}:{}:{}", v[2], v[3], v[4]), &sc, &exp, &got, cx)
        },
    )
}
/// tests of other kinds never touch the match variables
fn untouched() -> Box<dyn Suite> {
    let known: Vec<(&'static str, bool)> = super::known::KNOWN
        .iter()
        .filter(|(t, _)| {
            (!t.contains(":matches") && !t.contains(":regex")) || t.starts_with("body")
        })
        .cloned()
        .chain([
            ("body :matches \"*first*\"", true),
            ("body :raw :matches \"*first*text*\"", true),
            ("body :content \"text\" :matches \"?*\"", true),
            ("body :regex \"f(i)rst\"", true),
            ("header :matches \"subject\" \"nope*\"", false),
            ("header :regex \"subject\" \"nope(x)\"", false),
            ("mailboxexists \"a\"", true),
            ("not mailboxexists \"a\"", false),
            ("duplicate", true),
        ])
        .collect();
    let c = compiler();
    let rt = super::known::runtime(runtime());
    let n = known.len();
    radix(
        "untouched",
        "every test that is not a successful match (all tests of the known-truth table without :matches/:regex, body tests, failing matches, host questions) after a successful match: the match variables keep their values",
        vec![n, 2],
        move |v, cx| {
            let (t, val) = known[v[0]];
            let prev = if v[1] == 0 { "string :matches \"k1k2\" \"k?k?\"" } else { "header :regex \"subject\" \"(H)e(l+)o\"" };
            let r = if v[1] == 0 { "k1k2|1|2|" } else { "Hello|H|ll|" };
            let sc = format!("{REQ}if {prev} {{ if {t} {{ fileinto \"yes ${{0}}|${{1}}|${{2}}|${{3}}\"; }} else {{ fileinto \"no ${{0}}|${{1}}|${{2}}|${{3}}\"; }} }}");
            let mut got = run_script(&c, &rt, &sc, super::known::MSG.as_bytes(), super::known::prep, yes);
            got.retain(|o| matches!(o, Ob::Ev(Event::FileInto { .. }) | Ob::Panic(_) | Ob::CompileErr(_)));
            cx.state(&(t, v[1]));
            expect(format!("untouched:{t}:{}", v[1]), &sc, &format!("{} {r}", if val { "yes" } else { "no" }), &got, cx)
        },
    )
}
/// several values and keys: the captures come from a pair that matches
fn lists(nmax: usize) -> Box<dyn Suite> {
    let vals = ["ab", "cb", "xy"];
    let keys = ["a*", "c*", "*q", "x?"];
    let (nv, nk) = (nwords(3, nmax) as usize, nwords(4, nmax) as usize);
    let c = compiler();
    let rt = runtime();
    radix(
        "lists",
        &format!("header tests over all lists of up to {nmax} header values × all lists of up to {nmax} patterns, in any order, under :matches and :regex: result, and captures whenever only one pair can be meant"),
        vec![nv, nk, 2],
        move |v, cx| {
            let vs: Vec<&str> = word(3, v[0] as u64).into_iter().map(|i| vals[i]).collect();
            let ks: Vec<&str> = word(4, v[1] as u64).into_iter().map(|i| keys[i]).collect();
            if ks.is_empty() {
                return Ok(());
            }
            let hit = |x: &str, k: &str| glob(&parse_glob(k), &x.chars().collect::<Vec<_>>(), true);
            let by_value = vs.iter().find_map(|x| ks.iter().find_map(|k| hit(x, k).map(|c| (x.to_string(), c))));
            let by_key = ks.iter().find_map(|k| vs.iter().find_map(|x| hit(x, k).map(|c| (x.to_string(), c))));
            let mut msg = String::from("From: a@b.example\r\n");
            for x in &vs {
                msg.push_str(&format!("X-V: {x}\r\n"));
            }
            msg.push_str("\r\nb\r\n");
            let kl = ks.iter().map(|k| if v[2] == 0 { q(k) } else { q(&format!("^{}$", k.replace('*', "(.*)").replace('?', "(.)"))) }).collect::<Vec<_>>().join(", ");
            let sc = format!("{HDR}if header :{} \"X-V\" [{kl}] {{ fileinto \"yes ${{0}}|${{1}}\"; }} else {{ fileinto \"no ${{0}}|${{1}}\"; }}", if v[2] == 0 { "matches" } else { "regex" });
            let got = run_script(&c, &rt, &sc, msg.as_bytes(), |_| (), yes);
            cx.state(&(&vs, &ks));
            let exps: Vec<String> = match (by_value, by_key) {
                (Some(a), Some(b)) => [a, b].into_iter().map(|(x, c)| format!("yes {x}|{}", c[0])).collect(),
                _ => vec!["no |".into()],
            };
            cx.step(1);
            cx.trace();
            cx.outcome(&exps);
            if folder(&got).is_some_and(|f| exps.iter().any(|e| e == f)) {
                Ok(())
            } else {
                Err(Fail::new(format!("lists:{vs:?}:{ks:?}:{}", v[2]), format!("{sc}\nvalues {vs:?}\nexpected one of {exps:?}\ngot: {}", show_all(&got))))
            }
        },
    )
}

fn capability() -> Box<dyn Suite> {
    let c = compiler();
    let rt = super::known::runtime(runtime());
    radix("notify-capability", "notify_method_capability :matches/:regex on the value \"maybe\"", vec![2], move |v, cx| {
        let k = ["m*e\"", "m(.*)e\""][v[0]];
        let sc = format!("{REQ}if string :matches \"k1k2\" \"k?k?\" {{}} if notify_method_capability :{} \"mailto:a@b.example\" \"online\" \"{k} {{ fileinto \"yes ${{0}}|${{1}}|${{2}}\"; }}", ["matches", "regex"][v[0]]);
        let got = run_script(&c, &rt, &sc, super::known::MSG.as_bytes(), super::known::prep, yes);
        cx.state(&v[0]);
        // known: the match is found but its texts are not stored
        let key = if folder(&got) == Some("yes k1k2|1|2") { "notify_method_capability-sets-nothing".to_string() } else { format!("ncap:{}", v[0]) };
        expect(key, &sc, "yes maybe|ayb|", &got, cx)
    })
}

pub fn property(thorough: bool) -> Property {
    let mut suites: Vec<Box<dyn Suite>> = vec![];
    let t = thorough as usize;
    suites.push(captures(4 + t, 3 + t));
    suites.push(many());
    suites.push(regexes(4 + t, 4 + t, true, "regexes"));
    suites.push(kinds());
    suites.push(untouched());
    suites.push(lists(3 + t));
    suites.push(capability());
    let g = Gram { leaves: refs(), tests: tests(true), max_branches: 2, with_else: true, max_depth: 3, empty: true, ..Default::default() };
    let n = 3 + t;
    suites.push(prog_suite(
        "history",
        &format!("all programs of up to {n} nodes of 21 tests (matches, regex, under not/allof/anyof, referring to earlier matches, host questions) in if/elsif/else with possibly empty blocks, and references"),
        Progs::lazy(&g, 1, n, wants),
        Msg::simple(),
        Lib::default(),
        Opts::default(),
    ));
    let g = Gram { leaves: refs(), tests: if thorough { tests(false).into_iter().filter(|t| !matches!(t, T::All(_)) && *t != m("q", "q")).take(6).collect() } else { tests(false) }, max_branches: 2, with_else: true, max_depth: 3, empty: true, ..Default::default() };
    let n = 4 + t;
    suites.push(prog_suite(
        "deep-history",
        &format!("all programs of up to {n} nodes of {} tests in if/elsif/else and references", g.tests.len()),
        Progs::lazy(&g, 1, n, wants),
        Msg::simple(),
        Lib::default(),
        Opts::default(),
    ));
    let g = Gram {
        leaves: refs(),
        loop_leaves: vec![C::Break(None)],
        while_leaves: vec![C::Continue],
        tests: if thorough { vec![m("abc", "a*c"), m("${1}w", "*w")] } else { vec![m("abc", "a*c"), m("n", "z*"), T::Host(0), m("${1}w", "*w")] },
        max_branches: 1,
        with_else: false,
        fep: true,
        whiles: true,
        max_depth: 3,
        empty: true,
        ..Default::default()
    };
    let n = 5 + t;
    suites.push(prog_suite(
        "loops",
        &format!("all programs of up to {n} nodes of matches and references in foreverypart, while (≤2 rounds) and if"),
        Progs::lazy(&g, 1, n, |b| wants(b) && any_cmd(b, &|c| matches!(c, C::While(..) | C::ForEvery(..)))),
        Msg::tree(&[0, 0]),
        Lib::default(),
        Opts { fuel: 2, ..Default::default() },
    ));
    Property {
        id: "C09",
        level: "model_checking",
        technique: "explicit-state exploration of all small programs of matching tests and references against a reference interpreter, and exhaustive enumeration of patterns, regular expressions and values against independent backtracking matchers, each executed on the real library",
        assumptions: vec![
            "the body test never sets match variables (RFC 5173)".into(),
            "when several pairs of value and key match, either the first matching value or the first matching key may supply the captures".into(),
            "repetition of expressions that can match the empty text is not judged (regex library dialects differ)".into(),
        ],
        suites,
    }
}
