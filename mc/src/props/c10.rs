use super::core::{compiler, glob, parse_glob, q, runtime, REQ};
use super::rx::{self, Rx};
use crate::eng::*;
use crate::harness::*;
use sieve::{Context, Envelope, Event, Metadata, Runtime, Sieve};
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Ty {
    Is,
    Contains,
    Matches,
}
pub const TYS: [(Ty, &str); 3] = [(Ty::Is, ":is"), (Ty::Contains, ":contains"), (Ty::Matches, ":matches")];
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Cmp {
    Default,
    Octet,
    Casemap,
}
pub const CMPS: [(Cmp, &str); 3] = [(Cmp::Default, ""), (Cmp::Octet, ":comparator \"i;octet\""), (Cmp::Casemap, ":comparator \"i;ascii-casemap\"")];
/// case folding of one letter (letters with a one-to-one mapping only are used)
fn lc(c: char) -> char {
    c.to_lowercase().next().unwrap()
}
fn fold(t: &str) -> String {
    t.chars().map(lc).collect()
}
pub fn expect(ty: Ty, cmp: Cmp, v: &str, k: &str) -> bool {
    let ci = cmp != Cmp::Octet;
    match ty {
        Ty::Is => v == k || ci && fold(v) == fold(k),
        Ty::Contains => v.contains(k) || ci && fold(v).contains(&fold(k)),
        Ty::Matches => {
            let f = |t: &str| if ci { fold(t) } else { t.to_string() };
            glob(&parse_glob(&f(k)), &f(v).chars().collect::<Vec<_>>(), false).is_some()
        }
    }
}

/// A place where a value is examined: test text before and after the match type, and how the value gets there.
pub struct Place {
    pub name: &'static str,
    pub pre: &'static str,
    pub post: &'static str,
    pub put: fn(&[&str]) -> World,
    /// may this value occur there (syntax of the place)?
    pub ok: fn(&str) -> bool,
    /// are several values possible?
    pub many: bool,
    /// an empty value counts as no value
    pub empty: bool,
}
#[derive(Default, Clone)]
pub struct World {
    pub msg: String,
    pub globals: Vec<(String, String)>,
    pub env: Vec<(String, String)>,
    pub meta: Option<(bool, String)>,
    pub from: Option<String>,
    pub set: String,
}
fn m(h: String) -> World {
    World { msg: format!("{h}\r\nx\r\n"), ..Default::default() }
}
fn base() -> World {
    m("S: s\r\n".into())
}
fn any(_: &str) -> bool {
    true
}
fn trimmed(v: &str) -> bool {
    v.trim() == v && !v.contains("=?")
}
fn atom(v: &str) -> bool {
    !v.is_empty() && v.chars().all(|c| c.is_ascii_alphanumeric())
}
fn flag(v: &str) -> bool {
    !v.is_empty() && !v.contains(char::is_whitespace)
}
pub fn places() -> Vec<Place> {
    vec![
        Place { name: "string", pre: "string", post: "\"${global.v}\"", put: |v| World { globals: vec![("v".into(), v[0].into())], ..base() }, ok: any, many: false, empty: true },
        Place { name: "header", pre: "header", post: "\"X-V\"", put: |v| m(v.iter().map(|v| format!("X-V: {v}\r\n")).collect()), ok: trimmed, many: true, empty: true },
        Place { name: "headers", pre: "header", post: "[\"X-A\", \"X-B\", \"X-C\"]", put: |v| m(v.iter().enumerate().map(|(i, v)| format!("X-{}: {v}\r\n", ["C", "B", "A"][i % 3])).collect()), ok: trimmed, many: true, empty: true },
        Place { name: "header-index", pre: "header :index 2", post: "\"X-V\"", put: |v| m(format!("X-V: zz\r\nX-V: {}\r\nX-V: yy\r\n", v[0])), ok: trimmed, many: false, empty: true },
        Place {
            name: "header-mime",
            pre: "header :mime :anychild",
            post: "\"X-V\"",
            put: |v| World {
                msg: format!("MIME-Version: 1.0\r\nContent-Type: multipart/mixed; boundary=bb\r\n\r\n{}--bb--\r\n", v.iter().map(|v| format!("--bb\r\nX-V: {v}\r\n\r\nt\r\n")).collect::<String>()),
                ..Default::default()
            },
            ok: trimmed,
            many: true,
            empty: true,
        },
        Place {
            name: "header-param",
            pre: "header :mime :param \"p\"",
            post: "\"Content-Type\"",
            put: |v| m(format!("Content-Type: text/plain; p={}\r\n", v[0])),
            ok: atom,
            many: false,
            empty: true,
        },
        Place { name: "address-localpart", pre: "address :localpart", post: "\"X-V\"", put: |v| m(format!("X-V: {}\r\n", v.iter().map(|v| format!("{v}@z.example")).collect::<Vec<_>>().join(", "))), ok: atom, many: true, empty: true },
        Place { name: "address-domain", pre: "address :domain", post: "\"X-V\"", put: |v| m(format!("X-V: {}\r\n", v.iter().map(|v| format!("z@{v}")).collect::<Vec<_>>().join(", "))), ok: atom, many: true, empty: true },
        Place { name: "address-from", pre: "address :localpart", post: "\"From\"", put: |v| m(v.iter().map(|v| format!("From: Some One <{v}@z.example>\r\n")).collect()), ok: atom, many: true, empty: true },
        Place { name: "envelope", pre: "envelope :localpart", post: "\"from\"", put: |v| World { from: Some(format!("{}@z.example", v[0])), ..base() }, ok: atom, many: false, empty: true },
        Place { name: "environment", pre: "environment", post: "\"vnd.x\"", put: |v| World { env: vec![("vnd.x".into(), v[0].into())], ..base() }, ok: any, many: false, empty: false },
        Place { name: "metadata", pre: "metadata", post: "\"INBOX\" \"/x\"", put: |v| World { meta: Some((true, v[0].into())), ..base() }, ok: any, many: false, empty: true },
        Place { name: "servermetadata", pre: "servermetadata", post: "\"/x\"", put: |v| World { meta: Some((false, v[0].into())), ..base() }, ok: any, many: false, empty: true },
        Place { name: "body-raw", pre: "body :raw", post: "", put: |v| World { msg: format!("S: s\r\n\r\n{}", v[0]), ..Default::default() }, ok: any, many: false, empty: false },
        Place { name: "body-text", pre: "body :text", post: "", put: |v| World { msg: format!("S: s\r\nContent-Type: text/plain; charset=utf-8\r\n\r\n{}", v[0]), ..Default::default() }, ok: any, many: false, empty: true },
        Place {
            name: "body-content",
            pre: "body :content \"text\"",
            post: "",
            put: |v| World {
                msg: format!("MIME-Version: 1.0\r\nContent-Type: multipart/mixed; boundary=bb\r\n\r\n{}--bb--\r\n", v.iter().map(|v| format!("--bb\r\nContent-Type: text/plain; charset=utf-8\r\n\r\n{v}\r\n")).collect::<String>()),
                ..Default::default()
            },
            ok: any,
            many: true,
            empty: true,
        },
        Place { name: "hasflag", pre: "hasflag", post: "", put: |v| World { set: format!("setflag [{}];", v.iter().map(|v| q(v)).collect::<Vec<_>>().join(", ")), ..base() }, ok: flag, many: true, empty: true },
        Place { name: "hasflag-var", pre: "hasflag", post: "[\"global.w\", \"global.v\"]", put: |v| World { globals: vec![("v".into(), v.join(" "))], ..base() }, ok: flag, many: true, empty: true },
    ]
}
pub fn run_place(rt: &Runtime, sc: &Arc<Sieve>, w: &World, keys: &[&str]) -> Option<bool> {
    let mut rt2;
    let rt = match &w.meta {
        Some((mb, v)) => {
            rt2 = rt.clone();
            rt2 = rt2.with_metadata(
                if *mb { Metadata::Mailbox { name: "INBOX".to_string(), annotation: "/x".to_string() } } else { Metadata::Server { annotation: "/x".to_string() } },
                v.clone(),
            );
            &rt2
        }
        None => rt,
    };
    let got = run_with(
        rt,
        sc,
        w.msg.as_bytes(),
        |ctx: &mut Context| {
            for (n, v) in &w.globals {
                ctx.set_global_variable(n.clone(), v.clone());
            }
            for (i, k) in keys.iter().enumerate() {
                ctx.set_global_variable(format!("k{i}"), k.to_string());
            }
            for (n, v) in &w.env {
                ctx.set_env_variable(n.clone(), v.clone());
            }
            if let Some(f) = &w.from {
                ctx.set_envelope(Envelope::From, f.clone());
            }
        },
        yes,
    );
    verdict(&got)
}
/// value of the test from `if … { discard }`
pub fn verdict(got: &[Ob]) -> Option<bool> {
    match got {
        [Ob::Ev(Event::Discard)] => Some(true),
        [Ob::Ev(Event::Keep { .. })] => Some(false),
        _ => None,
    }
}
pub fn script(set: &str, pre: &str, args: &str, post: &str, keys: &[String]) -> String {
    let k = if keys.len() == 1 { keys[0].clone() } else { format!("[{}]", keys.join(", ")) };
    format!("{REQ}{set}\nif {pre} {args} {post} {k} {{ discard; }}")
}

/// one value, one key, everywhere
fn pairs(nv: usize, nk: usize) -> Box<dyn Suite> {
    const VA: [&str; 6] = ["a", "A", "b", "*", "\\", "é"];
    const KA: [&str; 7] = ["a", "B", "*", "?", "\\", "\\*", "É"];
    let c = compiler();
    let rt = runtime();
    let ps = places();
    let np = ps.len();
    let vals: Vec<String> = (0..nwords(6, nv)).map(|i| word(6, i).into_iter().map(|i| VA[i]).collect()).collect();
    radix(
        "pairs",
        &format!("all values of up to {nv} of {VA:?} × all keys of up to {nk} of {KA:?} × :is/:contains/:matches × default/i;octet/i;ascii-casemap × {np} places where a value can stand × key literal (places with even number) or in a variable"),
        vec![nwords(7, nk) as usize, 3, 3, np],
        move |v, cx| {
            let k: String = word(7, v[0] as u64).into_iter().map(|i| KA[i]).collect();
            let ((ty, tys), (cmp, cmps), p) = (TYS[v[1]], CMPS[v[2]], &ps[v[3]]);
            // a flag list is split at white space, so an empty key is no key
            if p.name.starts_with("hasflag") && k.is_empty() {
                return Ok(());
            }
            // a pattern that ends in a lone backslash has no defined meaning
            if ty == Ty::Matches && k.chars().rev().take_while(|c| *c == '\\').count() % 2 == 1 {
                return Ok(());
            }
            let lit = v[3] % 2 == 0;
            let mk = |set: &str| script(set, p.pre, &format!("{tys} {cmps}"), p.post, &[if lit { q(&k) } else { "\"${global.k0}\"".into() }]);
            let comp = |t: &str| compile(&c, t).map_err(|e| Fail::new(format!("compile:{}:{k}", p.name), format!("{t}\n{}", show(&e))));
            let plain = mk("");
            let sc0 = comp(&plain)?;
            for val in &vals {
                if !(p.ok)(val) {
                    continue;
                }
                let w = (p.put)(&[val]);
                let sc = if w.set.is_empty() { sc0.clone() } else { comp(&mk(&w.set))? };
                let got = run_place(&rt, &sc, &w, &[&k]);
                let exp = expect(ty, cmp, val, &k) && (p.empty || !val.is_empty());
                cx.state(&(p.name, val, &k));
                cx.step(1);
                cx.trace();
                cx.outcome(&(p.name, exp, ty));
                if got != Some(exp) {
                    // known: the parameter test also looks at an empty value
                    if p.name == "header-param" && got == Some(exp || expect(ty, cmp, "", &k)) {
                        return Err(Fail::new("header-param-also-empty", format!("{plain}\nparameter {val:?} key {k:?} {tys} {cmps}: expected {exp}, got {got:?}")));
                    }
                    return Err(Fail::new(
                        format!("pair:{}:{tys}:{cmps}:{val:?}:{k:?}", p.name),
                        format!("{plain}\nplace {} value {val:?} key {k:?} {tys} {cmps}: expected {exp}, got {got:?}", p.name),
                    ));
                }
            }
            cx.sample(|| format!("{} {tys} {cmps} key {k:?} × {} values", p.name, vals.len()));
            Ok(())
        },
    )
}
/// several values and several keys
fn lists(n: usize) -> Box<dyn Suite> {
    const V: [&str; 3] = ["ab", "Ac", "bb"];
    const K: [&str; 5] = ["a?", "AB", "b", "*c", "zz"];
    let c = compiler();
    let rt = runtime();
    let mut ps: Vec<Place> = places();
    ps.retain(|p| p.many);
    ps.push(Place {
        name: "string-list",
        pre: "string",
        post: "§",
        put: |v| World { globals: v.iter().enumerate().map(|(i, v)| (format!("v{i}"), v.to_string())).collect(), ..base() },
        ok: any,
        many: true,
        empty: true,
    });
    let np = ps.len();
    radix(
        "lists",
        &format!("all lists of 1..={n} values of {V:?} × all lists of 1..={n} keys of {K:?}, in every order × match types × default/i;octet × every place that can hold several values"),
        vec![nwords(3, n) as usize, nwords(5, n) as usize, 3, 2, np],
        move |v, cx| {
            let vs: Vec<&str> = word(3, v[0] as u64).into_iter().map(|i| V[i]).collect();
            let ks: Vec<&str> = word(5, v[1] as u64).into_iter().map(|i| K[i]).collect();
            let ((ty, tys), (cmp, cmps), p) = (TYS[v[2]], CMPS[v[3]], &ps[v[4]]);
            if vs.is_empty() || ks.is_empty() {
                return Ok(());
            }
            let kl: Vec<String> = ks.iter().map(|k| q(k)).collect();
            let w = (p.put)(&vs);
            let post = p.post.replace('§', &format!("[{}]", (0..vs.len()).map(|i| format!("\"${{global.v{i}}}\"")).collect::<Vec<_>>().join(", ")));
            let t = script(&w.set, p.pre, &format!("{tys} {cmps}"), &post, &kl);
            let sc = compile(&c, &t).map_err(|e| Fail::new(format!("compile:{}", p.name), format!("{t}\n{}", show(&e))))?;
            let got = run_place(&rt, &sc, &w, &[]);
            let exp = vs.iter().any(|x| ks.iter().any(|k| expect(ty, cmp, x, k)));
            cx.state(&(p.name, &vs, &ks));
            cx.step(1);
            cx.trace();
            cx.outcome(&(p.name, exp));
            if got != Some(exp) {
                // known: the last key alone decides in a string test
                let last = vs.iter().any(|x| expect(ty, cmp, x, ks.last().unwrap()));
                let key = if p.name == "string-list" && got == Some(last) { "string-last-key-decides".to_string() } else { format!("list:{}:{tys}:{cmps}:{vs:?}:{ks:?}", p.name) };
                return Err(Fail::new(key, format!("{t}\nvalues {vs:?}: expected {exp}, got {got:?}")));
            }
            Ok(())
        },
    )
}
/// fixed values: places whose value the host or the library computes
fn fixed() -> Box<dyn Suite> {
    let c = compiler();
    let rt = super::known::runtime(runtime()).with_capability(sieve::compiler::grammar::Capability::SpamTestPlus);
    let kinds: Vec<(&str, Vec<&str>)> = vec![
        ("date § \"date\" \"date\"", vec!["2014-04-01"]),
        ("date :originalzone § \"date\" \"zone\"", vec!["-0700"]),
        ("date :zone \"+0000\" § \"date\" \"weekday\"", vec!["2"]),
        ("spamtest §", vec!["8"]),
        ("spamtest :percent §", vec!["80"]),
        ("virustest §", vec!["1"]),
        ("notify_method_capability § \"mailto:a@b.example\" \"online\"", vec!["maybe"]),
        ("address § \"to\"", vec!["one@two.example", "three@four.example"]),
        ("address :all § [\"from\", \"to\"]", vec!["joe+tag@Example.org", "one@two.example", "three@four.example"]),
        ("address :user § \"from\"", vec!["joe"]),
        ("address :detail § \"from\"", vec!["tag"]),
        ("envelope § \"to\"", vec!["user@to.example"]),
        ("envelope :domain § [\"from\", \"to\"]", vec!["from.example", "to.example"]),
        ("header :mime :type § \"content-type\"", vec!["multipart"]),
        ("header :mime :anychild :subtype § \"content-type\"", vec!["mixed", "plain", "html"]),
        ("header :mime :anychild :contenttype § \"content-type\"", vec!["multipart/mixed", "text/plain", "text/html"]),
        ("header § [\"x-none\", \"SUBJECT\"]", vec!["Hello World"]),
        ("environment § \"host\"", vec!["mail.example"]),
        ("hasflag §", vec!["fl1"]),
    ];
    // keys: for every value its prefixes, suffixes, infixes, with and without wildcards, in other letter case
    let mut keys: Vec<String> = vec!["".into(), "*".into(), "?".into(), "??".into(), "*?*".into(), "nope".into(), "\\*".into()];
    for (_, vs) in &kinds {
        for v in vs {
            let n = v.len();
            let h = n / 2;
            for k in [v.to_string(), v.to_uppercase(), v[..h].into(), v[h..].into(), format!("{}*", &v[..h]), format!("*{}", &v[h..]), format!("{}?{}", &v[..h], &v[h + 1..]), format!("{v} "), format!("?{v}"), format!("{v}*"), v.replace('a', "A"), format!("*{}*", &v[h..h + 1])] {
                if !keys.contains(&k) {
                    keys.push(k);
                }
            }
        }
    }
    let nk = keys.len();
    let nkinds = kinds.len();
    radix(
        "fixed-values",
        &format!("{nkinds} tests on computed values × {nk} keys cut from those values × match types × comparators × alone / after a failing key / before a failing key"),
        vec![nkinds, nk, 3, 3, 3],
        move |v, cx| {
            let ((kind, vals), key, (ty, tys), (cmp, cmps)) = (&kinds[v[0]], &keys[v[1]], TYS[v[2]], CMPS[v[3]]);
            if kind.starts_with("hasflag") && (key.trim() != key || key.is_empty() || key.contains(' ')) {
                return Ok(());
            }
            // these take one key
            if v[4] != 0 && (kind.starts_with("spamtest") || kind.starts_with("virustest")) {
                return Ok(());
            }
            let kl = match v[4] {
                0 => q(key),
                1 => format!("[\"no-such-thing\", {}]", q(key)),
                _ => format!("[{}, \"no-such-thing\"]", q(key)),
            };
            let t = format!("{REQ}setflag \"fl1\"; if {} {kl} {{ discard; }}", kind.replace('§', &format!("{tys} {cmps}")));
            let got = verdict(&run_script(&c, &rt, &t, super::known::MSG.as_bytes(), super::known::prep, yes));
            let exp = vals.iter().any(|x| expect(ty, cmp, x, key));
            cx.state(&(kind, key));
            cx.step(1);
            cx.trace();
            cx.outcome(&(kind, exp));
            if got == Some(exp) {
                Ok(())
            } else if kind.starts_with("environment") && v[4] == 2 && got == Some(false) {
                // known: the last key alone decides
                Err(Fail::new("environment-last-key-decides", format!("{t}\nvalues {vals:?}: expected {exp}, got {got:?}")))
            } else {
                Err(Fail::new(format!("fixed:{kind}:{tys}:{cmps}:{key}:{}", v[4]), format!("{t}\nvalues {vals:?}: expected {exp}, got {got:?}")))
            }
        },
    )
}
/// :regex in every test
fn regexes(n: usize, nv: usize) -> Box<dyn Suite> {
    let c = compiler();
    let rt = runtime();
    let ps = places();
    let np = ps.len();
    let vals: Vec<String> = (0..nwords(2, nv)).map(|i| word(2, i).into_iter().map(|i| ["a", "b"][i]).collect()).collect();
    let rs = rx::all(&[Rx::Ch('a'), Rx::Ch('b'), Rx::Any], n, true);
    let nr = rs.len();
    radix(
        "regex",
        &format!("all regular expressions of up to {n} nodes, anchored or not × all values of up to {nv} letters × {np} places × expression literal or in a variable"),
        vec![nr, np, 2],
        move |v, cx| {
            let (r, p) = (&rs[v[0]], &ps[v[1]]);
            let t = r.text();
            let mk = |set: &str| script(set, p.pre, ":regex", p.post, &[if v[2] == 0 { q(&t) } else { "\"${global.k0}\"".into() }]);
            let comp = |t: &str| compile(&c, t).map_err(|e| Fail::new(format!("compile:{}:{t}", p.name), format!("{t}\n{}", show(&e))));
            let sc0 = comp(&mk(""))?;
            for val in &vals {
                if !(p.ok)(val) {
                    continue;
                }
                let w = (p.put)(&[val]);
                let sc = if w.set.is_empty() { sc0.clone() } else { comp(&mk(&w.set))? };
                let got = run_place(&rt, &sc, &w, &[&t]);
                let exp = r.find(val).is_some() && (p.empty || !val.is_empty());
                cx.state(&(p.name, val, &t));
                cx.step(1);
                cx.trace();
                cx.outcome(&(p.name, exp));
                if got != Some(exp) {
                    let as_glob = expect(Ty::Matches, Cmp::Default, val, &t);
                    let key = if p.name.starts_with("hasflag") && got == Some(as_glob) { "hasflag-regex-as-wildcards".to_string() } else if p.name == "header-param" && got == Some(exp || r.find("").is_some()) { "header-param-also-empty".to_string() } else { format!("regex:{}:{val:?}:{t:?}:{}", p.name, v[2]) };
                    return Err(Fail::new(key, format!("{}\nvalue {val:?}, expression {t}: expected {exp}, got {got:?}", mk(&w.set))));
                }
            }
            Ok(())
        },
    )
}
/// :regex on dates
fn date_regex() -> Box<dyn Suite> {
    let c = compiler();
    let rt = super::known::runtime(runtime());
    let pats = [("2014", true), ("^2...$", true), ("20(14|15)", true), ("[0-9]+", true), ("3000", false), ("x", false)];
    radix("date-regex", "date and currentdate with :regex on the year", vec![pats.len(), 2], move |v, cx| {
        let (k, e) = pats[v[0]];
        let t = format!("{REQ}if {} {} {{ discard; }}", ["date :regex \"date\" \"year\"", "currentdate :regex \"year\""][v[1]], q(k));
        let exp = if v[1] == 1 && e { k != "2014" && !k.contains("14") } else { e };
        let got = verdict(&run_script(&c, &rt, &t, super::known::MSG.as_bytes(), super::known::prep, yes));
        cx.state(&(v[0], v[1]));
        cx.step(1);
        cx.trace();
        if got == Some(exp) {
            return Ok(());
        }
        // known: the expression is taken as a wildcard pattern
        let as_glob = k == "2014" && v[1] == 0;
        let key = if got == Some(as_glob) { format!("{}-regex-as-wildcards", ["date", "currentdate"][v[1]]) } else { format!("date-regex:{k}:{}", v[1]) };
        Err(Fail::new(key, format!("{t}\nexpected {exp}, got {got:?}")))
    })
}
pub fn property(thorough: bool) -> Property {
    let t = thorough as usize;
    Property {
        id: "C10",
        level: "model_checking",
        technique: "exhaustive enumeration of value × key × match type × comparator × place within length bounds, each run on the real library and compared with an independent definition of matching",
        assumptions: vec![
            "letter case is ignored character by character, for all letters with a one-to-one mapping (the library folds more than ASCII)".into(),
            "an empty environment item or an empty raw body counts as no value; an empty string is no flag".into(),
        ],
        suites: vec![pairs(2 + t, 3), lists(2 + t), fixed(), regexes(3 + t, 3), date_regex()],
    }
}
