use super::core::{compiler, q, runtime};
use crate::eng::*;
use crate::harness::*;
use sieve::{Context, Event, Runtime};
use std::sync::Arc;

const REQS: &str = "require [\"variables\", \"enotify\", \"regex\", \"fileinto\", \"foreverypart\", \"mime\", \"extracttext\"];\n";

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum M {
    Lower,
    Upper,
    LowerFirst,
    UpperFirst,
    QuoteWildcard,
    QuoteRegex,
    EncodeUrl,
    Length,
    /// replace a by b*
    Rep1,
    /// remove B
    Rep2,
}
use M::*;
const ALL: [M; 10] = [Lower, Upper, LowerFirst, UpperFirst, QuoteWildcard, QuoteRegex, EncodeUrl, Length, Rep1, Rep2];

fn tag(m: M) -> &'static str {
    match m {
        Lower => ":lower",
        Upper => ":upper",
        LowerFirst => ":lowerfirst",
        UpperFirst => ":upperfirst",
        QuoteWildcard => ":quotewildcard",
        QuoteRegex => ":quoteregex",
        EncodeUrl => ":encodeurl",
        Length => ":length",
        Rep1 => ":replace \"a\" \"b*\"",
        Rep2 => ":replace \"${global.find}\" \"\"",
    }
}
/// larger ones first
fn class(m: M) -> u32 {
    match m {
        Lower | Upper | Rep1 | Rep2 => 40,
        LowerFirst | UpperFirst => 30,
        QuoteWildcard | QuoteRegex => 20,
        EncodeUrl => 15,
        Length => 10,
    }
}
/// definition of one modifier, in pieces that are never cut apart
fn pieces(m: M, t: &str) -> Vec<String> {
    let one = |c: char| c.to_string();
    match m {
        Lower => t.chars().flat_map(|c| c.to_lowercase()).map(one).collect(),
        Upper => t.chars().flat_map(|c| c.to_uppercase()).map(one).collect(),
        LowerFirst => t.chars().take(1).flat_map(|c| c.to_lowercase()).chain(t.chars().skip(1)).map(one).collect(),
        UpperFirst => t.chars().take(1).flat_map(|c| c.to_uppercase()).chain(t.chars().skip(1)).map(one).collect(),
        QuoteWildcard => t.chars().map(|c| if "*?\\".contains(c) { format!("\\{c}") } else { one(c) }).collect(),
        QuoteRegex => t.chars().map(|c| if "*\\?.[]()+{}|^=:$".contains(c) { format!("\\{c}") } else { one(c) }).collect(),
        EncodeUrl => t
            .chars()
            .map(|c| {
                if c.is_ascii() && (c.is_ascii_alphanumeric() || "-._~".contains(c)) {
                    one(c)
                } else {
                    let mut b = [0; 4];
                    c.encode_utf8(&mut b).bytes().map(|x| format!("%{x:02X}")).collect()
                }
            })
            .collect(),
        Length => vec![t.chars().count().to_string()],
        Rep1 => t.chars().map(|c| if c == 'a' { "b*".into() } else { one(c) }).collect(),
        Rep2 => t.chars().filter(|c| *c != 'B').map(one).collect(),
    }
}
fn apply(m: M, t: &str) -> String {
    pieces(m, t).concat()
}
/// letter case of hex digits and the two small sigmas are not told apart
fn canon(t: &str) -> String {
    let mut o = String::new();
    let c: Vec<char> = t.chars().collect();
    let mut i = 0;
    while i < c.len() {
        if c[i] == '%' && i + 2 < c.len() && c[i + 1].is_ascii_hexdigit() && c[i + 2].is_ascii_hexdigit() {
            o.extend(c[i..i + 3].iter().map(|x| x.to_ascii_uppercase()));
            i += 3;
        } else {
            o.push(if c[i] == 'ς' { 'σ' } else { c[i] });
            i += 1;
        }
    }
    o
}
fn prep(t: String, u: String) -> impl FnOnce(&mut Context) {
    move |ctx: &mut Context| {
        ctx.set_global_variable("t", t);
        ctx.set_global_variable("u", u);
        ctx.set_global_variable("find", "B");
    }
}
fn folders(o: &[Ob]) -> Option<Vec<String>> {
    let mut r = vec![];
    for x in o {
        match x {
            Ob::Ev(Event::FileInto { folder, .. }) => r.push(folder.clone()),
            Ob::Ev(Event::Keep { .. }) => (),
            _ => return None,
        }
    }
    Some(r)
}
/// all results of applying the modifiers class by class
fn results(ms: &[M], t: &str) -> Vec<String> {
    let mut cur = vec![t.to_string()];
    for cl in [40, 30, 20, 15, 10] {
        let now: Vec<M> = ms.iter().copied().filter(|m| class(*m) == cl).collect();
        let mut next: Vec<String> = vec![];
        for s in &cur {
            for p in perms(&now) {
                let r = p.iter().fold(s.clone(), |a, m| apply(*m, &a));
                if !next.contains(&r) {
                    next.push(r);
                }
            }
        }
        cur = next;
    }
    cur
}
fn perms(m: &[M]) -> Vec<Vec<M>> {
    if m.is_empty() {
        return vec![vec![]];
    }
    (0..m.len())
        .flat_map(|i| {
            let mut r = m.to_vec();
            let x = r.remove(i);
            perms(&r).into_iter().map(move |mut p| {
                p.insert(0, x);
                p
            })
        })
        .collect()
}
/// every ordered choice of up to n different modifiers
fn orders(n: usize) -> Vec<Vec<M>> {
    let mut out: Vec<Vec<M>> = vec![vec![]];
    let mut last = out.clone();
    for _ in 0..n {
        let mut next = vec![];
        for p in &last {
            for m in ALL {
                if !p.contains(&m) {
                    let mut v: Vec<M> = p.clone();
                    v.push(m);
                    next.push(v);
                }
            }
        }
        out.extend(next.clone());
        last = next;
    }
    out
}
fn tags(ms: &[M]) -> String {
    ms.iter().map(|m| tag(*m)).collect::<Vec<_>>().join(" ")
}

fn chars() -> Box<dyn Suite> {
    let body: String = ALL[..8].iter().map(|m| format!("set {} \"v\" \"${{global.t}}\"; fileinto \"${{v}}\";\n", tag(*m))).collect();
    let sc = compile(&compiler(), &format!("{REQS}{body}")).unwrap();
    let rt = runtime();
    radix("characters", "every Unicode character alone, before, and between two letters: each of the 8 plain modifiers", vec![0x110000, 3], move |v, cx| {
        let Some(c) = char::from_u32(v[0] as u32) else { return Ok(()) };
        let t = [format!("{c}"), format!("{c}x"), format!("y{c}y")][v[1]].clone();
        cx.state(&(c, v[1]));
        cx.trace();
        cx.step(8);
        let got = run_with(&rt, &sc, b"A: b\r\n\r\n", prep(t.clone(), "".into()), yes);
        let want: Vec<String> = ALL[..8].iter().map(|m| canon(&apply(*m, &t))).collect();
        let f = folders(&got).unwrap_or_default();
        cx.outcome(&f);
        let f: Vec<String> = f.iter().map(|x| canon(x)).collect();
        if f == want {
            Ok(())
        } else {
            Err(Fail::new("character", format!("{t:?} (U+{:04X}): want {want:?}\n    {}", c as u32, show_all(&got))))
        }
    })
}
fn pipelines(n: usize, w: usize) -> Box<dyn Suite> {
    let k = ["a", "B", "é", "*", "\\", ".", "%", "ß", "ǆ"];
    let c = compiler();
    let ps: Vec<(Vec<M>, Arc<sieve::Sieve>)> = orders(n)
        .into_iter()
        .map(|p| {
            let sc = compile(&c, &format!("{REQS}set {} \"v\" \"${{global.t}}\"; fileinto \"${{v}}\";", tags(&p))).unwrap();
            (p, sc)
        })
        .collect();
    let rt = runtime();
    radix(
        &format!("pipelines-{n}-{w}"),
        &format!("every ordered choice of up to {n} of the 8 plain modifiers and two replacements on every text of up to {w} characters from {k:?}"),
        vec![ps.len(), nwords(k.len(), w) as usize],
        move |v, cx| {
            let (p, sc) = &ps[v[0]];
            let t: String = word(k.len(), v[1] as u64).iter().map(|&i| k[i]).collect();
            cx.state(&v);
            cx.trace();
            cx.step(p.len() as u64);
            let got = run_with(&rt, sc, b"A: b\r\n\r\n", prep(t.clone(), "".into()), yes);
            let want: Vec<String> = results(p, &t).iter().map(|x| canon(x)).collect();
            let f = folders(&got).unwrap_or_default();
            cx.outcome(&f);
            if f.len() == 1 && want.contains(&canon(&f[0])) {
                Ok(())
            } else {
                Err(Fail::new("pipeline", format!("set {} {t:?}: want one of {want:?}\n    {}", tags(p), show_all(&got))))
            }
        },
    )
}
/// the quoted text as a pattern
fn quoting(name: &str, k: Vec<String>, n: usize, pairs: bool) -> Box<dyn Suite> {
    let sc = compile(
        &compiler(),
        &format!("{REQS}set :quotewildcard \"p\" \"${{global.t}}\"; set :quoteregex \"r\" \"${{global.t}}\"; if string :matches :comparator \"i;octet\" \"${{global.u}}\" \"${{p}}\" {{ fileinto \"w\"; }} if string :regex :comparator \"i;octet\" \"${{global.u}}\" \"^${{r}}$\" {{ fileinto \"r\"; }}"),
    )
    .unwrap();
    let rt = runtime();
    let nw = nwords(k.len(), n) as usize;
    let base = k.len();
    let text = move |i: u64| -> String { word(base, i).iter().map(|&i| k[i].as_str()).collect() };
    radix(
        name,
        &format!("every text of up to {n} of {base} characters, quoted, as a wildcard and as a regular expression against {}", if pairs { "every other one" } else { "itself and everything one edit away" }),
        if pairs { vec![nw, nw] } else { vec![nw, 1] },
        move |v, cx| {
            let t = text(v[0] as u64);
            let us: Vec<String> = if pairs {
                vec![text(v[1] as u64)]
            } else {
                let c: Vec<char> = t.chars().collect();
                let mut us = vec![t.clone(), format!("{t}a"), format!("a{t}"), format!("\\{t}"), t.to_lowercase(), t.to_uppercase()];
                for i in 0..c.len() {
                    let with = |x: &[char]| -> String { c[..i].iter().chain(x).chain(&c[i + 1..]).collect() };
                    us.extend([with(&[]), with(&['a']), with(&['\\', c[i]]), with(&[c[i], c[i]]), with(&['a', 'a'])]);
                }
                us
            };
            for u in us {
                cx.state(&(&t, &u));
                cx.trace();
                cx.step(2);
                let got = run_with(&rt, &sc, b"A: b\r\n\r\n", prep(t.clone(), u.clone()), yes);
                let f = folders(&got).unwrap_or(vec!["?".into()]);
                cx.outcome(&f);
                let want: Vec<String> = if t == u { vec!["w".into(), "r".into()] } else { vec![] };
                if f != want {
                    return Err(Fail::new("quoting", format!("{t:?} quoted, against {u:?}\n    {}", show_all(&got))));
                }
            }
            Ok(())
        },
    )
}
/// results that do not fit are cut after a whole piece
fn limits(n: usize) -> Box<dyn Suite> {
    let k = ["a", "é", "*", "€", "ß", "ŉ", "İ", "😀"];
    let c = compiler();
    let ms = [Lower, Upper, LowerFirst, UpperFirst, QuoteWildcard, QuoteRegex, EncodeUrl, Rep1];
    let ps: Vec<Arc<sieve::Sieve>> = ms.iter().map(|m| compile(&c, &format!("{REQS}set {} \"v\" \"${{global.t}}\"; fileinto \"${{v}}\";", tag(*m))).unwrap()).collect();
    let rts: Vec<Runtime> = (0..12).map(|i| runtime().with_max_variable_size(4 + i)).collect();
    radix(
        &format!("limits-{n}"),
        &format!("each modifier on every text of up to {n} characters from {k:?} with maximum variable sizes 4 to 15: the longest prefix of the result that fits, never a cut escape or character"),
        vec![ps.len(), rts.len(), nwords(k.len(), n) as usize],
        move |v, cx| {
            let m = ms[v[0]];
            let max = 4 + v[1];
            let t: String = word(k.len(), v[2] as u64).iter().map(|&i| k[i]).collect();
            cx.state(&v);
            cx.trace();
            cx.step(1);
            let got = run_with(&rts[v[1]], &ps[v[0]], b"A: b\r\n\r\n", prep(t.clone(), "".into()), yes);
            let mut want = String::new();
            for p in pieces(m, &t) {
                // replacement texts may be cut at any character
                let parts: Vec<String> = if m == Rep1 { p.chars().map(|c| c.to_string()).collect() } else { vec![p] };
                let mut full = false;
                for p in parts {
                    if want.len() + p.len() > max {
                        full = true;
                        break;
                    }
                    want.push_str(&p);
                }
                if full {
                    break;
                }
            }
            let f = folders(&got).unwrap_or_default();
            cx.outcome(&f);
            if f.len() == 1 && canon(&f[0]) == canon(&want) {
                Ok(())
            } else {
                Err(Fail::new("limit", format!("{} {t:?} in {max} bytes: want {want:?}\n    {}", tag(m), show_all(&got))))
            }
        },
    )
}
/// other places and kinds of values
fn places(n: usize) -> Box<dyn Suite> {
    let values = ["abc", "Ab*c", "7", "007", "-3", "1.5", "1e3", "é*B", "ab cd"];
    let c = compiler();
    let all: Vec<Vec<M>> = orders(n).into_iter().filter(|p| !p.is_empty()).collect();
    let rt = runtime();
    radix(
        &format!("places-{n}"),
        &format!("every ordered choice of up to {n} modifiers on constants (numbers included), variables, concatenations, for a global and a local variable, the variable itself, in an included block, and by extracttext with and without :first"),
        vec![all.len(), values.len(), 7],
        move |v, cx| {
            let (p, t) = (&all[v[0]], values[v[1]]);
            if v[2] >= 5 && p.contains(&EncodeUrl) {
                // extracttext has no :encodeurl
                return Ok(());
            }
            let g = tags(p);
            let (script, input) = match v[2] {
                0 => (format!("set {g} \"v\" {}; fileinto \"${{v}}\";", q(t)), t.to_string()),
                1 => (format!("set {g} \"global.v\" \"${{global.t}}\"; fileinto \"${{global.v}}\";"), t.to_string()),
                2 => (format!("set \"v\" {}; set {g} \"v\" \"${{v}}\"; fileinto \"${{v}}\";", q(t)), t.to_string()),
                3 => (format!("set \"v\" {}; set {g} \"v\" \"x${{v}}y\"; fileinto \"${{v}}\";", q(t)), format!("x{t}y")),
                4 => (format!("if true {{ set :local {g} \"w\" {}; fileinto \"${{w}}\"; }}", q(t)), t.to_string()),
                5 => (format!("foreverypart {{ extracttext {g} \"v\"; fileinto \"${{v}}\"; }}"), t.to_string()),
                _ => (format!("foreverypart {{ extracttext :first 2 {g} \"v\"; fileinto \"${{v}}\"; }}"), t.chars().take(2).collect()),
            };
            let sc = match compile(&c, &format!("{REQS}{script}")) {
                Ok(s) => s,
                Err(o) => return Err(Fail::new("place", format!("{script}\n    {}", show(&o)))),
            };
            cx.state(&v);
            cx.trace();
            cx.step(p.len() as u64);
            let msg = format!("Content-Type: text/plain; charset=utf-8\r\n\r\n{t}");
            let got = run_with(&rt, &sc, msg.as_bytes(), prep(t.into(), "".into()), yes);
            let want: Vec<String> = results(p, &input).iter().map(|x| canon(x)).collect();
            let f = folders(&got).unwrap_or_default();
            cx.outcome(&f);
            if f.len() == 1 && want.contains(&canon(&f[0])) {
                Ok(())
            } else {
                Err(Fail::new("place", format!("{script}\n{t:?}: want one of {want:?}\n    {}", show_all(&got))))
            }
        },
    )
}
pub fn property(thorough: bool) -> Property {
    let ascii: Vec<String> = (1..128u8).map(|b| (b as char).to_string()).chain(["é".to_string(), "€".to_string()]).collect();
    let special: Vec<String> = "*?\\.[]()+{}|^=:$-a".chars().map(|c| c.to_string()).collect();
    Property {
        id: "C08",
        level: "model_checking",
        technique: "exhaustive enumeration of modifier sequences and texts on the real interpreter against a reference definition of each modifier; every Unicode character, every quoted pattern against every other text",
        assumptions: vec![
            "modifiers of the same precedence given together may be applied in either order".into(),
            "hexadecimal digits of percent encoding and final sigma are compared without regard to their variants".into(),
        ],
        suites: vec![
            chars(),
            pipelines(if thorough { 4 } else { 3 }, 3),
            quoting("quoted-ascii", ascii, 2, false),
            quoting("quoted-pairs", special, if thorough { 3 } else { 2 }, true),
            limits(if thorough { 5 } else { 4 }),
            places(if thorough { 3 } else { 2 }),
        ],
    }
}
