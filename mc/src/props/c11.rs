use super::c10::{places, run_place, script};
use super::core::{compiler, q, runtime, REQ};
use crate::eng::*;
use crate::harness::*;
use std::cmp::Ordering;

pub const RELS: [&str; 6] = ["gt", "ge", "lt", "le", "eq", "ne"];
pub fn holds(rel: usize, o: Ordering) -> bool {
    match rel {
        0 => o.is_gt(),
        1 => o.is_ge(),
        2 => o.is_lt(),
        3 => o.is_le(),
        4 => o.is_eq(),
        _ => o.is_ne(),
    }
}
/// i;ascii-numeric (RFC 4790 section 9.1): leading digits as an unbounded number, anything else is above all numbers
fn numeric(t: &str) -> Option<(usize, String)> {
    let d: String = t.chars().take_while(|c| c.is_ascii_digit()).collect();
    if d.is_empty() {
        return None;
    }
    let d = d.trim_start_matches('0').to_string();
    Some((d.len(), d))
}
fn order(cmp: usize, a: &str, b: &str) -> Ordering {
    match cmp {
        0 => match (numeric(a), numeric(b)) {
            (None, None) => Ordering::Equal,
            (None, _) => Ordering::Greater,
            (_, None) => Ordering::Less,
            (Some(a), Some(b)) => a.cmp(&b),
        },
        1 => a.as_bytes().cmp(b.as_bytes()),
        _ => up(a).cmp(&up(b)),
    }
}
/// i;ascii-casemap orders by upper case (RFC 4790 section 9.2); other letters fold one to one
fn up(t: &str) -> String {
    t.chars().map(|c| c.to_uppercase().next().unwrap()).collect()
}
/// what the library is known to compute instead: numbers as f64 (texts that are no number count 0 outside of string tests), case folded to lower case
fn lib_holds(rel: usize, cmp: usize, strtest: bool, flags: bool, a: &str, b: &str) -> bool {
    let hold = |o: Option<Ordering>| match o {
        Some(o) => holds(rel, o),
        None => rel == 5,
    };
    match cmp {
        0 => {
            let var = |t: &str| {
                let d: String = t.chars().take_while(|c| c.is_ascii_digit()).collect();
                if d.is_empty() { (None, f64::INFINITY) } else { (d.parse::<i64>().ok(), d.parse::<f64>().unwrap()) }
            };
            let va = if strtest { var(a) } else { (None, a.parse::<f64>().unwrap_or(0.0)) };
            let vb = if flags { (None, b.parse::<f64>().unwrap_or(0.0)) } else { var(b) };
            match (va, vb) {
                ((Some(a), _), (Some(b), _)) => hold(Some(a.cmp(&b))),
                ((_, a), (_, b)) => hold(a.partial_cmp(&b)),
            }
        }
        1 => hold(Some(a.cmp(b))),
        _ => hold(Some(a.to_lowercase().cmp(&b.to_lowercase()))),
    }
}
const CMPS: [&str; 4] = [":comparator \"i;ascii-numeric\"", ":comparator \"i;octet\"", ":comparator \"i;ascii-casemap\"", ""];
fn texts(big: bool) -> Vec<String> {
    let mut v: Vec<String> = vec!["".into()];
    for n in 1..=3 {
        for i in 0..3usize.pow(n) {
            let mut j = i;
            let mut t = String::new();
            for _ in 0..n {
                t.push(['0', '1', '9'][j % 3]);
                j /= 3;
            }
            v.push(t);
        }
    }
    for t in ["a", "B", "b", "A", "1a", "9b", "12 ", "a1", "_", "aB", "Ab", "é", "É", "~", "10 20", "0x10"] {
        v.push(t.into());
    }
    if big {
        for t in ["2147483648", "4294967296", "9007199254740993", "9007199254740992", "9223372036854775807", "9223372036854775806", "9223372036854775808", "18446744073709551616", "18446744073709551617", "000000000000000000000000000001", "99999999999999999999999999999999999999999999999999"] {
            v.push(t.into());
        }
    }
    v
}
/// every value against every key
fn value(full: bool) -> Box<dyn Suite> {
    let c = compiler();
    let rt = runtime();
    let ps = places();
    let np = ps.len();
    let ks = texts(true);
    let vs = texts(true);
    let nk = ks.len();
    radix(
        "value",
        &format!("{} values × {} keys (all numbers of up to 3 digits of 0, 1, 9, mixed texts, numbers at the limits of machine words) × 6 relations × 4 comparators × {np} places × key literal or in a variable{}", vs.len(), nk, if full { "" } else { " (even keys literal)" }),
        vec![nk, 6, 4, np, if full { 2 } else { 1 }],
        move |v, cx| {
            let (k, rel, cmp, p) = (&ks[v[0]], v[1], v[2], &ps[v[3]]);
            if p.name.starts_with("hasflag") && (k.is_empty() || k.contains(' ')) {
                return Ok(());
            }
            let lit = if full { v[4] == 0 } else { v[0] % 2 == 0 };
            let mk = |set: &str| script(set, p.pre, &format!(":value \"{}\" {}", RELS[rel], CMPS[cmp]), p.post, &[if lit { q(k) } else { "\"${global.k0}\"".into() }]);
            let comp = |t: &str| compile(&c, t).map_err(|e| Fail::new(format!("compile:{}", p.name), format!("{t}\n{}", show(&e))));
            let sc0 = comp(&mk(""))?;
            let mut known = None;
            for val in &vs {
                if !(p.ok)(val) {
                    continue;
                }
                let w = (p.put)(&[val]);
                let sc = if w.set.is_empty() { sc0.clone() } else { comp(&mk(&w.set))? };
                let got = run_place(&rt, &sc, &w, &[k]);
                let there = p.empty || !val.is_empty();
                let exp = there && holds(rel, order(cmp.min(2), val, k));
                cx.state(&(p.name, val, k));
                cx.step(1);
                cx.trace();
                cx.outcome(&(p.name, cmp, exp));
                if got == Some(exp) {
                    continue;
                }
                let d = format!("{}\nplace {} value {val:?} key {k:?}: expected {exp}, got {got:?}", mk(&w.set), p.name);
                let strtest = p.name == "string" || p.name == "environment";
                let flags = p.name.starts_with("hasflag");
                let lib = there && lib_holds(rel, cmp.min(2), strtest, flags, val, k)
                    || p.name == "header-param" && lib_holds(rel, cmp.min(2), false, false, "", k);
                if got == Some(lib) {
                    let none = |t: &str| numeric(t).is_none() || !t.chars().all(|c| c.is_ascii_digit());
                    let key = if p.name == "header-param" && got == Some(exp || lib_holds(rel, cmp.min(2), false, false, "", k)) {
                        "header-param-also-empty"
                    } else if cmp >= 2 {
                        "casemap-orders-by-lower-case"
                    } else if !strtest && (none(val) || flags && none(k)) {
                        "non-numbers-count-as-zero"
                    } else {
                        "numbers-beyond-machine-precision"
                    };
                    known = Some(Fail::new(key, d));
                } else {
                    return Err(Fail::new(format!("value:{}:{}:{}:{val:?}:{k:?}", p.name, RELS[rel], CMPS[cmp]), d));
                }
            }
            known.map_or(Ok(()), Err)
        },
    )
}
/// several values, several keys: some value in relation to some key
fn lists(n: usize) -> Box<dyn Suite> {
    const V: [&str; 3] = ["5", "10", "2"];
    const K: [&str; 4] = ["10", "4", "2", "07"];
    let c = compiler();
    let rt = runtime();
    let mut ps = places();
    ps.retain(|p| p.many);
    let np = ps.len();
    radix("lists", &format!("all lists of 1..={n} values of {V:?} × all lists of 1..={n} keys of {K:?} × relations × numeric and octet order × every place that can hold several values, under not too"), vec![nwords(3, n) as usize, nwords(4, n) as usize, 6, 2, np, 2], move |v, cx| {
        let vs: Vec<&str> = word(3, v[0] as u64).into_iter().map(|i| V[i]).collect();
        let ks: Vec<&str> = word(4, v[1] as u64).into_iter().map(|i| K[i]).collect();
        let p = &ps[v[4]];
        if vs.is_empty() || ks.is_empty() {
            return Ok(());
        }
        let kl: Vec<String> = ks.iter().map(|k| q(k)).collect();
        let w = (p.put)(&vs);
        let not = v[5] == 1;
        let t = script(&w.set, &format!("{}{}", if not { "not " } else { "" }, p.pre), &format!(":value \"{}\" {}", RELS[v[2]], CMPS[v[3]]), p.post, &kl);
        let sc = compile(&c, &t).map_err(|e| Fail::new(format!("compile:{}", p.name), format!("{t}\n{}", show(&e))))?;
        let got = run_place(&rt, &sc, &w, &[]);
        let exp = not ^ vs.iter().any(|x| ks.iter().any(|k| holds(v[2], order(v[3], x, k))));
        cx.state(&(p.name, &vs, &ks));
        cx.step(1);
        cx.trace();
        cx.outcome(&(p.name, exp));
        if got == Some(exp) { Ok(()) } else { Err(Fail::new(format!("list:{}:{}:{vs:?}:{ks:?}", p.name, RELS[v[2]]), format!("{t}\nvalues {vs:?}: expected {exp}, got {got:?}"))) }
    })
}
/// what is counted, how many there are
fn count() -> Box<dyn Suite> {
    let c = compiler();
    let rt = super::known::runtime(runtime()).with_capability(sieve::compiler::grammar::Capability::SpamTestPlus);
    let kinds: Vec<(&str, usize)> = vec![
        ("header § \"x-none\"", 0),
        ("header § \"subject\"", 1),
        ("header § [\"from\", \"to\", \"x-none\", \"date\"]", 3),
        ("header :index 1 § [\"from\", \"to\"]", 2),
        ("header :index 2 § \"from\"", 0),
        ("header :mime :anychild § \"content-type\"", 3),
        ("header :mime :anychild :subtype § \"content-type\"", 3),
        ("address § \"to\"", 2),
        ("address § [\"to\", \"from\"]", 3),
        ("address :localpart § [\"to\", \"from\", \"sender\"]", 3),
        ("address § \"x-none\"", 0),
        ("envelope § \"from\"", 1),
        ("envelope § [\"from\", \"to\"]", 2),
        ("string § [\"a\", \"\", \"b\"]", 2),
        ("string § [\"\", \"${global.none}\"]", 0),
        ("string § \"1\"", 1),
        ("environment § \"host\"", 1),
        ("date § \"date\" \"year\"", 1),
        ("date § \"x-none\" \"year\"", 0),
        ("date § \"subject\" \"year\"", 0),
        ("currentdate § \"year\"", 1),
        ("body :content \"text\" §", 2),
        ("body :content \"image\" §", 0),
        ("body :content \"text/html\" §", 1),
        ("spamtest §", 1),
        ("virustest §", 1),
        ("hasflag §", 3),
        ("hasflag § \"global.none\"", 0),
        ("hasflag § [\"global.f\", \"global.none\", \"global.f\"]", 4),
        ("notify_method_capability § \"mailto:a@b.example\" \"online\"", 1),
    ];
    let keys: Vec<Vec<&str>> = vec![vec!["0"], vec!["1"], vec!["2"], vec!["3"], vec!["4"], vec!["03"], vec!["x"], vec!["99999"], vec!["2", "9"], vec!["9", "2"], vec!["${global.two}"], vec!["x", "0"]];
    let (nk, nkeys) = (kinds.len(), keys.len());
    radix("count", &format!("{nk} counted things × {nkeys} key lists × 6 relations × 4 comparator arguments × not"), vec![nk, nkeys, 6, 4, 2], move |v, cx| {
        let ((kind, n), ks, rel) = (kinds[v[0]], &keys[v[1]], v[2]);
        let single = kind.starts_with("spamtest") || kind.starts_with("virustest");
        if single && ks.len() > 1 {
            return Ok(());
        }
        let not = v[4] == 1;
        let kl = if ks.len() == 1 { q(ks[0]) } else { format!("[{}]", ks.iter().map(|k| q(k)).collect::<Vec<_>>().join(", ")) };
        let t = format!(
            "{REQ}set \"global.two\" \"2\"; set \"global.f\" \"x y\"; setflag [\"fl1\", \"fl2\", \"fl3\"]; if {}{} {kl} {{ discard; }}",
            if not { "not " } else { "" },
            kind.replace('§', &format!(":count \"{}\" {}", RELS[rel], CMPS[v[3]]))
        );
        let got = super::c10::verdict(&run_script(&c, &rt, &t, super::known::MSG.as_bytes(), super::known::prep, yes));
        let of = |n: f64| ks.iter().any(|k| { let k = if k.starts_with('$') { "2" } else { k }; holds(rel, if numeric(k).is_none() { Ordering::Less } else { n.partial_cmp(&k.parse::<f64>().unwrap()).unwrap() }) });
        let exp = not ^ of(n as f64);
        cx.state(&(kind, v[1]));
        cx.step(1);
        cx.trace();
        cx.outcome(&(v[0], exp));
        if got == Some(exp) {
            return Ok(());
        }
        let key = if single && got == Some(not ^ of(1.1)) {
            "spamtest-counts-1.1".to_string()
        } else if kind.starts_with("environment") && got == Some(not) {
            format!("count:{kind}:{}:{ks:?}", RELS[rel])
        } else {
            format!("count:{kind}:{}:{ks:?}", RELS[rel])
        };
        Err(Fail::new(key, format!("{t}\n{n} things: expected {exp}, got {got:?}")))
    })
}

pub fn property(thorough: bool) -> Property {
    let t = thorough as usize;
    Property {
        id: "C11",
        level: "model_checking",
        technique: "exhaustive enumeration of value × key × relation × comparator × place, each run on the real library and compared with an independent definition of the comparator's order",
        assumptions: vec![
            "texts with a sign, a decimal point or an exponent are outside i;ascii-numeric's grammar and are not compared numerically".into(),
            "letters other than ASCII fold one to one under i;ascii-casemap".into(),
        ],
        suites: vec![value(thorough), lists(2 + t), count()],
    }
}
