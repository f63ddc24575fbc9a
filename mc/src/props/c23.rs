use super::core::{glob, parse_glob, q};
use super::c07::ALLCAPS;
use crate::eng::*;
use crate::harness::*;
use sieve::{Compiler, Context, Envelope, Event, Input, Runtime};

const MSG: &[u8] = b"From: x@y.example\r\nSubject: s\r\n\r\nbody\r\n";
fn req() -> String {
    format!("{ALLCAPS}require [\"comparator-i;octet\", \"comparator-i;ascii-numeric\"]; ")
}
fn rt() -> Runtime {
    let mut rt = Runtime::new();
    for c in ALLCAPS.split('"').skip(1).step_by(2) {
        rt = rt.with_capability(c);
    }
    rt
}
/// field, name in the envelope test, names as a variable
const F: &[(Envelope, &str, &[&str])] = &[
    (Envelope::From, "from", &["from", "FROM"]),
    (Envelope::To, "to", &["to"]),
    (Envelope::ByTimeAbsolute, "bytimeabsolute", &["by_time_absolute", "bytimeabsolute"]),
    (Envelope::ByTimeRelative, "bytimerelative", &["by_time_relative", "bytimerelative"]),
    (Envelope::ByMode, "bymode", &["by_mode", "bymode"]),
    (Envelope::ByTrace, "bytrace", &["by_trace", "bytrace"]),
    (Envelope::Notify, "notify", &["notify"]),
    (Envelope::Orcpt, "orcpt", &["orcpt"]),
    (Envelope::Ret, "ret", &["ret"]),
    (Envelope::Envid, "envid", &["envid", "EnvId"]),
];

#[derive(Debug, Clone, PartialEq)]
enum Want {
    Valid(String),
    Invalid,
    /// the library may take it or leave it, but when it takes it this is the address
    Open(Vec<String>),
}
/// 0 invalid, 1 open, 2 valid
fn addr(a: &str) -> u8 {
    let p: Vec<&str> = a.split('@').collect();
    if p.len() != 2 || p[0].is_empty() || p[1].is_empty() {
        return 0;
    }
    let (l, d) = (p[0], p[1]);
    let mut r = 2;
    if l.bytes().chain(d.bytes()).any(|c| b"<>,:".contains(&c)) {
        return 0;
    }
    if d.starts_with('.') || d.contains("..") {
        return 0;
    }
    if d.ends_with('.') || !d.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'.' || c == b'-') || d.starts_with('-') {
        r = 1;
    }
    if l.split('.').any(|x| x.is_empty()) || !l.bytes().all(|c| c.is_ascii_alphanumeric() || b".!#$%&'*+-/=?^_`{|}~".contains(&c)) {
        r = 1;
    }
    r
}
fn route(r: &str) -> u8 {
    r.split(',').map(|d| if let Some(d) = d.strip_prefix('@') { addr(&format!("x@{d}")) } else { 0 }).min().unwrap_or(0)
}
fn classify(s: &str) -> Want {
    if s.is_empty() || s == "<>" {
        return Want::Valid(String::new());
    }
    if !s.is_ascii() {
        return Want::Invalid;
    }
    if s.contains('"') || s.contains('\\') {
        let inner = s.strip_prefix('<').and_then(|x| x.strip_suffix('>')).unwrap_or(s);
        let mut o = vec![inner.to_string()];
        o.extend(inner.char_indices().filter(|c| c.1 == ':').map(|c| inner[c.0 + 1..].to_string()));
        return Want::Open(o);
    }
    if s.bytes().any(|c| c.is_ascii_whitespace()) {
        return Want::Invalid;
    }
    let (bracket, inner) = match s.strip_prefix('<') {
        Some(x) => match x.strip_suffix('>') {
            Some(x) => (true, x),
            None => return Want::Invalid,
        },
        None => (false, s),
    };
    if inner.contains(['<', '>']) {
        return Want::Invalid;
    }
    if inner.eq_ignore_ascii_case("mailer-daemon") {
        return Want::Valid(inner.into());
    }
    let (r, a) = match inner.rsplit_once(':') {
        Some((r, a)) => (route(r), a),
        None => (2, inner),
    };
    let open = inner.contains(':') && !bracket;
    match r.min(addr(a)) {
        0 => Want::Invalid,
        2 if !open => Want::Valid(a.into()),
        _ => Want::Open(vec![a.into()]),
    }
}
/// the exact shapes of malformed addresses that are known to be taken
fn deviation(s: &str, got: &str) -> Option<&'static str> {
    let bracket = s.starts_with('<') && s.ends_with('>');
    let inner = if bracket { &s[1..s.len() - 1] } else { s };
    if s.contains(|c: char| c.is_ascii_whitespace() || !c.is_ascii()) {
        return None;
    }
    if let Some((r, a)) = inner.rsplit_once(':') {
        // each stretch before a comma or colon has to have an at sign; nothing else is looked at
        let ats = r.split([',', ':']).all(|x| x.matches('@').count() >= 1) && !r.contains(['<', '>']);
        if a == got && ats && (route(r) < 2 || !bracket) {
            if addr(a) > 0 {
                return Some("malformed-source-route");
            }
            if a.eq_ignore_ascii_case("mailer-daemon") {
                return Some("mailer-daemon-after-route");
            }
        }
        if a == got && a.eq_ignore_ascii_case("mailer-daemon") && ats {
            return Some("mailer-daemon-after-route");
        }
    }
    if !bracket && got == inner && s.starts_with('@') && s.matches('@').count() == 2 && addr(&format!("x{}", &s[1..])) > 0 {
        return Some("leading-at-sign");
    }
    if !bracket && got == inner && s.starts_with("@@") && s.matches('@').count() == 2 && addr(&s.replacen("@@", "x@", 1)) > 0 {
        return Some("leading-at-sign");
    }
    if let Some(x) = s.strip_prefix('<').filter(|_| !bracket && got.eq_ignore_ascii_case("mailer-daemon")) {
        // as far as it goes, like the same with the bracket closed
        if x != got && deviation(&format!("{s}>"), got) != Some("mailer-daemon-after-route") {
            return None;
        }
        return Some("mailer-daemon-unclosed");
    }
    None
}
fn folders(o: &[Ob]) -> Option<Vec<&str>> {
    let mut v = vec![];
    for o in o {
        match o {
            Ob::Ev(Event::FileInto { folder, .. }) => v.push(folder.as_str()),
            Ob::Ev(Event::Keep { .. }) => (),
            _ => return None,
        }
    }
    Some(v)
}
struct Probe {
    c: std::sync::Arc<sieve::Sieve>,
    rt: Runtime,
}
impl Probe {
    fn new() -> Probe {
        let src = format!("{}if envelope :matches \"from\" \"*\" {{ fileinto \"F${{1}}\"; }} else {{ fileinto \"none\"; }} fileinto \"V${{envelope.from}}\"; if envelope :count \"ge\" \"to\" \"0\" {{ if envelope :matches \"to\" \"*\" {{ fileinto \"F${{1}}\"; }} else {{ fileinto \"none\"; }} }} fileinto \"V${{envelope.to}}\";", req());
        Probe { c: compile(&Compiler::new(), &src).unwrap(), rt: rt() }
    }
    fn judge(&self, s: &str, cx: &mut Cx) -> Res {
        let o = run_with(&self.rt, &self.c, MSG, |c: &mut Context| { c.set_envelope(Envelope::From, s); c.set_envelope(Envelope::To, s) }, |_: &Event| Input::from(true));
        cx.step(o.len() as u64);
        cx.trace();
        let w = classify(s);
        cx.state(&std::mem::discriminant(&w));
        let f = folders(&o).unwrap_or_default();
        let bad = || Fail::new("address", format!("envelope address {s:?}: want {w:?} got {}", show_all(&o)));
        if f.len() != 4 {
            return Err(bad());
        }
        let mut known = None;
        for f in f.chunks(2) {
            let got = if f[0] == "none" { None } else { f[0].strip_prefix('F') };
            let var = f[1].strip_prefix('V').unwrap_or("?");
            cx.outcome(&got);
            if var != got.unwrap_or("") {
                return Err(bad());
            }
            let ok = match (&w, got) {
                (Want::Valid(w), Some(g)) => w == g,
                (Want::Invalid, None) => true,
                (Want::Open(w), Some(g)) => w.iter().any(|w| w == g),
                (Want::Open(_), None) => true,
                _ => false,
            };
            if !ok {
                match got.and_then(|g| deviation(s, g)) {
                    Some(k) => known = Some(k),
                    None => return Err(bad()),
                }
            }
        }
        match known {
            Some(k) => Err(Fail::new(k, format!("envelope address {s:?}: want {w:?} got {}", show_all(&o)))),
            None => Ok(()),
        }
    }
}
fn strings(n: usize) -> Box<dyn Suite> {
    const A: &[char] = &['a', '@', '<', '>', '.', ',', ':', ' ', '"', 'é'];
    let p = Probe::new();
    radix(&format!("strings-{n}"), &format!("every string of up to {n} characters out of {A:?} as sender and recipient, compared with a grammar of envelope addresses"), vec![nwords(A.len(), n) as usize], move |v, cx| {
        let s: String = word(A.len(), v[0] as u64).into_iter().map(|i| A[i]).collect();
        p.judge(&s, cx)
    })
}
fn edits() -> Box<dyn Suite> {
    const T: &[&str] = &["a@b.c", "<a@b.c>", "<@r.s,@t:a+d@b>", "mailer-daemon", "<Mailer-Daemon>", "<>", "\"a b\"@c.d", "john.doe+x@sub.example.org", "@r:a@b", "<a@b", "a@b>", "<x@y:mailer-daemon>", "A_b-c!#$%&'*/=?^`{|}~@X-Y.9z"];
    let chars: Vec<String> = (0u8..128).map(|c| (c as char).to_string()).chain(["é", "ß", "\u{a0}", "\u{2003}", "€", "𝒳", "\u{feff}"].map(String::from)).collect();
    let p = Probe::new();
    radix("edits", &format!("{T:?} as they are and with each ASCII or one of seven other characters put in at or in place of every position, or two neighbours swapped, or one end cut off"), vec![T.len(), 32, chars.len() + 2, 2], move |v, cx| {
        let t: Vec<char> = T[v[0]].chars().collect();
        let i = v[1];
        if i > t.len() {
            return Ok(());
        }
        let mut s: String = t[..i].iter().collect();
        if v[2] < chars.len() {
            s += &chars[v[2]];
            s.extend(t[(i + v[3]).min(t.len())..].iter());
        } else if v[2] == chars.len() {
            if i + 1 < t.len() {
                s.extend([t[i + 1], t[i]]);
                s.extend(t[i + 2..].iter());
            }
        } else if v[3] == 1 {
            s = t[i..].iter().collect();
        }
        p.judge(&s, cx)
    })
}
#[derive(Clone, Debug)]
enum H {
    Set(usize, &'static str),
    Clear,
    Named(&'static str, &'static str),
}
type Entries = Vec<(usize, String)>;
fn host(ops: &[H]) -> Entries {
    let mut e: Entries = vec![];
    for o in ops {
        let (f, v) = match o {
            H::Clear => {
                e.clear();
                continue;
            }
            H::Set(f, v) => (*f, *v),
            H::Named(n, v) => match F.iter().position(|f| f.1 == *n) {
                Some(f) => (f, *v),
                None => continue,
            },
        };
        if f < 2 {
            if let Want::Valid(v) = classify(v) {
                e.push((f, v));
            }
        } else {
            e.push((f, v.into()));
        }
    }
    e
}
fn apply(c: &mut Context, ops: &[H]) {
    for o in ops {
        match o {
            H::Set(f, v) => c.set_envelope(F[*f].0, *v),
            H::Named(n, v) => c.set_envelope(*n, *v),
            H::Clear => c.clear_envelope(),
        }
    }
}
/// script showing every field: count, first value as variable and each candidate value
fn inspect(cands: &[&str]) -> String {
    let mut s = String::new();
    for f in F {
        for n in 0..6 {
            s += &format!("if envelope :count \"eq\" {} \"{n}\" {{ fileinto \"{} count {n}\"; }} ", q(f.1), f.1);
        }
        for v in f.2 {
            s += &format!("fileinto \"{} = ${{envelope.{v}}}\"; ", f.1);
        }
        for c in cands {
            s += &format!("if envelope :is {} {} {{ fileinto {}; }} ", q(f.1), q(c), q(&format!("{} is {c}", f.1)));
        }
    }
    s
}
fn inspected(e: &Entries, cands: &[&str]) -> Vec<String> {
    let mut s = vec![];
    for (i, f) in F.iter().enumerate() {
        let v: Vec<&String> = e.iter().filter(|x| x.0 == i).map(|x| &x.1).collect();
        s.push(format!("{} count {}", f.1, v.iter().filter(|x| !x.is_empty()).count()));
        for _ in f.2 {
            s.push(format!("{} = {}", f.1, v.first().map(|x| x.as_str()).unwrap_or("")));
        }
        for c in cands {
            if v.iter().any(|x| x.eq_ignore_ascii_case(c)) {
                s.push(format!("{} is {c}", f.1));
            }
        }
    }
    s
}
fn hosts(n: usize) -> Box<dyn Suite> {
    const O: &[H] = &[
        H::Set(0, "a@b"),
        H::Set(0, "no address"),
        H::Set(0, ""),
        H::Set(1, "<a@b>"),
        H::Set(1, "c@d"),
        H::Set(1, "c@d@e"),
        H::Set(9, "id 1"),
        H::Set(7, ""),
        H::Named("to", "x@y"),
        H::Named("bymode", "R"),
        H::Named("bymodes", "R"),
        H::Clear,
    ];
    const C: &[&str] = &["a@b", "c@d", "", "id 1", "x@y", "r", "no address"];
    let c = compile(&Compiler::new(), &(req() + &inspect(C))).unwrap();
    let rt = rt();
    radix(&format!("host-{n}"), &format!("every sequence of up to {n} host calls out of {O:?}; then every field is looked at by :count, :is and as a variable"), vec![nwords(O.len(), n) as usize], move |v, cx| {
        let ops: Vec<H> = word(O.len(), v[0] as u64).into_iter().map(|i| O[i].clone()).collect();
        let e = host(&ops);
        let want = inspected(&e, C);
        let o = run_with(&rt, &c, MSG, |c: &mut Context| apply(c, &ops), |_: &Event| Input::from(true));
        cx.state(&e);
        cx.step(o.len() as u64);
        cx.trace();
        cx.outcome(&want);
        match folders(&o) {
            Some(f) if f.iter().eq(want.iter()) => Ok(()),
            f => Err(Fail::new("host", format!("{ops:?}\nwant {want:?}\n got {f:?}"))),
        }
    })
}
fn part(p: usize, a: &str) -> Option<String> {
    if a.is_empty() {
        return Some(String::new());
    }
    let (l, d) = a.split_once('@').unwrap();
    match p {
        0 | 1 => Some(a.into()),
        2 => Some(l.into()),
        3 => Some(d.into()),
        4 => Some(l.split_once('+').map(|x| x.0).unwrap_or(l).into()),
        5 => l.split_once('+').map(|x| x.1.into()),
        _ => unreachable!(),
    }
}
const PARTS: &[&str] = &["", ":all", ":localpart", ":domain", ":user", ":detail"];
fn tests(deep: bool) -> Box<dyn Suite> {
    const S: &[&[H]] = &[
        &[],
        &[H::Set(0, "")],
        &[H::Set(0, "<>"), H::Set(1, "joe+work@Example.org")],
        &[H::Set(0, "joe@example.org"), H::Set(1, "Joe@example.com"), H::Set(1, "ann+@example.org")],
        &[H::Set(1, "u+x@work"), H::Set(0, "a b@c"), H::Set(7, "joe+work@work"), H::Set(6, "joe@work")],
        &[H::Set(9, "joe@example.org"), H::Set(8, "work"), H::Set(2, "work"), H::Set(3, "17"), H::Set(4, ""), H::Set(5, "joe+work@example.org")],
        &[H::Set(1, "<@r:17@17>"), H::Set(9, "17"), H::Set(9, "18"), H::Clear, H::Set(9, "work"), H::Set(9, "")],
    ];
    const N: &[&[usize]] = &[&[0], &[1], &[0, 1], &[9, 0], &[7], &[6, 1], &[2, 3, 4, 5], &[8], &[9], &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9], &[1, 1]];
    const K: &[&[&str]] = &[&[""], &["joe"], &["WORK"], &["example.org"], &["joe@example.org"], &["joe+work"], &["17"], &["*"], &["?*"], &["*o*e*"], &["x", "ann"], &["18", "work"], &["${envelope.envid}"], &["${envelope.from}"]];
    const M: &[&str] = &["", ":is", ":contains", ":matches", ":is :comparator \"i;octet\"", ":contains :comparator \"i;octet\"", ":count \"ge\"", ":count \"eq\"", ":value \"lt\" :comparator \"i;ascii-numeric\"", ":regex"];
    let (c, rt, rq) = (Compiler::new(), rt(), req());
    let ks = if deep { K.len() * K.len() } else { K.len() };
    radix("tests", &format!("the envelope test on {} envelopes {S:?}: every field list out of {N:?} x part {PARTS:?} x match {M:?} x keys {K:?} (thorough: pairs of key lists), plain and negated", S.len()), vec![S.len(), N.len(), PARTS.len(), M.len(), ks, 2, 2], move |v, cx| {
        let e = host(S[v[0]]);
        let m = M[v[3]];
        let mut keys = K[v[4] % K.len()].to_vec();
        if v[4] >= K.len() {
            keys.extend(K[v[4] / K.len()]);
        }
        if m == ":regex" && keys.iter().any(|k| k.contains(['*', '$', '+'])) || m.contains(":count") && keys.iter().any(|k| k.contains('$')) {
            return Ok(());
        }
        let first = |i: usize| e.iter().find(|x| x.0 == i).map(|x| x.1.as_str()).unwrap_or("").to_string();
        let ev: Vec<String> = keys.iter().map(|k| k.replace("${envelope.envid}", &first(9)).replace("${envelope.from}", &first(0))).collect();
        let vals: Vec<String> = e.iter().filter(|x| N[v[1]].contains(&x.0)).filter_map(|x| if [0, 1, 7].contains(&x.0) { part(v[2], &x.1) } else { Some(x.1.clone()) }).collect();
        let low = |s: &str| if m.contains("octet") { s.to_string() } else { s.to_ascii_lowercase() };
        let num = |s: &str| s.bytes().take_while(|c| c.is_ascii_digit()).fold(None, |a: Option<u64>, c| Some(a.unwrap_or(0) * 10 + (c - b'0') as u64));
        let one = |x: &str, k: &str| -> bool {
            if m.is_empty() || m.starts_with(":is") {
                low(x) == low(k)
            } else if m.starts_with(":contains") {
                low(x).contains(&low(k))
            } else if m == ":matches" {
                glob(&parse_glob(k), &x.chars().collect::<Vec<_>>(), true).is_some()
            } else if m == ":regex" {
                x.contains(k)
            } else {
                // not a number counts as infinity
                num(x).map(|x| x as i128).unwrap_or(i128::MAX) < num(k).map(|x| x as i128).unwrap_or(i128::MAX)
            }
        };
        if m == ":regex" && v[2] == 0 && ev.iter().any(|k| k != "joe" && k != "17" && k != "ann" && k != "x") {
            return Ok(());
        }
        if m == ":regex" && ev.iter().any(|k| vals.iter().any(|x| x.to_lowercase().contains(&k.to_lowercase()) != x.contains(k.as_str()))) {
            return Ok(());
        }
        if m.contains(":value") && (ev.iter().any(|k| num(k).is_none()) || vals.iter().any(|x| x.is_empty() || !x.bytes().all(|c| c.is_ascii_digit()))) {
            return Ok(());
        }
        let n = vals.iter().filter(|x| !x.is_empty()).count() as i64;
        let want = if m.starts_with(":count") {
            if ev.iter().any(|k| num(k).is_none() || !k.bytes().all(|c| c.is_ascii_digit())) {
                return Ok(());
            }
            ev.iter().any(|k| { let k = num(k).unwrap() as i64; if m.contains("ge") { n >= k } else { n == k } })
        } else {
            vals.iter().any(|x| ev.iter().any(|k| one(x, k)))
        };
        let names: Vec<String> = N[v[1]].iter().map(|i| if v[5] == 0 { q(F[*i].1) } else { q(&F[*i].1.to_uppercase()) }).collect();
        let names = if names.len() == 1 { names[0].clone() } else { format!("[{}]", names.join(", ")) };
        let keys = if keys.len() == 1 { q(keys[0]) } else { format!("[{}]", keys.iter().map(|k| q(k)).collect::<Vec<_>>().join(", ")) };
        let src = format!("{rq}if {}envelope {} {m} {names} {keys} {{ fileinto \"Y\"; }} else {{ fileinto \"N\"; }}", if v[6] == 1 { "not " } else { "" }, PARTS[v[2]]);
        let o = run_script(&c, &rt, &src, MSG, |c: &mut Context| apply(c, S[v[0]]), |_: &Event| Input::from(true));
        cx.state(&(v[0], v[1], v[2]));
        cx.step(1);
        cx.trace();
        cx.outcome(&(want, v[3], n));
        let want = if want != (v[6] == 1) { "Y" } else { "N" };
        if folders(&o).as_deref() == Some(&[want]) {
            Ok(())
        } else {
            Err(Fail::new("test", format!("{src}\nenvelope {e:?}: want {want} got {}", show_all(&o))))
        }
    })
}
/// days since 1970-01-01
fn days(y: i64, m: i64, d: i64) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = y.div_euclid(400);
    let yoe = y - era * 400;
    let doy = (153 * (m + if m > 2 { -3 } else { 9 }) + 2) / 5 + d - 1;
    era * 146097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719468
}
fn civil(z: i64) -> (i64, i64, i64) {
    let z = z + 719468;
    let era = z.div_euclid(146097);
    let doe = z - era * 146097;
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    (yoe + era * 400 + (m <= 2) as i64, m, doy - (153 * mp + 2) / 5 + 1)
}
fn zones(deep: bool) -> Box<dyn Suite> {
    const D: &[(i64, i64, i64, i64, i64, i64, i64)] = &[(2014, 4, 1, 9, 6, 31, 0), (2015, 12, 31, 23, 59, 59, -300), (2000, 2, 29, 0, 0, 0, 330), (2024, 3, 1, 0, 15, 7, 840), (1999, 1, 1, 12, 30, 0, -720)];
    let zs: Vec<i64> = if deep { (-12 * 60..=14 * 60).step_by(15).collect() } else { vec![-720, -570, -345, -300, -1, 0, 30, 60, 330, 345, 765, 840] };
    let (c, rt, rq) = (Compiler::new(), rt(), req());
    let fmt = |t: i64, z: i64| {
        let l = t + z * 60;
        let (y, m, d) = civil(l.div_euclid(86400));
        let s = l.rem_euclid(86400);
        let zs = if z == 0 { "Z".to_string() } else { format!("{}{:02}:{:02}", if z < 0 { '-' } else { '+' }, z.abs() / 60, z.abs() % 60) };
        format!("{y:04}-{m:02}-{d:02}T{:02}:{:02}:{:02}{zs}", s / 3600, s / 60 % 60, s % 60)
    };
    let zn = zs.clone();
    radix("zones", &format!("the deliver-by time, {} dates, shown in each of {} zones with :zone and as given without it", D.len(), zs.len()), vec![D.len(), zs.len(), 3], move |v, cx| {
        let d = D[v[0]];
        let t = days(d.0, d.1, d.2) * 86400 + d.3 * 3600 + d.4 * 60 + d.5 - d.6 * 60;
        let given = fmt(t, d.6);
        let z = zn[v[1]];
        let za = format!("{}{:02}{:02}", if z < 0 { "-" } else { "+" }, z.abs() / 60, z.abs() % 60);
        // as a word, a zone of -0001 and the like is a number without sign
        let arg = match v[2] { 0 => String::new(), _ => format!(":zone \"{za}\" ") };
        let shown = if v[2] == 0 { given.clone() } else { fmt(t, z) };
        let key = if v[2] == 2 { shown.to_lowercase() } else { shown.clone() };
        let src = format!("{rq}if envelope {arg}\"bytimeabsolute\" {} {{ fileinto \"Y\"; }} if envelope {arg}:count \"eq\" [\"bytimeabsolute\", \"envid\"] \"2\" {{ fileinto \"2\"; }} if envelope {arg}:is \"envid\" {} {{ fileinto \"E\"; }} if envelope {arg}:matches [\"bytimeabsolute\"] \"*\" {{ fileinto \"${{1}}\"; }} ", q(&key), q(&given));
        let o = run_script(&c, &rt, &src, MSG, |c: &mut Context| { c.set_envelope(Envelope::ByTimeAbsolute, given.clone()); c.set_envelope(Envelope::Envid, given.clone()) }, |_: &Event| Input::from(true));
        cx.state(&v);
        cx.trace();
        cx.outcome(&shown);
        if folders(&o).as_deref() == Some(&["Y", "2", "E", shown.as_str()]) {
            Ok(())
        } else if let (Some(f), true) = (folders(&o), v[2] != 0 && z % 60 != 0) {
            let m = (z.abs() % 60 * 60) as u8;
            let odd = format!("{}{}{:02}:{m:02}", &shown[..19], if z < 0 { '-' } else { '+' }, z.abs() / 60);
            Err(Fail::new(if f == ["2", "E", odd.as_str()] { "zone-minutes" } else { "zone" }, format!("{src}\ngiven {given} want {shown} got {f:?}")))
        } else {
            Err(Fail::new("zone", format!("{src}\ngiven {given} want {shown} got {}", show_all(&o))))
        }
    })
}
#[derive(Clone, Debug)]
struct Set {
    src: String,
    /// field and value; None: the field is not touched
    put: Vec<(usize, Val)>,
}
#[derive(Clone, Debug)]
enum Val {
    Is(&'static str),
    /// value of another field, before and after
    Of(&'static str, usize, &'static str),
}
fn assigns() -> Vec<Set> {
    let mut o = vec![];
    for (i, f) in F.iter().enumerate() {
        for (k, n) in f.2.iter().enumerate() {
            let vals: &[&str] = if k == 0 { &["new", "", "x@y"] } else { &["alt"] };
            for v in vals {
                o.push(Set { src: format!("set \"envelope.{n}\" {};", q(v)), put: vec![(i, Val::Is(v))] });
            }
        }
    }
    o.push(Set { src: "set :upper \"envelope.envid\" \"${envelope.from}+\";".into(), put: vec![(9, Val::Of("", 0, "+UP"))] });
    o.push(Set { src: "set \"envelope.to\" \"<${envelope.to}>\";".into(), put: vec![(1, Val::Of("<", 1, ">"))] });
    o.push(Set { src: "set :length \"envelope.ret\" \"abc\";".into(), put: vec![(8, Val::Is("3"))] });
    o.push(Set { src: "let \"envelope.orcpt\" \"'le' + 't'\";".into(), put: vec![(7, Val::Is("let"))] });
    o.push(Set { src: "setflag \"envelope.ret\" \"FULL\";".into(), put: vec![(8, Val::Is("FULL"))] });
    o.push(Set { src: "foreverypart { extracttext :first 3 \"envelope.notify\"; }".into(), put: vec![(6, Val::Is("bod"))] });
    o.push(Set { src: "addflag \"envelope.bymode\" [\"N\", \"N\"];".into(), put: vec![(4, Val::Is("+N"))] });
    o.push(Set { src: "if false { set \"envelope.from\" \"no\"; } else { set \"envelope.notify\" \"else\"; set \"envelope.to\" \"two\"; }".into(), put: vec![(6, Val::Is("else")), (1, Val::Is("two"))] });
    o.push(Set { src: "set \"global.x\" \"y\"; fileinto :flags \"f\" \"mid\";".into(), put: vec![(99, Val::Is("mid"))] });
    o
}
fn setting(n: usize, cap: usize) -> Box<dyn Suite> {
    const S: &[&[H]] = &[
        &[],
        &[H::Set(0, "a@b"), H::Set(1, "c@d"), H::Set(1, "e@f"), H::Set(9, "id")],
        &[H::Set(0, ""), H::Set(3, "60"), H::Set(6, "NEVER"), H::Set(1, "c@d"), H::Set(0, "z@z"), H::Set(8, "FULL")],
    ];
    const C: &[&str] = &["new", "", "x@y", "alt", "c@d", "a@b"];
    let a = assigns();
    let (c, mut rt, rq) = (Compiler::new(), rt(), req());
    if cap > 0 {
        rt = rt.with_max_variable_size(cap);
    }
    let total = nwords(a.len(), n) as usize;
    radix(&format!("setting-{n}{}", if cap > 0 { format!("-cap{cap}") } else { String::new() }), &format!("every sequence of up to {n} of {} assignments to envelope variables on {} envelopes{}: the requests to the host in order and, afterwards, every field by test and variable", a.len(), S.len(), if cap > 0 { format!(", variables limited to {cap} bytes") } else { String::new() }), vec![total, S.len()], move |v, cx| {
        let seq = word(a.len(), v[0] as u64);
        let mut e = host(S[v[1]]);
        let mut want: Vec<String> = vec![];
        let mut src = rq.clone();
        for i in seq {
            src += &a[i].src;
            src.push(' ');
            for (f, val) in &a[i].put {
                if *f == 99 {
                    want.push("mid".into());
                    continue;
                }
                let mut x = match val {
                    // flags are added to the ones there are
                    Val::Is("+N") => e.iter().find(|x| x.0 == *f).map(|x| x.1.split_whitespace().chain(["N"]).fold(vec![], |mut a: Vec<&str>, x| { if !a.iter().any(|y| y.eq_ignore_ascii_case(x)) { a.push(x); } a }).join(" ")).unwrap_or("N".into()),
                    Val::Is(x) => x.to_string(),
                    Val::Of(p, g, s) => {
                        let x = e.iter().find(|x| x.0 == *g).map(|x| x.1.clone()).unwrap_or_default();
                        if let Some(s) = s.strip_suffix("UP") { format!("{p}{}{s}", x.to_uppercase()) } else { format!("{p}{x}{s}") }
                    }
                };
                if cap > 0 {
                    x.truncate(cap);
                }
                want.push(format!("set {} {x}", F[*f].1));
                match e.iter_mut().find(|x| x.0 == *f) {
                    Some(y) => y.1 = x,
                    None => e.push((*f, x)),
                }
            }
        }
        want.extend(inspected(&e, C));
        src += &inspect(C);
        let o = run_script(&c, &rt, &src, MSG, |c: &mut Context| apply(c, S[v[1]]), |_: &Event| Input::from(true));
        cx.state(&e);
        cx.step(o.len() as u64);
        cx.trace();
        cx.outcome(&want);
        let mut got = vec![];
        for o in &o {
            match o {
                Ob::Ev(Event::SetEnvelope { envelope, value }) => got.push(format!("set {} {value}", F.iter().find(|f| f.0 == *envelope).unwrap().1)),
                Ob::Ev(Event::FileInto { folder, .. }) => got.push(folder.clone()),
                Ob::Ev(Event::Keep { .. }) => (),
                o => got.push(show(o)),
            }
        }
        if got == want {
            Ok(())
        } else {
            let i = (0..).find(|i| got.get(*i) != want.get(*i)).unwrap();
            Err(Fail::new("setting", format!("{}\nenvelope {:?}: want {:?} got {:?}", &src[rq.len()..src.len().min(rq.len() + 300)], S[v[1]], want.get(i), got.get(i))))
        }
    })
}
pub fn property(thorough: bool) -> Property {
    let n = |q: usize, t: usize| if thorough { t } else { q };
    Property {
        id: "C23",
        level: "model_checking",
        technique: "exhaustive enumeration of envelope address strings, host call sequences, envelope tests and assignments on the real interpreter against a reference grammar and model of the envelope",
        assumptions: vec![
            "quoted local parts, source routes without angle brackets, odd dots in the local part and a final dot in the domain may be taken or left".into(),
            "an empty value is not counted by :count".into(),
        ],
        suites: vec![strings(n(6, 7)), edits(), hosts(n(4, 5)), tests(thorough), zones(thorough), setting(n(2, 3), 0), setting(n(1, 2), 3)],
    }
}
