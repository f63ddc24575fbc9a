use super::core::{compiler, q, runtime, REQ};
use crate::eng::*;
use crate::harness::*;
use sieve::{Context, Event};

/// a set of flags in order of first appearance, case ignored
#[derive(Clone, Default, Debug, PartialEq, Eq, Hash)]
struct Set(Vec<String>);
impl Set {
    fn add(&mut self, text: &str) {
        for f in text.split([' ', '\t', '\r', '\n']).filter(|f| !f.is_empty()) {
            if !self.has(f) {
                self.0.push(f.to_string());
            }
        }
    }
    fn remove(&mut self, text: &str) {
        for f in text.split([' ', '\t', '\r', '\n']).filter(|f| !f.is_empty()) {
            self.0.retain(|g| g.to_lowercase() != f.to_lowercase());
        }
    }
    fn has(&self, f: &str) -> bool {
        self.0.iter().any(|g| g.to_lowercase() == f.to_lowercase())
    }
    fn norm(v: &[String]) -> Vec<String> {
        let mut v: Vec<String> = v.iter().map(|f| f.to_lowercase()).collect();
        v.sort();
        v
    }
}
const OPS: [&str; 3] = ["setflag", "addflag", "removeflag"];
/// (script text of the flag list, the texts it denotes)
const ARGS: &[(&str, &[&str])] = &[
    ("\"a\"", &["a"]),
    ("\"A\"", &["A"]),
    ("\"b a\"", &["b a"]),
    ("[\"a\", \"B\"]", &["a", "B"]),
    ("\"\"", &[""]),
    ("\"${global.x}\"", &["c  A \\Seen"]),
    ("[\"\\\\SEEN\", \"${global.x}\"]", &["\\SEEN", "c  A \\Seen"]),
    ("\"${global.y}\"", &[" b\tb\r\n C "]),
    ("\"ab\"", &["ab"]),
];
const FLAGS: [&str; 6] = ["a", "B", "c", "\\Seen", "ab", "zz"];
const TARGETS: [(&str, &str); 3] = [("", ""), ("\"v\" ", "v"), ("\"global.g\" ", "global.g")];

fn ex(sets: &mut [Set; 3], t: usize, op: usize, arg: usize) {
    if op == 0 {
        sets[t] = Set::default();
    }
    for a in ARGS[arg].1 {
        if op == 2 {
            sets[t].remove(a);
        } else {
            sets[t].add(a);
        }
    }
}
/// the observations: hasflag for every flag and target, what keep and fileinto deliver
fn observe(full: bool) -> String {
    let mut s = String::new();
    for (i, (_, n)) in TARGETS.iter().enumerate() {
        let n = if n.is_empty() { String::new() } else { q(n) };
        for f in FLAGS {
            s += &format!("if hasflag {n} {} {{ addheader \"X\" \"{i} {}\"; }}\n", q(f), f.replace('\\', ""));
        }
        if full {
            for k in 0..5 {
                s += &format!("if hasflag :count \"eq\" {n} \"{k}\" {{ addheader \"N\" \"{i} {k}\"; }}\n");
            }
        }
    }
    s += "fileinto :copy \"internal\"; fileinto :copy :flags [\"${v}\", \"zz\"] \"own\"; fileinto :copy :flags \"\" \"none\"; keep :flags \"${global.g}\"; fileinto :copy :flags [\"p\", \"q P\"] \"two\"; fileinto \"again\";";
    s
}
fn sequences(depth: usize, first: usize) -> Box<dyn Suite> {
    let c = compiler();
    let rt = runtime();
    let n = TARGETS.len() * OPS.len() * ARGS.len();
    let tail = observe(true);
    let total = (0..depth).fold(1usize, |a, i| a * if i == 0 { n } else { n - first });
    radix(
        &format!("sequences-{depth}"),
        &format!("all {total} sequences of {depth} setflag/addflag/removeflag operations on the internal variable, a local and a global one with {} argument lists (after the first operation only {} of the {n} operations), followed by hasflag for 6 flags and five counts on each variable, and fileinto/keep with and without :flags", ARGS.len(), n - first),
        (0..depth).map(|i| if i == 0 { n } else { n - first }).collect(),
        move |v, cx| {
            let mut sets: [Set; 3] = Default::default();
            let mut t = String::from(REQ);
            for &o in v {
                let (a, o) = (o % ARGS.len(), o / ARGS.len());
                let (op, tg) = (o % 3, o / 3);
                t += &format!("{} {}{};\n", OPS[op], TARGETS[tg].0, ARGS[a].0);
                ex(&mut sets, tg, op, a);
                cx.state(&sets);
            }
            cx.step(v.len() as u64);
            cx.trace();
            check(&c, &rt, &(t + &tail), &sets, cx)
        },
    )
}
fn check(c: &sieve::Compiler, rt: &sieve::Runtime, t: &str, sets: &[Set; 3], cx: &mut Cx) -> Result<(), Fail> {
    let got = run_script(
        c,
        rt,
        t,
        b"S: s\r\n\r\nx",
        |ctx: &mut Context| {
            ctx.set_global_variable("x", "c  A \\Seen");
            ctx.set_global_variable("y", " b\tb\r\n C ");
        },
        yes,
    );
    let mut want_headers = Vec::new();
    for (i, s) in sets.iter().enumerate() {
        for f in FLAGS {
            if s.has(f) {
                want_headers.push(format!("X: {i} {}", f.replace('\\', "")));
            }
        }
        if s.0.len() < 5 {
            want_headers.push(format!("N: {i} {}", s.0.len()));
        }
    }
    want_headers.reverse();
    let mut own = sets[1].clone();
    own.add("zz");
    let want: Vec<(&str, Vec<String>)> = vec![
        ("internal", sets[0].0.clone()),
        ("own", own.0),
        ("none", vec![]),
        ("two", vec!["p".into(), "q".into()]),
        ("again", sets[0].0.clone()),
        ("keep", sets[2].0.clone()),
    ];
    let mut have = Vec::new();
    let mut headers = None;
    for o in &got {
        match o {
            Ob::Ev(Event::FileInto { folder, flags, .. }) => have.push((folder.clone(), flags.clone())),
            Ob::Ev(Event::Keep { flags, .. }) => have.push(("keep".to_string(), flags.clone())),
            Ob::Ev(Event::CreatedMessage { message, .. }) => {
                let m = String::from_utf8_lossy(message).into_owned();
                headers = Some(m.split("\r\n").take_while(|l| !l.starts_with("S:")).map(|l| l.trim_end().to_string()).collect::<Vec<_>>());
            }
            _ => have.push((format!("{o:?}"), vec![])),
        }
    }
    cx.outcome(&have.len());
    let bad = |w: String| Err(Fail::new(format!("flags:{}", t.lines().skip(1).take_while(|l| !l.starts_with("if ")).collect::<Vec<_>>().join(" ")), format!("{t}\nsets {sets:?}\n{w}\n{}", show_all(&got))));
    if headers.unwrap_or_default() != want_headers {
        return bad(format!("hasflag: expected {want_headers:?}"));
    }
    if have.len() != want.len() {
        return bad(format!("expected {want:?}"));
    }
    for ((hn, hf), (wn, wf)) in have.iter().zip(&want) {
        if hn != wn || Set::norm(hf) != Set::norm(wf) {
            return bad(format!("expected {wn} with {wf:?}, got {hn} with {hf:?}"));
        }
    }
    Ok(())
}
/// hasflag with several flags and variables, under the match types, also under not
fn hasflags() -> Box<dyn Suite> {
    let c = compiler();
    let rt = runtime();
    const LISTS: [&[&str]; 7] = [&["a"], &["zz", "B"], &["zz"], &["b zz"], &["zz", "yy a"], &["${global.q}"], &["\\seen"]];
    const SETS: [&str; 6] = ["", "a", "b", "A B c", "\\Seen", "ab"];
    radix("hasflag", "all pairs of contents of two variables × flag lists × variable lists × :is/:contains/:matches × not", vec![6, 6, LISTS.len(), 4, 3, 2], move |v, cx| {
        let (s1, s2, l) = (SETS[v[0]], SETS[v[1]], LISTS[v[2]]);
        let vars = ["", "\"v\"", "[\"v\", \"global.g\"]", "[\"global.g\", \"global.none\", \"v\"]"][v[3]];
        let ty = [":is", ":contains", ":matches"][v[4]];
        let not = v[5] == 1;
        let t = format!(
            "{REQ}setflag {}; set \"v\" {}; set \"global.g\" {}; set \"global.q\" \"zz  a\"; if {} hasflag {ty} {vars} [{}] {{ discard; }}",
            q(s2),
            q(s1),
            q(s2),
            if not { "not" } else { "" },
            l.iter().map(|x| q(x)).collect::<Vec<_>>().join(", ")
        );
        let mut have = Set::default();
        match v[3] {
            0 => have.add(s2),
            1 => have.add(s1),
            _ => {
                have.add(s1);
                have.add(s2)
            }
        }
        let keys: Vec<&str> = l.iter().flat_map(|k| if k.starts_with('$') { "zz  a" } else { k }.split_whitespace()).collect();
        let exp = not ^ have.0.iter().any(|f| keys.iter().any(|k| super::c10::expect([super::c10::Ty::Is, super::c10::Ty::Contains, super::c10::Ty::Is][v[4]], super::c10::Cmp::Casemap, f, k)));
        let got = super::c10::verdict(&run_script(&c, &rt, &t, b"S: s\r\n\r\nx", |_| (), yes));
        cx.state(&(v[0], v[1], v[3]));
        cx.step(1);
        cx.trace();
        cx.outcome(&exp);
        if v[4] == 2 && keys.contains(&"\\seen") {
            return Ok(()); // the backslash quotes in a pattern
        }
        if got == Some(exp) { Ok(()) } else { Err(Fail::new(format!("hasflag:{s1}:{s2}:{l:?}:{vars}:{ty}:{not}"), format!("{t}\nexpected {exp}, got {got:?}"))) }
    })
}
/// what flags an action delivers, depending on when and where the variable was changed
fn delivery() -> Box<dyn Suite> {
    let c = compiler();
    let rt = runtime();
    const A: [(&str, usize); 12] = [
        ("setflag \"a\";", 0),
        ("addflag \"b A\";", 1),
        ("removeflag \"a\";", 2),
        ("keep;", 3),
        ("keep :flags \"k\";", 4),
        ("fileinto \"f\";", 5),
        ("fileinto :copy :flags [\"l\", \"L m\"] \"g\";", 6),
        ("if true { addflag \"i\"; }", 7),
        ("setflag \"local\" \"x y\";", 8),
        ("fileinto :copy :flags \"${local}\" \"h\";", 9),
        ("keep :flags \"\";", 10),
        ("redirect \"r@r.example\";", 11),
    ];
    let n = A.len();
    let d = 4;
    radix("delivery", &format!("all sequences of {d} of 12 statements that change flags or deliver, then the end of the script"), vec![n; d], move |v, cx| {
        let mut t = String::from(REQ);
        let mut cur = Set::default();
        let mut local = Set::default();
        let mut want: Vec<(String, Vec<String>)> = vec![];
        // flags of the pending keep: None = cancelled, Some(None) = implicit, those at the end of the script
        let mut keep: Option<Option<Vec<String>>> = Some(None);
        let mut explicit = false;
        for &i in v {
            t += A[i].0;
            t += "\n";
            match A[i].1 {
                0 => {
                    cur = Set::default();
                    cur.add("a")
                }
                1 => cur.add("b A"),
                2 => cur.remove("a"),
                3 => {
                    keep = Some(Some(cur.0.clone()));
                    explicit = true;
                }
                4 => {
                    keep = Some(Some(vec!["k".into()]));
                    explicit = true;
                }
                5 => {
                    want.push(("f".into(), cur.0.clone()));
                    if !explicit {
                        keep = None;
                    }
                }
                6 => want.push(("g".into(), vec!["l".into(), "m".into()])),
                7 => cur.add("i"),
                8 => {
                    local = Set::default();
                    local.add("x y")
                }
                9 => want.push(("h".into(), local.0.clone())),
                10 => {
                    keep = Some(Some(vec![]));
                    explicit = true;
                }
                _ => {
                    want.push(("redirect".into(), vec![]));
                    if !explicit {
                        keep = None;
                    }
                }
            }
            cx.state(&(&cur, &local, &keep));
        }
        if let Some(k) = keep {
            want.push(("keep".into(), k.unwrap_or(cur.0)));
        }
        let got = run_script(&c, &rt, &t, b"S: s\r\n\r\nx", |_| (), yes);
        let have: Vec<(String, Vec<String>)> = got
            .iter()
            .map(|o| match o {
                Ob::Ev(Event::FileInto { folder, flags, .. }) => (folder.clone(), flags.clone()),
                Ob::Ev(Event::Keep { flags, .. }) => ("keep".into(), flags.clone()),
                Ob::Ev(Event::SendMessage { .. }) => ("redirect".into(), vec![]),
                o => (format!("{o:?}"), vec![]),
            })
            .collect();
        cx.step(v.len() as u64);
        cx.trace();
        cx.outcome(&have);
        let norm = |v: &[(String, Vec<String>)]| v.iter().map(|(n, f)| (n.clone(), Set::norm(f))).collect::<Vec<_>>();
        if norm(&have) == norm(&want) { Ok(()) } else { Err(Fail::new(format!("delivery:{v:?}"), format!("{t}\nexpected {want:?}\ngot {have:?}"))) }
    })
}
pub fn property(thorough: bool) -> Property {
    Property {
        id: "C15",
        level: "model_checking",
        technique: "exhaustive enumeration of sequences of flag operations and deliveries to a depth bound, replayed on the real library against a set model",
        assumptions: vec!["the order in which flags are delivered is not compared".into(), "hasflag on a variable the script filled by other means than the flag actions is only checked for single blanks between flags".into()],
        suites: {
            let mut s = vec![sequences(1, 0), sequences(2, 0), sequences(3, 0), hasflags(), delivery()];
            if thorough {
                s.push(sequences(4, 54));
            }
            s
        },
    }
}
