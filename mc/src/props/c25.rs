use super::core::{compiler, q, runtime};
use crate::eng::*;
use crate::harness::*;
use sieve::{Context, Event, Input, Sieve};
use std::sync::Arc;

const REQS: &str = "require [\"variables\", \"fileinto\", \"index\", \"relational\", \"extlists\", \"editheader\", \"replace\", \"enclose\", \"convert\", \"mime\", \"foreverypart\", \"body\", \"subaddress\", \"comparator-i;ascii-numeric\", \"encoded-character\"];\n";

/// what a run asked and did: questions (lists, values) and folders in order
fn outcome(o: &[Ob]) -> Vec<String> {
    o.iter()
        .filter_map(|x| match x {
            Ob::Ev(Event::ListContains { lists, values, .. }) => {
                let mut v = values.clone();
                v.sort();
                Some(format!("ask {lists:?} {v:?}"))
            }
            Ob::Ev(Event::FileInto { folder, .. }) => Some(folder.clone()),
            Ob::Ev(Event::Keep { .. } | Event::CreatedMessage { .. }) => None,
            x => Some(show(x)),
        })
        .collect()
}
fn run(rt: &sieve::Runtime, sc: &Arc<Sieve>, msg: &str) -> Vec<Ob> {
    run_with(rt, sc, msg.as_bytes(), |c: &mut Context| c.set_global_variable("name", "x-A"), |e| Input::from(!matches!(e, Event::ListContains { .. })))
}
fn ask(v: &[String]) -> Option<String> {
    let mut u: Vec<String> = vec![];
    for x in v {
        if !x.is_empty() && !u.contains(x) {
            u.push(x.clone());
        }
    }
    u.sort();
    (!u.is_empty()).then(|| format!("ask {:?} {u:?}", ["tag:l"]))
}

/// (field name, raw text, value)
const FIELDS: &[(&str, &str, &str)] = &[
    ("Subject", "one", "one"),
    ("X-A", "two", "two"),
    ("x-a", "  three\r\n\tmore  ", "three more"),
    ("X-AB", "other", "other"),
    ("X-A", "", ""),
    ("SUBJECT", "=?utf-8?q?caf=C3=A9?= au lait", "café au lait"),
    ("X-A", "=?utf-8?B?dHdv?=", "two"),
    ("From", "Joe <a@b.example>", "Joe <a@b.example>"),
];
/// fields of the parts of the sample message: part 1, multipart 2, its parts 3 and 4 (a message), the inner message has one of its own
const PARTS: &[&[(&str, &str)]] = &[&[("X-A", "p1")], &[("X-A", "p2"), ("Subject", "s2")], &[("X-A", "p3"), ("X-A", "p3b")], &[("X-AB", "p4")]];
fn tree(root: &[usize]) -> String {
    let head = |i: usize| PARTS[i].iter().map(|(n, v)| format!("{n}: {v}\r\n")).collect::<String>();
    let mut m: String = root.iter().map(|&i| format!("{}: {}\r\n", FIELDS[i].0, FIELDS[i].1)).collect();
    m += "Content-Type: multipart/mixed; boundary=b\r\n\r\n";
    m += &format!("--b\r\n{}Content-Type: text/plain\r\n\r\none\r\n", head(0));
    m += &format!("--b\r\n{}Content-Type: multipart/mixed; boundary=c\r\n\r\n", head(1));
    m += &format!("--c\r\n{}Content-Type: text/plain\r\n\r\ntwo\r\n", head(2));
    m += &format!("--c\r\n{}Content-Type: message/rfc822\r\n\r\nX-A: inner\r\nSubject: inner\r\n\r\nthree\r\n--c--\r\n", head(3));
    m += "--b--\r\n";
    m
}
/// parts in document order with the end of their subtree: root 0..5, 1, 2 with 3 and 4
const SPAN: [usize; 5] = [5, 2, 5, 4, 5];

/// fields (by position in the message) that a test selects in one part
fn select(fields: &[(String, String)], names: &[&str], idx: Option<i32>) -> Vec<String> {
    let mut r = vec![];
    for n in names {
        let occ: Vec<&(String, String)> = fields.iter().filter(|f| f.0.eq_ignore_ascii_case(n)).collect();
        match idx {
            None => r.extend(occ.iter().map(|f| f.1.clone())),
            Some(i) => {
                let k = i.unsigned_abs() as usize;
                let k = if i < 0 { occ.len().checked_sub(k) } else { k.checked_sub(1) };
                r.extend(k.and_then(|k| occ.get(k)).map(|f| f.1.clone()));
            }
        }
    }
    r
}
fn part_fields(root: &[usize]) -> Vec<Vec<(String, String)>> {
    let own = |v: Vec<(&str, &str)>| v.into_iter().map(|(a, b)| (a.to_string(), b.to_string())).collect::<Vec<_>>();
    let mut r = vec![own(root.iter().map(|&i| (FIELDS[i].0, FIELDS[i].2)).collect())];
    for p in PARTS {
        r.push(own(p.to_vec()));
    }
    r
}
fn headers(n: usize) -> Box<dyn Suite> {
    let names: Vec<(&str, Vec<&str>)> = vec![("\"x-a\"", vec!["X-A"]), ("[\"Subject\", \"x-A\"]", vec!["Subject", "X-A"]), ("\"${global.name}\"", vec!["X-A"]), ("\"X-AB\"", vec!["X-AB"]), ("[\"none\", \"from\"]", vec!["None", "From"])];
    let idx: Vec<(String, Option<i32>)> = std::iter::once((String::new(), None)).chain((1..=3).flat_map(|i| [(format!(":index {i}"), Some(i)), (format!(":last :index {i}"), Some(-i))])).collect();
    let mime = ["", ":mime", ":mime :anychild"];
    let c = compiler();
    let mut scs = vec![];
    for (ns, nl) in &names {
        for (ia, i) in &idx {
            for m in mime {
                let list = format!("if header :list {m} {ia} {ns} \"tag:l\" {{ fileinto \"yes\"; }}");
                let count: String = (0..16).map(|k| format!("if header :count \"eq\" :comparator \"i;ascii-numeric\" {m} {ia} {ns} \"{k}\" {{ fileinto \"n{k}\"; }}\n")).collect();
                let is = format!("if header :is {m} {ia} {ns} [\"p3b\", \"two\"] {{ fileinto \"is\"; }} if not header :contains {m} {ia} {ns} [\"CAFé\", \"thr\", \"p2\"] {{ fileinto \"not\"; }}");
                let src = format!("{REQS}{list}\n{count}{is}\nforeverypart {{ fileinto \"part\"; {list}\n{is} }}");
                scs.push((compile(&c, &src).unwrap_or_else(|o| panic!("{src} {}", show(&o))), nl.clone(), *i, m, src));
            }
        }
    }
    let rt = runtime();
    radix(
        &format!("headers-{n}"),
        &format!("every message with up to {n} of {} fields at the top of a tree of parts (a nested multipart and an attached message) x {} name lists x no index, :index 1 to 3 with and without :last x without and with :mime and :anychild: the values seen, their number, equality and containment, outside and in every round of foreverypart", FIELDS.len(), names.len()),
        vec![nwords(FIELDS.len(), n) as usize, scs.len()],
        move |v, cx| {
            let w = word(FIELDS.len(), v[0] as u64);
            let msg = tree(&w);
            let (sc, names, idx, m, src) = &scs[v[1]];
            let pf = part_fields(&w);
            let at = |p: usize| -> Vec<String> {
                let last = if m.contains("anychild") { SPAN[p] } else { p + 1 };
                (p..last).flat_map(|i| select(&pf[i], names, *idx)).collect()
            };
            let is = |x: &[String], out: &mut Vec<String>| {
                if x.iter().any(|v| v.eq_ignore_ascii_case("p3b") || v.eq_ignore_ascii_case("two")) {
                    out.push("is".into());
                }
                if !x.iter().any(|v| v.to_lowercase().contains("café") || v.to_lowercase().contains("thr") || v.contains("p2")) {
                    out.push("not".into());
                }
            };
            let vals = at(0);
            let mut want = vec![];
            want.extend(ask(&vals));
            want.push(format!("n{}", vals.len()));
            is(&vals, &mut want);
            for p in 0..5 {
                want.push("part".into());
                let vals = at(p);
                want.extend(ask(&vals));
                is(&vals, &mut want);
            }
            cx.state(&v);
            cx.trace();
            cx.step(40);
            let o = run(&rt, sc, &msg);
            let g = outcome(&o);
            cx.outcome(&g);
            if g == want {
                Ok(())
            } else {
                Err(Fail::new("header", format!("{src}\n{msg:?}\nwant {want:?}\ngot  {g:?}")))
            }
        },
    )
}
fn exists(n: usize) -> Box<dyn Suite> {
    let names: Vec<(&str, Vec<&str>)> = vec![
        ("\"x-a\"", vec!["X-A"]),
        ("[\"Subject\", \"x-A\"]", vec!["Subject", "X-A"]),
        ("[\"${global.name}\", \"X-AB\"]", vec!["X-A", "X-AB"]),
        ("[\"x-ab\", \"from\", \"subject\"]", vec!["X-AB", "From", "Subject"]),
        ("[\"from\", \"none\"]", vec!["From", "None"]),
        ("[\"x-a\", \"X-A\"]", vec!["X-A"]),
        ("[\"none\", \"subject\"]", vec!["None", "Subject"]),
        ("\"${global.nothing}\"", vec![""]),
        ("[\"Subject\", \"${global.nothing}\"]", vec!["Subject", ""]),
    ];
    let mime = ["", ":mime", ":mime :anychild"];
    let c = compiler();
    let mut scs = vec![];
    for (ns, nl) in &names {
        for m in mime {
            let t = format!("if exists {m} {ns} {{ fileinto \"yes\"; }} if not exists {m} {ns} {{ fileinto \"no\"; }}");
            let src = format!("{REQS}{t}\nforeverypart {{ {t} }}");
            scs.push((compile(&c, &src).unwrap_or_else(|o| panic!("{src} {}", show(&o))), nl.clone(), m, src));
        }
    }
    let rt = runtime();
    radix(
        &format!("exists-{n}"),
        &format!("every message with up to {n} of {} fields at the top of a tree of parts x {} name lists (with variables that hold a name or nothing) x without and with :mime and :anychild, outside and in every round of foreverypart", FIELDS.len(), names.len()),
        vec![nwords(FIELDS.len(), n) as usize, scs.len()],
        move |v, cx| {
            let w = word(FIELDS.len(), v[0] as u64);
            let msg = tree(&w);
            let (sc, names, m, src) = &scs[v[1]];
            let pf = part_fields(&w);
            let at = |p: usize, names: &[&str]| {
                let last = if m.contains("anychild") { SPAN[p] } else { p + 1 };
                names.iter().all(|n| (p..last).any(|i| pf[i].iter().any(|f| f.0.eq_ignore_ascii_case(n))))
            };
            let all = |names: &[&str]| -> Vec<String> { std::iter::once(0).chain(0..5).map(|p| if at(p, names) { "yes".to_string() } else { "no".into() }).collect() };
            cx.state(&v);
            cx.trace();
            cx.step(12);
            let g = outcome(&run(&rt, sc, &msg));
            cx.outcome(&g);
            let want = all(names);
            if g == want {
                return Ok(());
            }
            let valid: Vec<&str> = names.iter().copied().filter(|x| !x.is_empty()).collect();
            let key = if valid.len() < names.len() && g == all(&valid) { "exists-skips-invalid-names" } else { "exists" };
            Err(Fail::new(key, format!("{src}\n{msg:?}\nwant {want:?}\ngot  {g:?}")))
        },
    )
}
/// (text, addresses)
const ADDR: &[(&str, &[&str])] = &[
    ("a@x.example", &["a@x.example"]),
    ("Joe <joe+tag@x.example>", &["joe+tag@x.example"]),
    ("\"Q, R\" <q+@Y.example>", &["q+@Y.example"]),
    ("c@x.example (d@z.example)", &["c@x.example"]),
    ("<e+f+g@x.example>", &["e+f+g@x.example"]),
    ("Grp: h@x.example,\r\n i+j@x.example;", &["h@x.example", "i+j@x.example"]),
    ("=?utf-8?q?J=C3=B6rg?= <k@x.example>", &["k@x.example"]),
    ("None:;", &[]),
];
fn part_of(p: &str, a: &str) -> Option<String> {
    let (local, dom) = a.split_once('@').unwrap();
    match p {
        ":all" | "" => Some(a.into()),
        ":localpart" => Some(local.into()),
        ":domain" => Some(dom.into()),
        ":user" => Some(local.split('+').next().unwrap().into()),
        _ => local.split_once('+').map(|x| x.1.to_string()),
    }
}
fn addresses(n: usize) -> Box<dyn Suite> {
    let partsl = ["", ":all", ":localpart", ":domain", ":user", ":detail"];
    let fields = ["From", "to", "X-Addr"];
    let c = compiler();
    let mut scs = vec![];
    for p in partsl {
        for names in ["\"from\"", "[\"TO\", \"from\"]", "\"x-addr\"", "\"cc\""] {
            for idx in ["", ":index 1", ":index 1 :last", ":index 2"] {
                let f = format!("{p} {idx} {names}");
                let count: String = (0..20).map(|k| format!("if address :count \"eq\" :comparator \"i;ascii-numeric\" {f} \"{k}\" {{ fileinto \"n{k}\"; }}\n")).collect();
                let src = format!("{REQS}if address :list {f} \"tag:l\" {{ fileinto \"yes\"; }}\n{count}if address :is {f} [\"A@X.EXAMPLE\", \"joe\", \"y.example\", \"j\", \"e\"] {{ fileinto \"is\"; }} if not address :matches :comparator \"i;octet\" {f} [\"*+*\", \"?@*\", \"tag\"] {{ fileinto \"not\"; }}");
                scs.push((compile(&c, &src).unwrap_or_else(|o| panic!("{src} {}", show(&o))), p, names, idx, src));
            }
        }
    }
    let rt = runtime();
    let nw = nwords(ADDR.len(), n) as usize - 1;
    radix(
        &format!("addresses-{n}"),
        &format!("every field with a list of 1 to {n} of {} address forms (display names, quoted commas, comments, groups, sub-addresses, encoded words), in From, To and a private field, behind another From field and alone x 6 address parts x 4 name lists x 4 indexes: the values seen, their number, equality and wildcards", ADDR.len()),
        vec![nw, fields.len() * 2, scs.len()],
        move |v, cx| {
            let w = word(ADDR.len(), v[0] as u64 + 1);
            let name = fields[v[1] / 2];
            let text = w.iter().map(|&i| ADDR[i].0).collect::<Vec<_>>().join(", ");
            // an empty group in a list with others and groups with other addresses mix freely
            let mut msg = String::new();
            let mut fs: Vec<(String, Vec<String>)> = vec![];
            if v[1] % 2 == 1 {
                msg += "From: z@z.example\r\n";
                fs.push(("From".into(), vec!["z@z.example".into()]));
            }
            msg += &format!("{name}: {text}\r\n\r\nbody\r\n");
            fs.push((name.into(), w.iter().flat_map(|&i| ADDR[i].1.iter().map(|x| x.to_string())).collect()));
            let (sc, p, names, idx, src) = &scs[v[2]];
            let names: Vec<String> = names.trim_matches(['[', ']']).split(", ").map(|x| x.trim_matches('"').to_string()).collect();
            let eval = |detail_last: bool| -> Vec<String> {
                let mut vals = vec![];
                for n in &names {
                    let occ: Vec<&Vec<String>> = fs.iter().filter(|f| f.0.eq_ignore_ascii_case(n)).map(|f| &f.1).collect();
                    let occ: Vec<&Vec<String>> = match *idx {
                        "" => occ,
                        ":index 1" => occ.first().into_iter().copied().collect(),
                        ":index 2" => occ.get(1).into_iter().copied().collect(),
                        _ => occ.last().into_iter().copied().collect(),
                    };
                    for a in occ.into_iter().flatten() {
                        let x = part_of(p, a);
                        vals.extend(if detail_last && *p == ":detail" { x.map(|x| x.rsplit('+').next().unwrap().to_string()) } else { x });
                    }
                }
                let mut want = vec![];
                want.extend(ask(&vals));
                want.push(format!("n{}", vals.iter().filter(|v| !v.is_empty()).count()));
                if vals.iter().any(|x| ["a@x.example", "joe", "y.example", "j", "e"].contains(&x.to_ascii_lowercase().as_str())) {
                    want.push("is".into());
                }
                if !vals.iter().any(|x| x.contains('+') || x.find('@') == Some(1) || x == "tag") {
                    want.push("not".into());
                }
                want
            };
            cx.state(&v);
            cx.trace();
            cx.step(13);
            let g = outcome(&run(&rt, sc, &msg));
            cx.outcome(&g);
            let want = eval(false);
            if g == want {
                return Ok(());
            }
            Err(Fail::new(if g == eval(true) { "detail-after-the-last-plus" } else { "address" }, format!("{src}\n{msg:?}\nwant {want:?}\ngot  {g:?}")))
        },
    )
}
fn sizes() -> Box<dyn Suite> {
    let c = compiler();
    let rt = runtime();
    let lim: Vec<(String, usize)> = (0..70).map(|i| (i.to_string(), i)).chain([("1K".to_string(), 1024), ("2k".to_string(), 2048), ("1M".to_string(), 1 << 20)]).collect();
    let scs: Vec<_> = lim
        .iter()
        .map(|(t, n)| (compile(&c, &format!("{REQS}if size :over {t} {{ fileinto \"over\"; }} if size :under {t} {{ fileinto \"under\"; }} if not size :over {t} {{ fileinto \"nover\"; }} if not size :under {t} {{ fileinto \"nunder\"; }}")).unwrap(), *n))
        .collect();
    let lens: Vec<usize> = (6..=70).chain(1020..=1028).chain(2046..=2050).chain((1 << 20) - 1..=(1 << 20) + 1).collect();
    radix("sizes", "messages of every length from 6 to 70 and around 1K, 2K and 1M against every limit from 0 to 69 and 1K, 2k, 1M: :over, :under and their negations", vec![lens.len(), scs.len()], move |v, cx| {
        let n = lens[v[0]];
        let (sc, l) = &scs[v[1]];
        let mut m = "A:\r\n\r\n".to_string();
        m.push_str(&"x".repeat(n - m.len()));
        cx.state(&v);
        cx.trace();
        cx.step(4);
        let g = outcome(&run(&rt, sc, &m));
        let mut want = vec![];
        for (t, c) in [("over", n > *l), ("under", n < *l), ("nover", n <= *l), ("nunder", n >= *l)] {
            if c {
                want.push(t.to_string());
            }
        }
        cx.outcome(&g);
        if g == want {
            Ok(())
        } else {
            Err(Fail::new("size", format!("{n} bytes, limit {l}: want {want:?}, got {g:?}")))
        }
    })
}
/// edits of the header, the size before each and after all
fn edited_sizes(n: usize) -> Box<dyn Suite> {
    const E: &[&str] = &[
        "addheader \"X-A\" \"one\";",
        "addheader :last \"x-a\" \"caf\u{e9}\";",
        "addheader \"Subject\" \"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa bbbbbbbbbbbbbbb\";",
        "addheader \"X-B\" \"\";",
        "deleteheader \"X-A\";",
        "deleteheader :index 1 \"X-A\";",
        "deleteheader :index 1 :last \"X-A\";",
        "deleteheader :contains \"X-A\" \"o\";",
        "deleteheader \"Subject\";",
        "deleteheader \"Received\";",
        "foreverypart { deleteheader \"X-Part\"; }",
        "foreverypart { addheader \"X-Part\" \"new\"; }",
        // edits of the body
        "replace \"some text\";",
        "foreverypart { if header :contains \"X-Part\" \"folded\" { replace \"other text\"; } }",
        "enclose :subject \"s\" \"note\";",
        "convert \"text/html\" \"text/plain\" [\"x\"];",
    ];
    const HEAD: usize = 12;
    const M: &[&str] = &[
        "Received: from a\r\n\tby b\r\nSubject: hi\r\n\r\nbody\r\n",
        "X-A: two\r\nreceived: x\r\nX-a:three\r\nX-B: \r\n\r\n",
        "Subject: =?utf-8?q?caf=C3=A9?=\r\nX-Part: one\r\nContent-Type: multipart/mixed; boundary=b\r\n\r\n--b\r\nX-Part: two\r\nX-A: in part\r\n\r\ntext\r\n--b\r\nx-part:  folded\r\n  more\r\nContent-Type: text/html\r\n\r\n<p>html\r\n--b--\r\n",
    ];
    let c = compiler();
    let rt = runtime();
    radix(&format!("edited-sizes-{n}"), &format!("every sequence of up to {n} out of {} additions and deletions of fields and edits of the body, not more than one of these and then none of the headers of parts, on {} messages: the size tested is the length of the message delivered, within 64 bytes when the body was edited", E.len(), M.len()), vec![nwords(E.len(), n) as usize, M.len()], move |v, cx| {
        let w = word(E.len(), v[0] as u64);
        let bodies = w.iter().filter(|i| **i >= HEAD).count();
        if bodies > 1 || (bodies > 0 && w.iter().any(|i| (HEAD - 2..HEAD).contains(i))) {
            return Ok(());
        }
        let src: String = REQS.to_string() + &w.into_iter().map(|i| E[i]).collect::<String>();
        let msg = M[v[1]];
        let sc = compile(&c, &src).unwrap();
        cx.state(&v);
        cx.trace();
        let size = run(&rt, &sc, msg).iter().rev().find_map(|o| match o {
            Ob::Ev(Event::CreatedMessage { message, .. }) => Some(message.len()),
            _ => None,
        });
        let size = size.unwrap_or(msg.len());
        let slack = if bodies > 0 { 64 } else { 0 };
        let probe = format!("{src}if size :over {} {{ fileinto \"over\"; }} if size :over {} {{ fileinto \"least\"; }} if size :under {} {{ fileinto \"under\"; }}", size + slack, size.saturating_sub(slack + 1), size.saturating_sub(slack));
        cx.step(2);
        let g = outcome(&run(&rt, &compile(&c, &probe).unwrap(), msg));
        cx.outcome(&size);
        if g == ["least"] {
            Ok(())
        } else {
            Err(Fail::new("edited-size", format!("{src}\n{msg:?}\ndelivered with {size} bytes; size tests with a margin of {slack}: {g:?}")))
        }
    })
}
/// kinds of parts
#[derive(Clone, Copy, PartialEq, Debug)]
enum K {
    Plain,
    Qp,
    B64,
    Html,
    Octet,
    Latin,
    NoType,
    Mixed,
    Rfc,
}
use K::*;
const LEAVES: [K; 7] = [Plain, Qp, B64, Html, Octet, Latin, NoType];
#[derive(Clone)]
struct N {
    k: K,
    kids: Vec<N>,
}
/// every tree with n nodes; the attached message is a tree of its own
fn trees(n: usize) -> Vec<N> {
    let mut r = vec![];
    if n == 1 {
        r.extend(LEAVES.map(|k| N { k, kids: vec![] }));
        return r;
    }
    for f in forests(n - 1) {
        // a message directly in a message trips an assertion of the mail parser
        if f.len() == 1 && f[0].k != Rfc {
            r.push(N { k: Rfc, kids: f.clone() });
        }
        r.push(N { k: Mixed, kids: f });
    }
    r
}
fn forests(n: usize) -> Vec<Vec<N>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut r = vec![];
    for k in 1..=n {
        for t in trees(k) {
            for f in forests(n - k) {
                let mut v = vec![t.clone()];
                v.extend(f);
                r.push(v);
            }
        }
    }
    r
}
/// a part as the tests see it
struct P {
    k: K,
    /// number of the word in it
    id: usize,
    end: usize,
    text: String,
}
const B64WORDS: [&str; 8] = ["w0rd", "w1rd", "w2rd", "w3rd", "w4rd", "w5rd", "w6rd", "w7rd"];
fn b64(t: &[u8]) -> String {
    const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    t.chunks(3)
        .map(|c| {
            let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
            (0..4).map(|i| if i <= c.len() { A[(n >> (18 - 6 * i) & 63) as usize] as char } else { '=' }).collect::<String>()
        })
        .collect()
}
/// header lines and body of a node; fills the list of parts in document order
fn lay(n: &N, out: &mut Vec<P>, head: &str) -> String {
    let id = out.len();
    let w = B64WORDS[id.min(7)];
    out.push(P { k: n.k, id, end: 0, text: String::new() });
    let (h, body, text) = match n.k {
        Plain => ("Content-Type: text/plain\r\n".into(), format!("{w} plain"), format!("{w} plain")),
        NoType => (String::new(), format!("{w} bare"), format!("{w} bare")),
        Qp => ("Content-Type: text/plain; charset=utf-8\r\nContent-Transfer-Encoding: quoted-printable\r\n".into(), format!("{w} =C3=A9=\r\n soft"), format!("{w} é soft")),
        B64 => ("Content-Type: text/plain; charset=utf-8\r\nContent-Transfer-Encoding: base64\r\n".into(), b64(format!("{w} né").as_bytes()), format!("{w} né")),
        Html => ("Content-Type: text/html; charset=utf-8\r\n".into(), format!("<p class=\"{w}c\">{w} <b>html</b></p>"), String::new()),
        Octet => ("Content-Type: application/octet-stream\r\nContent-Transfer-Encoding: base64\r\n".into(), b64(format!("{w} octet").as_bytes()), format!("{w} octet")),
        Latin => ("Content-Type: TEXT/Plain; charset=iso-8859-1\r\nContent-Transfer-Encoding: Quoted-Printable\r\n".into(), format!("{w} =E9"), format!("{w} é")),
        Mixed => {
            let b = format!("bound{id}x");
            let mut s = format!("pro{w}\r\n");
            for c in &n.kids {
                s += &format!("--{b}\r\n{}\r\n", lay(c, out, ""));
            }
            s += &format!("--{b}--\r\nepi{w}");
            (format!("Content-Type: multipart/mixed; boundary=\"{b}\"\r\n"), s, String::new())
        }
        Rfc => ("Content-Type: message/rfc822\r\n".into(), lay(&n.kids[0], out, &format!("X-Inner: in{w}\r\n")), String::new()),
    };
    out[id].text = text;
    out[id].end = out.len();
    format!("{head}X-Part: head{w}\r\n{h}\r\n{body}")
}
/// content type as tests see it
fn ctype(k: K) -> (&'static str, &'static str) {
    match k {
        Plain | Qp | B64 | Latin | NoType => ("text", "plain"),
        Html => ("text", "html"),
        Octet => ("application", "octet-stream"),
        Mixed => ("multipart", "mixed"),
        Rfc => ("message", "rfc822"),
    }
}
fn bodies(n: usize) -> Box<dyn Suite> {
    // (argument, what it selects: types, None is all)
    let filters: Vec<(&str, Vec<&str>)> = vec![
        (":content \"text\"", vec!["text"]),
        (":content \"TEXT/plain\"", vec!["text/plain"]),
        (":content \"text/html\"", vec!["text/html"]),
        (":content \"application\"", vec!["application"]),
        (":content [\"application/octet-stream\", \"text/html\"]", vec!["application/octet-stream", "text/html"]),
        (":content \"multipart\"", vec!["multipart"]),
        (":content \"message/rfc822\"", vec!["message/rfc822"]),
        (":content \"\"", vec![""]),
        (":content [\"text/html\", \"\"]", vec!["text/html", ""]),
        (":content \"te\"", vec!["te"]),
        (":content \"text/\"", vec!["/"]),
        (":content [\"text\", \"a/b/c\"]", vec!["text", "/"]),
        (":raw", vec![]),
        (":text", vec![]),
        ("", vec![]),
    ];
    let c = compiler();
    let rt = runtime();
    let nw = n.min(6) + 1;
    // words looked for: per part its text, prologue, epilogue, header, markup
    let words: Vec<String> = (0..nw).flat_map(|i| ["w#", "prow#", "epiw#", "headw#", "inw#", "w#c"].map(|f| f.replace("w#", B64WORDS[i]))).chain(["é".to_string(), "=C3=A9".into(), "bound0x".into(), "né".into()]).collect();
    let scs: Vec<_> = filters
        .iter()
        .map(|(a, _)| {
            let t: String = words.iter().map(|w| format!("if body :contains {a} {} {{ fileinto {}; }}\n", q(w), q(w))).collect();
            let src = format!("{REQS}{t}");
            (compile(&c, &src).unwrap_or_else(|o| panic!("{src} {}", show(&o))), a.to_string())
        })
        .collect();
    // equality with the whole content of one part
    let exact: Vec<_> = filters
        .iter()
        .map(|(a, _)| {
            let src = format!("{REQS}if body :is :comparator \"i;octet\" {a} [\"${{global.whole}}\", \"${{nothing}}x\"] {{ fileinto \"same\"; }}");
            compile(&c, &src).unwrap()
        })
        .collect();
    let all: Vec<N> = (1..=n).flat_map(trees).collect();
    radix(
        &format!("bodies-{n}"),
        &format!("every tree of up to {n} parts (text in five encodings and charsets, html, binary, nested multipart, attached message) x {} body arguments: which of {} marker texts (contents, prologues, epilogues, part headers, markup) are found, and equality with the decoded content of each part", filters.len(), words.len()),
        vec![all.len(), filters.len()],
        move |v, cx| {
            let mut ps = vec![];
            let msg = lay(&all[v[0]], &mut ps, "Subject: s\r\n");
            let (sc, a) = &scs[v[1]];
            let raw = msg.split_once("\r\n\r\n").unwrap().1.to_string();
            // texts examined, one per part
            let texts = |types: &[&str]| -> Vec<String> {
                let pick = |p: &P| {
                    let (t, s) = ctype(p.k);
                    types.iter().any(|f| f.is_empty() || *f != "/" && (f.eq_ignore_ascii_case(t) || f.eq_ignore_ascii_case(&format!("{t}/{s}"))))
                };
                ps.iter()
                    .filter(|p| pick(p))
                    .map(|p| {
                        let w = B64WORDS[p.id.min(7)];
                        match p.k {
                            Mixed => format!("pro{w} epi{w}"),
                            Rfc => format!("in{w} head{}", B64WORDS[(p.id + 1).min(7)]),
                            Html => format!("<p class=\"{w}c\">{w} <b>html</b></p>"),
                            _ => p.text.clone(),
                        }
                    })
                    .collect()
            };
            let seen: Vec<String> = match a.as_str() {
                ":raw" => vec![raw.clone()],
                ":text" | "" => ps
                    .iter()
                    .filter_map(|p| match p.k {
                        Mixed | Rfc | Octet => None,
                        Html => Some(format!("{} html", B64WORDS[p.id.min(7)])),
                        _ => Some(p.text.clone()),
                    })
                    .collect(),
                _ => texts(&filters[v[1]].1),
            };
            let found = |seen: &[String]| -> Vec<String> { words.iter().filter(|w| seen.iter().any(|t| t.to_lowercase().contains(&w.to_lowercase()))).cloned().collect() };
            cx.state(&v);
            cx.trace();
            cx.step(words.len() as u64);
            let o = run(&rt, sc, &msg);
            let g = outcome(&o);
            cx.outcome(&g);
            let want = found(&seen);
            if g != want {
                let mut key = "body";
                let f = &filters[v[1]].1;
                let lost: Vec<String> = ps.windows(2).take(1).filter(|x| x[0].k == Rfc && x[1].k == Mixed).map(|x| format!("epi{}", B64WORDS[x[1].id.min(7)])).collect();
                if a.starts_with(":content") && g == want.iter().filter(|w| !lost.contains(w)).cloned().collect::<Vec<_>>() {
                    key = "epilogue-of-an-attached-multipart";
                }
                if f.len() == 2 && f[1].is_empty() && g == found(&texts(&f[..1])) {
                    key = "content-all-after-a-type";
                }
                if f.len() == 2 && f[1] == "/" && g.is_empty() {
                    key = "content-invalid-type-hides-others";
                }
                return Err(Fail::new(key, format!("body :contains {a}\n{msg:?}\nwant {want:?}\ngot  {g:?}")));
            }
            // equality: contents of leaves
            for p in ps.iter().filter(|p| !matches!(p.k, Mixed | Rfc | Html)) {
                let t = p.text.clone();
                let eq = seen.contains(&t);
                if a == ":raw" && ps.len() > 1 || f_unclear(&filters[v[1]].1) {
                    continue;
                }
                cx.step(1);
                let t2 = t.clone();
                let o = run_with(&rt, &exact[v[1]], msg.as_bytes(), move |c: &mut Context| c.set_global_variable("whole", t2), yes);
                let g = outcome(&o);
                if (g == ["same"]) != eq {
                    return Err(Fail::new("body-equal", format!("body :is {a} {t:?}\n{msg:?}\nwant {eq}, got {g:?}")));
                }
            }
            Ok(())
        },
    )
}
fn f_unclear(f: &[&str]) -> bool {
    f.len() == 2 && (f[1].is_empty() || f[1] == "/")
}
/// parameters and types of content fields
fn mimeopts() -> Box<dyn Suite> {
    // (field text, type, subtype, parameters)
    type Ct = (&'static str, &'static str, &'static str, &'static [(&'static str, &'static str)]);
    const CT: &[Ct] = &[
        ("text/plain", "text", "plain", &[]),
        ("TEXT/Html; charset=UTF-8", "text", "html", &[("charset", "UTF-8")]),
        ("application/x-foo; name=\"a b.txt\";\r\n\tx-p=1", "application", "x-foo", &[("name", "a b.txt"), ("x-p", "1")]),
        ("image/png ; Name=pic.png", "image", "png", &[("name", "pic.png")]),
        ("text/plain; charset=\"us-ascii\" (comment); format=flowed", "text", "plain", &[("charset", "us-ascii"), ("format", "flowed")]),
        ("message/rfc822", "message", "rfc822", &[]),
    ];
    let opts = [":type", ":subtype", ":contenttype", ":param \"charset\"", ":param \"NAME\"", ":param [\"x-p\", \"format\", \"name\"]", ":param \"none\""];
    let c = compiler();
    let rt = runtime();
    let scs: Vec<_> = opts
        .iter()
        .flat_map(|o| ["", ":anychild"].map(|a| (o, a)))
        .map(|(o, a)| {
            let src = format!("{REQS}foreverypart {{ fileinto \"part\"; if header :mime {a} {o} :list \"content-type\" \"tag:l\" {{ fileinto \"yes\"; }} }}");
            (compile(&c, &src).unwrap(), *o, a)
        })
        .collect();
    radix("mime-options", "every triple of 6 content types in the two parts of a multipart message and in an added field x :type, :subtype, :contenttype and four :param lists, with and without :anychild, in every round of foreverypart", vec![CT.len(), CT.len(), scs.len()], move |v, cx| {
        let (a, b) = (&CT[v[0]], &CT[v[1]]);
        let (sc, o, any) = &scs[v[2]];
        let msg = format!("Content-Type: multipart/mixed; boundary=b; name=top\r\n\r\n--b\r\nContent-Type: {}\r\n\r\nA: b\r\n\r\n--b\r\nContent-Type: {}\r\n\r\nC: d\r\n\r\n--b--\r\n", a.0, b.0);
        let root: Ct = ("", "multipart", "mixed", &[("boundary", "b"), ("name", "top")]);
        let val = |c: &Ct| -> Vec<String> {
            match *o {
                ":type" => vec![c.1.into()],
                ":subtype" => vec![c.2.into()],
                ":contenttype" => vec![format!("{}/{}", c.1, c.2)],
                p => {
                    let l = p.to_lowercase();
                    c.3.iter().filter(|x| l.contains(&format!("\"{}\"", x.0))).map(|x| x.1.to_string()).collect()
                }
            }
        };
        let mut want = vec![];
        for p in [vec![&root, a, b], vec![a], vec![b]] {
            want.push("part".to_string());
            let n = if any.is_empty() { 1 } else { p.len() };
            want.extend(ask(&p[..n].iter().flat_map(|c| val(c)).collect::<Vec<_>>()));
        }
        cx.state(&v);
        cx.trace();
        cx.step(3);
        let g: Vec<String> = outcome(&run(&rt, sc, &msg)).iter().map(|x| if o.starts_with(":param") { x.clone() } else { x.to_lowercase() }).collect();
        cx.outcome(&g);
        if g == want {
            Ok(())
        } else {
            Err(Fail::new("mime-option", format!("header :mime {any} {o}\n{msg:?}\nwant {want:?}\ngot  {g:?}")))
        }
    })
}
pub fn property(thorough: bool) -> Property {
    Property {
        id: "C25",
        level: "model_checking",
        technique: "exhaustive enumeration of messages (field sequences, address lists, part trees) and test arguments on the real interpreter against a structured reference of the message; the host's view of :list shows the very values examined",
        assumptions: vec![
            "with several names :index counts the occurrences of each name by itself".into(),
            "in foreverypart header, address and exists look at the current part, with or without :mime; an attached message has no MIME children of its own".into(),
            "after addheader and deleteheader the size is that of the message as it is delivered; after one edit of the body and edits of the message header within 64 bytes of it, after others it is open".into(),
        ],
        suites: vec![headers(if thorough { 5 } else { 4 }), exists(if thorough { 5 } else { 4 }), addresses(if thorough { 4 } else { 3 }), sizes(), edited_sizes(if thorough { 5 } else { 4 }), bodies(if thorough { 5 } else { 4 }), mimeopts()],
    }
}
