use super::core::*;
use super::known;
use super::templates::{self, TPLS};
use crate::eng::*;
use crate::harness::*;
use sieve::{Event, Input, Script};

fn set(n: &str, v: &str) -> C {
    C::Set { name: n.into(), val: s(v), local: false }
}
fn setl(n: &str, v: &str) -> C {
    C::Set { name: n.into(), val: s(v), local: true }
}

pub const ALLCAPS: &str = "require [\"variables\", \"include\", \"fileinto\", \"copy\", \"envelope\", \"envelope-dsn\", \"envelope-deliverby\", \"imap4flags\", \"reject\", \"ereject\", \"foreverypart\", \"mime\", \"editheader\", \"ihave\", \"mailbox\", \"mailboxid\", \"special-use\", \"relational\", \"body\", \"environment\", \"date\", \"index\", \"enotify\", \"fcc\", \"vacation\", \"vacation-seconds\", \"duplicate\", \"spamtest\", \"spamtestplus\", \"virustest\", \"mboxmetadata\", \"servermetadata\", \"extlists\", \"subaddress\", \"regex\", \"replace\", \"enclose\", \"extracttext\", \"convert\", \"redirect-dsn\", \"redirect-deliverby\", \"vnd.stalwart.while\", \"vnd.stalwart.expressions\"];\n";

/// Ways of getting the text `v` into a reference; (prologue, reference, epilogue).
fn carriers(v: &str) -> Vec<(&'static str, String, String, String)> {
    let q = templates::esc(v);
    let cut = v.char_indices().nth(v.chars().count() / 2).map(|(i, _)| i).unwrap_or(0);
    let (a, b) = (templates::esc(&v[..cut]), templates::esc(&v[cut..]));
    vec![
        ("root", format!("set \"v\" \"{q}\";\n"), "${v}".into(), "".into()),
        ("case", format!("set \"v\" \"{q}\";\n"), "${V}".into(), "".into()),
        ("block", format!("if true {{ set \"v\" \"{q}\";\n"), "${v}".into(), "}".into()),
        ("outer-block", format!("set \"v\" \"old\"; if true {{ set \"v\" \"{q}\"; if true {{ set \"z\" \"zz\";\n"), "${v}".into(), "} }".into()),
        ("sibling", format!("if true {{ set \"z\" \"zz\"; }} if true {{ set \"v\" \"{q}\"; set \"u\" \"uu\";\n"), "${v}".into(), "}".into()),
        ("local", format!("if true {{ if true {{ set :local \"v\" \"{q}\"; }} }}\n"), "${v}".into(), "".into()),
        ("local-block", format!("if true {{ set :local \"v\" \"{q}\"; set \"u\" \"uu\";\n"), "${v}".into(), "}".into()),
        ("global", format!("set \"global.v\" \"{q}\"; set \"v\" \"no\";\n"), "${global.v}".into(), "".into()),
        ("declared", format!("global \"v\"; if true {{ set \"v\" \"{q}\"; }}\n"), "${v}".into(), "".into()),
        ("match1", format!("if string :matches \"{q}\" \"*\" {{\n"), "${1}".into(), "}".into()),
        ("match0", format!("if string :matches \"{q}\" \"*\" {{\n"), "${0}".into(), "}".into()),
        ("pieces", format!("set \"a\" \"{a}\"; set \"b\" \"{b}\";\n"), "${a}${b}".into(), "".into()),
        ("mixed", format!("set \"b\" \"{b}\";\n"), format!("{a}${{b}}"), "".into()),
    ]
}

fn substitution() -> Box<dyn Suite> {
    let vals = ["Subject", "joe+tag@Example.org", "5", "text/plain", "Hello World", "", "mailto:a@b.example", "one two", "ür l", "a*?c", "host", "INBOX", "/private/x", "17"];
    let tpls: Vec<templates::Tpl> = TPLS.iter().filter(|t| t.text.contains('§') && !t.text.contains("let \"") && !t.text.starts_with("eval")).cloned().collect();
    let nc = carriers("x").len();
    let c = compiler();
    let rts: Vec<_> = [1usize].iter().map(|_| known::runtime(runtime())).collect();
    let inc = compile(&c, "require \"fileinto\"; fileinto \"included\";").unwrap();
    radix(
        "substitution",
        "every action and test with a string argument × ways of holding a text in a variable (local, outer, sibling, :local, global, declared, match, pieces) × texts × {host says yes, no}: same events as with the text written out",
        vec![tpls.len(), nc, vals.len(), 2],
        move |v, cx| {
            let (t, val, yes) = (&tpls[v[0]], vals[v[2]], v[3] == 0);
            let (kind, pro, rf, epi) = carriers(val).swap_remove(v[1]);
            // carriers assign v, a, b, u, z only; templates use w
            let lit = format!("{ALLCAPS}{}", templates::body(t, &templates::esc(val)));
            let var = format!("{ALLCAPS}{pro}{}\n{epi}", templates::body(t, &rf));
            let msg = known::MSG.as_bytes();
            let mut host = |e: &Event| match e {
                Event::IncludeScript { name: Script::Personal(n), .. } if n == "joe+tag@Example.org" => Input::script(n.as_str(), inc.clone()),
                _ if yes => Input::True,
                _ => Input::False,
            };
            let a = match compile(&c, &lit) {
                Ok(sc) => run_with(&rts[0], &sc, msg, known::prep, &mut host),
                // the literal is rejected by the compiler: nothing to compare with
                Err(Ob::CompileErr(_)) => return Ok(()),
                Err(o) => return Err(Fail::new(format!("compile:{}", t.text), format!("{}\n{lit}", show(&o)))),
            };
            let b = match compile(&c, &var) {
                Ok(sc) => run_with(&rts[0], &sc, msg, known::prep, &mut host),
                Err(o) => vec![o],
            };
            let (a, b) = (normpos(scrub_obs(a)), normpos(scrub_obs(b)));
            cx.step(a.len() as u64 + b.len() as u64);
            cx.state(&show_all(&a));
            cx.trace();
            cx.outcome(&hash_obs(&a));
            cx.sample(|| format!("{kind}: {} with {val:?} → {}", t.text, show_all(&b)));
            if a != b {
                return Err(Fail::new(format!("subst:{}:{kind}:{val}:{yes}", t.text), format!("with the text written out:\n{}\nthrough a variable ({kind}):\n{}\n{}", lit.replace(ALLCAPS, ""), var.replace(ALLCAPS, ""), diff(&a, &b))));
            }
            Ok(())
        },
    )
}
/// drops script positions from runtime errors
pub fn normpos(mut v: Vec<Ob>) -> Vec<Ob> {
    for o in &mut v {
        if let Ob::Err(e) = o {
            if let Some(i) = e.find("line_num") {
                e.truncate(i);
            }
        }
    }
    v
}

// ------------------------------------------------------------ reference expansion of references
/// None: the meaning of this text is not defined (e.g. `${1a}`, `${a.}`)
fn expand(t: &str, vars: &[(&str, &str)], globals: &[(&str, &str)], matches: &[&str]) -> Option<String> {
    let b: Vec<char> = t.chars().collect();
    let mut o = String::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == '$' && b.get(i + 1) == Some(&'{') {
            let mut j = i + 2;
            while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == '_' || b[j] == '.') {
                j += 1;
            }
            if b.get(j) == Some(&'}') && j > i + 2 {
                let name: String = b[i + 2..j].iter().collect::<String>().to_ascii_lowercase();
                if name.chars().all(|c| c.is_ascii_digit()) {
                    let n: usize = name.parse().ok()?;
                    // numbers beyond the variables a match can set are refused by the compiler
                    if n >= 63 {
                        return None;
                    }
                    o.push_str(matches.get(n).unwrap_or(&""));
                } else if let Some((ns, rest)) = name.split_once('.') {
                    if rest.is_empty() || ns.is_empty() || rest.contains('.') || !rest.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_') {
                        return None;
                    }
                    if ns == "global" {
                        o.push_str(globals.iter().find(|(n, _)| *n == rest).map(|x| x.1).unwrap_or(""));
                    } else {
                        // unknown name space: no reference
                        o.extend(&b[i..=j]);
                    }
                } else if name.starts_with(|c: char| c.is_ascii_digit()) {
                    return None;
                } else {
                    o.push_str(vars.iter().find(|(n, _)| *n == name).map(|x| x.1).unwrap_or(""));
                }
                i = j + 1;
                continue;
            }
        }
        o.push(b[i]);
        i += 1;
    }
    Some(o)
}

fn references(n: usize) -> Box<dyn Suite> {
    const TOK: [&str; 12] = ["$", "{", "}", "x", "X", "1", "0", ".", "_", " ", "global.", "é"];
    let c = compiler();
    let rt = runtime();
    let total = nwords(TOK.len(), n) as usize;
    radix(
        "references",
        &format!("all strings of up to {n} pieces over {TOK:?} as the argument of fileinto: expansion by a reference expander"),
        vec![total],
        move |v, cx| {
            let t: String = word(TOK.len(), v[0] as u64).into_iter().map(|i| TOK[i]).collect();
            let vars = [("x", "[X]"), ("xx", "<xx>"), ("_x", "(_x)")];
            let Some(exp) = expand(&t, &vars, &[("x", "GX")], &["AB", "A"]) else { return Ok(()) };
            let sc = format!("require [\"variables\", \"fileinto\", \"include\"];\nset \"x\" \"[X]\"; set \"XX\" \"<xx>\"; set \"_x\" \"(_x)\"; set \"global.X\" \"GX\";\nif string :matches \"AB\" \"*B\" {{ fileinto \"|{t}\"; }}");
            let got = run_script(&c, &rt, &sc, b"S: x\r\n\r\nb\r\n", |_| (), yes);
            cx.state(&t);
            cx.step(t.len() as u64);
            cx.trace();
            cx.outcome(&exp);
            cx.sample(|| format!("{t:?} → {exp:?}"));
            match got.first() {
                Some(Ob::Ev(Event::FileInto { folder, .. })) if *folder == format!("|{exp}") => Ok(()),
                _ => Err(Fail::new(format!("ref:{t}"), format!("text {t:?} expected {exp:?}\ngot: {}", show_all(&got)))),
            }
        },
    )
}

fn cut(t: &str, max: usize) -> &str {
    let mut e = max.min(t.len());
    while !t.is_char_boundary(e) {
        e -= 1;
    }
    &t[..e]
}
fn sizes(n: usize) -> Box<dyn Suite> {
    const A: [&str; 4] = ["a", "é", "€", "😀"];
    // (name, script around the text, extra prefix expected)
    #[allow(clippy::type_complexity)]
    let forms: Vec<(&str, fn(&str) -> String, fn(&str, usize) -> String)> = vec![
        ("set", |t| format!("set \"v\" \"{t}\"; fileinto \"|${{v}}\";"), |t, m| cut(t, m).into()),
        ("set-local", |t| format!("set :local \"v\" \"{t}\"; fileinto \"|${{v}}\";"), |t, m| cut(t, m).into()),
        ("concat", |t| format!("set \"v\" \"{t}\"; set \"w\" \"${{v}}{t}\"; fileinto \"|${{w}}\";"), |t, m| cut(&format!("{}{t}", cut(t, m)), m).into()),
        ("global", |t| format!("set \"global.v\" \"{t}\"; fileinto \"|${{global.v}}\";"), |t, m| cut(t, m).into()),
        ("declared", |t| format!("global \"v\"; set \"v\" \"{t}\"; fileinto \"|${{v}}\";"), |t, m| cut(t, m).into()),
        ("upper", |t| format!("set :upper \"v\" \"{t}\"; fileinto \"|${{v}}\";"), |t, m| cut(&t.to_uppercase(), m).into()),
        ("let", |t| format!("let \"v\" \"'{t}'\"; fileinto \"|${{v}}\";"), |t, m| cut(t, m).into()),
        ("let-concat", |t| format!("let \"v\" \"'{t}' + 'a'\"; fileinto \"|${{v}}\";"), |t, m| cut(&format!("{t}a"), m).into()),
        ("shadowed", |t| format!("set \"v\" \"old\"; if true {{ set \"v\" \"{t}\"; }} fileinto \"|${{v}}\";"), |t, m| cut(t, m).into()),
    ];
    let c = compiler();
    let rts: Vec<_> = (0..=(4 * n + 2)).map(|m| runtime().with_max_variable_size(m)).collect();
    let total = nwords(A.len(), n) as usize;
    radix(
        "sizes",
        &format!("all texts of up to {n} characters of 1 to 4 bytes × maximum variable size 0..={} × ways of assigning", 4 * n + 2),
        vec![total, rts.len(), forms.len()],
        move |v, cx| {
            let t: String = word(A.len(), v[0] as u64).into_iter().map(|i| A[i]).collect();
            let (name, f, e) = &forms[v[2]];
            let sc = format!("require [\"variables\", \"fileinto\", \"include\", \"imap4flags\", \"vnd.stalwart.expressions\"];\n{}", f(&t));
            let got = run_script(&c, &rts[v[1]], &sc, b"S: x\r\n\r\nb\r\n", |_| (), yes);
            let exp = format!("|{}", e(&t, v[1]));
            cx.state(&(v[1], &t));
            cx.step(1);
            cx.trace();
            cx.outcome(&exp);
            match got.first() {
                Some(Ob::Ev(Event::FileInto { folder, .. })) if *folder == exp => Ok(()),
                _ => Err(Fail::new(format!("size:{name}:{t}:{}", v[1]), format!("{name} of {t:?} with maximum size {}: expected {exp:?}\n{sc}\ngot: {}", v[1], show_all(&got)))),
            }
        },
    )
}
/// values coming from elsewhere than a string literal: body text, match captures, flags
fn sizes_other() -> Box<dyn Suite> {
    let c = compiler();
    let texts = ["abcdef", "aéé", "€€a", "😀😀"];
    let rts: Vec<_> = (0..=9).map(|m| runtime().with_max_variable_size(m)).collect();
    radix(
        "sizes-extracted",
        "text extracted from the body (with and without :first), captured by a match and then stored, or collected as flags × maximum variable size 0..=9",
        vec![texts.len(), rts.len(), 4],
        move |v, cx| {
            let t = texts[v[0]];
            let m = v[1];
            let msg = format!("S: {t}\r\nContent-Type: text/plain; charset=utf-8\r\n\r\n{t}");
            let (act, exp) = match v[2] {
                0 => ("foreverypart { extracttext \"v\"; fileinto \"|${v}\"; }", cut(t, m).to_string()),
                1 => ("foreverypart { extracttext :first 2 \"v\"; fileinto \"|${v}\"; }", cut(&t.chars().take(2).collect::<String>(), m).to_string()),
                2 => ("if header :matches \"s\" \"*\" { set \"v\" \"${1}\"; fileinto \"|${v}\"; }", cut(t, m).to_string()),
                _ => ("foreverypart { extracttext :upper \"v\"; fileinto \"|${v}\"; }", cut(&t.to_uppercase(), m).to_string()),
            };
            let sc = format!("require [\"variables\", \"fileinto\", \"foreverypart\", \"mime\", \"extracttext\", \"body\"];\n{act}");
            let got = run_script(&c, &rts[m], &sc, msg.as_bytes(), |_| (), yes);
            cx.state(&(v[1], t, v[2]));
            cx.step(1);
            cx.trace();
            cx.outcome(&exp);
            match got.first() {
                Some(Ob::Ev(Event::FileInto { folder, .. })) if *folder == format!("|{exp}") => Ok(()),
                _ => Err(Fail::new(format!("sizex:{t}:{m}:{}", v[2]), format!("{act} of {t:?} with maximum size {m}: expected {exp:?}\ngot: {}", show_all(&got)))),
            }
        },
    )
}

fn used(b: &B) -> bool {
    any_cmd(b, &|c| matches!(c, C::Mark(..))) && any_cmd(b, &|c| matches!(c, C::Set { .. }))
}
pub fn property(thorough: bool) -> Property {
    let mut suites: Vec<Box<dyn Suite>> = vec![];
    let obs = || C::Mark(0, s("[${x}|${Y}]"));
    let reads = |n: &str, v: &str| T::Str(Mt::Is, vec![s(n)], vec![s(v)]);
    let g = Gram {
        leaves: vec![obs(), set("x", "a"), set("Y", "b${x}"), setl("x", "c${y}")],
        tests: vec![T::Host(0), reads("${x}", "a")],
        max_branches: 2,
        with_else: true,
        max_depth: 3,
        ..Default::default()
    };
    let n = if thorough { 7 } else { 6 };
    suites.push(prog_suite(
        "scoping",
        &format!("all programs of up to {n} nodes of set/set :local/observe in if/elsif/else (tests on the host and on variables), two variables"),
        Progs::lazy(&g, 1, n, used),
        Msg::simple(),
        Lib::default(),
        Opts::default(),
    ));
    let g = Gram {
        leaves: vec![C::Mark(0, s("[${x}|${global.x}|${global.Y}]")), set("x", "a${y}"), set("y", "b${X}"), C::Global(vec!["x".into()]), C::Global(vec!["Y".into()]), set("global.X", "c")],
        tests: vec![T::Host(0)],
        max_branches: 1,
        with_else: true,
        max_depth: 2,
        ..Default::default()
    };
    suites.push(prog_suite(
        "globals",
        &format!("all programs of up to {} nodes of global declarations, global.x references, sets and observations, nested ≤2", n - 1),
        Progs::lazy(&g, 1, n - 1, |b| used(b) && globals_ok(b)),
        Msg::simple(),
        Lib::default(),
        Opts::default(),
    ));
    suites.push(substitution());
    suites.push(places());
    suites.push(names());
    suites.push(references(if thorough { 6 } else { 5 }));
    suites.push(sizes(if thorough { 4 } else { 3 }));
    suites.push(sizes_other());
    Property {
        id: "C07",
        level: "model_checking",
        technique: "explicit-state exploration of all small programs over variables against a reference interpreter with static scopes, plus exhaustive enumeration of reference syntax, value sizes and argument positions, each executed on the real library",
        assumptions: vec![
            "scopes follow this implementation's rule: a plain set names the variable visible at that point or else declares one in the current block; set :local declares it for the rest of the script".into(),
            "names mixing digits first with letters, empty name spaces and dashes/brackets in names are not judged".into(),
        ],
        suites,
    }
}
/// (text with § for the place, two texts that act differently there, a test)
const PLACES: &[(&str, &str, &str)] = &[
    ("redirect :bymode \"notify\" :bytimeabsolute \"§\" \"a@b.cc\";", "2040-01-01T00:00:00Z", "2041-01-01T00:00:00Z"),
    ("redirect \"§\";", "a@b.cc", "c@d.ee"),
    ("redirect :list \"§\";", "tag:a", "tag:b"),
    ("fileinto :flags \"§\" \"x\";", "a", "b"),
    ("fileinto \"§\";", "a", "b"),
    ("fileinto :mailboxid \"§\" \"x\";", "a", "b"),
    ("fileinto :specialuse \"§\" \"x\";", "\\a", "\\b"),
    ("keep :flags \"§\";", "a", "b"),
    ("replace :subject \"§\" \"text\";", "a", "b"),
    ("replace :from \"§\" \"text\";", "a@b.cc", "c@d.ee"),
    ("replace \"§\";", "a", "b"),
    ("enclose :subject \"§\" \"text\";", "a", "b"),
    ("enclose :headers \"§\" \"text\";", "X-A: a", "X-A: b"),
    ("enclose \"§\";", "a", "b"),
    ("foreverypart { extracttext :first 3 \"w\"; fileinto \"${w}§\"; }", "a", "b"),
    ("convert \"§\" \"text/html\" [\"charset=utf-8\"];", "text/plain", "text/none"),
    ("convert \"text/plain\" \"§\" [\"charset=utf-8\"];", "text/html", "text/none"),
    ("if convert \"§\" \"text/html\" [\"charset=utf-8\"] { fileinto \"x\"; }", "text/plain", "text/none"),
    ("if convert \"text/plain\" \"§\" [\"charset=utf-8\"] { fileinto \"x\"; }", "text/html", "text/none"),
    ("addheader \"X-§\" \"v\";", "A", "B"),
    ("addheader \"X-A\" \"§\";", "a", "b"),
    ("deleteheader \"§\";", "subject", "x-none"),
    ("deleteheader :contains \"subject\" \"§\";", "Hello", "none"),
    ("set \"w\" \"§\"; fileinto \"${w}\";", "a", "b"),
    ("set :replace \"§\" \"+\" \"w\" \"abab\"; fileinto \"${w}\";", "a", "b"),
    ("set :replace \"a\" \"§\" \"w\" \"abab\"; fileinto \"${w}\";", "x", "y"),
    ("notify :from \"§\" \"mailto:a@b.cc\";", "Boss <user@to.example>", "user@to.example"),
    ("notify :importance \"§\" \"tel:1\";", "1", "3"),
    ("notify :options \"§\" \"tel:1\";", "a=b", "c=d"),
    ("notify :message \"§\" \"tel:1\";", "a", "b"),
    ("notify :fcc \"§\" \"mailto:a@b.cc\";", "a", "b"),
    ("notify :fcc \"x\" :flags \"§\" \"mailto:a@b.cc\";", "a", "b"),
    ("notify :fcc \"x\" :mailboxid \"§\" \"mailto:a@b.cc\";", "a", "b"),
    ("notify :fcc \"x\" :specialuse \"§\" \"mailto:a@b.cc\";", "\\a", "\\b"),
    ("notify \"§\";", "mailto:a@b.cc", "tel:1"),
    ("reject \"§\";", "a", "b"),
    ("ereject \"§\";", "a", "b"),
    ("vacation \"§\";", "a", "b"),
    ("vacation :subject \"§\" \"gone\";", "a", "b"),
    ("vacation :from \"§\" \"gone\";", "user@to.example", "alias@to.example"),
    ("vacation :handle \"§\" \"gone\";", "a", "b"),
    ("vacation :addresses \"§\" \"gone\";", "alias@to.example", "none@to.example"),
    ("vacation :addresses [\"q@r.example\", \"§\"] \"gone\";", "alias@to.example", "none@to.example"),
    ("vacation :fcc \"§\" \"gone\";", "a", "b"),
    ("vacation :fcc \"x\" :flags \"§\" \"gone\";", "a", "b"),
    ("vacation :fcc \"x\" :mailboxid \"§\" \"gone\";", "a", "b"),
    ("vacation :fcc \"x\" :specialuse \"§\" \"gone\";", "\\a", "\\b"),
    ("error \"§\";", "a", "b"),
    ("setflag \"§\";", "a", "b"),
    ("addflag \"§\";", "a", "b"),
    ("setflag \"a b\"; removeflag \"§\";", "a", "b"),
    ("setflag \"w\" \"§\"; fileinto \"${w}\";", "a", "b"),
    ("include :optional \"§\";", "a", "b"),
    ("if address \"§\" \"joe@x.example\" { fileinto \"x\"; }", "from", "to"),
    ("if address \"from\" \"§\" { fileinto \"x\"; }", "joe@x.example", "joe@y.example"),
    ("if envelope \"from\" \"§\" { fileinto \"x\"; }", "env@from.example", "other@from.example"),
    ("if exists \"§\" { fileinto \"x\"; }", "subject", "x-none"),
    ("if header \"§\" \"Hello World\" { fileinto \"x\"; }", "subject", "from"),
    ("if header \"subject\" \"§\" { fileinto \"x\"; }", "Hello World", "Hello"),
    ("if header :mime :param \"§\" \"content-type\" \"utf-8\" { fileinto \"x\"; }", "charset", "format"),
    ("if header :mime :param [\"x\", \"§\"] \"content-type\" \"utf-8\" { fileinto \"x\"; }", "charset", "format"),
    ("if header :matches \"subject\" \"§\" { fileinto \"x\"; }", "H*d", "W*d"),
    ("if header :regex \"subject\" \"§\" { fileinto \"x\"; }", "^H.*d", "^W.*d"),
    ("if body :contains \"§\" { fileinto \"x\"; }", "body", "none"),
    ("if body :content \"§\" :contains \"body\" { fileinto \"x\"; }", "text", "image"),
    ("if date :originalzone \"§\" \"year\" \"2014\" { fileinto \"x\"; }", "date", "x-none"),
    ("if date :originalzone \"date\" \"year\" \"§\" { fileinto \"x\"; }", "2014", "2015"),
    ("if currentdate :value \"ge\" \"year\" \"§\" { fileinto \"x\"; }", "2000", "9000"),
    ("if duplicate :uniqueid \"§\" { fileinto \"x\"; }", "a", "b"),
    ("if duplicate :header \"§\" { fileinto \"x\"; }", "subject", "from"),
    ("if duplicate :handle \"§\" { fileinto \"x\"; }", "a", "b"),
    ("if string \"§\" \"a\" { fileinto \"x\"; }", "a", "b"),
    ("if string \"a\" \"§\" { fileinto \"x\"; }", "a", "b"),
    ("if environment :is \"host\" \"§\" { fileinto \"x\"; }", "mail.example", "none"),
    ("if notify_method_capability \"§\" \"online\" \"maybe\" { fileinto \"x\"; }", "mailto:a@b.cc", "none"),
    ("if notify_method_capability \"mailto:a@b.cc\" \"§\" \"maybe\" { fileinto \"x\"; }", "online", "none"),
    ("if notify_method_capability \"mailto:a@b.cc\" \"online\" \"§\" { fileinto \"x\"; }", "maybe", "none"),
    ("if valid_notify_method \"§\" { fileinto \"x\"; }", "mailto:a@b.cc", "none"),
    ("if valid_ext_list \"§\" { fileinto \"x\"; }", "tag:list", "tag:none"),
    ("setflag \"a\"; if hasflag \"§\" { fileinto \"x\"; }", "a", "b"),
    ("setflag \"w\" \"a\"; if hasflag \"w\" \"§\" { fileinto \"x\"; }", "a", "b"),
    ("if mailboxexists \"§\" { fileinto \"x\"; }", "a", "b"),
    ("if mailboxidexists \"§\" { fileinto \"x\"; }", "a", "b"),
    ("if specialuse_exists \"§\" { fileinto \"x\"; }", "\\a", "\\b"),
    ("if specialuse_exists \"§\" \"\\\\Sent\" { fileinto \"x\"; }", "a", "b"),
    ("if metadata \"§\" \"/private/x\" \"yes\" { fileinto \"x\"; }", "INBOX", "none"),
    ("if metadata \"INBOX\" \"§\" \"yes\" { fileinto \"x\"; }", "/private/x", "/private/y"),
    ("if metadata \"INBOX\" \"/private/x\" \"§\" { fileinto \"x\"; }", "yes", "no"),
    ("if metadataexists \"§\" \"/private/x\" { fileinto \"x\"; }", "INBOX", "none"),
    ("if metadataexists \"INBOX\" \"§\" { fileinto \"x\"; }", "/private/x", "/private/y"),
    ("if servermetadata \"§\" \"on\" { fileinto \"x\"; }", "/srv", "/none"),
    ("if servermetadata \"/srv\" \"§\" { fileinto \"x\"; }", "on", "off"),
    ("if servermetadataexists \"§\" { fileinto \"x\"; }", "/srv", "/none"),
    ("if spamtest :percent :value \"ge\" :comparator \"i;ascii-numeric\" \"§\" { fileinto \"x\"; }", "10", "90"),
    ("if virustest :value \"ge\" :comparator \"i;ascii-numeric\" \"§\" { fileinto \"x\"; }", "1", "4"),
];
/// every place a text can stand at, with texts that make a difference there
fn places() -> Box<dyn Suite> {
    const MAIL: &[u8] = b"From: joe@x.example\r\nTo: user@to.example\r\nDate: Thu, 10 Apr 2014 11:22:33 +0200\r\nMessage-ID: <i@x.example>\r\nSubject: Hello World\r\nContent-Type: text/plain; charset=utf-8\r\n\r\nthe body\r\n";
    const ALIAS: &[u8] = b"From: joe@x.example\r\nTo: alias@to.example\r\nSubject: Hello World\r\n\r\nthe body\r\n";
    let c = compiler();
    let rt = known::runtime(runtime());
    radix(
        "places",
        &format!("{} places of actions and tests a text can stand at × ways of holding it in a variable × two texts that act differently there (the oracle checks that they do): as written out", PLACES.len()),
        vec![PLACES.len(), carriers("x").len(), 2],
        move |v, cx| {
            let (t, v1, v2) = PLACES[v[0]];
            let mail = if t.contains(":addresses") { ALIAS } else { MAIL };
            let run = |src: &str| match compile(&c, src) {
                Ok(sc) => normpos(scrub_obs(run_with(&rt, &sc, mail, known::prep, |e| Input::from(!t.starts_with("vacation") || !matches!(e, Event::DuplicateId { .. }))))),
                Err(o) => vec![o],
            };
            let val = [v1, v2][v[2]];
            let (kind, pro, rf, epi) = carriers(val).swap_remove(v[1]);
            let lit = |x: &str| run(&format!("{ALLCAPS}{}", t.replace('§', &templates::esc(x))));
            let (a, other) = (lit(val), lit([v2, v1][v[2]]));
            let var = format!("{ALLCAPS}{pro}{}\n{epi}", t.replace('§', &rf));
            let b = run(&var);
            cx.step(a.len() as u64 + b.len() as u64);
            cx.state(&show_all(&a));
            cx.trace();
            cx.outcome(&hash_obs(&a));
            if a == other {
                return Err(Fail::new(format!("places:{t}:same"), format!("{t}\nacts the same with {v1:?} and {v2:?}: {}", show_all(&a))));
            }
            if a != b {
                return Err(Fail::new(format!("places:{t}:{kind}"), format!("with {val:?} written out: {t}\n    {}\nthrough a variable ({kind}):\n{pro}{}{epi}\n    {}", show_all(&a), t.replace('§', &rf), show_all(&b))));
            }
            Ok(())
        },
    )
}
/// every place a variable is named at: (script, folders of the messages filed)
const NAMES: &[(&str, &[&str])] = &[
    ("let \"y\" \"§ + 1\"; fileinto \"${y}\";", &["6"]),
    ("let \"§\" \"§ + 1\"; fileinto \"${§}\";", &["6"]),
    ("let \"§\" \"9\"; fileinto \"${§}\";", &["9"]),
    ("if eval \"§ > 4\" { fileinto \"yes\"; } else { fileinto \"no\"; }", &["yes"]),
    ("if allof(eval \"§ == 5\", not eval \"h(§) != 5\") { fileinto \"yes\"; } else { fileinto \"no\"; }", &["yes"]),
    ("eval \"h(§)\"; fileinto \"${§}\";", &["5"]),
    ("while \"§ < 7\" { let \"§\" \"§ + 1\"; fileinto \"${§}\"; }", &["6", "7"]),
    ("while \"§ < 7\" { if true { let \"§\" \"§ + 1\"; } if string \"${§}\" \"6\" { fileinto \"six\"; } }", &["six"]),
    ("let \"y\" \"[§, 7]\"; let \"z\" \"y[0] * 2\"; fileinto \"${z}\";", &["10"]),
    ("set \"§\" \"q${§}\"; fileinto \"${§}\";", &["q5"]),
    ("set :length \"§\" \"abc\"; fileinto \"${§}\";", &["3"]),
    ("setflag \"§\" \"a b\"; fileinto \"${§}\";", &["a b"]),
    ("addflag \"§\" \"x\"; fileinto \"${§}\";", &["5 x"]),
    ("removeflag \"§\" \"5\"; fileinto \"[${§}]\";", &["[]"]),
    ("if hasflag \"§\" \"5\" { fileinto \"yes\"; } else { fileinto \"no\"; }", &["yes"]),
    ("if hasflag [\"nothing\", \"§\"] [\"6\", \"5\"] { fileinto \"yes\"; } else { fileinto \"no\"; }", &["yes"]),
    ("foreverypart { extracttext :first 3 \"§\"; } fileinto \"${§}\";", &["the"]),
    ("if true { set \"§\" \"in\"; } fileinto \"${§}\";", &["in"]),
    ("if string :matches \"ab\" \"a*\" { set \"§\" \"${1}\"; } fileinto \"${§}\";", &["b"]),
];
fn names() -> Box<dyn Suite> {
    let c = compiler();
    let rt = known::runtime(runtime());
    // those that hold the text in one variable
    let kinds: Vec<usize> = (0..carriers("5").len()).filter(|i| {
        let r = &carriers("5")[*i].2;
        r.matches('$').count() == 1 && r.starts_with("${") && r.ends_with('}') && !r.contains(|c: char| c.is_ascii_digit())
    }).collect();
    radix(
        "names",
        &format!("{} scripts that name a variable in expressions, flag actions and tests, set, let and extracttext × {} ways of declaring it (local, outer, sibling, :local, global, declared): its value is read and written", NAMES.len(), kinds.len()),
        vec![NAMES.len(), kinds.len(), 2],
        move |v, cx| {
            let (t, want) = NAMES[v[0]];
            let (kind, pro, rf, epi) = carriers("5").swap_remove(kinds[v[1]]);
            let name = rf.trim_start_matches("${").trim_end_matches('}');
            // another variable declared later may not share its place
            let more = if v[2] == 1 { "if true { set :local \"other\" \"o1\"; set \"more\" \"o2\"; } set \"last\" \"o3\";" } else { "" };
            let src = format!("{ALLCAPS}{}{pro}{more}{}\n{epi}", "", t.replace('§', name)).replacen("require [", "require [\"vnd.stalwart.expressions\", \"vnd.stalwart.while\", ", 1);
            let obs = match compile(&c, &src) {
                Ok(sc) => run_with(&rt, &sc, b"Subject: s\r\n\r\nthe body\r\n", known::prep, |e| match e {
                    Event::Function { arguments, .. } => Input::result(arguments[0].clone()),
                    _ => Input::True,
                }),
                Err(o) => vec![o],
            };
            let got: Vec<&str> = obs.iter().filter_map(|o| if let Ob::Ev(Event::FileInto { folder, .. }) = o { Some(folder.as_str()) } else { None }).collect();
            cx.step(obs.len() as u64);
            cx.state(&(v[0], v[1], v[2]));
            cx.trace();
            cx.outcome(&hash_obs(&obs));
            if got != want || obs.iter().any(|o| matches!(o, Ob::Err(_))) {
                return Err(Fail::new(format!("names:{t}:{kind}"), format!("{}\nexpected {want:?}\n{}", &src[ALLCAPS.len()..], show_all(&obs))));
            }
            Ok(())
        },
    )
}
