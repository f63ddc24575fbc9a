use super::core::*;
use super::known;
use crate::eng::*;
use crate::harness::*;
use sieve::{Event, Input};

fn in_chain(t: &T, shape: usize) -> B {
    match shape {
        0 => vec![C::If(vec![(t.clone(), vec![mark()])], Some(vec![mark()])), mark()],
        _ => vec![
            C::If(vec![(T::False, vec![mark()]), (t.clone(), vec![mark()]), (T::Host(0), vec![mark()])], Some(vec![mark()])),
            mark(),
        ],
    }
}

pub fn property(thorough: bool) -> Property {
    let mut suites: Vec<Box<dyn Suite>> = vec![];
    // 1. boolean structure of tests
    let leaves = [T::Host(0), T::True, T::False];
    let n = if thorough { 6 } else { 5 };
    let mut progs = vec![];
    for (k, v) in tests_of(&leaves, n).iter().enumerate() {
        for t in v {
            progs.push(in_chain(t, 0));
            if k < n {
                progs.push(in_chain(t, 1));
            }
        }
    }
    suites.push(prog_suite(
        "test-trees",
        &format!("all tests of up to {n} nodes over host question/true/false/not/allof/anyof, as if and as elsif condition, × all host answers × both acknowledgements of action events"),
        progs,
        Msg::simple(),
        Lib::default(),
        Opts { both_acks: true, ..Default::default() },
    ));
    let n = if thorough { 8 } else { 7 };
    let mut progs = vec![];
    for v in tests_of(&[T::Host(0)], n) {
        for t in v {
            progs.push(in_chain(&t, 0));
        }
    }
    suites.push(prog_suite(
        "host-test-trees",
        &format!("all tests of up to {n} nodes over host question/not/allof/anyof × all host answers"),
        progs,
        Msg::simple(),
        Lib::default(),
        Opts::default(),
    ));
    let n = if thorough { 6 } else { 5 };
    let mut progs = vec![];
    for v in tests_of(&[T::Host(0), T::Fnc(0)], n) {
        for t in v {
            progs.push(in_chain(&t, 1));
        }
    }
    suites.push(prog_suite(
        "fnc-test-trees",
        &format!("all tests of up to {n} nodes over two kinds of host questions (mailboxexists, external function)"),
        progs,
        Msg::simple(),
        Lib::default(),
        Opts::default(),
    ));
    // 2. chains
    let g = Gram { leaves: vec![mark()], tests: vec![T::Host(0)], max_branches: 3, with_else: true, max_depth: 4, empty: true, ..Default::default() };
    let n = if thorough { 9 } else { 8 };
    suites.push(prog_suite(
        "chains",
        &format!("all programs of up to {n} nodes of marks and if/elsif/else chains (≤3 conditions, nesting ≤4, empty blocks) × all host answers"),
        Progs::lazy(&g, 1, n, |_| true),
        Msg::simple(),
        Lib::default(),
        Opts::default(),
    ));
    let g = Gram {
        leaves: vec![mark(), C::Stop],
        tests: vec![T::Host(0), T::True, T::Not(Box::new(T::Host(0)))],
        max_branches: 2,
        with_else: true,
        max_depth: 3,
        ..Default::default()
    };
    let n = if thorough { 7 } else { 6 };
    suites.push(prog_suite(
        "chains-stop",
        &format!("all programs of up to {n} nodes with stop and constant/negated conditions"),
        Progs::lazy(&g, 1, n, |_| true),
        Msg::simple(),
        Lib::default(),
        Opts { both_acks: true, ..Default::default() },
    ));
    // the last command of a branch decides what follows it only when it is reached
    let g = Gram {
        leaves: vec![mark(), C::Stop, C::Return, C::Error(s("e")), C::Discard, C::Reject],
        tests: vec![T::Host(0)],
        max_branches: 2,
        with_else: true,
        max_depth: 3,
        ..Default::default()
    };
    let n = if thorough { 7 } else { 6 };
    suites.push(prog_suite(
        "chains-ends",
        &format!("all programs of up to {n} nodes with stop, return, error, discard and reject, also as the last command of nested branches"),
        Progs::lazy(&g, 1, n, |_| true),
        Msg::simple(),
        Lib::default(),
        Opts::default(),
    ));
    // long chains
    let mut progs = vec![];
    for nb in 1..=(if thorough { 9 } else { 7 }) {
        for el in 0..2 {
            for nest in 0..=nb {
                let mut br: Vec<(T, B)> = (0..nb).map(|_| (T::Host(0), vec![mark()])).collect();
                if nest < nb {
                    br[nest].1.insert(0, C::If(vec![(T::Host(0), vec![mark()]), (T::Host(0), vec![])], Some(vec![mark()])));
                    br[nest].1.push(C::If(vec![(T::Host(0), vec![mark()])], None));
                }
                progs.push(vec![C::If(br, (el == 1).then(|| vec![mark()])), mark(), C::If(vec![(T::Host(0), vec![mark()])], Some(vec![mark()]))]);
            }
        }
    }
    suites.push(prog_suite(
        "long-chains",
        "chains of up to 7 (thorough 9) conditions, optionally with chains nested in one branch, followed by a second chain",
        progs,
        Msg::simple(),
        Lib::default(),
        Opts::default(),
    ));
    // 3. every kind of test keeps its meaning under not / allof / anyof / elsif
    let ks: Vec<T> = known::KNOWN.iter().map(|(t, v)| T::Known(t, *v)).collect();
    let n = ks.len();
    let c = compiler();
    let rt = known::runtime(runtime());
    let shapes: Vec<fn(T, T) -> T> = vec![
        |a, _| a,
        |a, _| T::Not(Box::new(a)),
        |a, _| T::Not(Box::new(T::Not(Box::new(a)))),
        |a, b| T::All(vec![a, b]),
        |a, b| T::Any(vec![a, b]),
        |a, b| T::All(vec![T::Not(Box::new(a)), b]),
        |a, b| T::Any(vec![T::Not(Box::new(a)), b]),
        |a, b| T::Not(Box::new(T::All(vec![a, b]))),
        |a, b| T::Not(Box::new(T::Any(vec![a, b]))),
        |a, b| T::Not(Box::new(T::Any(vec![T::Not(Box::new(a)), T::Not(Box::new(b))]))),
        |a, b| T::Any(vec![T::All(vec![a, T::Host(0)]), b]),
        |a, b| T::All(vec![T::Any(vec![a, T::Host(0)]), b]),
    ];
    let ns = shapes.len();
    let rt2 = rt.clone();
    let c2 = compiler();
    suites.push(radix(
        "test-kinds",
        "every ordered pair of real tests (all test kinds, true and false instances) in every shape of not/allof/anyof, × host answers",
        vec![n, n, ns],
        move |v, cx| {
            let t = shapes[v[2]](ks[v[0]].clone(), ks[v[1]].clone());
            known_case(&c, &rt, &t, cx)
        },
    ));
    let ks: Vec<T> = known::KNOWN.iter().map(|(t, v)| T::Known(t, *v)).collect();
    suites.push(radix(
        "test-kinds-then-host",
        "a real test followed by a host test in allof/anyof, negations on each: the host is asked exactly when needed",
        vec![n, 2, 2, 2, 2],
        move |v, cx| {
            let neg = |n: usize, t: T| if n == 1 { T::Not(Box::new(t)) } else { t };
            let a = neg(v[1], ks[v[0]].clone());
            let h = neg(v[2], T::Host(0));
            let l = if v[4] == 0 { vec![a, h] } else { vec![h, a] };
            let t = if v[3] == 0 { T::All(l) } else { T::Any(l) };
            known_case(&c2, &rt2, &t, cx)
        },
    ));
    // 4. every kind of test the host answers
    let nk = HOST_KINDS.len();
    let c3 = compiler();
    let rt3 = known::runtime(runtime());
    suites.push(radix(
        "host-kinds",
        "every ordered pair of tests of all kinds the host answers, in every shape of not/allof/anyof, as if, elsif and inside a false chain, × all host answers: who is asked, in what order, and which branch runs",
        vec![nk, nk, 10, 3, 4],
        move |v, cx| host_kinds(&c3, &rt3, v, cx),
    ));
    Property {
        id: "C01",
        level: "model_checking",
        technique: "explicit-state exploration of all programs and host answers, each run replayed on the real compiler and interpreter",
        assumptions: vec!["host answers tests with True/False as the API prescribes".into()],
        suites,
    }
}

fn known_case(c: &sieve::Compiler, rt: &sieve::Runtime, t: &T, cx: &mut Cx) -> Res {
    let b = numbered(vec![C::If(vec![(t.clone(), vec![mark()])], Some(vec![mark()])), mark()]);
    let src = render(&b);
    let body = &src[REQ.len()..];
    let sc = compile(c, &src).map_err(|e| Fail::new(format!("compile:{body}"), format!("{}\n{src}", show(&e))))?;
    let prog = resolve(&b);
    let msg = Msg::simple();
    let lib = Default::default();
    let w = World { msg: &msg, scripts: &lib, max_nested: 3, fuel: 0, max_var: 4096 };
    let mut ch = Choices::default();
    loop {
        let (exp, ans) = {
            let mut m = Model::new(&w, &mut ch);
            m.run(&prog);
            cx.step(m.steps);
            cx.states.extend(m.states.iter());
            (norm(m.out), m.answers)
        };
        let mut k = 0;
        let got = norm(run_with(rt, &sc, known::MSG.as_bytes(), known::prep, |e| match e {
            Event::MailboxExists { .. } => {
                k += 1;
                if ans.get(k - 1).copied().unwrap_or(false) {
                    Input::True
                } else {
                    Input::False
                }
            }
            _ => Input::True,
        }));
        cx.trace();
        if got != exp {
            return Err(Fail::new(format!("{body}|{}", ch.show()), format!("{body}\nanswers {ans:?}\n{}", diff(&exp, &got))));
        }
        cx.outcome(&hash_obs(&got));
        cx.sample(|| body.replace('\n', " "));
        if !ch.advance() {
            return Ok(());
        }
    }
}

/// Tests answered by the host; § stands for a name that shows up in the question.
const HOST_KINDS: &[&str] = &[
    "mailboxexists \"§\"",
    "mailboxexists [\"INBOX\", \"§\"]",
    "mailboxidexists \"§\"",
    "specialuse_exists \"\\\\§\"",
    "specialuse_exists \"INBOX\" \"\\\\§\"",
    "duplicate :uniqueid \"§\"",
    "duplicate :handle \"§\"",
    "header :list \"subject\" \"tag:§\"",
    "address :list :domain \"from\" \"tag:§\"",
    "envelope :list \"from\" \"tag:§\"",
    "string :list \"a\" \"tag:§\"",
    "eval \"h('§')\"",
    "eval \"1 + h('§') == 2\"",
];

fn host_kinds(c: &sieve::Compiler, rt: &sieve::Runtime, v: &[usize], cx: &mut Cx) -> Res {
    let a = HOST_KINDS[v[0]].replace('§', "ka");
    let b = HOST_KINDS[v[1]].replace('§', "kb");
    let (x, y) = (v[4] & 1 == 1, v[4] & 2 == 2);
    // text, value, who is asked
    let both = |all: bool, x: bool, y: bool| if all == x { (y, "ab") } else { (x, "a") };
    let (t, (val, asked)) = match v[2] {
        0 => (a.clone(), (x, "a")),
        1 => (format!("not {a}"), (!x, "a")),
        2 => (format!("not not {a}"), (x, "a")),
        3 => (format!("allof({a}, {b})"), both(true, x, y)),
        4 => (format!("anyof({a}, {b})"), both(false, x, y)),
        5 => (format!("allof(not {a}, {b})"), both(true, !x, y)),
        6 => (format!("anyof(not {a}, not {b})"), both(false, !x, !y)),
        7 => {
            let (r, w) = both(true, x, y);
            (format!("not allof({a}, {b})"), (!r, w))
        }
        8 => {
            let (r, w) = both(false, x, !y);
            (format!("not anyof({a}, not {b})"), (!r, w))
        }
        _ => {
            let (r, w) = both(false, x, y);
            (format!("allof(anyof({a}, {b}), true)"), (r, w))
        }
    };
    let body = match v[3] {
        0 => format!("if {t} {{ fileinto \"yes\"; }} else {{ fileinto \"no\"; }}"),
        1 => format!("if false {{ fileinto \"bad\"; }} elsif {t} {{ fileinto \"yes\"; }} elsif true {{ fileinto \"no\"; }} else {{ fileinto \"bad\"; }}"),
        _ => format!("if false {{ if {t} {{ fileinto \"bad\"; }} }} else {{ if {t} {{ fileinto \"yes\"; stop; }} }} fileinto \"no\";"),
    };
    let src = format!("{REQ}{body}").replacen("\"fileinto\"", "\"fileinto\", \"mailboxid\", \"special-use\"", 1);
    let key = format!("{body}|{x}{y}");
    let sc = compile(c, &src).map_err(|e| Fail::new(format!("compile:{body}"), format!("{}\n{src}", show(&e))))?;
    let mut seen = String::new();
    let obs = run_with(rt, &sc, known::MSG.as_bytes(), known::prep, |e| {
        let d = format!("{e:?}");
        let ans = if d.contains("ka") {
            seen.push('a');
            x
        } else if d.contains("kb") {
            seen.push('b');
            y
        } else {
            return Input::True;
        };
        match e {
            Event::Function { .. } => Input::result((ans as i64).into()),
            _ => Input::from(ans),
        }
    });
    cx.trace();
    cx.state(&(v[2], v[3], val, asked));
    cx.step(obs.len() as u64);
    let want = if val { "yes" } else { "no" };
    let got: Vec<&str> = obs.iter().filter_map(|o| if let Ob::Ev(Event::FileInto { folder, .. }) = o { Some(folder.as_str()) } else { None }).collect();
    cx.outcome(&(seen.clone(), val));
    cx.sample(|| body.clone());
    if seen != asked || got != [want] {
        return Err(Fail::new(key, format!("{body}\nanswers {x} {y}: expected to ask {asked:?} and file into {want:?}\nasked {seen:?}\n{}", show_all(&obs))));
    }
    Ok(())
}
