use super::core::*;
use crate::eng::*;
use crate::harness::*;
use sieve::{Event, Input, Runtime, Script};
use std::sync::Arc;

/// Largest instruction budget tried for programs that end by themselves.
const TOP: usize = 400;

fn runtimes(n: usize) -> Arc<Vec<Runtime>> {
    Arc::new((0..=n).map(|k| runtime().with_cpu_limit(k)).collect())
}

/// Runs the program once per host answer sequence and per budget 0, 1, 2, … until the budget suffices.
fn budget_case(rts: &[Runtime], src: &str, prog: &(B, usize), msg: &Msg, lib: &Lib, cx: &mut Cx) -> Res {
    let c = compiler();
    let body = &src[REQ.len()..];
    let sc = compile(&c, src).map_err(|e| Fail::new(format!("compile:{body}"), format!("must compile: {}\n{src}", show(&e))))?;
    let o = Opts::default();
    let w = World { msg, scripts: &lib.resolved, max_nested: o.max_nested, fuel: 2, max_var: o.max_var };
    let mut ch = Choices::default();
    loop {
        let (exp, answers, pending, cost) = {
            let mut m = Model::new(&w, &mut ch);
            m.record = true;
            m.run(prog);
            cx.step(m.steps);
            (m.out, m.answers, m.pending, m.cost)
        };
        let full = norm(exp.clone());
        let mut last = 0;
        let mut done = false;
        for (limit, rt) in rts.iter().enumerate() {
            let mut k = 0;
            let host = |e: &Event| -> Input {
                match e {
                    Event::MailboxExists { .. } => {
                        k += 1;
                        if answers.get(k - 1).copied().unwrap_or(false) { Input::True } else { Input::False }
                    }
                    Event::Function { .. } => {
                        k += 1;
                        Input::FncResult(answers.get(k - 1).copied().unwrap_or(false).into())
                    }
                    Event::IncludeScript { name, .. } => {
                        let key = match name {
                            Script::Personal(n) => (false, n.clone()),
                            Script::Global(n) => (true, n.clone()),
                        };
                        match lib.compiled.get(&key) {
                            Some(s) => Input::Script { name: name.clone(), script: s.clone() },
                            None => Input::False,
                        }
                    }
                    _ => Input::True,
                }
            };
            let got = run_with(rt, &sc, &msg.raw, |_| (), host);
            cx.trace();
            cx.state(&(body, limit, &answers));
            let bad = |why: &str, exp: &str| {
                Err(Fail::new(
                    format!("{}|{}|{limit}", body.replace('\n', " "), ch_show(&answers)),
                    format!("script:\n{body}{}\nhost answers {answers:?}, instruction limit {limit}: {why}\nexpected:\n    {exp}\ngot:\n    {}", lib.text, show_all(&got)),
                ))
            };
            match got.iter().position(|o| matches!(o, Ob::Err(e) if e == "CPULimitReached")) {
                None => {
                    if norm(got.clone()) != full {
                        return bad("the limit did not strike, but the run differs from the unlimited one", &show_all(&full));
                    }
                    let all = cost.last().copied().unwrap_or(0);
                    if (limit as u64) < all {
                        return bad(&format!("{all} commands and questions were executed"), "CPULimitReached");
                    }
                    done = true;
                }
                Some(p) => {
                    if done {
                        return bad("a smaller limit was sufficient", &show_all(&full));
                    }
                    if p > exp.len() || normo(&got[..p]) != normo(&exp[..p]) {
                        return bad("the events before the limit are no prefix of the unlimited run", &show_all(&full));
                    }
                    if p < last {
                        return bad(&format!("a smaller limit got further ({last} events)"), &show_all(&full));
                    }
                    if p > 0 && cost[p - 1] > limit as u64 {
                        return bad(&format!("{} commands and questions were executed", cost[p - 1]), "at most as many as the limit allows");
                    }
                    last = p;
                    let rest = normo(&got[p + 1..]);
                    let alts: Vec<_> = pending.iter().filter(|(n, _)| *n == p).map(|(_, d)| normo(d)).collect();
                    // a discard pending after deliveries says nothing
                    let nd = |v: &Vec<Ob>| v.iter().filter(|o| !matches!(o, Ob::Ev(Event::Discard))).cloned().collect::<Vec<_>>();
                    if !alts.iter().any(|a| nd(a) == nd(&rest)) {
                        return bad("the disposition after the limit is not the pending one", &format!("one of {:?}", alts.iter().map(|a| show_all(a)).collect::<Vec<_>>()));
                    }
                    cx.outcome(&(p, hash_obs(&rest)));
                }
            }
            if done {
                break;
            }
        }
        if !done {
            return Err(Fail::new(format!("endless:{body}"), format!("script:\n{body}{}\nno limit up to {} suffices", lib.text, rts.len() - 1)));
        }
        cx.sample(|| format!("script `{}` answers {answers:?}", body.replace('\n', " ")));
        if !ch.advance() {
            return Ok(());
        }
    }
}
fn ch_show(a: &[bool]) -> String {
    a.iter().map(|b| if *b { '1' } else { '0' }).collect()
}
fn normo(v: &[Ob]) -> Vec<Ob> {
    let mut v = v.to_vec();
    for o in &mut v {
        match o {
            Ob::Err(e) if e.starts_with("InvalidInstruction") => *e = "InvalidInstruction".into(),
            Ob::Ev(Event::FileInto { flags, .. } | Event::Keep { flags, .. }) => flags.sort(),
            _ => (),
        }
    }
    v
}

fn budgets(name: &str, bounds: &str, progs: Progs, msg: Msg, lib: Lib) -> Box<dyn Suite> {
    let rts = runtimes(TOP);
    let n = progs.len() as usize;
    let items: Vec<u64> = (0..n as u64).collect();
    list(name, &format!("{bounds}; every instruction limit from 0 to the sufficient one"), items, move |i, cx| match progs.get(*i) {
        Some(b) => budget_case(&rts, &render(&b), &resolve(&b), &msg, &lib, cx),
        None => Ok(()),
    })
}

/// Programs that never end by themselves: for every limit the run ends with the error and the message kept.
fn endless(thorough: bool) -> Box<dyn Suite> {
    let heads = ["while \"1 == 1\" { § }", "while \"h(1)\" { § }", "while \"x < 1\" { § }", "foreverypart { while \"1\" { § } }", "while \"1\" { foreverypart { § } }", "if true { while \"1\" { § } }", "while \"1\" { while \"1\" { § } }", "include \"loop\"; while \"1\" { § }", "foreverypart { include \"loop\"; §  while \"1\" { }}", "while \"1\" { while \"0\" { } § }"];
    let bodies = ["", "continue;", "if true { continue; }", "set \"y\" \"a${y}\";", "fileinto :copy \"m\";", "if header :is \"s\" \"x\" { }", "if not true { break; }", "let \"z\" \"z + 1\";", "eval \"h(2)\";", "foreverypart { break; }", "foreverypart { continue; }", "keep;", "include :optional \"none\";", "include \"leaf\";", "addheader \"X\" \"y\";", "if mailboxexists \"x\" { continue; } else { continue; }"];
    let top = if thorough { 600 } else { 150 };
    let rts = runtimes(top);
    let c = compiler();
    const RQ: &str = "require [\"fileinto\", \"copy\", \"mailbox\", \"variables\", \"include\", \"foreverypart\", \"mime\", \"editheader\", \"vnd.stalwart.while\", \"vnd.stalwart.expressions\"];\n";
    let leaf = compile(&c, "require [\"fileinto\", \"copy\", \"include\"];\nfileinto :copy \"leaf\"; return;").unwrap();
    let lp = compile(&c, "require [\"foreverypart\", \"include\", \"vnd.stalwart.while\", \"vnd.stalwart.expressions\"];\nwhile \"1\" { foreverypart { } }").unwrap();
    let msg = Msg::tree(&[0, 0, 0]);
    radix(
        "endless",
        &format!("loops that never end × bodies × every limit 0..={top}: the run ends, with the limit error and a disposition, events growing by at most two per instruction"),
        vec![heads.len(), bodies.len()],
        move |v, cx| {
            let src = format!("{RQ}{}", heads[v[0]].replace('§', bodies[v[1]]));
            let sc = match compile(&c, &src) {
                Ok(s) => s,
                Err(Ob::CompileErr(_)) => return Ok(()),
                Err(o) => return Err(Fail::new(format!("compile:{src}"), show(&o))),
            };
            let mut prev: Vec<Ob> = vec![];
            for (limit, rt) in rts.iter().enumerate() {
                let host = |e: &Event| match e {
                    Event::Function { .. } => Input::FncResult(1i64.into()),
                    Event::IncludeScript { name, .. } => match name {
                        Script::Personal(n) if n == "leaf" => Input::script(n.as_str(), leaf.clone()),
                        Script::Personal(n) if n == "loop" => Input::script(n.as_str(), lp.clone()),
                        _ => Input::False,
                    },
                    _ => Input::True,
                };
                let got = run_with(rt, &sc, &msg.raw, |_| (), host);
                cx.trace();
                cx.state(&(v[0], v[1], limit));
                cx.step(1);
                let bad = |why: &str| Err(Fail::new(format!("endless:{}|{limit}", src.replace(RQ, "")), format!("{}\nlimit {limit}: {why}\n    {}", src.replace(RQ, ""), show_all(&got[..got.len().min(60)]))));
                let Some(p) = got.iter().position(|o| matches!(o, Ob::Err(e) if e == "CPULimitReached")) else {
                    return bad("no limit error");
                };
                let head = &got[..p];
                let d = &got[p + 1..];
                let keeps = d.iter().filter(|o| matches!(o, Ob::Ev(Event::Keep { .. }))).count();
                if keeps != 1 || !matches!(d.last(), Some(Ob::Ev(Event::Keep { .. }))) || d.len() > 2 {
                    return bad("the message is not kept after the error");
                }
                if head.len() < prev.len() || head[..prev.len()] != prev[..] || head.len() > prev.len() + 2 {
                    return bad("events are not those of the run with one instruction less plus at most one instruction's");
                }
                cx.outcome(&hash_obs(&got));
                prev = head.to_vec();
            }
            cx.sample(|| format!("{} → {} events at limit {top}", src.replace(RQ, ""), prev.len()));
            Ok(())
        },
    )
}

pub fn property(thorough: bool) -> Property {
    let mut suites: Vec<Box<dyn Suite>> = vec![];
    let d = thorough as usize;
    let g = Gram {
        leaves: vec![mark(), C::Keep(None), C::Discard, C::FileInto(false, None), C::AddHeader, C::Flag(FlagOp::Set, None, vec![s("f1")]), C::Redirect(false, true), C::Reject],
        tests: vec![T::Host(0), T::Not(Box::new(T::Fnc(0)))],
        max_branches: 2,
        with_else: true,
        max_depth: 2,
        ..Default::default()
    };
    suites.push(budgets(
        "dispositions",
        &format!("all programs of up to {} nodes over dispositions, header edits and conditionals × all host answers", 5 + d),
        Progs::lazy(&g, 1, 5 + d, super::c02::specified),
        Msg::simple(),
        Lib::default(),
    ));
    let g = Gram {
        leaves: vec![mark(), C::Keep(None), C::Stop, C::Discard],
        loop_leaves: vec![C::Break(None)],
        while_leaves: vec![C::Continue],
        tests: vec![T::Host(0)],
        max_branches: 1,
        whiles: true,
        fep: true,
        max_depth: 3,
        ..Default::default()
    };
    suites.push(budgets(
        "loops",
        &format!("all programs of up to {} nodes with while, foreverypart, break, continue, if × all host answers, ≤2 rounds", 5 + d),
        Progs::lazy(&g, 1, 5 + d, |_| true),
        Msg::tree(&[0, 0]),
        Lib::default(),
    ));
    let mut lib = Lib::default();
    let c = compiler();
    let inc = |n: &str| C::Include { name: n.into(), global: false, once: false, optional: false };
    let r: Result<(), Fail> = (|| {
        lib.add(&c, false, "a", &vec![mark(), mark()])?;
        lib.add(&c, false, "b", &vec![inc("a"), C::FileInto(false, None)])?;
        lib.add(&c, false, "r", &vec![mark(), inc("r")])?;
        lib.add(&c, false, "e", &vec![])
    })();
    r.expect("library");
    let g = Gram {
        leaves: vec![mark(), C::Keep(None), inc("a"), inc("b"), inc("r"), inc("e"), C::Include { name: "none".into(), global: false, once: false, optional: true }],
        tests: vec![T::Host(0)],
        max_branches: 1,
        fep: true,
        max_depth: 2,
        ..Default::default()
    };
    suites.push(budgets(
        "includes",
        &format!("all programs of up to {} nodes including four scripts (nested, recursive, empty)", 5 + d),
        Progs::lazy(&g, 1, 5 + d, |_| true),
        Msg::tree(&[0, 0]),
        lib,
    ));
    suites.push(endless(thorough));
    Property {
        id: "C04",
        level: "model_checking",
        technique: "explicit-state exploration: all small programs × all host answers × every instruction limit, against a reference interpreter that lists the admissible cut-off points",
        assumptions: vec!["the number of instructions a command is compiled to is not observable; the check requires at least one per executed command or question and at most two events per instruction".into()],
        suites,
    }
}
