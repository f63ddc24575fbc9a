use super::core::*;
use crate::harness::*;

/// all parent vectors of trees with n parts in document order (pre-order)
pub fn trees(n: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![0]];
    for _ in 1..n {
        let mut next = vec![];
        for t in &out {
            // the next part in pre-order hangs below the last part or one of its ancestors
            let mut p = t.len() - 1;
            loop {
                let mut x: Vec<usize> = t.clone();
                x.push(p);
                next.push(x);
                if p == 0 {
                    break;
                }
                p = t[p];
            }
        }
        out = next;
    }
    out
}

fn fep(b: &B) -> bool {
    any_cmd(b, &|c| matches!(c, C::ForEvery(..)))
}
fn whl(b: &B) -> bool {
    any_cmd(b, &|c| matches!(c, C::While(..)))
}
pub fn property(thorough: bool) -> Property {
    let mut suites: Vec<Box<dyn Suite>> = vec![];
    let mut tr = vec![];
    for n in 1..=(if thorough { 5 } else { 4 }) {
        tr.extend(trees(n));
    }
    let base = Gram {
        leaves: vec![C::MarkPart(0)],
        loop_leaves: vec![C::Break(None)],
        tests: vec![T::Host(0)],
        max_branches: 1,
        fep: true,
        max_depth: 4,
        ..Default::default()
    };
    for (i, t) in tr.iter().enumerate() {
        let small = t.len() <= 3;
        let n = if small { 7 } else { 6 } + thorough as usize;
        let b = Progs::lazy(&base, 1, n, fep);
        suites.push(prog_suite(
            &format!("foreverypart-tree{i}"),
            &format!("all programs of up to {n} nodes of marks/foreverypart/if/break on the MIME tree with parents {t:?} × all host answers"),
            b,
            Msg::tree(t),
            Lib::default(),
            Opts::default(),
        ));
    }
    let g = Gram { leaves: vec![C::MarkPart(0), C::Stop, C::Return], named: true, ..base.clone() };
    let n = if thorough { 7 } else { 6 };
    suites.push(prog_suite(
        "named-breaks",
        &format!("all programs of up to {n} nodes with named foreverypart, break :name, return, stop on a 4-part tree"),
        Progs::lazy(&g, 1, n, fep),
        Msg::tree(&[0, 0, 1, 1]),
        Lib::default(),
        Opts::default(),
    ));
    let g = Gram {
        leaves: vec![mark()],
        loop_leaves: vec![C::Break(None)],
        while_leaves: vec![C::Continue],
        tests: vec![T::Host(0)],
        max_branches: 1,
        whiles: true,
        max_depth: 4,
        ..Default::default()
    };
    let n = if thorough { 8 } else { 7 };
    suites.push(prog_suite(
        "while",
        &format!("all programs of up to {n} nodes of marks/while/if/break/continue, ≤3 rounds in total × all host answers"),
        Progs::lazy(&g, 1, n, whl),
        Msg::simple(),
        Lib::default(),
        Opts { fuel: 3, ..Default::default() },
    ));
    let g = Gram {
        leaves: vec![C::MarkPart(0)],
        loop_leaves: vec![C::Break(None)],
        while_leaves: vec![C::Continue],
        tests: vec![T::Host(0)],
        max_branches: 1,
        whiles: true,
        fep: true,
        max_depth: 4,
        ..Default::default()
    };
    let n = if thorough { 7 } else { 6 };
    suites.push(prog_suite(
        "mixed",
        &format!("all programs of up to {n} nodes mixing foreverypart and while on a 3-part tree, ≤2 rounds of while"),
        Progs::lazy(&g, 1, n, |b| whl(b) && fep(b)),
        Msg::tree(&[0, 0, 1]),
        Lib::default(),
        Opts { fuel: 2, ..Default::default() },
    ));
    // variables declared inside loop bodies, left in every way
    let set = |n: &str, v: &str| C::Set { name: n.into(), val: s(v), local: false };
    let g = Gram {
        leaves: vec![C::Mark(0, s("[${x}|${y}]")), set("x", "${x}a"), set("y", "b${y}${x}"), set("x", "=7"), C::Flag(FlagOp::Add, Some("x".into()), vec![s("f")])],
        loop_leaves: vec![C::Break(None)],
        while_leaves: vec![C::Continue],
        tests: vec![T::Host(0)],
        max_branches: 1,
        whiles: true,
        fep: true,
        max_depth: 3,
        ..Default::default()
    };
    let n = if thorough { 7 } else { 6 };
    suites.push(prog_suite(
        "variables",
        &format!("all programs of up to {n} nodes of set/let/addflag/observe/if/loops with break and continue: variables of a body are empty in every round and after it"),
        Progs::lazy(&g, 1, n, |b| {
            any_cmd(b, &|c| matches!(c, C::Mark(..))) && any_cmd(b, &|c| matches!(c, C::Set { .. } | C::Flag(..))) && any_cmd(b, &|c| matches!(c, C::Break(_) | C::Continue))
        }),
        Msg::tree(&[0, 0]),
        Lib::default(),
        Opts { fuel: 2, ..Default::default() },
    ));
    Property {
        id: "C06",
        level: "model_checking",
        technique: "explicit-state exploration of all small loop programs × MIME trees × host answers, each run replayed on the real interpreter",
        assumptions: vec!["foreverypart visits the root part itself in an outermost loop (documented behaviour of this implementation)".into()],
        suites,
    }
}
