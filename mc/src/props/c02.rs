use super::core::*;
use crate::harness::*;

pub fn leaves() -> Vec<C> {
    vec![
        C::Keep(None),
        C::Keep(Some(vec![s("\\Seen kf")])),
        C::FileInto(false, None),
        C::FileInto(true, None),
        C::Discard,
        C::Redirect(false, true),
        C::Redirect(true, true),
        C::Redirect(false, false),
        C::Redirect(true, false),
        C::Reject,
        C::AddHeader,
        C::Flag(FlagOp::Set, None, vec![s("f1")]),
        C::Error(s("boom")),
        C::Stop,
    ]
}
/// reject together with an explicit keep is not specified: skip such orders
pub fn specified(b: &B) -> bool {
    fn walk(b: &B, kept: &mut bool) -> bool {
        for c in b {
            match c {
                C::Keep(_) => *kept = true,
                C::Reject if *kept => return false,
                C::If(br, el) => {
                    for (_, b) in br {
                        if !walk(b, kept) {
                            return false;
                        }
                    }
                    if let Some(b) = el {
                        if !walk(b, kept) {
                            return false;
                        }
                    }
                }
                _ => (),
            }
        }
        true
    }
    walk(b, &mut false)
}

pub fn property(thorough: bool) -> Property {
    let mut suites: Vec<Box<dyn Suite>> = vec![];
    let n = if thorough { 6 } else { 5 };
    let g = Gram { leaves: leaves(), max_depth: 0, ..Default::default() };
    suites.push(prog_suite(
        "sequences",
        &format!("all sequences of up to {n} of: keep, keep :flags, fileinto, fileinto :copy, discard, redirect, redirect :copy, redirect to an unusable address and to the own one, reject, addheader, setflag, error, stop"),
        Progs::lazy(&g, 1, n, specified),
        Msg::simple(),
        Lib::default(),
        Opts { both_acks: true, ..Default::default() },
    ));
    let g = Gram {
        leaves: vec![C::Keep(None), C::FileInto(false, None), C::Discard, C::Redirect(false, true), C::Reject, C::AddHeader, C::Unknown, C::Stop],
        tests: vec![T::Host(0)],
        max_branches: 2,
        with_else: true,
        max_depth: 2,
        ..Default::default()
    };
    let n = if thorough { 6 } else { 5 };
    suites.push(prog_suite(
        "conditional",
        &format!("all programs of up to {n} nodes with actions inside if/elsif/else, × all host answers"),
        Progs::lazy(&g, 1, n, specified),
        Msg::simple(),
        Lib::default(),
        Opts::default(),
    ));
    // actions spread over included scripts
    let acts = vec![C::Keep(None), C::FileInto(false, None), C::Discard, C::Redirect(false, true), C::Reject, C::AddHeader, C::Stop, C::Return, C::Error(s("x"))];
    let mut lib = Lib::default();
    let c = compiler();
    for (i, a) in acts.iter().enumerate() {
        lib.add(&c, false, &format!("s{i}"), &vec![a.clone()]).unwrap();
    }
    let mut leaves = acts.clone();
    for i in 0..acts.len() {
        leaves.push(C::Include { name: format!("s{i}"), global: false, once: false, optional: false });
    }
    leaves.retain(|c| !matches!(c, C::Return));
    let n = if thorough { 4 } else { 3 };
    let inc_reject: Vec<String> = acts.iter().enumerate().filter(|(_, a)| matches!(a, C::Reject)).map(|(i, _)| format!("s{i}")).collect();
    let inc_keep: Vec<String> = acts.iter().enumerate().filter(|(_, a)| matches!(a, C::Keep(_))).map(|(i, _)| format!("s{i}")).collect();
    let g = Gram { leaves, max_depth: 0, ..Default::default() };
    suites.push(prog_suite(
        "via-include",
        &format!("all sequences of up to {n} actions, each either in the main script or in an included one"),
        g.blocks_upto(n)
            .into_iter()
            .filter(|b| {
                let mut kept = false;
                b.iter().all(|c| {
                    match c {
                        C::Keep(_) => kept = true,
                        C::Include { name, .. } if inc_keep.contains(name) => kept = true,
                        C::Reject => return !kept,
                        C::Include { name, .. } if inc_reject.contains(name) => return !kept,
                        _ => (),
                    }
                    true
                })
            })
            .collect::<Vec<_>>(),
        Msg::simple(),
        lib,
        Opts::default(),
    ));
    Property {
        id: "C02",
        level: "model_checking",
        technique: "explicit-state exploration of all action sequences against a disposition model, each run replayed on the real interpreter",
        assumptions: vec![
            "an explicit keep followed by reject in the same run is outside the property (RFC 5429 calls it an error)".into(),
            "a Discard event next to a delivery carries no information and is not compared".into(),
        ],
        suites,
    }
}
