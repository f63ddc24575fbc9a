use super::core::{compiler, runtime};
use crate::eng::*;
use crate::harness::*;
use sieve::{Context, Event, Input, Sieve};
use std::sync::Arc;

const REQS: &str = "require [\"variables\", \"date\", \"fileinto\", \"index\", \"relational\", \"extlists\", \"editheader\", \"mime\", \"foreverypart\"];\n";
const PARTS: [&str; 13] = ["year", "month", "day", "date", "julian", "hour", "minute", "second", "time", "iso8601", "std11", "zone", "weekday"];
const DOW: [&str; 7] = ["Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"];
const MON: [&str; 12] = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"];
const Y0: i64 = 1898;
/// Modified Julian Day of 1 January 1898
const MJD0: i64 = 14290;
/// day of the week of 1 January 1898 (a Saturday)
const DOW0: i64 = 6;

/// calendar table, built day by day
pub struct Cal(Vec<(i64, i64, i64)>);
impl Cal {
    pub fn new() -> Cal {
        let mut v = vec![];
        for y in Y0..=3002 {
            let leap = y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
            for m in 1..=12 {
                let n = match m {
                    2 => 28 + leap as i64,
                    4 | 6 | 9 | 11 => 30,
                    _ => 31,
                };
                for d in 1..=n {
                    v.push((y, m, d));
                }
            }
        }
        Cal(v)
    }
    /// number of the day
    pub fn day(&self, y: i64, m: i64, d: i64) -> Option<i64> {
        self.0.binary_search(&(y, m, d)).ok().map(|i| i as i64)
    }
    pub fn epoch(&self) -> i64 {
        self.day(1970, 1, 1).unwrap()
    }
}
/// broken down time in a zone: seconds since the first day of the table, in local time, and the offset in minutes
fn parts(cal: &Cal, local: i64, off: i64) -> Option<Vec<String>> {
    let day = local.div_euclid(86400);
    let (y, m, d) = *cal.0.get(day as usize)?;
    let s = local.rem_euclid(86400);
    let dow = (DOW0 + day).rem_euclid(7);
    Some(render(y, m, d, s / 3600, s / 60 % 60, s % 60, day + MJD0, dow, off < 0, off.abs() / 60, off.abs() % 60))
}
#[allow(clippy::too_many_arguments)]
fn render(y: i64, m: i64, d: i64, h: i64, mi: i64, s: i64, mjd: i64, dow: i64, neg: bool, oh: i64, om: i64) -> Vec<String> {
    let sign = if neg && (oh, om) != (0, 0) { '-' } else { '+' };
    let iso_zone = if (oh, om) == (0, 0) { "Z".to_string() } else { format!("{sign}{oh:02}:{om:02}") };
    vec![
        format!("{y:04}"),
        format!("{m:02}"),
        format!("{d:02}"),
        format!("{y:04}-{m:02}-{d:02}"),
        format!("{mjd}"),
        format!("{h:02}"),
        format!("{mi:02}"),
        format!("{s:02}"),
        format!("{h:02}:{mi:02}:{s:02}"),
        format!("{y:04}-{m:02}-{d:02}T{h:02}:{mi:02}:{s:02}{iso_zone}"),
        format!("{}, {d} {} {y:04} {h:02}:{mi:02}:{s:02} {sign}{oh:02}{om:02}", DOW[dow as usize], MON[m as usize - 1]),
        format!("{sign}{oh:02}{om:02}"),
        format!("{dow}"),
    ]
}
/// spelling variants that mean the same
fn canon(mut v: Vec<String>) -> Vec<String> {
    if v.len() == 13 {
        v[9] = v[9].replace("+00:00", "Z");
        v[10] = v[10].replace(", 0", ", ");
    }
    v
}
/// What the date routines of the mail parser give where they are wrong (see known_findings.txt): zone minutes
/// are the seconds modulo 256, instants before 1970 that are not at midnight are split with truncating division.
fn quirk(cal: &Cal, utc: i64, off: Option<i64>) -> Option<Vec<String>> {
    let t = utc - cal.epoch() * 86400 + off.unwrap_or(0) * 60;
    let (day, s) = (t / 86400, t % 86400);
    let (y, m, d) = *cal.0.get((day + cal.epoch()) as usize)?;
    let b = |x: i64| x as u8 as i64;
    let (h, mi, s) = (b(s / 3600), b(s / 60 % 60), b(s % 60));
    let o = off.unwrap_or(0);
    let (oh, om) = (o.abs() / 60, b(o.abs() * 60 % 3600));
    // the day of the week comes from the fields
    let local = (day + cal.epoch()) * 86400 + h * 3600 + mi * 60 + s;
    let dow = (DOW0 + local.div_euclid(86400)).rem_euclid(7);
    let mut r = render(y, m, d, h, mi, s, day + cal.epoch() + MJD0, dow, o < 0, oh, om);
    // no sign if nothing is left of the offset
    if (oh, om) == (0, 0) {
        r[11] = "+0000".into();
    }
    Some(r)
}
/// a script that files into the 13 parts
fn probe(test: &str, header: &str) -> String {
    let mut s = REQS.to_string();
    for p in PARTS {
        s.push_str(&format!("if {test} :matches {header} \"{p}\" \"*\" {{ set \"global.p{p}\" \"${{0}}\"; }} else {{ set \"global.p{p}\" \"none\"; }}\n"));
    }
    s + &format!("fileinto \"{}\";", PARTS.map(|p| format!("${{global.p{p}}}")).join("|"))
}
fn folder(o: &[Ob]) -> Option<&str> {
    match o {
        [Ob::Ev(Event::FileInto { folder, .. })] => Some(folder),
        _ => None,
    }
}
fn zone_text(off: i64) -> String {
    format!("{}{:02}{:02}", if off < 0 { '-' } else { '+' }, off.abs() / 60, off.abs() % 60)
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Mode {
    Default,
    Original,
    Zone(i64),
}
fn mode_args(m: Mode) -> String {
    match m {
        Mode::Default => "date".into(),
        Mode::Original => "date :originalzone".into(),
        Mode::Zone(z) => format!("date :zone \"{}\"", zone_text(z)),
    }
}
/// judges the 13 parts of a date given by its local fields and offset
fn judge(cal: &Cal, sc: &Arc<Sieve>, rt: &sieve::Runtime, m: Mode, day: i64, secs: i64, src: i64, cx: &mut Cx) -> Res {
    let (y, mo, d) = cal.0[day as usize];
    let local = day * 86400 + secs;
    let utc = local - src * 60;
    let msg = format!("Date: {}, {d} {} {y} {:02}:{:02}:{:02} {}\r\nSubject: x\r\n\r\n", DOW[(DOW0 + day).rem_euclid(7) as usize], MON[mo as usize - 1], secs / 3600, secs / 60 % 60, secs % 60, zone_text(src));
    cx.trace();
    cx.step(13);
    cx.state(&(local, src, format!("{m:?}")));
    let got = run_with(rt, sc, msg.as_bytes(), |_| (), yes);
    let g = canon(folder(&got).unwrap_or("").split('|').map(|x| x.to_string()).collect());
    cx.outcome(&g);
    let off = match m {
        Mode::Default => 0,
        Mode::Original => src,
        Mode::Zone(z) => z,
    };
    let Some(want) = parts(cal, utc + off * 60, off) else { return Ok(()) };
    if g == canon(want.clone()) {
        return Ok(());
    }
    let key = if m != Mode::Original && quirk(cal, utc, if let Mode::Zone(z) = m { Some(z) } else { None }).map(canon).as_ref() == Some(&g) {
        if utc < cal.epoch() * 86400 {
            "before-1970"
        } else {
            "zone-minutes"
        }
    } else {
        "date"
    };
    // zones of a header from 12 hours on lose 12 hours
    let key = if key == "date" && src.abs() >= 720 {
        let src = (src.abs() % 720) * src.signum();
        let utc = local - src * 60;
        let off = if m == Mode::Original { src } else { off };
        let right = parts(cal, utc + off * 60, off).map(canon);
        let wrong = if m == Mode::Original { None } else { quirk(cal, utc, if let Mode::Zone(z) = m { Some(z) } else { None }).map(canon) };
        if right.as_ref() == Some(&g) || wrong.as_ref() == Some(&g) {
            "zone-hours-modulo-12"
        } else {
            key
        }
    } else {
        key
    };
    Err(Fail::new(key, format!("{} of {msg:?}\nwant {want:?}\n    {}", mode_args(m), show_all(&got))))
}
/// every day
fn calendar(name: &str, from: i64, to: i64, times: Vec<i64>, srcs: Vec<i64>, modes: Vec<Mode>) -> Box<dyn Suite> {
    let cal = Cal::new();
    let (a, b) = (cal.day(from, 1, 1).unwrap(), cal.day(to, 12, 31).unwrap());
    let c = compiler();
    let scs: Vec<_> = modes.iter().map(|m| compile(&c, &probe(&mode_args(*m), "\"date\"")).unwrap()).collect();
    let rt = runtime();
    radix(
        name,
        &format!("every day from {from} to {to} at {} times in {} source zones, read in {modes:?}: all 13 parts", times.len(), srcs.len()),
        vec![(b - a + 1) as usize, times.len(), srcs.len(), modes.len()],
        move |v, cx| judge(&cal, &scs[v[3]], &rt, modes[v[3]], a + v[0] as i64, times[v[1]], srcs[v[2]], cx),
    )
}
/// every second of a day
fn seconds() -> Box<dyn Suite> {
    let cal = Cal::new();
    let c = compiler();
    let modes = [Mode::Default, Mode::Original, Mode::Zone(-570), Mode::Zone(840)];
    let scs: Vec<_> = modes.iter().map(|m| compile(&c, &probe(&mode_args(*m), "\"date\"")).unwrap()).collect();
    let rt = runtime();
    radix("seconds", "every second of 28 February 2000, source zone +0100, in four zones", vec![86400, modes.len()], move |v, cx| {
        let d = cal.day(2000, 2, 28).unwrap();
        judge(&cal, &scs[v[1]], &rt, modes[v[1]], d, v[0] as i64, 60, cx)
    })
}
/// every pair of zones
fn zones(step: i64) -> Box<dyn Suite> {
    let cal = Cal::new();
    let c = compiler();
    // source zones up to 23:59, those a script may name
    let srcs: Vec<i64> = (-1439..=1439).filter(|o| o % step == 0 || o.abs() == 1439).collect();
    let dsts: Vec<i64> = (-720..=840).collect();
    let scs: Vec<_> = dsts.iter().map(|z| compile(&c, &probe(&mode_args(Mode::Zone(*z)), "\"date\"")).unwrap()).collect();
    let orig = compile(&c, &probe(&mode_args(Mode::Original), "\"date\"")).unwrap();
    let rt = runtime();
    let inst = [(2019i64, 12i64, 31i64, 86399i64), (2020, 3, 1, 0)];
    radix(
        &format!("zones-{step}"),
        &format!("{} source zones x each of the {} zones a script can name and the original one, at two instants (end of a year, day after a leap day): all 13 parts", srcs.len(), dsts.len()),
        vec![srcs.len(), dsts.len() + 1, inst.len()],
        move |v, cx| {
            let (y, m, d, s) = inst[v[2]];
            let day = cal.day(y, m, d).unwrap();
            if v[1] == dsts.len() {
                judge(&cal, &orig, &rt, Mode::Original, day, s, srcs[v[0]], cx)
            } else {
                judge(&cal, &scs[v[1]], &rt, Mode::Zone(dsts[v[1]]), day, s, srcs[v[0]], cx)
            }
        },
    )
}
/// spellings of zones in scripts
fn zone_args() -> Box<dyn Suite> {
    let c = compiler();
    let rt = runtime();
    radix("zone-arguments", "every four-digit zone with either sign as argument of date and currentdate: accepted exactly from -1200 to +1400 (minutes below 60), and then in use", vec![2, 10000, 2], move |v, cx| {
        let (h, m) = (v[1] as i64 / 100, v[1] as i64 % 100);
        if m > 59 {
            return Ok(());
        }
        let sign = ["+", "-"][v[0]];
        let z = format!("{sign}{:04}", v[1]);
        cx.state(&v);
        cx.step(1);
        cx.trace();
        let t = if v[2] == 0 { format!("date :zone \"{z}\" \"date\"") } else { format!("currentdate :zone \"{z}\"") };
        let r = compile(&c, &format!("{REQS}if {t} :matches \"hour\" \"*\" {{ fileinto \"${{0}}\"; }}").replace(":matches \"hour\"", "\"hour\"").replace("if date", "if date :matches").replace("if currentdate", "if currentdate :matches"));
        let ok = if sign == "+" { h * 60 + m <= 840 } else { h * 60 + m <= 720 };
        cx.outcome(&(ok, r.is_ok()));
        match (ok, r) {
            (false, Err(Ob::CompileErr(_))) => Ok(()),
            (true, Ok(sc)) => {
                if v[2] == 1 {
                    return Ok(());
                }
                let o = run_with(&rt, &sc, b"Date: Wed, 1 Jan 2020 12:00:00 +0000\r\n\r\n", |_| (), yes);
                let off = (h * 60 + m) * if sign == "+" { 1 } else { -1 };
                let want = format!("{:02}", (12 * 60 + off).rem_euclid(1440) / 60);
                if folder(&o) == Some(&want) {
                    Ok(())
                } else {
                    Err(Fail::new("zone-argument", format!("{z}: want {want}\n    {}", show_all(&o))))
                }
            }
            (_, r) => Err(Fail::new("zone-argument", format!("{t}: {:?}", r.err()))),
        }
    })
}
/// which occurrences are looked at, and how the values are compared
fn occurrences(n: usize) -> Box<dyn Suite> {
    // fields of the message: name, text, day if valid
    let fields: &[(&str, &str, Option<&str>)] = &[
        ("Date", "Wed, 1 Jan 2020 10:00:00 +0000", Some("01")),
        ("date", "Thu, 2 Jan 2020 10:00:00 +0000", Some("02")),
        ("Date", "yesterday", None),
        ("Resent-Date", "Fri, 3 Jan 2020 10:00:00 +0000", Some("03")),
        ("X-When", "4 Jan 2020 23:30:00 -0100", Some("05")),
        ("X-When", "", None),
        ("X-When", "Sun, 12 Jan 2020\r\n 10:00:00 +0000 (comment 3 Feb 2021)", Some("12")),
        ("Subject", "Wed, 1 Jan 2020 10:00:00 +0000", Some("01")),
    ];
    let names = ["date", "X-WHEN", "subject"];
    let idx: Vec<(String, Option<i32>)> = std::iter::once((String::new(), None)).chain((1..=4).flat_map(|i| [(format!(":index {i}"), Some(i)), (format!(":index {i} :last"), Some(-i))])).collect();
    // match type, keys
    let tests: Vec<(String, Vec<&str>)> = vec![
        (":is".into(), vec!["01"]),
        (":is".into(), vec!["12", "02"]),
        (":contains".into(), vec!["0"]),
        (":contains".into(), vec!["2"]),
        (":matches".into(), vec!["?5"]),
        (":matches".into(), vec!["*2"]),
        (":value \"gt\" :comparator \"i;ascii-numeric\"".into(), vec!["2"]),
        (":value \"le\" :comparator \"i;ascii-numeric\"".into(), vec!["4"]),
        (":count \"eq\" :comparator \"i;ascii-numeric\"".into(), vec!["0"]),
        (":count \"ge\" :comparator \"i;ascii-numeric\"".into(), vec!["2"]),
        (":count \"eq\" :comparator \"i;ascii-numeric\"".into(), vec!["1"]),
        (":list".into(), vec!["tag:l"]),
    ];
    let c = compiler();
    let rt = runtime();
    let mut scs = vec![];
    for nm in names {
        for (ia, i) in &idx {
            for (t, k) in &tests {
                for not in [false, true] {
                    let keys = k.iter().map(|x| format!("\"{x}\"")).collect::<Vec<_>>().join(", ");
                    let src = format!("{REQS}if {}date {t} {ia} \"{nm}\" \"day\" [{keys}] {{ fileinto \"yes\"; }} else {{ fileinto \"no\"; }}", if not { "not " } else { "" });
                    scs.push((compile(&c, &src).unwrap_or_else(|o| panic!("{src} {}", show(&o))), nm, *i, t.clone(), k.clone(), not, src));
                }
            }
        }
    }
    radix(
        &format!("occurrences-{n}"),
        &format!("every message with up to {n} of {} fields x three header names x no index, :index 1 to 4 with and without :last x {} comparisons, plain and under not", fields.len(), tests.len()),
        vec![nwords(fields.len(), n) as usize, scs.len()],
        move |v, cx| {
            let w = word(fields.len(), v[0] as u64);
            let msg: String = w.iter().map(|&i| format!("{}: {}\r\n", fields[i].0, fields[i].1)).collect::<String>() + "A: b\r\n\r\nbody";
            let (sc, nm, idx, t, keys, not, src) = &scs[v[1]];
            let mut occ: Vec<Option<&str>> = w.iter().filter(|&&i| fields[i].0.eq_ignore_ascii_case(nm)).map(|&i| fields[i].2).collect();
            if let Some(i) = idx {
                let k = i.unsigned_abs() as usize - 1;
                let k = if *i < 0 { occ.len().checked_sub(k + 1) } else { Some(k) };
                occ = k.and_then(|k| occ.get(k).copied()).into_iter().collect();
            }
            let vals: Vec<&str> = occ.into_iter().flatten().collect();
            let num = |x: &str| x.parse::<i64>().unwrap();
            let mut asked = None;
            let yes_ = if t.starts_with(":list") {
                let mut u: Vec<String> = vec![];
                for x in &vals {
                    if !u.contains(&x.to_string()) {
                        u.push(x.to_string());
                    }
                }
                if !u.is_empty() {
                    asked = Some(u);
                }
                // the host knows 02 only
                vals.contains(&"02")
            } else if t.starts_with(":count") {
                let n = vals.len() as i64;
                keys.iter().any(|k| if t.contains("eq") { n == num(k) } else { n >= num(k) })
            } else {
                vals.iter().any(|x| {
                    keys.iter().any(|k| match t.split(' ').next().unwrap() {
                        ":is" => x == k,
                        ":contains" => x.contains(k),
                        ":matches" => x.ends_with(&k[1..]),
                        _ if t.contains("gt") => num(x) > num(k),
                        _ => num(x) <= num(k),
                    })
                })
            };
            let yes_ = yes_ ^ not;
            cx.state(&v);
            cx.step(1);
            cx.trace();
            let mut q = None;
            let o = run_with(
                &rt,
                sc,
                msg.as_bytes(),
                |_: &mut Context| (),
                |e| match e {
                    Event::ListContains { lists, values, .. } if lists == &["tag:l"] && q.is_none() => {
                        q = Some(values.clone());
                        Input::from(values.iter().any(|x| x == "02"))
                    }
                    _ => Input::True,
                },
            );
            let o: Vec<Ob> = o.into_iter().filter(|x| !matches!(x, Ob::Ev(Event::ListContains { .. }))).collect();
            cx.outcome(&(yes_, v[1]));
            if folder(&o) == Some(if yes_ { "yes" } else { "no" }) && q == asked {
                Ok(())
            } else {
                Err(Fail::new("occurrence", format!("{src}\n{msg:?}\nwant {yes_}, question {asked:?}, got question {q:?}\n    {}", show_all(&o))))
            }
        },
    )
}
/// fields without a valid date never match
fn invalid() -> Box<dyn Suite> {
    let days = ["0", "1", "29", "30", "31", "32", "99", "x", ""];
    let months = ["Jan", "feb", "APR", "Foo", "", "13"];
    let years = ["2020", "2021", "3001", "1899", "20", "x"];
    let times = ["00:00:00", "23:59:59", "24:00:00", "12:60:00", "12:00:61", "12:34", "noon", ""];
    let zs = ["+0000", "-0000", "+2359", "+2400", "+0060", "", "GMT"];
    let c = compiler();
    let rt = runtime();
    let sc = compile(&c, &probe("date :originalzone", "\"date\"")).unwrap();
    let cal = Cal::new();
    radix("ranges", "every combination of days, months, years, times and zones in and out of range, in the original zone: valid ones are reported, impossible ones never match", vec![days.len(), months.len(), years.len(), times.len(), zs.len()], move |v, cx| {
        let (d, mo, y, t, z) = (days[v[0]], months[v[1]], years[v[2]], times[v[3]], zs[v[4]]);
        // where leaving something out moves the rest, or two-digit years and missing seconds are obsolete forms, nothing is said
        let unspecified = d.is_empty() || mo.is_empty() || t.is_empty() || z.is_empty() || y.len() == 2 || t == "12:34" || z == "GMT" || [d, y].contains(&"x") || t == "noon" || mo == "13" || mo == "Foo";
        let msg = format!("Date: {d} {mo} {y} {t} {z}\r\n\r\n");
        cx.state(&v);
        cx.step(13);
        cx.trace();
        let o = run_with(&rt, &sc, msg.as_bytes(), |_| (), yes);
        let Some(f) = folder(&o) else { return Err(Fail::new("range", show_all(&o))) };
        cx.outcome(f);
        if unspecified {
            // all parts exist or none does
            return if f.split('|').all(|x| x == "none") || !f.split('|').any(|x| x == "none") { Ok(()) } else { Err(Fail::new("range", format!("{msg:?}\n    {}", show_all(&o)))) };
        }
        let m = MON.iter().position(|x| x.eq_ignore_ascii_case(mo)).map(|x| x as i64 + 1);
        let h: Vec<i64> = t.split(':').map(|x| x.parse().unwrap()).collect();
        let day = m.and_then(|m| cal.day(y.parse().unwrap(), m, d.parse().unwrap()));
        let zo: i64 = z[1..].parse().unwrap();
        // years the library takes
        let year = (1900..=3000).contains(&y.parse::<i64>().unwrap());
        let ok = day.is_some() && year && h[0] < 24 && h[1] < 60 && h[2] < 60 && zo % 100 < 60 && zo / 100 < 24;
        if !ok && (zo / 100 >= 24 || zo % 100 >= 60) {
            // the parser takes these modulo 12 and 60
            return Ok(());
        }
        if ok {
            if zo >= 1200 {
                // see suite zones
                return Ok(());
            }
            let want = parts(&cal, day.unwrap() * 86400 + h[0] * 3600 + h[1] * 60 + h[2], (zo / 100 * 60 + zo % 100) * if z.starts_with('-') { -1 } else { 1 }).unwrap();
            if canon(f.split('|').map(|x| x.to_string()).collect()) != canon(want.clone()) {
                return Err(Fail::new("range", format!("{msg:?}: want {want:?}\n    {}", show_all(&o))));
            }
        } else if f.split('|').any(|x| x != "none") {
            // a day its month does not have
            let d: i64 = d.parse().unwrap();
            let short = day.is_none() && (1..=31).contains(&d) && m.is_some() && year && h[0] < 24 && h[1] < 60 && h[2] < 60 && zo % 100 < 60 && zo / 100 < 24;
            return Err(Fail::new(if short { "day-beyond-the-month" } else { "range" }, format!("{msg:?} is no date\n    {}", show_all(&o))));
        }
        Ok(())
    })
}
/// the current time
fn current() -> Box<dyn Suite> {
    let cal = Cal::new();
    let c = compiler();
    let rt = runtime();
    radix("currentdate", "the current time in every zone a script can name and without one: all 13 parts", vec![1562, 3], move |v, cx| {
        let z = if v[0] == 1561 { None } else { Some(v[0] as i64 - 720) };
        let t = match z {
            None => "currentdate".to_string(),
            Some(z) => format!("currentdate :zone \"{}\"", zone_text(z)),
        };
        let sc = compile(&c, &probe(&t, "")).map_err(|o| Fail::new("current", format!("{t}: {}", show(&o))))?;
        let now = || std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs() as i64 + cal.epoch() * 86400;
        cx.trace();
        cx.step(13);
        cx.state(&v);
        let a = now();
        let o = run_with(&rt, &sc, b"A: b\r\n\r\n", |_| (), yes);
        let b = now();
        let g = canon(folder(&o).unwrap_or("").split('|').map(|x| x.to_string()).collect());
        cx.outcome(&g[11..].to_vec());
        let mut quirky = false;
        for t in a..=b {
            if canon(parts(&cal, t + z.unwrap_or(0) * 60, z.unwrap_or(0)).unwrap()) == g {
                return Ok(());
            }
            quirky |= quirk(&cal, t, z).map(canon).as_ref() == Some(&g);
        }
        Err(Fail::new(if quirky { "zone-minutes" } else { "current" }, format!("{t}\n    {}", show_all(&o))))
    })
}
/// dates the script adds, fields of parts
fn added() -> Box<dyn Suite> {
    let cal = Cal::new();
    let c = compiler();
    let rt = runtime();
    let (a, b) = (cal.day(2019, 1, 1).unwrap(), cal.day(2020, 12, 31).unwrap());
    radix("added", "every day of two years in a field the script adds itself (computed and constant), and in a field of a part", vec![(b - a + 1) as usize, 3], move |v, cx| {
        let day = a + v[0] as i64;
        let (y, m, d) = cal.0[day as usize];
        let text = format!("{d} {} {y} 05:06:07 +0100", MON[m as usize - 1]);
        let p = probe("date :originalzone", "\"x-d\"");
        let p = &p[REQS.len()..];
        let (src, msg) = match v[1] {
            0 => (format!("{REQS}addheader \"X-D\" \"{text}\";\n{p}"), "A: b\r\n\r\n".to_string()),
            1 => (format!("{REQS}set \"v\" \"{text}\"; addheader :last \"X-D\" \"${{v}}\";\n{p}"), "A: b\r\n\r\n".to_string()),
            _ => (format!("{REQS}foreverypart {{ if header :mime :contenttype \"content-type\" \"text/plain\" {{ {} }} }}", p.replace("date :originalzone", "date :mime :originalzone")), format!("Content-Type: multipart/mixed; boundary=b\r\nX-D: 1 Jan 1999 00:00:00 +0000\r\n\r\n--b\r\nContent-Type: text/plain\r\nX-D: {text}\r\n\r\nx\r\n--b--\r\n")),
        };
        cx.trace();
        cx.step(13);
        cx.state(&v);
        let sc = compile(&c, &src).map_err(|o| Fail::new("added", format!("{src}: {}", show(&o))))?;
        let o = run_with(&rt, &sc, msg.as_bytes(), |_| (), yes);
        let o: Vec<Ob> = o.into_iter().filter(|x| !matches!(x, Ob::Ev(Event::CreatedMessage { .. }))).collect();
        cx.outcome(&v[1]);
        let g = canon(folder(&o).unwrap_or("").split('|').map(|x| x.to_string()).collect());
        let want = parts(&cal, day * 86400 + 5 * 3600 + 6 * 60 + 7, 60).unwrap();
        if g == canon(want.clone()) {
            Ok(())
        } else {
            Err(Fail::new("added", format!("{src}\n{msg:?}\nwant {want:?}\n    {}", show_all(&o))))
        }
    })
}
pub fn property(thorough: bool) -> Property {
    use Mode::*;
    let mut suites = vec![
        seconds(),
        zones(if thorough { 15 } else { 60 }),
        zone_args(),
        occurrences(if thorough { 5 } else { 4 }),
        invalid(),
        current(),
        added(),
    ];
    if thorough {
        suites.insert(0, calendar("calendar", 1900, 3000, vec![0, 45296, 86399], vec![0, 840, -719], vec![Default, Original, Zone(120), Zone(-300)]));
    } else {
        suites.insert(0, calendar("calendar", 1900, 2106, vec![0, 86399], vec![0, -719], vec![Default, Original, Zone(120)]));
    }
    Property {
        id: "C24",
        level: "model_checking",
        technique: "exhaustive enumeration of days, seconds, zone pairs and occurrences on the real interpreter against a calendar table built day by day",
        assumptions: vec![
            "zones of header fields have less than 24 hours and 60 minutes".into(),
            "header dates have the form of RFC 5322 with a numeric zone and years from 1900 to 3000; a leap second is not a valid date for the library".into(),
            "Z and +00:00, and a day of the month with or without leading zero in std11, are the same".into(),
        ],
        suites,
    }
}
