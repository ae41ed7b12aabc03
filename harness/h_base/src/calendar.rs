//! C17: the calendar against chrono and against day-by-day definitions.
use chrono::{DateTime, Datelike, Months, NaiveDate, TimeZone, Timelike, Utc};
use logicaffeine_base::temporal::*;
use vcore::*;

const DAY: i64 = 86_400_000_000_000;
const SEC: i64 = 1_000_000_000;

fn leap(y: i64) -> bool {
    y.rem_euclid(4) == 0 && (y.rem_euclid(100) != 0 || y.rem_euclid(400) == 0)
}
fn mdays(y: i64, m: u32, l: bool) -> u32 {
    let _ = y;
    match m {
        2 => if l { 29 } else { 28 },
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}
fn cd(z: i64) -> Option<NaiveDate> {
    NaiveDate::from_num_days_from_ce_opt(i32::try_from(z + 719_163).ok()?)
}

fn gen_day(s: &mut Src) -> i64 {
    match s.below(6) {
        0 => s.int(-1000, 40_000),
        1 => s.int(-800_000, 800_000),
        2 => s.int(-95_000_000, 95_000_000),
        // around month/year/century/era edges
        3 => {
            let y = *s.pick(&[0i64, 1, -1, 4, 100, 400, 1600, 1700, 1900, 2000, 2100, 2400, -4, -100, -400, 1970, 1969, 1582]) + 400 * s.int(-30, 30);
            let m = s.int(1, 12) as u32;
            days_from_civil(y, m, 1) + s.int(-3, 3)
        }
        4 => days_from_civil(s.int(-5000, 5000), *s.pick(&[1u32, 2, 3, 12]), *s.pick(&[1u32, 28])) + s.int(-4, 4),
        _ => s.int(-1_000_000_000_000, 1_000_000_000_000),
    }
}
fn gen_ns(s: &mut Src) -> i64 {
    match s.below(6) {
        0 => s.int(0, 2_000_000_000) * SEC + s.int(0, SEC - 1),
        1 => s.u64() as i64,
        2 => s.int(-100_000, 100_000) * DAY + s.int(-3, 3),
        3 => s.int(-3, 3),
        // years 1960..2040 at any second
        4 => s.int(-315_619_200, 2_240_611_200) * SEC,
        // month and year edges in 1700..2250
        _ => {
            let z = days_from_civil(s.int(1700, 2250), *s.pick(&[1u32, 2, 3, 12, 7]), *s.pick(&[1u32, 28]));
            (z + s.int(-3, 3)) * DAY + *s.pick(&[0i64, -1, 1, DAY - 1, DAY / 2])
        }
    }
}

fn civil(s: &mut Src, c: &mut Ctx) -> R {
    let z = gen_day(s);
    let (y, m, d) = civil_from_days(z);
    c.show(format!("day {z} = {y}-{m}-{d}"));
    c.nontrivial(z.abs() > 366);
    ensure!((1..=12).contains(&m) && d >= 1 && d <= mdays(y, m, leap(y)), "day {z} gives {y}-{m}-{d}");
    ensure_eq!(days_from_civil(y, m, d), z, "days_from_civil({y},{m},{d})");
    // the next day is the calendar successor
    let next = if d < mdays(y, m, leap(y)) { (y, m, d + 1) } else if m < 12 { (y, m + 1, 1) } else { (y + 1, 1, 1) };
    ensure_eq!(civil_from_days(z + 1), next, "day after {y}-{m}-{d}");
    ensure_eq!(is_gregorian_leap(y), leap(y), "leap({y})");
    for mm in 1..=12 {
        ensure_eq!(last_day_of_month(y, mm), mdays(y, mm, leap(y)), "last day of {y}-{mm}");
    }
    ensure_eq!(weekday_from_days(z) as i64, (z + 4).rem_euclid(7), "weekday of day {z}");
    ensure_eq!(iso_weekday_from_days(z), if weekday_from_days(z) == 0 { 7 } else { weekday_from_days(z) }, "iso weekday");
    ensure_eq!(is_weekend(z), matches!(iso_weekday_from_days(z), 6 | 7), "weekend");
    let doy: u32 = (1..m).map(|k| mdays(y, k, leap(y))).sum::<u32>() + d;
    ensure_eq!(day_of_year(y, m, d), doy, "day of year {y}-{m}-{d}");
    // ISO week: stays within a year's 52/53 weeks, inverse, advances on Mondays only
    let (iy, w, wd) = iso_week_from_days(z);
    ensure_eq!(days_from_iso_week(iy, w, wd), z, "iso week inverse");
    ensure_eq!(wd, iso_weekday_from_days(z), "iso week weekday");
    let (iy2, w2, _) = iso_week_from_days(z + 1);
    if wd != 7 {
        ensure!((iy, w) == (iy2, w2), "iso week changed mid-week at {z}");
    } else {
        ensure!((iy2 == iy && w2 == w + 1) || (iy2 == iy + 1 && w2 == 1 && w >= 52), "iso week {iy}-W{w} followed by {iy2}-W{w2}");
    }
    // the ISO year is the year of that week's Thursday
    ensure_eq!(iy, civil_from_days(z + 4 - wd as i64).0, "iso year");
    if let Some(n) = cd(z) {
        ensure_eq!((y, m, d), (n.year() as i64, n.month(), n.day()), "chrono civil of {z}");
        let iw = n.iso_week();
        ensure_eq!((iy, w), (iw.year() as i64, iw.week()), "chrono iso week of {z}");
        ensure_eq!(weekday_from_days(z), n.weekday().num_days_from_sunday(), "chrono weekday");
        ensure_eq!(day_of_year(y, m, d), n.ordinal(), "chrono ordinal");
    }
    // nth weekday of the month
    let (wk, wdn) = (s.int(1, 5) as u32, s.below(7) as u32);
    let got = nth_weekday_of_month(y, m, wk, wdn);
    let all: Vec<u32> = (1..=mdays(y, m, leap(y))).filter(|k| weekday_from_days(days_from_civil(y, m, *k)) == wdn).collect();
    let want = all.get(wk as usize - 1).copied().unwrap_or(*all.last().unwrap());
    ensure_eq!(got, want, "nth weekday {wk} {wdn} of {y}-{m}");
    Ok(())
}

fn julian(s: &mut Src, c: &mut Ctx) -> R {
    let z = match s.below(3) {
        0 => s.int(-2_400_000, 5_000_000),
        1 => days_from_civil(1582, 10, 15) + s.int(-400, 400),
        _ => {
            let y = s.int(-4700, 12_000);
            days_from_julian(y, *s.pick(&[1u32, 2, 3, 12]), 1) + s.int(-3, 3)
        }
    };
    if z < days_from_julian(-4799, 3, 2) {
        return Ok(());
    }
    let (y, m, d) = julian_from_days(z);
    let lp = y.rem_euclid(4) == 0;
    c.show(format!("day {z} = julian {y}-{m}-{d}"));
    c.nontrivial(true);
    ensure!((1..=12).contains(&m) && d >= 1 && d <= mdays(y, m, lp), "julian {y}-{m}-{d}");
    ensure_eq!(days_from_julian(y, m, d), z, "julian inverse");
    ensure_eq!(is_julian_leap(y), lp, "julian leap");
    let next = if d < mdays(y, m, lp) { (y, m, d + 1) } else if m < 12 { (y, m + 1, 1) } else { (y + 1, 1, 1) };
    ensure_eq!(julian_from_days(z + 1), next, "julian successor");
    ensure_eq!(julian_from_jdn(z + UNIX_EPOCH_JDN), (y, m, d), "jdn");
    ensure_eq!(jdn_from_julian(y, m, d), z + UNIX_EPOCH_JDN, "jdn");
    // the reform: 1582-10-05 julian is 1582-10-15 gregorian
    ensure_eq!(days_from_julian(1582, 10, 5), days_from_civil(1582, 10, 15), "reform anchor");
    Ok(())
}

fn instants(s: &mut Src, c: &mut Ctx) -> R {
    let ns = gen_ns(s);
    c.show(format!("instant {ns}"));
    c.nontrivial(ns.rem_euclid(DAY) != 0);
    let dt: DateTime<Utc> = Utc.timestamp_nanos(ns);
    let f = civil_from_unix_nanos(ns);
    ensure_eq!(
        (f.year, f.month, f.day, f.hour, f.minute, f.second, f.nanosecond),
        (dt.year() as i64, dt.month(), dt.day(), dt.hour(), dt.minute(), dt.second(), dt.nanosecond()),
        "fields of {ns}"
    );
    // the first representable day is cut off below midnight, so its midnight is out of range
    if ns > i64::MIN + DAY {
        ensure_eq!(unix_nanos_from_civil(f), ns, "inverse of {ns}");
        let t = format_rfc3339(ns);
        ensure_eq!(parse_rfc3339(&t), Some(ns), "print/parse {t}");
        let ch = DateTime::parse_from_rfc3339(&t).map_err(|e| Fail { msg: format!("{t} is not RFC 3339: {e}") })?;
        ensure_eq!(ch.timestamp_nanos_opt(), Some(ns), "{t} read by another parser");
    }
    let tod = ns.rem_euclid(DAY);
    let t = format_time_of_day(ns);
    let want = {
        let sec = tod / SEC;
        let mut w = format!("{:02}:{:02}:{:02}", sec / 3600, sec / 60 % 60, sec % 60);
        if tod % SEC != 0 {
            w += &format!(".{:09}", tod % SEC);
            w = w.trim_end_matches('0').to_string();
        }
        w
    };
    ensure_eq!(t, want, "time of day of {ns}");
    Ok(())
}

fn rfc3339(s: &mut Src, c: &mut Ctx) -> R {
    // A timestamp with an offset and a fraction, possibly corrupted.
    let y = match s.below(4) {
        0 => s.int(0, 9999),
        _ => s.int(1700, 2250),
    };
    let mo = s.int(1, 13);
    let d = s.int(1, 32);
    let (hh, mi, se) = (s.int(0, 24), s.int(0, 60), s.int(0, 60));
    let nf = s.usize(0, 12);
    let frac: String = if nf == 0 { String::new() } else { format!(".{}", (0..nf).map(|_| (b'0' + s.below(10) as u8) as char).collect::<String>()) };
    let zone = if s.flip() { "Z".to_string() } else { format!("{}{:02}:{:02}", s.pick(&['+', '-']), s.int(0, 24), s.int(0, 60)) };
    let mut t = format!("{y:04}-{mo:02}-{d:02}T{hh:02}:{mi:02}:{se:02}{frac}{zone}");
    let corrupt = s.chance(1, 4);
    if corrupt {
        let mut v: Vec<char> = t.chars().collect();
        match s.below(3) {
            0 => {
                let i = s.usize(0, v.len() - 1);
                v.remove(i);
            }
            1 => {
                let i = s.usize(0, v.len());
                v.insert(i, *s.pick(&['0', 'Z', '+', '-', ' ', 'x', '٣', '.', ':']));
            }
            _ => {
                let i = s.usize(0, v.len() - 1);
                v[i] = *s.pick(&['a', '9', 'T', 't', ':', 'é', '-', '.']);
            }
        }
        t = v.into_iter().collect();
    }
    c.show(t.clone());
    let got = guarded(|| parse_rfc3339(&t)).map_err(|m| Fail { msg: format!("parse_rfc3339({t:?}) {m}") })?;
    let ch = DateTime::parse_from_rfc3339(&t).ok();
    let se60 = t.get(17..19) == Some("60");
    match (got, ch) {
        (Some(g), Some(r)) => {
            c.nontrivial(true);
            ensure!(r.timestamp_nanos_opt() == Some(g), "{t} reads as {g}, should be {:?}", r.timestamp_nanos_opt());
        }
        (Some(g), None) => return fail(format!("{t:?} is malformed but reads as {g}")),
        // refused although well formed: only the leap-second reading, lower-case letters, a date/time
        // separator other than T, or an instant outside the representable range
        (None, Some(r)) => {
            let canonical = t.as_bytes()[10] == b'T' && t.is_ascii() && (t.ends_with('Z') || t.as_bytes()[t.len() - 3] == b':');
            let in_range = r.naive_utc().and_utc().timestamp_nanos_opt().map_or(false, |v| v > i64::MIN + 2 * DAY && v < i64::MAX - 2 * DAY);
            ensure!(se60 || !canonical || !in_range, "{t} refused");
        }
        (None, None) => {}
    }
    Ok(())
}

fn spans(s: &mut Src, c: &mut Ctx) -> R {
    let a = s.int(-8_000_000_000, 8_000_000_000) * SEC + s.int(0, SEC - 1);
    let dt = civil_from_unix_nanos(a);
    let months = match s.below(3) { 0 => s.int(-30, 30), 1 => s.int(-3000, 3000), _ => 12 * s.int(-100, 100) };
    let days = if s.flip() { 0 } else { s.int(-5000, 5000) };
    c.show(format!("{} + {months} months {days} days", format_rfc3339(a)));
    c.nontrivial(months != 0);
    let r = add_span(dt, months, days);
    let n = NaiveDate::from_ymd_opt(dt.year as i32, dt.month, dt.day).unwrap();
    let w = if months >= 0 { n.checked_add_months(Months::new(months as u32)) } else { n.checked_sub_months(Months::new((-months) as u32)) }.unwrap() + chrono::Duration::days(days);
    ensure_eq!((r.year, r.month, r.day), (w.year() as i64, w.month(), w.day()), "add_span");
    ensure_eq!((r.hour, r.minute, r.second, r.nanosecond), (dt.hour, dt.minute, dt.second, dt.nanosecond), "time of day kept");
    // complete months: a + k <= b < a + k+1 (mirrored when b precedes a)
    let b = match s.below(3) {
        0 => {
            // on, just before, just after a month boundary
            let e = add_span(dt, s.int(-100, 100), 0);
            unix_nanos_from_civil(e) + *s.pick(&[0i64, -1, 1, -SEC, SEC, -3600 * SEC])
        }
        1 => a + s.int(-1000, 1000) * DAY,
        _ => s.int(-8_000_000_000, 8_000_000_000) * SEC,
    };
    if b.abs_diff(a) > (i64::MAX as u64) / 2 * 2 {
        return Ok(());
    }
    let (lo, hi, sg) = if b >= a { (a, b, 1) } else { (b, a, -1) };
    let (lc, _) = (civil_from_unix_nanos(lo), ());
    let mut k = 0i64;
    let plus = |k: i64| -> i64 {
        let n = NaiveDate::from_ymd_opt(lc.year as i32, lc.month, lc.day).unwrap().checked_add_months(Months::new(k as u32)).unwrap();
        (n.num_days_from_ce() as i64 - 719_163) * DAY + lo.rem_euclid(DAY)
    };
    let guess = ((hi - lo) / (31 * DAY) - 1).max(0);
    k = k.max(guess);
    while plus(k + 1) <= hi {
        k += 1;
    }
    ensure_eq!(months_between(a, b), sg * k, "months between {} and {}", format_rfc3339(a), format_rfc3339(b));
    ensure_eq!(years_between(a, b), sg * (k / 12), "years between {} and {}", format_rfc3339(a), format_rfc3339(b));
    Ok(())
}

fn business(s: &mut Src, c: &mut Ctx) -> R {
    let z = s.int(-20_000, 40_000);
    let n = s.int(-40, 40);
    c.show(format!("day {z} {n} business days"));
    c.nontrivial(n != 0);
    let wk = |d: i64| matches!((d + 4).rem_euclid(7), 0 | 6);
    let mut d = z;
    let mut left = n.abs();
    while left > 0 {
        d += n.signum();
        if !wk(d) {
            left -= 1;
        }
    }
    ensure_eq!(add_business_days(z, n), d, "add_business_days");
    let b = z + s.int(-300, 300);
    let (lo, hi) = (z.min(b), z.max(b));
    let cnt = (lo..hi).filter(|d| !wk(*d)).count() as i64;
    ensure_eq!(business_days_between(z, b), if b >= z { cnt } else { -cnt }, "business days between {z} and {b}");
    Ok(())
}

fn duration(s: &mut Src, c: &mut Ctx) -> R {
    let ns = if s.flip() { s.i64_edge() } else { s.i64_edge().wrapping_mul(*s.pick(&[1_000, 1_000_000, SEC, 60 * SEC, 3600 * SEC, DAY])) };
    let t = format_duration(ns);
    c.show(format!("{ns} ns = {t}"));
    c.nontrivial(ns.unsigned_abs() > 1000);
    ensure_eq!(parse_duration(&t), Some(ns), "print/parse of {t}");
    // composed text
    let units: [(&str, i128); 8] = [("d", DAY as i128), ("h", 3600 * SEC as i128), ("m", 60 * SEC as i128), ("s", SEC as i128), ("ms", 1_000_000), ("us", 1000), ("µs", 1000), ("ns", 1)];
    let k = s.usize(1, 5);
    let mut text = String::new();
    let neg = s.flip();
    if neg {
        text.push('-');
    }
    let mut total: i128 = 0;
    for _ in 0..k {
        let (u, f) = *s.pick(&units);
        let v = if s.chance(1, 8) { s.below(u64::MAX) } else { s.below(100_000) };
        text += &v.to_string();
        total += v as i128 * f;
        if s.chance(1, 3) {
            let cap = if s.chance(1, 10) { 60 } else { 12 };
            let nd = s.usize(1, cap);
            let ds: String = (0..nd).map(|_| (b'0' + s.below(10) as u8) as char).collect();
            text.push('.');
            text += &ds;
            // exact fraction of the unit, truncated to nanoseconds
            use num_bigint::BigInt as NB;
            use num_traits::ToPrimitive;
            let num: NB = ds.parse().unwrap();
            let q: NB = num * NB::from(f) / num_traits::Pow::pow(NB::from(10), nd);
            total += q.to_i128().unwrap();
        }
        text += u;
    }
    let want = i64::try_from(if neg { -total } else { total }).ok();
    let got = guarded(|| parse_duration(&text)).map_err(|m| Fail { msg: format!("parse_duration({text:?}) {m}") })?;
    ensure!(got == want || (got.is_none() && text.split(|ch: char| !ch.is_ascii_digit()).any(|p| p.len() >= 24)), "parse_duration({text:?}) = {got:?}, want {want:?}");
    // corrupt: must not panic, and a bare number or unknown unit is refused
    let mut bad = text.clone();
    bad.push_str(*s.pick(&["3", "x", "5y", ".", "1.", "é", "-"]));
    let r = guarded(|| parse_duration(&bad)).map_err(|m| Fail { msg: format!("parse_duration({bad:?}) {m}") })?;
    ensure!(r.is_none(), "parse_duration({bad:?}) accepted as {r:?}");
    Ok(())
}

/// (name, standard offset, rule) with rule: 0 none, 1 US, 2 EU, 3 Sydney.
const ZONES: &[(&str, i64, u8)] = &[
    ("UTC", 0, 0), ("Etc/UTC", 0, 0), ("Zulu", 0, 0),
    ("America/New_York", -5, 1), ("America/Chicago", -6, 1), ("America/Denver", -7, 1), ("America/Los_Angeles", -8, 1), ("America/Phoenix", -7, 0),
    ("Europe/London", 0, 2), ("Europe/Dublin", 0, 2), ("Europe/Lisbon", 0, 2),
    ("Europe/Paris", 1, 2), ("Europe/Berlin", 1, 2), ("Europe/Madrid", 1, 2), ("Europe/Rome", 1, 2), ("Europe/Amsterdam", 1, 2),
    ("Asia/Kolkata", 100, 0), ("Asia/Calcutta", 100, 0), ("Asia/Tokyo", 9, 0), ("Asia/Shanghai", 8, 0), ("Australia/Sydney", 10, 3),
];
fn std_off(h: i64) -> i64 {
    if h == 100 { 5 * 3600 + 1800 } else { h * 3600 }
}
fn nth(y: i32, m: u32, nth: i32) -> i64 {
    // nth Sunday (or last if -1) as days since epoch
    let mut v = Vec::new();
    for d in 1..=31 {
        if let Some(n) = NaiveDate::from_ymd_opt(y, m, d) {
            if n.weekday() == chrono::Weekday::Sun {
                v.push(n.num_days_from_ce() as i64 - 719_163);
            }
        }
    }
    if nth < 0 { *v.last().unwrap() } else { v[nth as usize - 1] }
}
/// Is summer time in force at this UTC second?
fn dst(rule: u8, std: i64, sec: i64) -> bool {
    let y = Utc.timestamp_opt(sec, 0).unwrap().year();
    match rule {
        1 => {
            let a = nth(y, 3, 2) * 86400 + 7200 - std;
            let b = nth(y, 11, 1) * 86400 + 7200 - (std + 3600);
            a <= sec && sec < b
        }
        2 => {
            let a = nth(y, 3, -1) * 86400 + 3600;
            let b = nth(y, 10, -1) * 86400 + 3600;
            a <= sec && sec < b
        }
        3 => {
            // April end and October start both lie well inside the UTC year
            let end = nth(y, 4, 1) * 86400 + 3 * 3600 - (std + 3600);
            let start = nth(y, 10, 1) * 86400 + 2 * 3600 - std;
            sec < end || sec >= start
        }
        _ => false,
    }
}

fn zones(s: &mut Src, c: &mut Ctx) -> R {
    let (name, sh, rule) = *s.pick(ZONES);
    let std = std_off(sh);
    let y = s.int(1750, 2200);
    let ns = match s.below(3) {
        // near a changeover
        0 if rule != 0 => {
            let y = y as i32;
            let base = match (rule, s.flip()) {
                (1, true) => nth(y, 3, 2) * 86400 + 7200 - std,
                (1, false) => nth(y, 11, 1) * 86400 + 3600 - std,
                (2, true) => nth(y, 3, -1) * 86400 + 3600,
                (2, false) => nth(y, 10, -1) * 86400 + 3600,
                (_, true) => nth(y, 4, 1) * 86400 + 2 * 3600 - std,
                (_, false) => nth(y, 10, 1) * 86400 + 2 * 3600 - std,
            };
            (base + s.int(-2 * 3600, 2 * 3600)) * SEC + *s.pick(&[0i64, 1, -1])
        }
        // near new year, where the UTC and local years differ
        1 => days_from_civil(y, 1, 1) * DAY + s.int(-14 * 3600, 14 * 3600) * SEC,
        _ => s.int(-6_900_000_000, 7_200_000_000) * SEC + s.int(0, SEC - 1),
    };
    let sec = ns.div_euclid(SEC);
    let summer = dst(rule, std, sec);
    let off = std + if summer { 3600 } else { 0 };
    c.show(format!("{} in {name}", format_rfc3339(ns)));
    c.nontrivial(rule != 0);
    c.class(if summer { "summer" } else { "standard" });
    let z = match zone_by_name(name) {
        Some(z) => z,
        None => return fail(format!("zone {name} unknown")),
    };
    let local = z.to_local(ns);
    ensure_eq!(local, civil_from_unix_nanos(ns + off * SEC), "local time of {} in {name}", format_rfc3339(ns));
    ensure_eq!(local_instant_nanos(ns, name), Some(ns + off * SEC), "local instant");
    let want = format!(
        "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}{}{:02}:{:02}",
        local.year, local.month, local.day, local.hour, local.minute, local.second,
        if off < 0 { '-' } else { '+' }, off.abs() / 3600, off.abs() % 3600 / 60
    );
    ensure_eq!(format_zoned(ns, name), Some(want), "format_zoned {} {name}", format_rfc3339(ns));
    // back again through the transition table
    let uy = civil_from_unix_nanos(ns).year;
    let tz = z.transitions(uy - 2, uy + 2);
    ensure!(tz.windows(2).all(|w| w[0].at_unix_seconds < w[1].at_unix_seconds), "transitions unsorted");
    ensure_eq!(offset_at(&tz, z.std_offset, ns) as i64, off, "offset_at");
    let e = from_local(&tz, z.std_offset, local, Fold::Earlier);
    let l = from_local(&tz, z.std_offset, local, Fold::Later);
    ensure!(e == ns || l == ns, "local time of {} in {name} does not map back ({e}, {l})", format_rfc3339(ns));
    let twin = |d: i64| -> bool { let o2 = std + if dst(rule, std, (ns + d).div_euclid(SEC)) { 3600 } else { 0 }; ns + d + o2 * SEC == ns + off * SEC };
    let ambiguous = twin(3600 * SEC) || twin(-3600 * SEC);
    if ambiguous {
        c.class("ambiguous");
        ensure!(e + 3600 * SEC == l, "ambiguous local time should have two readings an hour apart");
    } else {
        ensure!(e == l, "unambiguous local time has two readings {e} {l}");
    }
    // a local time in the spring gap never occurs: both readings surround it
    if rule != 0 && s.chance(1, 4) {
        let y = s.int(1800, 2190) as i32;
        let at = match rule { 1 => nth(y, 3, 2) * 86400 + 7200, 2 => nth(y, 3, -1) * 86400 + 3600 + std, _ => nth(y, 10, 1) * 86400 + 7200 };
        let lt = civil_from_unix_nanos((at + s.int(0, 3599)) * SEC);
        let tz = z.transitions(y as i64 - 2, y as i64 + 2);
        let e = from_local(&tz, z.std_offset, lt, Fold::Earlier);
        let l = from_local(&tz, z.std_offset, lt, Fold::Later);
        ensure!(l - e == 3600 * SEC, "gap readings {e} {l}");
        let sw = (at - std) * SEC;
        ensure!(e < sw && l >= sw, "gap readings {e} {l} do not straddle the change at {sw}");
    }
    Ok(())
}

const LEAPS: &[(i32, u32, i64)] = &[
    (1972, 1, 10), (1972, 7, 11), (1973, 1, 12), (1974, 1, 13), (1975, 1, 14), (1976, 1, 15), (1977, 1, 16), (1978, 1, 17), (1979, 1, 18), (1980, 1, 19),
    (1981, 7, 20), (1982, 7, 21), (1983, 7, 22), (1985, 7, 23), (1988, 1, 24), (1990, 1, 25), (1991, 1, 26), (1992, 7, 27), (1993, 7, 28), (1994, 7, 29),
    (1996, 1, 30), (1997, 7, 31), (1999, 1, 32), (2006, 1, 33), (2009, 1, 34), (2012, 7, 35), (2015, 7, 36), (2017, 1, 37),
];

fn scales(s: &mut Src, c: &mut Ctx) -> R {
    let sec = if s.flip() {
        let (y, m, _) = *s.pick(LEAPS);
        Utc.with_ymd_and_hms(y, m, 1, 0, 0, 0).unwrap().timestamp() + s.int(-50, 50)
    } else {
        s.int(-2_000_000_000, 4_000_000_000)
    };
    let frac = s.int(0, SEC - 1);
    let ns = sec * SEC + frac;
    c.show(format!("unix {sec}.{frac:09}"));
    c.nontrivial(sec > 63_072_000);
    let want = LEAPS.iter().filter(|(y, m, _)| Utc.with_ymd_and_hms(*y, *m, 1, 0, 0, 0).unwrap().timestamp() <= sec).map(|l| l.2).last().unwrap_or(10);
    ensure_eq!(tai_minus_utc(sec), want, "TAI-UTC at {sec}");
    ensure_eq!(unix_to_tai_seconds(sec), sec + want, "TAI seconds");
    ensure_eq!(tai_to_unix_seconds(sec + want), sec, "TAI back to UTC at {sec}");
    ensure_eq!(tai_nanos_from_unix_nanos(ns), ns + want * SEC, "TAI nanos");
    let tt = tt_nanos_from_unix_nanos(ns);
    ensure_eq!(tt, ns + want * SEC + 32_184_000_000, "TT nanos");
    ensure_eq!(unix_nanos_from_tt_nanos(tt), ns, "TT back to UTC at {ns}");
    Ok(())
}

/// Hybrid clocks: a random message-passing history; every happened-before pair is ordered.
fn hlc(s: &mut Src, c: &mut Ctx) -> R {
    let n = s.usize(2, 4);
    let mut clk = vec![Hlc::ZERO; n];
    let mut wall = vec![0i64; n];
    for w in wall.iter_mut() {
        *w = s.int(0, 20);
    }
    let mut msgs: Vec<Hlc> = Vec::new();
    let steps = s.usize(3, 30);
    let mut log = String::new();
    let mut sends = 0;
    for _ in 0..steps {
        let i = s.usize(0, n - 1);
        wall[i] += s.int(-3, 5);
        let before = clk[i];
        let now = wall[i];
        if !msgs.is_empty() && s.flip() {
            let k = s.usize(0, msgs.len() - 1);
            let m = msgs[k];
            clk[i] = clk[i].recv(m, now);
            ensure!(clk[i] > m, "receive at {:?} not after the send {:?}", clk[i], m);
            log += &format!("recv{i} ");
        } else {
            clk[i] = clk[i].tick(now);
            msgs.push(clk[i]);
            sends += 1;
            log += &format!("send{i} ");
        }
        ensure!(clk[i] > before, "clock did not advance");
        ensure!(clk[i].physical_nanos >= now, "clock behind the wall clock");
    }
    let hi = wall.iter().max().unwrap().max(&0) + 200;
    ensure!(clk.iter().all(|k| k.physical_nanos <= hi), "clock ran ahead of every wall clock");
    c.nontrivial(sends > 1);
    c.show(log);
    // interval knowledge: merge keeps exactly the instants both sides allow, in any order
    let mut a = SyncClock::new();
    let mut b = SyncClock::new();
    let gen_iv = |s: &mut Src| { let l = s.int(0, 50); EstimateInterval::new(l, l + s.int(0, 50)) };
    let mut all: Vec<(u64, EstimateInterval)> = Vec::new();
    for _ in 0..s.usize(0, 6) {
        let node = s.below(3);
        let iv = gen_iv(s);
        all.push((node, iv));
        if s.flip() { a = a.observe(node, iv) } else { b = b.observe(node, iv) }
        if s.flip() { a = a.tick(s.int(0, 30)) }
    }
    let ab = a.merge(&b);
    let ba = b.merge(&a);
    ensure!(ab == ba, "clock merge is not commutative");
    ensure!(ab.merge(&b) == ab && ab.merge(&a) == ab, "clock merge is not idempotent");
    ensure!(ab.hlc >= a.hlc && ab.hlc >= b.hlc, "merged clock went back");
    for node in 0..3u64 {
        let ivs: Vec<_> = all.iter().filter(|x| x.0 == node).map(|x| x.1).collect();
        match ab.knowledge.get(&node) {
            None => ensure!(ivs.is_empty(), "knowledge of {node} lost"),
            Some(iv) => {
                for t in 0..=100 {
                    ensure_eq!(iv.contains(t), ivs.iter().all(|v| v.lower_nanos <= t && t <= v.upper_nanos), "interval of node {node} at {t}");
                }
            }
        }
    }
    Ok(())
}

pub fn c17() -> Suite {
    let mut s = Suite::new("C17", "civil: more than a year from the epoch; instants: not a midnight; zones: the zone has summer time; other cases: the operation moves the value");
    s.assume("the proleptic Julian conversion is checked from 4800 BC on, where its formula is stated");
    s.assume("named zones are checked against their stated rule, projected to all years, not against historical law");
    s.prop("civil", 5*60_000, 5*600_000, civil);
    s.prop("julian", 5*20_000, 5*200_000, julian);
    s.prop("instants", 5*60_000, 5*600_000, instants);
    s.prop("rfc3339", 5*60_000, 5*600_000, rfc3339);
    s.prop("spans", 5*40_000, 5*400_000, spans);
    s.prop("business", 5*20_000, 5*200_000, business);
    s.prop("duration", 5*60_000, 5*600_000, duration);
    s.prop("zones", 5*40_000, 5*400_000, zones);
    s.prop("scales", 5*20_000, 5*200_000, scales);
    s.prop("hlc", 5*20_000, 5*200_000, hlc);
    s
}
