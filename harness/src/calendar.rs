//! Reference calendar: proleptic Gregorian dates from day counts.
use crate::model::*;

thread_local! { /// The offset of the local timezone; checks run with TZ=UTC.
    pub static LOCAL: std::cell::Cell<i64> = std::cell::Cell::new(0); }

/// Offset in seconds of a `:timezone` in decimal hours.
pub fn offset(tz: Option<&str>) -> R<i64> {
    let Some(t) = tz else { return Ok(LOCAL.with(|l| l.get())) };
    let (neg, digits) = match t.strip_prefix('-') { Some(d) => (true, d), None => (false, t.strip_prefix('+').unwrap_or(t)) };
    let (whole, frac) = digits.split_once('.').unwrap_or((digits, "0"));
    if digits.chars().any(|c| c.is_ascii_alphabetic() && !matches!(c, 'e' | 'E')) { return err() }
    let num = |s: &str| !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit());
    if !num(whole) || !num(frac) || frac.len() > 9 { return unspec("spelling of the timezone") }
    if whole.trim_start_matches('0').len() > 2 { return err() }
    let w: i64 = whole.parse().unwrap();
    let f: i64 = format!("{frac:0<9}").parse().unwrap();
    let nanos = (w * 1_000_000_000 + f) * 3600;
    let (q, r) = (nanos / 1_000_000_000, nanos % 1_000_000_000);
    if (r - 500_000_000).abs() < 20_000 { return unspec("timezone between two seconds") }
    let s = q + (r > 500_000_000) as i64;
    if s >= 86400 { return err() }
    Ok(if neg { -s } else { s })
}

const MONTHS: [&str; 12] = ["January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"];
const DAYS: [&str; 7] = ["Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday"];

pub fn leap(y: i64) -> bool { (y.rem_euclid(4) == 0 && y.rem_euclid(100) != 0) || y.rem_euclid(400) == 0 }
pub fn month_len(y: i64, m: i64) -> i64 { match m { 2 => 28 + leap(y) as i64, 4 | 6 | 9 | 11 => 30, _ => 31 } }

/// Days since 1970-01-01 of the first day of a year.
fn year_start(y: i64) -> i64 {
    let p = y - 1;
    let days = p * 365 + p.div_euclid(4) - p.div_euclid(100) + p.div_euclid(400);
    days - 719162
}

pub fn days(y: i64, m: i64, d: i64) -> i64 { year_start(y) + (1..m).map(|m| month_len(y, m)).sum::<i64>() + d - 1 }

/// Year, month, day, day of the year (from 0).
pub fn civil(day: i64) -> (i64, i64, i64, i64) {
    let mut y = 1970 + day.div_euclid(366);
    if day < 0 { y = 1970 + day.div_euclid(365) - 1 }
    // Correct the estimate.
    while year_start(y + 1) <= day { y += ((day - year_start(y + 1)) / 366).max(1) }
    while year_start(y) > day { y -= 1 }
    let yd = day - year_start(y);
    let (mut m, mut d) = (1, yd);
    while d >= month_len(y, m) { d -= month_len(y, m); m += 1 }
    (y, m, d + 1, yd)
}

fn year(y: i64, pad: Option<char>) -> String {
    let sign = if y < 0 { "-" } else if y > 9999 { "+" } else { "" };
    match pad { Some('-') => format!("{sign}{}", y.abs()), Some('_') => { let v = format!("{sign}{}", y.abs()); format!("{v:>0$}", 4 + sign.len()) } _ => format!("{sign}{:04}", y.abs()) }
}

/// ISO week-based year and week.
fn iso(y: i64, yd: i64, wd: i64) -> (i64, i64) {
    let wd = (wd + 6) % 7; // Monday is 0.
    let w = (yd - wd + 10).div_euclid(7);
    let weeks = |y: i64| { let jan1 = (year_start(y) + 3).rem_euclid(7); 52 + (jan1 == 3 || (jan1 == 2 && leap(y))) as i64 };
    if w < 1 { (y - 1, weeks(y - 1)) } else if w > weeks(y) { (y + 1, 1) } else { (y, w) }
}

fn zone(off: i64, colon: bool) -> String {
    // Offsets which are not whole minutes are rounded.
    let a = (off.abs() + 30) / 60;
    format!("{}{:02}{}{:02}", if off < 0 { '-' } else { '+' }, a / 60, if colon { ":" } else { "" }, a % 60)
}

fn full(off: i64, seconds: bool) -> String {
    let a = off.abs();
    let s = format!("{}{:02}:{:02}", if off < 0 { '-' } else { '+' }, a / 3600, a / 60 % 60);
    if seconds { format!("{s}:{:02}", a % 60) } else { s }
}

/// What is known to go wrong with centuries of more than two digits.
fn century(c: u8, pad: char) -> String {
    let ones = (b'0' + c % 10) as char;
    match (c / 10, pad) { (0, '-') => ones.to_string(), (0, '_') => format!(" {ones}"), (t, _) => format!("{}{ones}", (b'0' + t) as char) }
}

pub fn date(fmt: &str, secs: &str, off: i64, quirks: &Quirks) -> R<String> {
    let Ok(t) = secs.parse::<i64>() else { return if secs.starts_with("--") || secs.is_empty() || secs.contains('.') || secs.chars().any(|c| c.is_ascii_alphabetic()) { err() } else { unspec("seconds") } };
    // Years -262143 to 262142.
    if t < days(-262143, 1, 1) * 86400 || t >= (days(262142, 12, 31) + 1) * 86400 { return err() }
    let l = t + off;
    if l < days(-262143, 1, 1) * 86400 || l >= (days(262142, 12, 31) + 1) * 86400 { return unspec("beyond the years that can be represented") }
    let (day, s) = (l.div_euclid(86400), l.rem_euclid(86400));
    let (y, m, d, yd) = civil(day);
    let wd = (day + 4).rem_euclid(7);
    let (hh, mm, ss) = (s / 3600, s / 60 % 60, s % 60);
    let h12 = if hh % 12 == 0 { 12 } else { hh % 12 };
    let ampm = if hh < 12 { "AM" } else { "PM" };
    let (iy, iw) = iso(y, yd, wd);
    let mut out = String::new();
    let mut cs = fmt.chars();
    while let Some(c) = cs.next() {
        if c != '%' { out.push(c); continue }
        let mut pad = None;
        let mut f = cs.next();
        if let Some(p @ ('-' | '_' | '0')) = f { pad = Some(p); f = cs.next() }
        let num = |v: i64, width: usize, zero: bool| match pad.unwrap_or(if zero { '0' } else { '_' }) { '-' => format!("{v}"), '_' => format!("{v:>width$}"), _ => format!("{v:0>width$}") };
        let Some(f) = f else { return err() };
        // Only numbers may be padded otherwise.
        if pad.is_some() && !"YGCymdejwuUWVgHkIlMSsf".contains(f) { return err() }
        let date = |f: &str| date(f, secs, off, quirks);
        if y < 0 && "ygDC".contains(f) { return unspec("short year before the year 0") }
        out += &match f {
            'Y' => year(y, pad), 'G' => year(iy, pad),
            'C' => { let c = y.div_euclid(100); if !(0..100).contains(&c) && quirks.known("century") { century(c as u8, pad.unwrap_or('0')) } else { num(c, 2, true) } } 'y' => num(y.rem_euclid(100), 2, true), 'g' => num(iy.rem_euclid(100), 2, true),
            'm' => num(m, 2, true), 'd' => num(d, 2, true), 'e' => num(d, 2, false), 'j' => num(yd + 1, 3, true),
            'B' => MONTHS[m as usize - 1].into(), 'b' | 'h' => MONTHS[m as usize - 1][..3].into(),
            'A' => DAYS[wd as usize].into(), 'a' => DAYS[wd as usize][..3].into(),
            'w' => wd.to_string(), 'u' => (if wd == 0 { 7 } else { wd }).to_string(),
            'U' => num((yd + 7 - wd) / 7, 2, true), 'W' => num((yd + 7 - (wd + 6) % 7) / 7, 2, true), 'V' => num(iw, 2, true),
            'H' => num(hh, 2, true), 'k' => num(hh, 2, false), 'I' => num(h12, 2, true), 'l' => num(h12, 2, false),
            'M' => num(mm, 2, true), 'S' => num(ss, 2, true), 'p' => ampm.into(), 'P' => ampm.to_lowercase(),
            'D' | 'x' => date("%m/%d/%y")?, 'F' => date("%Y-%m-%d")?, 'v' => date("%e-%b-%Y")?, 'R' => date("%H:%M")?, 'T' | 'X' => date("%H:%M:%S")?,
            'r' => date("%I:%M:%S %p")?, 'c' => date("%a %b %e %H:%M:%S %Y")?,
            'z' => zone(off, false), 'Z' => full(off, off % 60 != 0),
            's' => match pad { Some('_' | '0') if t.to_string().len() < 9 => return unspec("padded seconds"), _ => t.to_string() }, 't' => "\t".into(), 'n' => "\n".into(), '%' => "%".into(),
            // There are no fractions of seconds.
            'f' => if pad == Some('-') { "0".into() } else if pad == Some('_') { "        0".into() } else { "0".repeat(9) },
            '3' | '6' | '9' => { if cs.next() != Some('f') { return err() } "0".repeat(f as usize - '0' as usize) }
            '.' => match cs.next() {
                Some('f') => String::new(),
                Some(n @ ('3' | '6' | '9')) => { if cs.next() != Some('f') { return err() } format!(".{}", "0".repeat(n as usize - '0' as usize)) }
                _ => return err(),
            },
            '+' => { if off % 60 != 0 { return unspec("zone of ISO 8601") } date("%Y-%m-%dT%H:%M:%S%:z")? }
            ':' => {
                let mut colons = 1;
                let mut c = cs.next();
                while c == Some(':') && colons < 3 { colons += 1; c = cs.next() }
                if c != Some('z') { return err() }
                match colons { 1 => zone(off, true), 2 => full(off, true), _ => format!("{}{:02}", if off < 0 { '-' } else { '+' }, off.abs() / 3600) }
            }
            _ => return err(),
        };
    }
    Ok(out)
}

/// The fields which a date text may give.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum Field { Year, Century, YearOf, IsoYear, IsoYearOf, Month, Day, Ordinal, Weekday, WeekSun, WeekMon, IsoWeek, Half, Hour12, Minute, Second, Fraction, Zone, Epoch }

/// Seconds since the epoch of a date text.
/// Numbers may have fewer digits than their width and white space before them,
/// names are of either case, and white space of the format stands for any.
pub fn timestamp(fmt: &str, text: &str, off: i64, quirks: &Quirks) -> R<String> {
    use Field::*;
    let mut given = std::collections::BTreeMap::new();
    let mut t = text;
    read(fmt, &mut t, &mut given, quirks)?;
    if !t.is_empty() { return err() }
    let f = |k: Field| given.get(&k).copied();
    let full_year = |y: Option<i64>, c: Option<i64>, r: Option<i64>| -> R<Option<i64>> { Ok(match (y, c, r) {
        (y, None, None) => y,
        (Some(y), c, r) => { if y < 0 || c.map_or(false, |c| c != y / 100) || r.map_or(false, |r| r != y % 100) { return err() } Some(y) }
        (None, Some(c), Some(r)) => Some(c * 100 + r),
        // Two digits stand for the years from 1970 to 2069.
        (None, None, Some(r)) => Some(if r < 70 { 2000 + r } else { 1900 + r }),
        (None, Some(_), None) => return Ok(None),
    }) };
    let lone = |y: Option<i64>, c: Option<i64>, r: Option<i64>| y.is_none() && c.is_some() && r.is_none();
    let (y, iy) = (full_year(f(Year), f(Century), f(YearOf))?, full_year(f(IsoYear), None, f(IsoYearOf))?);
    // What a day has in each field.
    let agrees = |day: i64| -> bool {
        let (cy, m, d, yd) = civil(day);
        let wd = (day + 4).rem_euclid(7);
        let (wy, ww) = iso(cy, yd, wd);
        let is = |k: Field, v: i64| f(k).map_or(true, |g| g == v);
        (f(Year).or(f(Century)).or(f(YearOf)).is_none() || y.map_or(cy >= 0 && f(Century) == Some(cy / 100), |y| y == cy)) && iy.map_or(true, |y| y == wy)
            && is(Month, m) && is(Day, d) && is(Ordinal, yd + 1) && is(Weekday, wd) && is(IsoWeek, ww)
            && is(WeekSun, (yd + 7 - wd) / 7) && is(WeekMon, (yd + 7 - (wd + 6) % 7) / 7)
    };
    let inside = |y: i64| (-262143..=262142).contains(&y);
    if f(Month).map_or(false, |m| m < 1 || m > 12) || f(Day).map_or(false, |d| d < 1 || d > 31) || f(Ordinal).map_or(false, |d| d < 1 || d > 366) || f(WeekSun).map_or(false, |w| w > 53) || f(WeekMon).map_or(false, |w| w > 53) || f(IsoWeek).map_or(false, |w| w < 1 || w > 53) { return err() }
    let day = if lone(f(Year), f(Century), f(YearOf)) { None } else if let (Some(y), Some(m), Some(d)) = (y, f(Month), f(Day)) {
        if !inside(y) || d > month_len(y, m) { return err() }
        Some(days(y, m, d))
    } else if let (Some(y), Some(yd)) = (y, f(Ordinal)) {
        if !inside(y) { return err() }
        Some(days(y, 1, 1) + yd - 1)
    } else if let (Some(y), Some(w), Some(wd)) = (y, f(WeekSun), f(Weekday)) {
        if !inside(y) { return err() }
        let first = days(y, 1, 1);
        // Week 1 starts on the first Sunday.
        Some(first + (7 - (first + 4).rem_euclid(7)) % 7 + (w - 1) * 7 + wd)
    } else if let (Some(y), Some(w), Some(wd)) = (y, f(WeekMon), f(Weekday)) {
        if !inside(y) { return err() }
        let first = days(y, 1, 1);
        Some(first + (7 - (first + 3).rem_euclid(7)) % 7 + (w - 1) * 7 + (wd + 6) % 7)
    } else if let (Some(y), Some(w), Some(wd)) = (iy, f(IsoWeek), f(Weekday)) {
        if !inside(y) { return err() }
        let fourth = days(y, 1, 4);
        Some(fourth - (fourth + 3).rem_euclid(7) + (w - 1) * 7 + (wd + 6) % 7)
    } else { None };
    if day.map_or(false, |d| !agrees(d) || !inside(civil(d).0) || y.map_or(false, |y| civil(d).0 != y)) { return err() }
    if f(Half).map_or(false, |h| h > 1) || f(Minute).map_or(false, |m| m > 59) || f(Second).map_or(false, |s| s > 60) { return err() }
    if f(Second) == Some(60) { return unspec("leap second") }
    let time = match (f(Half), f(Hour12), f(Minute)) { (Some(p), Some(h), Some(m)) if f(Fraction).is_none() || f(Second).is_some() => Some(p * 43200 + h * 3600 + m * 60 + f(Second).unwrap_or(0)), _ => None };
    let limits = |t: i64| t >= days(-262143, 1, 1) * 86400 && t < (days(262142, 12, 31) + 1) * 86400;
    if let Some(e) = f(Epoch) {
        let o = f(Zone).unwrap_or(0);
        let l = match e.checked_add(o) { Some(l) => l, None => return err() };
        if lone(f(Year), f(Century), f(YearOf)) { return unspec("century with seconds") }
        if let (Some(d), Some(t)) = (day, time) { if d * 86400 + t != l { return err() } }
        if !limits(l) || !limits(e) { return err() }
        let (d, s) = (l.div_euclid(86400), l.rem_euclid(86400));
        if !agrees(d) || f(Half).map_or(false, |p| p != s / 43200) || f(Hour12).map_or(false, |h| h != s / 3600 % 12) || f(Minute).map_or(false, |m| m != s / 60 % 60) || f(Second).map_or(false, |x| x != s % 60) { return err() }
        return Ok(e.to_string())
    }
    let (Some(d), Some(t)) = (day, time) else { return err() };
    let t = d * 86400 + t - f(Zone).unwrap_or(off);
    if !limits(t) { return err() }
    Ok(t.to_string())
}

fn read(fmt: &str, t: &mut &str, given: &mut std::collections::BTreeMap<Field, i64>, quirks: &Quirks) -> R<()> {
    use Field::*;
    let mut cs = fmt.chars();
    fn digits(t: &mut &str, min: usize, max: usize) -> R<(i64, usize)> {
        let n = t.bytes().take(max).take_while(u8::is_ascii_digit).count();
        if n < min { return err() }
        let Ok(v) = t[..n].parse::<i64>() else { return err() };
        *t = &t[n..];
        Ok((v, n))
    }
    fn name(t: &mut &str, names: &[&str], long: bool) -> R<i64> {
        let starts = |n: &str| t.get(..n.len()).map_or(false, |h| h.eq_ignore_ascii_case(n));
        for (i, n) in names.iter().enumerate() {
            if long && starts(n) { *t = &t[n.len()..]; return Ok(i as i64) }
            if starts(&n[..3.min(n.len())]) { *t = &t[3.min(n.len())..]; return Ok(i as i64) }
        }
        err()
    }
    fn fraction(t: &mut &str) -> R<i64> {
        if digits(&mut { *t }, 1, 9)?.1 == 0 { return err() }
        *t = t.trim_start_matches(|c: char| c.is_ascii_digit());
        Ok(0)
    }
    while let Some(c) = cs.next() {
        if c.is_whitespace() { *t = t.trim_start(); continue }
        if c != '%' { match t.strip_prefix(c) { Some(r) => *t = r, None => return err() } continue }
        let mut f = cs.next();
        if let Some('-' | '_' | '0') = f {
            f = cs.next();
            if f.map_or(true, |f| !"YGCymdejwuUWVgHkIlMSsf".contains(f)) { return err() }
        }
        let Some(f) = f else { return err() };
        if let Some((field, width)) = match f { 'Y' => Some((Year, 4)), 'G' => Some((IsoYear, 4)), 'C' => Some((Century, 2)), 'y' => Some((YearOf, 2)), 'g' => Some((IsoYearOf, 2)), 'm' => Some((Month, 2)), 'd' | 'e' => Some((Day, 2)), 'j' => Some((Ordinal, 3)), 'w' | 'u' => Some((Weekday, 1)), 'U' => Some((WeekSun, 2)), 'W' => Some((WeekMon, 2)), 'V' => Some((IsoWeek, 2)), 'H' | 'k' | 'I' | 'l' => Some((Hour12, 2)), 'M' => Some((Minute, 2)), 'S' => Some((Second, 2)), 's' => Some((Epoch, usize::MAX)), 'f' => Some((Fraction, 9)), _ => None } {
            *t = t.trim_start();
            let (neg, signed) = if "YG".contains(f) { match t.strip_prefix(['-', '+']) { Some(r) => { let neg = t.starts_with('-'); *t = r; (neg, true) } None => (false, false) } } else { (false, false) };
            if f == 's' && t.starts_with('-') && quirks.known("negative-seconds") { return err() }
            let (f_neg, _) = if f == 's' && t.starts_with('-') { *t = &t[1..]; (true, ()) } else { (neg, ()) };
            let (v, _) = digits(t, 1, if signed { usize::MAX } else { width })?;
            let v = if f_neg { -v } else { v };
            let mut put = |k: Field, v: i64| -> R<()> { if *given.entry(k).or_insert(v) != v { return err() } Ok(()) };
            match f {
                'Y' | 'G' if v.abs() > i32::MAX as i64 => return err(),
                'w' => { if v > 6 { return err() } put(Weekday, v)? }
                'u' => { if v < 1 || v > 7 { return err() } put(Weekday, v % 7)? }
                'H' | 'k' => { if v > 23 { return err() } put(Half, v / 12)?; put(Hour12, v % 12)? }
                'I' | 'l' => { if v < 1 || v > 12 { return err() } put(Hour12, v % 12)? }
                'f' => return unspec("fraction by itself"),
                _ => put(field, v)?,
            }
            continue
        }
        let mut put = |k: Field, v: i64| -> R<()> { if *given.entry(k).or_insert(v) != v { return err() } Ok(()) };
        match f {
            'B' => put(Month, name(t, &MONTHS, true)? + 1)?, 'b' | 'h' => put(Month, name(t, &MONTHS, false)? + 1)?,
            'A' => put(Weekday, name(t, &DAYS, true)?)?, 'a' => put(Weekday, name(t, &DAYS, false)?)?,
            'p' | 'P' => put(Half, name(t, &["AM", "PM"], true)?)?,
            'D' | 'x' => read("%m/%d/%y", t, given, quirks)?, 'F' => read("%Y-%m-%d", t, given, quirks)?, 'v' => read("%e-%b-%Y", t, given, quirks)?,
            'R' => read("%H:%M", t, given, quirks)?, 'T' | 'X' => read("%H:%M:%S", t, given, quirks)?, 'r' => read("%I:%M:%S %p", t, given, quirks)?, 'c' => read("%a %b %e %H:%M:%S %Y", t, given, quirks)?,
            't' | 'n' => *t = t.trim_start(),
            '%' => match t.strip_prefix('%') { Some(r) => *t = r, None => return err() },
            'Z' => *t = t.trim_start_matches(|c: char| !c.is_whitespace()),
            'z' | ':' => {
                let mut colons = 0;
                let mut c = Some(f);
                while c == Some(':') && colons < 3 { colons += 1; c = cs.next() }
                if c != Some('z') { return err() }
                *t = t.trim_start();
                let neg = t.starts_with(['-', '\u{2212}']);
                let Some(r) = t.strip_prefix(['-', '+', '\u{2212}']) else { return err() };
                *t = r;
                let (hh, _) = digits(t, 2, 2)?;
                *t = t.trim_start_matches(|c: char| c == ':' || c.is_whitespace());
                let (mm, _) = digits(t, 2, 2)?;
                if mm > 59 { return err() }
                // A zone of more than a day is no zone.
                if hh > 23 { return err() }
                let v = (hh * 60 + mm) * 60;
                put(Zone, if neg { -v } else { v })?
            }
            '.' => {
                match cs.next() { Some('f') => {} Some('3' | '6' | '9') => if cs.next() != Some('f') { return err() }, _ => return err() }
                // A fraction is of no account to whole seconds, wherever the epoch is.
                if let Some(r) = t.strip_prefix('.') { *t = r; fraction(t)?; if given.insert(Fraction, 0).is_some() { return unspec("two fractions") } }
            }
            '3' | '6' | '9' => {
                if cs.next() != Some('f') { return err() }
                let n = f as usize - '0' as usize;
                digits(t, n, n)?;
                if given.insert(Fraction, 0).is_some() { return unspec("two fractions") }
            }
            '#' => return if cs.next() == Some('z') { unspec("short zone") } else { err() },
            '+' => return unspec("ISO 8601"),
            _ => return err(),
        }
    }
    Ok(())
}
