//! C14: dates and timestamps.
use super::*;
use crate::calendar;

const SEXP: &[T] = &[T::Sexp];
const FULL: &str = "%Y-%m-%d %H:%M:%S";
const EVERY: &str = "%Y %C %y %m %b %B %d %e %j %a %A %w %u %U %W %V %G %g %H %k %I %l %M %S %p %P %D %F %v %R %T %r %c %z %:z %s %t%n%%";

fn number(n: i64) -> String { n.to_string() }

pub fn c14(deep: bool, _: u32) -> Vec<Space> {
    let zones: Vec<String> = (-96..=96).map(|q: i32| { let a = q.abs(); format!("{}{}{}", if q < 0 { "-" } else { "" }, a / 4, ["", ".25", ".5", ".75"][a as usize % 4]) }).collect();
    let odd = ["+2", "0", "-0", "0.0", "00", "12.999", "5.75", "23.9997", "24", "-24", "23.999", "-23.999", "100", "1000000", "-99999999999999999999", "1e1", "0.1", "-0.1", "0.016", "0.0169", "1.0166", "inf", "nan", "2x", "-", "+", "3.", ".5", "0x1", "-12.34", "1_0"];
    let instants: Vec<i64> = {
        let d = |y, m, dd| calendar::days(y, m, dd) * 86400;
        let mut v = vec![0, -1, 1, 59, 60, 3599, 3600, 86399, 86400, 951782400, 1709164800, 4107542399, 4107542400, i32::MAX as i64, i32::MAX as i64 + 1, i32::MIN as i64, -62135596800, -62135596801, 253402300799, 253402300800, 13569465600];
        for y in [-262143, -10000, -9999, -401, -1, 0, 1, 4, 100, 400, 999, 1582, 1600, 1899, 1900, 1969, 1999, 2000, 2001, 2004, 2015, 2020, 2023, 2024, 2026, 2099, 2100, 9999, 10000, 99999, 262142] {
            for (m, dd) in [(1, 1), (2, 28), (3, 1), (12, 28), (12, 31)] { v.push(d(y, m, dd)); v.push(d(y, m, dd) + 86399) }
        }
        v
    };
    let zones2 = zones.clone();
    let inst2 = instants.clone();
    let inst3 = instants.clone();
    let (from, to) = if deep { (-1200, 4000) } else { (1890, 2110) };
    let mut v = vec![
        space("days", format!("every day of the years {from} to {to}, rendered by %date with every calendar field and read back by %timestamp"), move |ch| {
            let y = from + ch.pick((to - from + 1) as usize) as i64;
            let yd = ch.pick(366) as i64;
            if yd == 365 && !calendar::leap(y) { ch.skip() }
            ch.commit();
            let t = (calendar::days(y, 1, 1) + yd) * 86400 + (yd * 7919 + y * 31).rem_euclid(86400);
            check_for(&format!("(%date \"%Y %C %m %b %B %d %e %j %a %A %w %u %U %W %V %G\" {t})(%timestamp \"{FULL}\" (%date \"{FULL}\" {t}))"), SEXP);
        }),
        again(deep, SEXP, "", &["(%date \"%Y-%m-%d %H\" 8640#)", "(%date \"%H\" 0 :timezone 3)", "(%date \"%H\" # :timezone -3.5)", "(%timestamp \"%s\" \"#\")", "(%timestamp \"%F %T\" \"2020-02-29 00:00:00\" :timezone 1)", "(%timestamp \"%F %T %z\" \"2020-02-29 00:00:00 +0200\")", "(%timestamp \"%F %T\" \"1970-01-01 00:00:00\")"]),
        characters(deep, SEXP, &["(%date \"¤%H:%M¤\" 86399)", "(%timestamp \"%F %T¤\" \"2020-02-29 00:00:00¤\")", "(%timestamp \"¤%F %T\" \"¤2020-02-29 00:00:00\" :timezone 1)", "(%timestamp \"%F¤%T\" \"2020-02-29¤00:00:00\")", "(%timestamp \"%F %T\" \"2020-02-29 00:00:00¤\")", "(%timestamp \"%F %T\" \"¤2020-02-29 00:00:00\")", "(%timestamp \"%F %T\" \"2020-02-29 00:00:00\" :timezone \"¤\")", "(%date \"%F\" \"¤\")", "(%date \"%F\" \"1¤\")"]),
        gaps(deep, SEXP, &["(x (%date \"%Y-%m-%d %H\" 86400 :timezone 3) y)", "(%timestamp \"%Y-%m-%d %H\" :timezone -3.5 \"2020-02-29 12\")(%date :timezone 0 \"%j\" (%timestamp \"%s\" \"7\"))"]),
        space("years", "every year from -262144 to 262143: its first and last second", move |ch| {
            let y = -262144 + ch.pick(1024) as i64 * 512 + ch.pick(512) as i64;
            if !deep && y.rem_euclid(100) > 4 && y.rem_euclid(100) != 99 { ch.skip() }
            let end = ch.flag();
            ch.commit();
            let t = if end { calendar::days(y + 1, 1, 1) * 86400 - 1 } else { calendar::days(y, 1, 1) * 86400 };
            check_for(&format!("(%date \"%Y-%m-%d %H:%M:%S %j %u %V %G\" {t})"), SEXP);
        }),
        space("seconds", "every second of a day in two zones, with every time field, read back", move |ch| {
            let h = ch.pick(24);
            let s = ch.pick(3600);
            let z = ch.of(&["", " :timezone -3.5", " :timezone 14"]);
            if !deep && !z.is_empty() && s % 60 > 1 && s % 60 != 59 { ch.skip() }
            ch.commit();
            let t = 1_700_000_000 / 86400 * 86400 + h * 3600 + s;
            check_for(&format!("(%date \"%H %k %I %l %M %S %p %P %R %T %r %X %s\"{z} {t})(%timestamp \"%F %T\"{z} (%date \"%F %T\"{z} {t}))"), SEXP);
        }),
        space("fields", "every conversion with every padding modifier at every instant of a list, in 5 zones", move |ch| {
            let c = ch.of(&EVERY.split(['%', ' ']).filter(|c| !c.is_empty()).chain(["h", "x", "X", "%", "Z", "f", "3f", "6f", "9f", ".f", ".3f", ".9f", ".4f", "::z", ":::z", "::::z", "+", "L", "O", "i", "#z", "E"]).collect::<Vec<_>>());
            let p = ch.of(&["", "-", "_", "0"]);
            let t = ch.of(&inst2);
            let z = ch.of(&["", " :timezone 1", " :timezone -11.75", " :timezone 23.99", " :timezone -0.5"]);
            ch.commit();
            check_for(&format!("<(%date \"[%{p}{c}]\" {t}{z})>"), SEXP);
        }),
        space("zones", "every offset in quarter hours within a day and other spellings, at every instant of a list, rendered and read back", move |ch| {
            let z = if ch.flag() { ch.of(&odd.iter().map(|s| s.to_string()).collect::<Vec<_>>()) } else { ch.of(&zones) };
            let t = ch.of(&instants);
            ch.commit();
            check_for(&format!("(%date \"{FULL} %z\" {t} :timezone {z})(%timestamp \"{FULL}\" (%date \"{FULL}\" {t} :timezone {z}) :timezone {z})(%timestamp \"{FULL} %z\" (%date \"{FULL} %z\" {t} :timezone {z}))"), SEXP);
        }),
        space("offset-limits", "every offset from -60 to 60 hours with every fraction of 7, for each macro alone", move |ch| {
            let h = ch.pick(121) as i64 - 60;
            let f = ch.of(&["", ".0", ".25", ".5", ".999", ".9998", ".00028"]);
            let src = ch.of(&["(%date \"%F %T %z\" 1700000000 :timezone Z)", "(%timestamp \"%F %T\" \"2024-02-29 12:30:15\" :timezone Z)", "(%timestamp \"%F %T %z\" \"2024-02-29 12:30:15 +0200\" :timezone Z)", "(%date \"%F\" 0 :timezone Z)", "(%date :timezone \"Z\" \"%F %T\" -1)"]);
            ch.commit();
            check_for(&src.replace('Z', &format!("{h}{f}")), SEXP);
        }),
        space("local-zone", "local timezones of fixed offsets, as the default, at instants of a list, overridden or not", move |ch| {
            let q = ch.pick(93) as i64 - 44;
            let t = ch.of(&[0i64, -1, 86399, 951782400, 1709164800, 1_700_000_000]);
            let src = ch.of(&["(%date \"%F %T %z\" N)", "(%timestamp \"%F %T\" (%date \"%F %T\" N))", "(%timestamp \"%F %T\" \"2024-02-29 23:30:15\")", "(%timestamp \"%F %T %z\" \"2024-02-29 23:30:15 -0130\")", "(%date \"%F %T %z\" N :timezone 1.5)", "(%timestamp \"%F %T\" :timezone -2 \"2024-02-29 23:30:15\")"]);
            ch.commit();
            let off = q * 900;
            let zone = format!("<LOC>{}{}:{:02}", if off > 0 { "-" } else { "" }, off.abs() / 3600, off.abs() / 60 % 60);
            let src = src.replace('N', &t.to_string());
            // The library reads the variable once in each thread.
            std::env::set_var("TZ", &zone);
            FRESH.with(|f| f.set(true));
            calendar::LOCAL.with(|l| l.set(off));
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| check_for(&src, SEXP)));
            FRESH.with(|f| f.set(false));
            calendar::LOCAL.with(|l| l.set(0));
            std::env::set_var("TZ", "UTC");
            if let Err(e) = r { std::panic::resume_unwind(e) }
        }),
        space("overriding", "every offset in the text with every offset of the option, and texts with other spellings of it", move |ch| {
            let z = ch.of(&zones2);
            let o = ch.of(&["+0000", "-0000", "+0530", "-1145", "+2359", "-0001", "+1260", "+2400", "0530", "+05:30", "-05:30", "Z", "", "+5:30", "+053"]);
            let f = ch.of(&["%z", "%:z"]);
            let at = ch.pick(2);
            ch.commit();
            let fmt = if at == 0 { format!("%Y-%m-%d %H:%M {f}") } else { format!("{f} %Y-%m-%d %H:%M") };
            let text = if at == 0 { format!("2024-02-29 00:10 {o}") } else { format!("{o} 2024-02-29 00:10") };
            check_for(&format!("(%timestamp \"{fmt}\" \"{text}\" :timezone {z})"), SEXP);
        }),
        space("impossible", "every month 0 to 13 with every day 0 to 32 of 12 years, and every time around the limits", move |ch| {
            if ch.flag() {
                let (y, m, d) = (ch.of(&[1, 4, 100, 400, 1900, 1970, 1996, 2000, 2023, 2024, 2100, 9999]), ch.pick(14), ch.pick(33));
                ch.commit();
                check_for(&format!("(%timestamp \"%Y-%m-%d %H:%M\" \"{y:04}-{m:02}-{d:02} 12:30\")"), SEXP);
            } else {
                let (h, m, s) = (ch.of(&[0, 1, 12, 23, 24, 25, 99]), ch.of(&[0, 1, 59, 60, 61, 99]), ch.of(&[0, 59, 60, 61, 99]));
                let f = ch.of(&["%H:%M:%S", "%T", "%I:%M:%S %p", "%H:%M"]);
                ch.commit();
                let time = format!("{h:02}:{m:02}:{s:02}");
                let time = match f { "%H:%M" => time[..5].to_string(), "%I:%M:%S %p" => time + " PM", _ => time };
                check_for(&format!("(%timestamp \"%Y-%m-%d {f}\" \"2024-03-31 {time}\")"), SEXP);
            }
        }),
        space("fractions", "every fraction of a second of up to 3 digits, or long ones, before and after the epoch, in each zone", move |ch| {
            let s = ch.of(&["1970-01-01 00:00:00", "1969-12-31 23:59:59", "2024-02-29 23:59:59", "1900-01-01 00:00:00", "0000-12-31 12:30:01", "-0001-06-15 01:02:03"]);
            let f = if ch.flag() { sequence(ch, &["0", "1", "4", "5", "9"], if deep { 5 } else { 3 }) } else { ch.of(&["000000000", "999999999", "499999999", "500000000", "000000001"]).to_string() };
            let z = ch.of(&["", " :timezone 5.5", " :timezone -12"]);
            ch.commit();
            check_for(&format!("(%timestamp \"%F %T%.f\" \"{s}{}\"{z})", if f.is_empty() { f } else { format!(".{f}") }), SEXP);
        }),
        space("layouts", "every selection and order of up to 5 fields in a format of %timestamp, with the matching text of %date", move |ch| {
            let fields = ["%Y", "%m", "%d", "%H", "%M", "%S", "%j", "%b", "%B", "%I", "%p", "%z", "%F", "%R"];
            let mut f = String::new();
            for _ in 0..if deep { 6 } else { 5 } { match ch.pick(fields.len() + 1) { 0 => break, i => { if !f.is_empty() { f.push('/') } f += fields[i - 1] } } }
            ch.commit();
            check_for(&format!("(%timestamp \"{f}\" (%date \"{f}\" 1709214300) :timezone 2)"), SEXP);
        }),
        space("selections", "every selection of up to 3 of all the conversions, alone or after what makes a date and time whole, with the matching text of %date, at instants of a list", move |ch| {
            let fields = ["%y", "%C", "%G", "%g", "%V", "%U", "%W", "%u", "%w", "%a", "%A", "%e", "%h", "%k", "%l", "%P", "%p", "%s", "%c", "%D", "%x", "%v", "%r", "%X", "%t", "%Z", "%.f", "%.3f", "%6f", "%::z", "%:::z", "%-m", "%_d", "%0H", "%b", "%Y", "%j", "%M", "%S", "%I"];
            let start = ch.of(&["", "%F %T", "%H:%M ", "%Y %j ", "%R %u "]);
            let mut f = start.to_string();
            for _ in 0..if deep { 3 } else { 3 } { match ch.pick(fields.len() + 1) { 0 => break, i => { f.push('|'); f += fields[i - 1] } } }
            let t = if deep { ch.of(&[1709214300i64, -1, 1104537599, 253402300800, -62198755200, 951782400]) } else { 1104537599 };
            ch.commit();
            check_for(&format!("(%timestamp \"{f}\" (%date \"{f}\" {t}) :timezone -3)"), SEXP);
        }),
        space("weeks", "years, weeks and days of the week, of which many do not exist, in the three ways of counting weeks", move |ch| {
            let f = ch.of(&["%Y %U %w", "%Y %W %u", "%G %V %u", "%g %V %A", "%y %U %a", "%G %V %w %Y", "%Y %j %U %W"]);
            let y = ch.of(&[1970, 1999, 2000, 2004, 2005, 2009, 2010, 2015, 2016, 2020, 2021, 2024, 2026]);
            let (w, d) = (ch.pick(55), ch.pick(if f.ends_with('W') { 3 } else { 9 }));
            ch.commit();
            let text = if f.ends_with(" %W") { format!("{y} {:03} {w:02} {:02}", w * 7 + d, w.saturating_sub(d)) } else if f.contains("%A") || f.contains("%a") { format!("{:02} {w:02} {}", y % 100, ["Sun", "monday", "Tuesday", "Wed", "THURSDAY", "Fri", "Saturday", "Sund", "day"][d]) } else { format!("{y} {w:02} {d}{}", if f.ends_with('Y') { format!(" {y}") } else { String::new() }) };
            check_for(&format!("(%timestamp \"%R {f}\" \"12:30 {text}\" :timezone 0)"), SEXP);
        }),
        space("writing", "texts of dates whose numbers have other numbers of digits or white space before them, and names in other letters", move |ch| {
            let mut text = String::new();
            let f = ch.of(&["%Y-%m-%d %H:%M", "%Y%m%d%H%M", "%B %d, %Y %I:%M %p"]);
            let parts: &[&[&str]] = match f {
                "%B %d, %Y %I:%M %p" => &[&["May", "may", "MAY", "January", "jan", "JANuary", "Janu", "Sept", "sep", "Febr"], &[" ", "", "\t "], &["3", "03", " 3", "003"], &[", ", ","], &["2024", "99", "12024", "+12024", " 2024"], &[" ", ""], &["7", "07", "13", "0", "12"], &[":30 ", ":5 ", ": 5"], &["PM", "pm", "aM", "P", "AMX"]],
                _ => &[&["2024", "24", "+2024", "-0001", " 2024", "20245", "+20245", ""], &["-", ""], &["2", "02", " 2", "12", "002"], &["-", " -"], &["9", "09", " 09", "30"], &[" ", "  ", "", "T"], &["7", "07", "+7", "-7"], &[":", ""], &["5", "05", "\n5", "60"]],
            };
            for p in parts { text += ch.of(p) }
            ch.commit();
            check_for(&format!("(%timestamp \"{f}\" \"{}\" :timezone 1)", text.replace('\n', "\\n").replace('\t', "\\t")), SEXP);
        }),
        space("epochs", "numbers of seconds as text, with or without other fields and zones which agree or do not", move |ch| {
            let n = ch.of(&["0", "-1", "+5", "1700000000", "01700000000", "8210266876799", "8210266876800", "9223372036854775807", "9223372036854775808", "", "1.5", " 7"]);
            let more = ch.of(&[("", ""), (" %Y", " 1970"), (" %Y", " 2023"), (" %y %m", " 23 11"), (" %d", " 14"), (" %H", " 22"), (" %H", " 00"), (" %z", " +0200"), (" %z", " -2359"), (" %z %H", " +0200 00"), (" %z %d", " +0200 15"), (" %F %T", " 1970-01-01 00:00:00"), (" %F %T", " 2023-11-14 22:13:20"), (" %F %T %z", " 2023-11-15 00:13:20 +0200"), (" %a", " Tue"), (" %S", " 20"), (" %p", " PM"), (" %.f", " .5"), (" %U", " 46")]);
            let before = ch.flag();
            let z = ch.of(&["", " :timezone 5", " :timezone -11.5"]);
            ch.commit();
            let (f, t) = if before { (format!("{} %s", more.0.trim()), format!("{} {n}", more.1.trim())) } else { (format!("%s{}", more.0), format!("{n}{}", more.1)) };
            check_for(&format!("(%timestamp \"{f}\" \"{t}\"{z})"), SEXP);
        }),
        space("formats", "every format of up to 4 characters over conversions, modifiers and other characters, for both macros", move |ch| {
            let f = sequence(ch, &["%", "Y", "m", "d", "H", "z", "Z", ":", "-", "_", "0", "3", ".", "f", "#", " ", "é", "Q", "E", "+", "\\n", "s"], if deep { 4 } else { 3 });
            let which = ch.pick(2);
            ch.commit();
            check_for(&if which == 0 { format!("(%date \"{f}\" 86399)") } else { format!("(%timestamp \"{f}\" \"1970-01-01 00:00\")") }, SEXP);
        }),
        space("range", "instants within a day of the ends of the range of dates, in every zone of a whole or half hour", move |ch| {
            let end = ch.of(&[8210266876799i64, 8210298412799, -8334601228800, -8334632851200]);
            let by = ch.of(&[0i64, 1, -1, 1800, -1800, 3600, -3600, 43200, -43200, 86399, -86399, 86400, -86400]);
            let z = ch.pick(97) as i64 - 48;
            ch.commit();
            check_for(&format!("(%date \"%Y-%m-%d %H:%M:%S\" {} :timezone {}{}.{})", end + by, if z < 0 { "-" } else { "" }, z.abs() / 2, z.abs() % 2 * 5), SEXP);
        }),
        space("seconds-spellings", "numbers of seconds in every spelling up to 4 characters, and out of range", move |ch| {
            let s = if ch.flag() { sequence(ch, &["0", "1", "9", "+", "-", ".", "e", "_"], 4) } else { ch.of(&["9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "8210266876799", "8210266876800", "8210298412799", "8210298412800", "-8334601228800", "-8334601228801", "-8334632851200", "-8334632851201", "99999999999999999999", "1.5", "1e3", "0x10", "00012", "-007"]).to_string() };
            let z = ch.of(&["", " :timezone 23.9", " :timezone -23.9"]);
            ch.commit();
            check_for(&format!("(%date \"%Y-%m-%d %H:%M:%S %s\" (%number \"{s}\"){z})"), SEXP);
        }),
    ];
    v.push(space("texts", "every change of one character of 4 date texts by another character, and every prefix and extension", move |ch| {
        let (f, t) = ch.of(&[("%Y-%m-%d %H:%M:%S", "2024-02-29 23:59:58"), ("%d %b %Y %I:%M %p", "29 Feb 2024 11:07 PM"), ("%j.%Y %H%M %z", "060.2024 2359 -0330"), ("[%B] %d, %Y at %R%%", "[March] 01, 0099 at 00:00%")]);
        let cs: Vec<char> = t.chars().collect();
        let i = ch.pick(cs.len() + 1);
        let how = ch.pick(3);
        let r = ch.of(&['0', '1', '3', '9', '-', '+', ' ', ':', 'x', 'é', 'P', '%']);
        ch.commit();
        let head: String = cs[..i].iter().collect();
        let tail = |k: usize| cs.get(k..).unwrap_or(&[]).iter().collect::<String>();
        let text = match how { 0 => format!("{head}{r}{}", tail(i + 1)), 1 => format!("{head}{r}{}", tail(i)), _ => format!("{head}{}", tail(i + 1)) };
        check_for(&format!("(%timestamp \"{f}\" \"{text}\")"), SEXP);
    }));
    let _ = (number, inst3);
    v
}
