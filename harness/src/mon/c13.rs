//! C13 dates and times convert to the right serials.

use crate::run::Ctx;
use chrono::{NaiveDate, NaiveTime};
use rust_xlsxwriter::{ExcelDateTime, Format, IntoExcelDateTime, Workbook, XlsxError};

/// Days from 1970-01-01 in the proleptic Gregorian calendar.
fn civil(y: i64, m: i64, d: i64) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = y.div_euclid(400);
    let yoe = y - era * 400;
    let doy = (153 * ((m + 9) % 12) + 2) / 5 + d - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    era * 146_097 + doe - 719_468
}

fn from_civil(z: i64) -> (i64, i64, i64) {
    let z = z + 719_468;
    let era = z.div_euclid(146_097);
    let doe = z - era * 146_097;
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146_096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    (yoe + era * 400 + i64::from(m <= 2), m, d)
}

const EPOCH: i64 = -25_568; // 1899-12-31
const LAST: i64 = 2_932_896; // 9999-12-31

/// Excel day number of a day counted from 1970.
fn serial(day: i64) -> i64 {
    let n = day - EPOCH;
    if n > 59 {
        n + 1
    } else {
        n
    }
}

fn days_in(y: i64, m: i64) -> i64 {
    match m {
        2 if (y % 4 == 0 && y % 100 != 0) || y % 400 == 0 || y == 1900 => 29,
        2 => 28,
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}

/// Equal to the millisecond (and to double precision).
fn same(got: f64, day: i64, ms: i64) -> bool {
    let whole = day as f64;
    let want = whole + ms as f64 / 86_400_000.0;
    let ulp = (f64::EPSILON * whole.max(1.0)) * 2.0;
    (got - want).abs() <= ulp
}

const BLOCKS: u64 = 100;

pub fn case(ctx: &mut Ctx) {
    ctx.nontrivial = true;
    if ctx.index < BLOCKS {
        block(ctx);
        return;
    }
    for _ in 0..20 {
        instant(ctx);
        invalid(ctx);
    }
    if ctx.rng.one_in(4) {
        cells(ctx);
    }
}

/// Every day of 81 years, through every constructor, in order.
fn block(ctx: &mut Ctx) {
    let first = 1900 + ctx.index as i64 * 81;
    let last = (first + 80).min(9999);
    ctx.log(format!("all days of {first}-{last}"));
    let mut prev = f64::NEG_INFINITY;
    let lo = if first == 1900 {
        EPOCH
    } else {
        civil(first, 1, 1)
    };
    for day in lo..=civil(last, 12, 31) {
        let (y, m, d) = from_civil(day);
        let want = serial(day) as f64;
        let Ok(a) = ExcelDateTime::from_ymd(y as u16, m as u8, d as u8) else {
            ctx.fail("refused", format!("{y}-{m}-{d} refused"));
            continue;
        };
        let got = a.to_excel();
        let t = ExcelDateTime::from_timestamp(day * 86400)
            .map(|x| x.to_excel())
            .unwrap_or(-1.0);
        let c = NaiveDate::from_ymd_opt(y as i32, m as u32, d as u32).unwrap();
        let c = c.to_excel_serial_date();
        ctx.check(got == want && t == want && c == want, "day", || {
            format!("{y}-{m:02}-{d:02}: from_ymd {got}, from_timestamp {t}, chrono {c}, expected {want}")
        });
        ctx.check(got > prev, "order", || {
            format!("{y}-{m}-{d}: {got} after {prev}")
        });
        prev = got;
        ctx.count("days");
    }
    if first == 1900 {
        let f = ExcelDateTime::from_ymd(1900, 2, 29)
            .map(|x| x.to_excel())
            .unwrap_or(-1.0);
        ctx.eq(&f, &60.0, "false-leap", "1900-02-29");
    }
}

fn instant(ctx: &mut Ctx) {
    let r = &mut ctx.rng;
    let day = match r.below(8) {
        0 => *r.pick(&[
            EPOCH,
            EPOCH + 1,
            EPOCH + 59,
            EPOCH + 60,
            EPOCH + 61,
            -1,
            0,
            1,
            LAST,
        ]),
        1 => civil(r.range(19, 99) * 100, *r.pick(&[2, 3, 12]), 28).max(EPOCH),
        _ => r.range(EPOCH, LAST),
    };
    let ms = match r.below(6) {
        0 => *r.pick(&[0, 1, 999, 1000, 59_999, 3_599_999, 43_200_000, 86_399_999]),
        1 => r.range(0, 86_399) * 1000,
        _ => r.range(0, 86_399_999),
    };
    let (y, m, d) = from_civil(day);
    let (h, mi, s, l) = (ms / 3_600_000, ms / 60_000 % 60, ms / 1000 % 60, ms % 1000);
    let n = serial(day);
    let sec = s as f64 + l as f64 / 1000.0;
    ctx.log(format!("{y}-{m:02}-{d:02} {h:02}:{mi:02}:{s:02}.{l:03}"));
    let ymd = || ExcelDateTime::from_ymd(y as u16, m as u8, d as u8);
    let mut got: Vec<(&str, Result<f64, XlsxError>, i64, i64)> = vec![];
    let (h8, mi8) = (h as u16, mi as u8);
    got.push((
        "and_hms",
        ymd()
            .and_then(|x| x.and_hms(h8, mi8, sec))
            .map(|x| x.to_excel()),
        n,
        ms,
    ));
    got.push((
        "and_hms_milli",
        ymd()
            .and_then(|x| x.and_hms_milli(h8, mi8, s as u8, l as u16))
            .map(|x| x.to_excel()),
        n,
        ms,
    ));
    got.push((
        "from_hms",
        ExcelDateTime::from_hms(h8, mi8, sec).map(|x| x.to_excel()),
        0,
        ms,
    ));
    got.push((
        "from_hms_milli",
        ExcelDateTime::from_hms_milli(h8, mi8, s as u8, l as u16).map(|x| x.to_excel()),
        0,
        ms,
    ));
    let hours = ctx.rng.range(24, 65535);
    let long = hours * 3_600_000 + ms % 3_600_000;
    got.push((
        "from_hms long",
        ExcelDateTime::from_hms(hours as u16, mi8, sec).map(|x| x.to_excel()),
        long / 86_400_000,
        long % 86_400_000,
    ));
    let sep = *ctx.rng.pick(&["T", " "]);
    let tail = *ctx.rng.pick(&["", "Z", " ", "+01:00", "+05:30", "-08:00"]);
    let lead = *ctx.rng.pick(&["", " "]);
    let full = format!("{lead}{y:04}-{m:02}-{d:02}{sep}{h:02}:{mi:02}:{s:02}.{l:03}{tail}");
    got.push((
        "parse",
        ExcelDateTime::parse_from_str(&full).map(|x| x.to_excel()),
        n,
        ms,
    ));
    let whole = format!("{y:04}-{m:02}-{d:02}{sep}{h:02}:{mi:02}:{s:02}{tail}");
    got.push((
        "parse",
        ExcelDateTime::parse_from_str(&whole).map(|x| x.to_excel()),
        n,
        ms - l,
    ));
    let date = format!("{lead}{y:04}-{m:02}-{d:02}");
    got.push((
        "parse",
        ExcelDateTime::parse_from_str(&date).map(|x| x.to_excel()),
        n,
        0,
    ));
    let time = format!("{lead}{h:02}:{mi:02}:{s:02}.{l:03}");
    got.push((
        "parse",
        ExcelDateTime::parse_from_str(&time).map(|x| x.to_excel()),
        0,
        ms,
    ));
    let short = format!("{h:02}:{mi:02}");
    got.push((
        "parse",
        ExcelDateTime::parse_from_str(&short).map(|x| x.to_excel()),
        0,
        ms / 60_000 * 60_000,
    ));
    let ts = day * 86400 + ms / 1000;
    got.push((
        "from_timestamp",
        ExcelDateTime::from_timestamp(ts).map(|x| x.to_excel()),
        n,
        ms - l,
    ));
    let nd = NaiveDate::from_ymd_opt(y as i32, m as u32, d as u32).unwrap();
    let nt = NaiveTime::from_hms_milli_opt(h as u32, mi as u32, s as u32, l as u32).unwrap();
    got.push(("chrono", Ok(nd.and_time(nt).to_excel_serial_date()), n, ms));
    got.push((
        "chrono &",
        Ok((&nd.and_time(nt)).to_excel_serial_date()),
        n,
        ms,
    ));
    got.push(("chrono date", Ok((&nd).to_excel_serial_date()), n, 0));
    got.push(("chrono time", Ok(nt.to_excel_serial_date()), 0, ms));
    let f = n as f64 + ms as f64 / 86_400_000.0;
    got.push((
        "from_serial",
        ExcelDateTime::from_serial_datetime(f).map(|x| x.to_excel()),
        n,
        ms,
    ));
    for (what, g, wd, wms) in got {
        match g {
            Ok(g) => {
                ctx.check(same(g, wd, wms), "instant", || {
                    format!("{what} of {full:?}: {g}, expected day {wd} + {wms} ms")
                });
            }
            Err(e) => ctx.fail("refused", format!("{what} of {full:?}: {e}")),
        }
    }
    // Ordering of two instants one millisecond apart.
    if ms < 86_399_999 {
        let k = ms + 1;
        let b = ymd().and_then(|x| {
            x.and_hms_milli(
                (k / 3_600_000) as u16,
                (k / 60_000 % 60) as u8,
                (k / 1000 % 60) as u8,
                (k % 1000) as u16,
            )
        });
        let a = ymd().and_then(|x| x.and_hms_milli(h8, mi8, s as u8, l as u16));
        if let (Ok(a), Ok(b)) = (a, b) {
            let (a, b) = (a.to_excel(), b.to_excel());
            ctx.check(a < b, "order", || format!("{full}: {a} !< {b}"));
        }
    }
    ctx.count("instants");
}

fn invalid(ctx: &mut Ctx) {
    let r = &mut ctx.rng;
    let (mut y, mut m, mut d) = (r.range(1900, 9999), r.range(1, 12), 1);
    d += r.range(0, days_in(y, m) - 1);
    let (mut h, mut mi, mut s, mut l) = (
        r.range(0, 23),
        r.range(0, 59),
        r.range(0, 59),
        r.range(0, 999),
    );
    let k = r.below(9);
    match k {
        0 => y = *r.pick(&[0, 1, 1582, 1899, 10000, 10001, 65535, 1898]),
        1 => m = *r.pick(&[0, 13, 14, 99, 255]),
        2 => d = *r.pick(&[0, 32, 33, 255]),
        3 => d = days_in(y, m) + 1,
        4 => mi = *r.pick(&[61, 62, 99, 255]),
        5 => s = *r.pick(&[61, 99, 255]),
        6 => l = *r.pick(&[1000, 1001, 65535]),
        7 => {
            m = 2;
            d = 29;
            while (y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)) || y == 1900 {
                y = r.range(1901, 9999);
            }
        }
        _ => (m, d) = (*r.pick(&[4, 6, 9, 11]), 31),
    }
    if y == 1899 && m == 12 && d == 31 {
        return;
    }
    if !(4..=6).contains(&k) {
        h = 0;
    }
    ctx.log(format!("invalid {y}-{m}-{d} {h}:{mi}:{s}.{l}"));
    let a = ExcelDateTime::from_ymd(y as u16, m as u8, d as u8)
        .and_then(|x| x.and_hms_milli(h as u16, mi as u8, s as u8, l as u16));
    ctx.check(
        matches!(a, Err(XlsxError::DateTimeRangeError(_))),
        "accepted",
        || format!("{y}-{m}-{d} {h}:{mi}:{s}.{l} accepted"),
    );
    if k != 6 {
        let t = format!("{y:04}-{m:02}-{d:02}T{h:02}:{mi:02}:{s:02}");
        let a = ExcelDateTime::parse_from_str(&t);
        ctx.check(a.is_err(), "accepted-text", || format!("{t:?} accepted"));
    }
    if (4..=5).contains(&k) {
        let a = ExcelDateTime::from_hms(h as u16, mi as u8, s as f64);
        ctx.check(a.is_err(), "accepted-time", || {
            format!("{h}:{mi}:{s} accepted")
        });
    }
    let bad = *ctx.rng.pick(&[
        f64::NAN,
        f64::INFINITY,
        -1.0,
        -0.001,
        60.0,
        61.5,
        1e9,
        f64::NEG_INFINITY,
    ]);
    let a = ExcelDateTime::from_hms(1, 2, bad);
    ctx.check(a.is_err(), "accepted-seconds", || {
        format!("seconds {bad} accepted")
    });
    let bad = *ctx.rng.pick(&[
        f64::NAN,
        f64::INFINITY,
        -1.0,
        -1e-9,
        2_958_466.0,
        1e300,
        f64::NEG_INFINITY,
    ]);
    let a = ExcelDateTime::from_serial_datetime(bad);
    ctx.check(a.is_err(), "accepted-serial", || {
        format!("serial {bad} accepted")
    });
    let bad = *ctx.rng.pick(&[
        -2_209_075_201,
        253_402_300_800,
        i64::MAX,
        i64::MIN,
        i64::MIN + 1,
    ]);
    let a = ExcelDateTime::from_timestamp(bad);
    ctx.check(a.is_err(), "accepted-timestamp", || {
        format!("timestamp {bad} accepted")
    });
    let bad = *ctx.rng.pick(&["", "x", "today", "2024", "12", "20240101"]);
    let a = ExcelDateTime::parse_from_str(bad);
    ctx.check(a.is_err(), "accepted-garbage", || {
        format!("{bad:?} accepted")
    });
    ctx.count("invalid");
}

/// The serial that reaches a saved cell.
fn cells(ctx: &mut Ctx) {
    let mut wb = Workbook::new();
    let ws = wb.add_worksheet();
    let f = Format::new().set_num_format("yyyy-mm-dd hh:mm:ss.000");
    let mut want = vec![];
    for row in 0..6u32 {
        let day = ctx.rng.range(EPOCH, LAST);
        let ms = ctx.rng.range(0, 86_399_999);
        let (y, m, d) = from_civil(day);
        let nd = NaiveDate::from_ymd_opt(y as i32, m as u32, d as u32).unwrap();
        let nt = NaiveTime::from_num_seconds_from_midnight_opt(
            (ms / 1000) as u32,
            (ms % 1000) as u32 * 1_000_000,
        )
        .unwrap();
        ctx.log(format!("cell {y}-{m}-{d} {ms}"));
        let x = ExcelDateTime::from_ymd(y as u16, m as u8, d as u8).and_then(|x| {
            x.and_hms_milli(
                (ms / 3_600_000) as u16,
                (ms / 60_000 % 60) as u8,
                (ms / 1000 % 60) as u8,
                (ms % 1000) as u16,
            )
        });
        let Ok(x) = x else {
            ctx.fail("refused", format!("{y}-{m}-{d} {ms}"));
            return;
        };
        let _ = ws.write_datetime_with_format(row, 0, &x, &f);
        let _ = ws.write_datetime_with_format(row, 1, nd.and_time(nt), &f);
        let _ = ws.write_with_format(row, 2, &nd, &f);
        let _ = ws.write_with_format(row, 3, &nt, &f);
        let _ = ws.write(row, 4, &x);
        let n = serial(day);
        want.push([(n, ms), (n, ms), (n, 0), (0, ms), (n, ms)]);
    }
    let Some(b) = crate::sheetops::open_wb(ctx, &mut wb) else {
        return;
    };
    for (row, w) in want.iter().enumerate() {
        for (col, (n, ms)) in w.iter().enumerate() {
            let got = b.sheets[0]
                .cells
                .get(&(row as u32, col as u16))
                .map(|c| c.v.clone());
            let ok =
                matches!(got, Some(crate::book::V::Num(x)) if same(f64::from_bits(x), *n, *ms));
            ctx.check(ok, "cell", || {
                format!("row {row} col {col}: {got:?}, expected {n}+{ms}ms")
            });
        }
    }
    ctx.count("saved-cells");
}
