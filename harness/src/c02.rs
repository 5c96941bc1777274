// Calendar functions against the proleptic Gregorian calendar.
use crate::udf::*;
use sail_function::scalar::datetime::spark_last_day::SparkLastDay;
use sail_function::scalar::datetime::spark_next_day::SparkNextDay;
use sail_function::scalar::datetime::spark_year::SparkYear;
use sail_function::scalar::math::spark_try_add::SparkTryAdd;
use sail_function::scalar::math::spark_try_subtract::SparkTrySubtract;
use datafusion_expr::preimage::PreimageResult;
use datafusion_expr::simplify::SimplifyContext;
use datafusion_expr::Expr;

/// Days from 1970-01-01 to y-m-d in the proleptic Gregorian calendar, by counting days and leap years.
pub fn days_of(y: i64, m: i64, d: i64) -> i64 {
    const CUM: [i64; 13] = [0, 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334];
    let p = y - 1;
    let before = 365 * p + p.div_euclid(4) - p.div_euclid(100) + p.div_euclid(400);
    let leap = (y.rem_euclid(4) == 0 && y.rem_euclid(100) != 0) || y.rem_euclid(400) == 0;
    before + CUM[m as usize] + ((m > 2 && leap) as i64) + d - 1 - 719_162
}
pub fn is_leap(y: i64) -> bool { ((y.rem_euclid(4) == 0) & (y.rem_euclid(100) != 0)) | (y.rem_euclid(400) == 0) }



/// A year: enumerated; the day within it stays symbolic.
fn pick(v: &[i64]) -> i64 { v[any_fixed(0, v.len() as u64 - 1) as usize] }
const Y1: [i64; 3] = [2000, 2023, 1900];
const Y2: [i64; 3] = [1, 1968, 9999];
const YT: [i64; 12] = [1970, 2024, 1899, 1600, 4, 0, -1, -400, 1582, 2100, 9996, 1999];
fn month_end(y: i64, m: i64) -> i64 { (if m == 12 { days_of(y + 1, 1, 1) } else { days_of(y, m + 1, 1) }) - 1 }
/// every month is enumerated, the day of the month is symbolic: (days, m, first day of m, last day of m)
fn a_day(y: i64) -> (i64, i64, i64, i64) {
    let m = any_fixed(1, 12) as i64;
    let first = days_of(y, m, 1);
    let last = month_end(y, m);
    (any_in(first, last), m, first, last)
}
fn last_day(ys: &[i64]) {
    let (d, _, _, last) = a_day(pick(ys));
    let o = run(&SparkLastDay::new(), vec![col::<Date32Type>(&[Some(d as i32), None])], DataType::Date32, 0);
    let Ok(o) = o else { check(false, 1); return };
    check(o.as_primitive::<Date32Type>().value(0) as i64 == last, 2);
    check(o.is_null(1), 3);
}
//@ bound: every day of 2000, 2023, 1900
//@ says: last_day is the last day of the month of the argument
crate::h!(h_last_day1 { last_day(&Y1) });
//@ bound: every day of years 1, 1968, 9999
//@ says: last_day is the last day of the month of the argument
crate::h!(h_last_day2 { last_day(&Y2) });
const CENTURIES: [i64; 22] = [-400, -100, -4, 0, 4, 100, 400, 800, 1000, 1200, 1600, 1700, 1996, 2100, 2200, 2400, 2800, 3000, 4000, 6400, 8000, 9996];
//@ bound: every day from 27 February to 2 March of 22 years: centuries divisible by 400 or not, leap years, BC included
//@ says: last_day follows the leap year rules
crate::h!(h_last_day_leap {
    let y = pick(&CENTURIES);
    let march = days_of(y, 3, 1);
    let m = 2 + any_fixed(0, 1) as i64;
    let d = if m == 2 { any_in(march - 2, march - 1) } else { any_in(march, march + 1) };
    let o = run(&SparkLastDay::new(), vec![col::<Date32Type>(&[Some(d as i32)])], DataType::Date32, 0);
    let Ok(o) = o else { check(false, 1); return };
    check(o.as_primitive::<Date32Type>().value(0) as i64 == if m == 2 { march - 1 } else { march + 30 }, 2);
});
//@ bound: the first and last two days of the same 22 years
//@ says: year changes on 1 January in all of them
crate::h!(h_year_edges {
    let y = pick(&CENTURIES);
    let first = days_of(y, 1, 1);
    let d = any_in(first - 2, first + 1);
    let o = run(&SparkYear::new(), vec![col::<Date32Type>(&[Some(d as i32)])], DataType::Int32, 0);
    let Ok(o) = o else { check(false, 1); return };
    check(o.as_primitive::<Int32Type>().value(0) as i64 == if d < first { y - 1 } else { y }, 2);
});
//@ bound: every day of 12 more years, BC included
//@ says: last_day is the last day of the month of the argument
//@ tier: thorough
//@ time: 900
crate::h!(h_last_day_t { last_day(&YT) });
fn year(ys: &[i64]) {
    let y = pick(ys);
    let (d, ..) = a_day(y);
    let o = run(&SparkYear::new(), vec![col::<Date32Type>(&[Some(d as i32), None])], DataType::Int32, 0);
    let Ok(o) = o else { check(false, 1); return };
    check(o.as_primitive::<Int32Type>().value(0) as i64 == y, 2);
    check(o.is_null(1), 3);
}
//@ bound: every day of 2000, 2023, 1900, 1, 1968, 9999
//@ says: year is the Gregorian year of the date
crate::h!(h_year { year(if any_bool() { &Y1 } else { &Y2 }) });
//@ bound: every day of 12 more years, BC included
//@ tier: thorough
//@ time: 900
//@ says: year is the Gregorian year of the date
crate::h!(h_year_t { year(&YT) });
//@ bound: every date in 2000, 1968 and 1, all weekdays
//@ says: next_day is the first later date that falls on the weekday
crate::h!(h_next_day {
    let y = pick(&[2000, 1968, 1]);
    let d = any_in(days_of(y, 1, 1), days_of(y + 1, 1, 1) - 1);
    let names: [&[u8]; 7] = [b"MON", b"tuesday", b"We", b"THU", b"Friday", b"sa", b"SUN"];
    let w = any_fixed(0, 6) as usize;
    let o = run(&SparkNextDay::new(false), vec![col::<Date32Type>(&[Some(d as i32), None]), strs(&[Some(names[w]), Some(names[w])])], DataType::Date32, 0);
    let Ok(o) = o else { check(false, 1); return };
    check(o.is_null(1), 3);
    let r = o.as_primitive::<Date32Type>().value(0) as i64;
    check((r > d) & (r <= d + 7), 4);
    // 1970-01-01 was a Thursday
    check((r + 3 + 7 * 1_000_000) % 7 == w as i64, 5);
});
//@ bound: every 3-letter ASCII name
//@ says: a name is accepted exactly when it is one of the seven abbreviations in any case
crate::h!(h_next_day_name {
    let n = ascii(3);
    let o = run(&SparkNextDay::new(false), vec![col::<Date32Type>(&[Some(0)]), strs(&[Some(&n)])], DataType::Date32, 0);
    let Ok(o) = o else { check(false, 1); return };
    let l = |i: usize| n[i] | 0x20;
    let alpha = |c: u8| (c.wrapping_sub(b'a') < 26) as u32;
    let key = (l(0) as u32) << 16 | (l(1) as u32) << 8 | l(2) as u32;
    let is = |s: &[u8; 3]| (key == ((s[0] as u32) << 16 | (s[1] as u32) << 8 | s[2] as u32)) as u32;
    let up = (n[0] & 0x40 != 0) & (n[1] & 0x40 != 0) & (n[2] & 0x40 != 0);
    let ok = (is(b"mon") + is(b"tue") + is(b"wed") + is(b"thu") + is(b"fri") + is(b"sat") + is(b"sun") == 1) & up;
    check(o.is_valid(0) == ok, 2);
});
/// the date `k` months after a day of month m, year y, day of month clamped
fn plus_months(y: i64, m: i64, dom: i64, k: i64) -> i64 {
    let t = y * 12 + (m - 1) + k;
    let (y2, m2) = (t.div_euclid(12), t.rem_euclid(12) + 1);
    let len = month_end(y2, m2) - days_of(y2, m2, 1) + 1;
    days_of(y2, m2, 1) + if dom < len { dom } else { len } - 1
}
fn months(ys: &[i64], ms: &[i64], ks: &[i64]) {
    let y = pick(ys);
    let m = pick(ms);
    let first = days_of(y, m, 1);
    let d = any_in(first, month_end(y, m));
    let k = pick(ks);
    let kind = any_fixed(0, 3);
    let days = if kind >= 2 { pick(&[1, -400]) } else { 0 };
    let dates = col::<Date32Type>(&[Some(d as i32), None, Some(d as i32)]);
    let s = if kind & 1 == 1 { -1 } else { 1 };
    let iv = |m: i64, d: i64| Some(IntervalMonthDayNano { months: m as i32, days: d as i32, nanoseconds: 0 });
    let b = if kind < 2 { col::<IntervalYearMonthType>(&[Some((s * k) as i32), Some(1), None]) }
        else { col::<IntervalMonthDayNanoType>(&[iv(s * k, s * days), iv(1, 1), None]) };
    let o = if s < 0 { run(&SparkTrySubtract::new(), vec![dates, b], DataType::Date32, 0) } else { run(&SparkTryAdd::new(), vec![dates, b], DataType::Date32, 0) };
    let Ok(o) = o else { check(false, 1); return };
    let o = o.as_primitive::<Date32Type>();
    check(o.is_null(1) & o.is_null(2) & o.is_valid(0), 2);
    check(o.value(0) as i64 == plus_months(y, m, d - first + 1, k) + days, 3);
}
//@ bound: every day of January, February and December 2000, +-{1, 13} months and {1, -400} days
//@ says: date + interval moves by whole months with the day of month clamped, then by days; - is + of the opposite
crate::h!(h_months { months(&[2000], &[1, 2, 12], &[1, -13]) });
//@ bound: every day of January and March 2023, +-{1, 12} months and {1, -400} days
//@ says: date + interval moves by whole months with the day of month clamped, then by days; - is + of the opposite
crate::h!(h_months2 { months(&[2023], &[1, 3], &[1, 12]) });
//@ bound: every day of January to March and December of 2024 and 1900; 6 month counts
//@ tier: thorough
//@ time: 1500
//@ says: date + interval moves by whole months with the day of month clamped, then by days; - is + of the opposite
crate::h!(h_months_t { months(&[2024, 1900], &[1, 2, 3, 12], &[0, 2, 12, -13, 1200, -4800]) });
fn range<U: ScalarUDFImpl>(u: &U, lit: ScalarValue) -> Option<Option<(i32, i32)>> {
    let arg = Expr::Column(datafusion_common::Column::from_name("d"));
    match u.preimage(&[arg], &Expr::Literal(lit, None), &SimplifyContext::default()) {
        Ok(PreimageResult::None) => Some(None),
        Ok(PreimageResult::Range { interval, .. }) => match (interval.lower(), interval.upper()) {
            (ScalarValue::Date32(Some(a)), ScalarValue::Date32(Some(b))) => Some(Some((*a, *b))),
            _ => None,
        },
        Err(_) => None,
    }
}
//@ bound: years 2000, 1, 1900, 9999, 0, 1969 as literals
//@ says: the rewrite of year(d) = Y keeps exactly the dates whose year is Y
crate::h!(h_year_preimage {
    let y = pick(&[2000, 1, 1900, 9999, 0, 1969]);
    let lit = if any_bool() { ScalarValue::Int32(Some(y as i32)) } else { ScalarValue::Int64(Some(y)) };
    match range(&SparkYear::new(), lit) {
        Some(None) => {}
        Some(Some((a, b))) => { reach(1); check((a as i64 == days_of(y, 1, 1)) & (b as i64 == days_of(y + 1, 1, 1)), 2) }
        None => check(false, 3),
    }
});
//@ bound: every day of 2000, 2023, 1900 as the literal
//@ says: the rewrite of last_day(d) = L is done only when L ends a month, and keeps exactly that month
crate::h!(h_last_day_preimage {
    let (d, _, first, last) = a_day(pick(&Y1));
    match range(&SparkLastDay::new(), ScalarValue::Date32(Some(d as i32))) {
        Some(None) => reach(2),
        Some(Some((a, b))) => { reach(1); check(d == last, 2); check((a as i64 == first) & (b as i64 == last + 1), 4) }
        None => check(false, 3),
    }
});
