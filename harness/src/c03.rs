// TIME functions, timestamps from parts, interval parts and window buckets.
use crate::udf::*;
use sail_function::scalar::datetime::negate_duration::*;
use sail_function::scalar::datetime::spark_make_time::SparkMakeTime;
use sail_function::scalar::datetime::spark_make_timestamp_ntz::SparkMakeTimestampNtz;
use sail_function::scalar::datetime::spark_make_ym_interval::SparkMakeYmInterval;
use sail_function::scalar::datetime::spark_time_diff::SparkTimeDiff;
use sail_function::scalar::datetime::spark_time_trunc::SparkTimeTrunc;
use sail_function::scalar::datetime::spark_window_buckets::SparkWindowBuckets;

const UNITS: [(&[u8], i64); 5] = [(b"MICROSECOND", 1), (b"millisecond", 1000), (b"Second", 1_000_000), (b"MINUTE", 60_000_000), (b"hour", 3_600_000_000)];
const DAY_US: i64 = 86_400_000_000;
fn t64() -> DataType { DataType::Time64(TimeUnit::Microsecond) }
//@ bound: every time of day, every unit, arguments as columns or literals
//@ says: time_trunc is the largest multiple of the unit that is not after the time
crate::h!(h_time_trunc {
    let (u, k) = UNITS[any_fixed(0, 4) as usize];
    let t = any_in(0, DAY_US - 1);
    let mode = any_fixed(0, 3);
    let o = run(&SparkTimeTrunc::new(), vec![strs(&[Some(u), None, Some(u)]), col::<Time64MicrosecondType>(&[Some(t), Some(1), None])], t64(), mode);
    let Ok(o) = o else { check(false, 1); return };
    let r = o.as_primitive::<Time64MicrosecondType>();
    check(r.is_valid(0) & (r.value(0) == t / k * k), 2);
    if mode == 0 { check(r.is_null(1) & r.is_null(2), 3); }
    if mode == 1 { check(r.is_null(2) & r.is_valid(1), 4); }
});
//@ bound: every pair of times of day, every unit, arguments as columns or literals
//@ says: time_diff is the difference end - start in whole units, truncated towards zero
crate::h!(h_time_diff {
    let (u, k) = UNITS[any_fixed(0, 4) as usize];
    let (a, b) = (any_in(0, DAY_US - 1), any_in(0, DAY_US - 1));
    let mode = any_fixed(0, 7);
    let c = |v: i64| col::<Time64MicrosecondType>(&[Some(v), None, Some(v), Some(v)]);
    let o = run(&SparkTimeDiff::new(), vec![strs(&[Some(u), Some(u), None, Some(u)]), c(a), c(b)], DataType::Int64, mode);
    let Ok(o) = o else { check(false, 1); return };
    let r = o.as_primitive::<Int64Type>();
    let d = b - a;
    let w = if d >= 0 { d / k } else { -(-d / k) };
    check(r.is_valid(0) & (r.value(0) == w), 2);
    if mode == 0 { check(r.is_null(1) & r.is_null(2), 3); }
    if mode != 7 { check(r.is_valid(3) & (r.value(3) == w), 4); }
});
//@ bound: every unit name of 4 ASCII characters
//@ says: an unknown unit is an error, a known one is accepted in any case
crate::h!(h_time_unit {
    let n = ascii(4);
    let o = run(&SparkTimeTrunc::new(), vec![strs(&[Some(&n)]), col::<Time64MicrosecondType>(&[Some(5)])], t64(), 0);
    let k = (n[0] as u32) << 24 | (n[1] as u32) << 16 | (n[2] as u32) << 8 | n[3] as u32;
    let alpha = (n[0] & n[1] & n[2] & n[3]) & 0x40 != 0;
    check(o.is_ok() == ((k | 0x20202020 == 0x686f7572) & alpha), 2);
});
//@ bound: every hour, minute (i32) and second (decimal with 6 digits, i128)
//@ says: make_time accepts exactly the times of day and gives their microseconds
crate::h!(h_make_time {
    let (h, m, s) = (any_i32(), any_i32(), any_i128());
    let sec = Arc::new(Decimal128Array::from(vec![Some(s), Some(0)]).with_precision_and_scale(16, 6).unwrap());
    let o = run(&SparkMakeTime::new(), vec![col::<Int32Type>(&[Some(h), None]), col::<Int32Type>(&[Some(m), Some(0)]), sec], t64(), 0);
    let valid = (h >= 0) & (h < 24) & (m >= 0) & (m < 60) & (s >= 0) & (s < 60_000_000);
    match o {
        Ok(o) => {
            check(valid, 2);
            let r = o.as_primitive::<Time64MicrosecondType>();
            check(r.value(0) == h as i64 * 3_600_000_000 + m as i64 * 60_000_000 + s as i64, 3);
            check(r.is_null(1), 4);
            reach(1);
        }
        Err(_) => { check(!valid, 5); reach(2); }
    }
});
//@ bound: every date and time of day
//@ says: make_timestamp_ntz(date, time) is exact; an overflow is an error, or NULL for try_
crate::h!(h_make_ts_date_time {
    let is_try = any_bool();
    let (d, t) = (any_i32(), any_in(0, DAY_US - 1));
    let o = run(&SparkMakeTimestampNtz::new(is_try), vec![col::<Date32Type>(&[Some(d), None, Some(1)]), col::<Time64MicrosecondType>(&[Some(t), Some(1), Some(2)])], DataType::Timestamp(TimeUnit::Microsecond, None), 0);
    let w = d as i128 * DAY_US as i128 + t as i128;
    let w0 = d as i128 * DAY_US as i128;
    let fits = (w == w as i64 as i128) & (w0 == w0 as i64 as i128);
    match o {
        Ok(o) => {
            let r = o.as_primitive::<TimestampMicrosecondType>();
            check(r.is_valid(0) == fits, 2);
            check(fits | is_try, 3);
            if r.is_valid(0) { check(r.value(0) as i128 == w, 4); }
            check(r.is_null(1), 5);
            check(r.value(2) == DAY_US + 2, 6);
        }
        Err(_) => check(!fits & !is_try, 7),
    }
});
//@ bound: every day number (u32) at 23:59, every hour and minute (u32) on day 28; whole and half seconds 0..=60, years 1600, 2000 and 2023, each month
//@ says: make_timestamp_ntz of parts accepts exactly valid dates and times (second 60 carries) and is exact
crate::h!(h_make_ts_parts {
    let y = [1600, 2000, 2023][any_fixed(0, 2) as usize];
    let m = [1, 2, 4, 12, 0, 13][any_fixed(0, 5) as usize];
    let by_day = any_bool();
    let (d, h, mi) = if by_day { (any_u32(), 23, 59) } else { (28, any_u32(), any_u32()) };
    let half = [0u32, 1, 119, 120, 121][any_fixed(0, 4) as usize];
    let u = |v: u32| col::<UInt32Type>(&[Some(v)]);
    let o = run(&SparkMakeTimestampNtz::new(true), vec![col::<Int32Type>(&[Some(y)]), u(m), u(d), u(h), u(mi), col::<Float64Type>(&[Some(half as f64 / 2.0)])], DataType::Timestamp(TimeUnit::Microsecond, None), 0);
    let Ok(o) = o else { check(false, 1); return };
    let r = o.as_primitive::<TimestampMicrosecondType>();
    let leap = y == 1600 || y == 2000;
    let len = match m { 2 => 28 + leap as u32, 4 => 30, 0 | 13 => 0, _ => 31 };
    let valid = (d >= 1) & (d <= len) & (h < 24) & (mi < 60) & (half <= 120);
    check(r.is_valid(0) == valid, 2);
    if r.is_valid(0) {
        let base = crate::c03::first_of(y as i64, m as i64);
        check(r.value(0) == (base + d as i64 - 1) * DAY_US + h as i64 * 3_600_000_000 + mi as i64 * 60_000_000 + half as i64 * 500_000, 3);
    }
});
pub fn first_of(y: i64, m: i64) -> i64 {
    const CUM: [i64; 13] = [0, 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334];
    let p = y - 1;
    let leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    365 * p + p / 4 - p / 100 + p / 400 + CUM[m as usize] + ((m > 2 && leap) as i64) - 719_162
}
//@ bound: every pair of i32
//@ says: make_ym_interval is years * 12 + months or an overflow error
crate::h!(h_make_ym {
    let (y, m) = (any_i32(), any_i32());
    let o = run(&SparkMakeYmInterval::new(), vec![col::<Int32Type>(&[Some(y), None]), col::<Int32Type>(&[Some(m), Some(1)])], DataType::Interval(IntervalUnit::YearMonth), any_fixed(0, 2));
    let yy = y as i64 * 12;
    let w = yy + m as i64;
    let fits = (w == w as i32 as i64) & (yy == yy as i32 as i64);
    match o {
        Ok(o) => { check(fits, 2); check(o.as_primitive::<IntervalYearMonthType>().value(0) as i64 == w, 3); }
        Err(_) => check(!fits, 4),
    }
});
//@ bound: every timestamp within 200 000 years of the epoch, 9 window shapes
//@ says: the windows of an event are exactly the windows of the grid that contain it, each once, latest first
crate::h!(h_window_buckets {
    let shapes = [(10, 10, 0), (10, 5, 0), (10, 3, 0), (7, 10, 0), (10, 4, 3), (60_000_000, 60_000_000, -19), (600_000_000, 300_000_000, 0), (3, 1, 2), (5, 2, -1)];
    let (w, s, st) = shapes[any_fixed(0, 8) as usize];
    let ts = any_in(-(1 << 62), 1 << 62);
    let tt = DataType::Timestamp(TimeUnit::Microsecond, None);
    let u = SparkWindowBuckets::new(w, s, st);
    let ret = u.return_type(&[tt]).unwrap();
    let Ok(o) = run(&u, vec![col::<TimestampMicrosecondType>(&[None, Some(ts)])], ret, 0) else { check(false, 1); return };
    let l = o.as_list::<i32>();
    check(l.value_offsets()[1] == 0, 2);
    let b = l.value(1);
    let b = b.as_struct();
    let n = b.len();
    let (a, e) = (b.column(0).as_primitive::<TimestampMicrosecondType>(), b.column(1).as_primitive::<TimestampMicrosecondType>());
    // the latest grid start not after ts
    let last = ts - (ts - st).rem_euclid(s);
    if n == 0 { check(last + w <= ts, 3); return; }
    check((a.value(0) == last), 4);
    for i in 0..n {
        check((e.value(i) - a.value(i) == w) & (a.value(i) <= ts) & (ts < e.value(i)), 5);
        if i > 0 { check(a.value(i - 1) - a.value(i) == s, 6); }
    }
    check(a.value(n - 1) - s + w <= ts, 7);
});
