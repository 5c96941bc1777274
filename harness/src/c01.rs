// try_add, try_subtract, try_multiply, try_divide, try_mod, interval div: exact, or NULL, never wrapped.
use crate::udf::*;
use sail_function::scalar::math::spark_div::SparkIntervalDiv;
use sail_function::scalar::math::spark_try_add::SparkTryAdd;
use sail_function::scalar::math::spark_try_div::SparkTryDiv;
use sail_function::scalar::math::spark_try_mod::SparkTryMod;
use sail_function::scalar::math::spark_try_mult::SparkTryMult;
use sail_function::scalar::math::spark_try_subtract::SparkTrySubtract;

/// rows: (a,b), (NULL,b2), (a3,NULL), (a4,b4); row 0 is decided for all values and shapes, the others for placement.
fn prim<L: ArrowPrimitiveType, R: ArrowPrimitiveType, O: ArrowPrimitiveType, U: ScalarUDFImpl>(
    u: &U, mode: u64, x: (L::Native, R::Native), y: (L::Native, R::Native), ref_: impl Fn(L::Native, R::Native) -> Option<i128>, back: impl Fn(O::Native) -> i128,
) {
    let l = col::<L>(&[Some(x.0), None, Some(y.0), Some(y.0)]);
    let r = col::<R>(&[Some(x.1), Some(y.1), None, Some(y.1)]);
    let Ok(o) = run(u, vec![l, r], O::DATA_TYPE, mode) else { check(false, 1); return };
    let o = o.as_primitive::<O>();
    let cmp = |i: usize, a: Option<L::Native>, b: Option<R::Native>, id: u32| {
        let w = match (a, b) { (Some(a), Some(b)) => ref_(a, b), _ => None };
        match w {
            Some(w) => { check(o.is_valid(i), id); if o.is_valid(i) { check(back(o.value(i)) == w, id + 1); reach(id); } }
            None => check(o.is_null(i), id + 2),
        }
    };
    let (ls, rs) = (mode & 1 == 1, mode & 2 == 2);
    cmp(0, Some(x.0), Some(x.1), 10);
    if mode == 3 { check(o.len() == 1, 2); return; }
    check(o.len() == 4, 3);
    let la = |v: Option<L::Native>| if ls { Some(x.0) } else { v };
    let ra = |v: Option<R::Native>| if rs { Some(x.1) } else { v };
    if !ls { check(o.is_null(1), 20); }
    if !rs { check(o.is_null(2), 21); }
    cmp(3, la(Some(y.0)), ra(Some(y.1)), 30);
}
fn fit32(v: i128) -> Option<i128> { if v >= i32::MIN as i128 && v <= i32::MAX as i128 { Some(v) } else { None } }
fn fit64(v: i128) -> Option<i128> { if v >= i64::MIN as i128 && v <= i64::MAX as i128 { Some(v) } else { None } }


macro_rules! both { ($n:ident, $u:ty, $t:ty, $op:tt, $fit:ident, $any:expr, $any2:expr) => {
    crate::h!($n { prim::<$t, $t, $t, _>(&<$u>::new(), any_fixed(0, 3), ($any, $any2), ($any, 7), |a, b| $fit(a as i128 $op b as i128), |v| v as i128) });
} }
const K: [i64; 12] = [0, 1, -1, 2, -3, 7, 1000, 86_400, -1_000_000_007, i64::MAX, i64::MIN, 1 << 32];
fn k64() -> i64 { K[any_fixed(0, 11) as usize] }
fn k32() -> i32 { [0, 1, -1, 2, -3, 7, 60, 1000, -65536, i32::MAX, i32::MIN][any_fixed(0, 10) as usize] }

//@ bound: all pairs of i32, array/scalar arguments in every combination, 4 rows with NULLs
//@ says: try_add is the exact sum, NULL exactly when it does not fit or an argument is NULL
both!(h_add_i32, SparkTryAdd, Int32Type, +, fit32, any_i32(), any_i32());
//@ bound: all pairs of i64
//@ says: try_add is the exact sum, NULL exactly when it does not fit or an argument is NULL
both!(h_add_i64, SparkTryAdd, Int64Type, +, fit64, any_i64(), any_i64());
//@ bound: all pairs of i32
//@ says: try_subtract is the exact difference, NULL exactly when it does not fit or an argument is NULL
both!(h_sub_i32, SparkTrySubtract, Int32Type, -, fit32, any_i32(), any_i32());
//@ bound: all pairs of i64
//@ says: try_subtract is the exact difference, NULL exactly when it does not fit or an argument is NULL
both!(h_sub_i64, SparkTrySubtract, Int64Type, -, fit64, any_i64(), any_i64());
//@ bound: all pairs of year-month intervals
//@ says: try_add of year-month intervals is exact or NULL
both!(h_add_ym, SparkTryAdd, IntervalYearMonthType, +, fit32, any_i32(), any_i32());
//@ bound: all pairs of year-month intervals
//@ says: try_subtract of year-month intervals is exact or NULL
both!(h_sub_ym, SparkTrySubtract, IntervalYearMonthType, -, fit32, any_i32(), any_i32());
//@ bound: all i32 by 11 multipliers including the extremes
//@ says: try_multiply is the exact product or NULL
both!(h_mul_i32, SparkTryMult, Int32Type, *, fit32, any_i32(), k32());
//@ bound: all i64 by 12 multipliers including the extremes
//@ says: try_multiply is the exact product or NULL
both!(h_mul_i64, SparkTryMult, Int64Type, *, fit64, any_i64(), k64());
//@ bound: both factors symbolic, |factor| < 2^12 and beyond 2^31
//@ says: try_multiply is the exact product or NULL
crate::h!(h_mul_i64_both {
    let (a, b) = (any_i64(), any_in(-70000, 70000));
    let (hi, lo) = (any_in(-7, 7), any_in(-40, 40));
    assume(a == hi.wrapping_mul(1 << 60) + lo);
    let r = run(&SparkTryMult::new(), vec![col::<Int64Type>(&[Some(a)]), col::<Int64Type>(&[Some(b)])], DataType::Int64, 0);
    let Ok(r) = r else { check(false, 1); return };
    let r = r.as_primitive::<Int64Type>();
    let w = a as i128 * b as i128;
    check(r.is_valid(0) == (fit64(w).is_some()), 2);
    if r.is_valid(0) { check(r.value(0) as i128 == w, 3); }
});
fn rem(a: i128, b: i128) -> Option<i128> { if b == 0 { None } else { Some(a % b) } }
//@ bound: all i32 by 11 divisors including 0 and the extremes
//@ says: try_mod is the remainder with the sign of the dividend, NULL when the divisor is 0
crate::h!(h_mod_i32 {
    let (a, b) = (any_i32(), k32());
    assume(!(b == -1 && a == i32::MIN));
    prim::<Int32Type, Int32Type, Int32Type, _>(&SparkTryMod::new(), any_fixed(0, 3), (a, b), (any_i32(), 7), |a, b| rem(a as i128, b as i128), |v| v as i128)
});
//@ bound: all i64 by 12 divisors including 0 and the extremes
//@ says: try_mod is the remainder with the sign of the dividend, NULL when the divisor is 0
crate::h!(h_mod_i64 {
    let (a, b) = (any_i64(), k64());
    assume(!(b == -1 && a == i64::MIN));
    prim::<Int64Type, Int64Type, Int64Type, _>(&SparkTryMod::new(), any_fixed(0, 3), (a, b), (any_i64(), 7), |a, b| rem(a as i128, b as i128), |v| v as i128)
});
//@ bound: the single pair
//@ says: try_mod(MIN, -1) is 0
//@ a5: MIN % -1 gives NULL
crate::h!(h_mod_min {
    let big = any_bool();
    if big {
        let r = run(&SparkTryMod::new(), vec![col::<Int64Type>(&[Some(i64::MIN)]), col::<Int64Type>(&[Some(-1)])], DataType::Int64, 0).unwrap();
        check(r.is_valid(0) && r.as_primitive::<Int64Type>().value(0) == 0, 5);
    } else {
        let r = run(&SparkTryMod::new(), vec![col::<Int32Type>(&[Some(i32::MIN)]), col::<Int32Type>(&[Some(-1)])], DataType::Int32, 0).unwrap();
        check(r.is_valid(0) && r.as_primitive::<Int32Type>().value(0) == 0, 5);
    }
});
//@ bound: all pairs of i32 / i64 (through the IEEE quotient)
//@ says: try_divide is the double quotient, NULL exactly when the divisor is 0
crate::h!(h_div_i32 {
    let (a, b, c) = (any_i32(), any_i32(), any_i32());
    let r = run(&SparkTryDiv::new(), vec![col::<Int32Type>(&[None, Some(c), Some(a)]), col::<Int32Type>(&[Some(b), Some(8), Some(b)])], DataType::Float64, 0);
    let Ok(r) = r else { check(false, 1); return };
    let r = r.as_primitive::<Float64Type>();
    check(r.is_null(0) & r.is_valid(1), 4);
    check(r.value(1) == c as f64 / 8.0, 6);
    check(r.is_valid(2) == (b != 0), 2);
    if b != 0 { check(r.value(2).to_bits() == (a as f64 / b as f64).to_bits(), 3); }
});
//@ bound: all pairs of i64
//@ says: try_divide is the double quotient, NULL exactly when the divisor is 0
crate::h!(h_div_i64 {
    let (a, b) = (any_i64(), any_i64());
    let r = run(&SparkTryDiv::new(), vec![col::<Int64Type>(&[None, Some(a)]), col::<Int64Type>(&[Some(b), Some(b)])], DataType::Float64, 0);
    let Ok(r) = r else { check(false, 1); return };
    let r = r.as_primitive::<Float64Type>();
    check(r.is_null(0), 4);
    check(r.is_valid(1) == (b != 0), 2);
    if b != 0 { check(r.value(1).to_bits() == (a as f64 / b as f64).to_bits(), 3); }
});
//@ bound: all year-month intervals by 11 divisors
//@ says: try_divide of a year-month interval truncates, NULL on a zero divisor or overflow
crate::h!(h_div_ym {
    prim::<IntervalYearMonthType, Int32Type, IntervalYearMonthType, _>(&SparkTryDiv::new(), any_fixed(0, 3), (any_i32(), k32()), (any_i32(), 7),
        |a, b| if b == 0 { None } else { fit32(a as i128 / b as i128) }, |v| v as i128)
});
//@ bound: all year-month intervals by 11 multipliers
//@ says: try_multiply of a year-month interval is exact or NULL, in either argument order
crate::h!(h_mul_ym {
    let swap = any_bool();
    let (a, b) = (any_i32(), k32());
    let (l, r) = (col::<IntervalYearMonthType>(&[Some(a), None, Some(4)]), col::<Int32Type>(&[Some(b), Some(3), Some(b)]));
    let Ok(o) = run(&SparkTryMult::new(), if swap { vec![r, l] } else { vec![l, r] }, DataType::Interval(IntervalUnit::YearMonth), 0) else { check(false, 1); return };
    let o = o.as_primitive::<IntervalYearMonthType>();
    let w = a as i64 * b as i64;
    check(o.is_valid(0) == (w as i32 as i64 == w), 2);
    if o.is_valid(0) { check(o.value(0) as i64 == w, 3); }
    check(o.is_null(1), 4);
    let w = 4 * b as i64;
    check(o.is_valid(2) == (w as i32 as i64 == w), 5);
});

fn mdn() -> IntervalMonthDayNano { IntervalMonthDayNano { months: any_i32(), days: any_i32(), nanoseconds: any_i64() } }
type Mdn = IntervalMonthDayNanoType;
fn mdn_sum(sub: bool) {
    let (a, b) = (mdn(), mdn());
    let cols = vec![col::<Mdn>(&[Some(a), None, Some(a)]), col::<Mdn>(&[Some(b), Some(b), None])];
    let t = DataType::Interval(IntervalUnit::MonthDayNano);
    let o = if sub { run(&SparkTrySubtract::new(), cols, t, 0) } else { run(&SparkTryAdd::new(), cols, t, 0) };
    let Ok(o) = o else { check(false, 1); return };
    let o = o.as_primitive::<Mdn>();
    check(o.is_null(1) & o.is_null(2), 4);
    let f = |x: i128, y: i128| if sub { x - y } else { x + y };
    let (m, d, n) = (f(a.months as i128, b.months as i128), f(a.days as i128, b.days as i128), f(a.nanoseconds as i128, b.nanoseconds as i128));
    if o.is_valid(0) {
        reach(1);
        let v = o.value(0);
        check((v.months as i128 == m) & (v.days as i128 == d) & (v.nanoseconds as i128 == n), 2);
    } else {
        check((m != m as i32 as i128) | (d != d as i32 as i128) | (n != n as i64 as i128), 3);
        reach(2);
    }
}
//@ bound: all pairs of month-day-nano intervals
//@ says: try_add of intervals is exact in every field or NULL
crate::h!(h_add_mdn { mdn_sum(false) });
//@ bound: all pairs of month-day-nano intervals
//@ says: try_subtract of intervals is exact in every field or NULL, and never fails
crate::h!(h_sub_mdn { mdn_sum(true) });
//@ bound: all month-day-nano intervals, 11 multipliers
//@ says: try_multiply of an interval is exact in every field or NULL
crate::h!(h_mul_mdn {
    let (wide, swap) = (any_bool(), any_bool());
    let (a, b) = (mdn(), k32());
    let l = col::<Mdn>(&[Some(a), None]);
    let r = if wide { col::<Int64Type>(&[Some(b as i64), Some(1)]) } else { col::<Int32Type>(&[Some(b), Some(1)]) };
    let Ok(o) = run(&SparkTryMult::new(), if swap { vec![r, l] } else { vec![l, r] }, DataType::Interval(IntervalUnit::MonthDayNano), 0) else { check(false, 1); return };
    let o = o.as_primitive::<Mdn>();
    check(o.is_null(1), 4);
    let (m, d, n) = (a.months as i128 * b as i128, a.days as i128 * b as i128, a.nanoseconds as i128 * b as i128);
    if o.is_valid(0) {
        let v = o.value(0);
        check((v.months as i128 == m) & (v.days as i128 == d) & (v.nanoseconds as i128 == n), 2);
    } else {
        check((m != m as i32 as i128) | (d != d as i32 as i128) | (n != n as i64 as i128), 3);
    }
});
const DAY: i128 = 86_400_000_000_000;
//@ bound: intervals with any months and days and nanoseconds, divisors 0, ±1, 2, 3, 7, -5
//@ says: try_divide of an interval divides months by truncation and the day-time part exactly to the nearest nanosecond, NULL on zero divisor or overflow
crate::h!(h_div_mdn {
    let a = mdn();
    let b = [0i32, 1, -1, 2, 3, 7, -5][any_fixed(0, 6) as usize];
    let wide = any_bool();
    let r = if wide { col::<Int64Type>(&[Some(b as i64), Some(1)]) } else { col::<Int32Type>(&[Some(b), Some(1)]) };
    let Ok(o) = run(&SparkTryDiv::new(), vec![col::<Mdn>(&[Some(a), None]), r], DataType::Interval(IntervalUnit::MonthDayNano), 0) else { check(false, 1); return };
    let o = o.as_primitive::<Mdn>();
    check(o.is_null(1), 4);
    if b == 0 { check(o.is_null(0), 5); return; }
    let b = b as i128;
    let m = a.months as i128 / b;
    let t = a.days as i128 * DAY + a.nanoseconds as i128;
    if o.is_valid(0) {
        reach(1);
        let v = o.value(0);
        check(v.months as i128 == m, 6);
        // nearest: |2 * (q * b - t)| <= |b|
        let q = v.days as i128 * DAY + v.nanoseconds as i128;
        let e = (q * b - t) * 2;
        let ab = if b < 0 { -b } else { b };
        check((e <= ab) & (e >= -ab), 7);
    } else {
        let q = t / b;
        check((m != m as i32 as i128) | (q / DAY > i32::MAX as i128 - 1) | (q / DAY < i32::MIN as i128 + 1), 8);
    }
});
//@ bound: all day-time / month-day-nano interval pairs whose divisor is one of a fixed list
//@ says: div of intervals is the truncated quotient of the total lengths, NULL on a zero divisor
crate::h!(h_interval_div_ym {
    prim::<IntervalYearMonthType, IntervalYearMonthType, Int64Type, _>(&SparkIntervalDiv::new(), any_fixed(0, 3), (any_i32(), k32()), (any_i32(), 7),
        |a, b| if b == 0 { None } else { Some(a as i128 / b as i128) }, |v| v as i128)
});
crate::h!(h_interval_div_dt {
    let a = IntervalDayTime { days: any_i32(), milliseconds: any_i32() };
    let b = [(0, 0), (1, 0), (0, 1), (-1, 86_400_000), (0, -7), (3, 5), (-2, -1)][any_fixed(0, 6) as usize];
    let b = IntervalDayTime { days: b.0, milliseconds: b.1 };
    let Ok(o) = run(&SparkIntervalDiv::new(), vec![col::<IntervalDayTimeType>(&[Some(a), None]), col::<IntervalDayTimeType>(&[Some(b), Some(b)])], DataType::Int64, 0) else { check(false, 1); return };
    let o = o.as_primitive::<Int64Type>();
    check(o.is_null(1), 4);
    let (x, y) = (a.days as i128 * 86_400_000 + a.milliseconds as i128, b.days as i128 * 86_400_000 + b.milliseconds as i128);
    if y == 0 { check(o.is_null(0), 5); } else { check(o.is_valid(0), 6); check(o.value(0) as i128 == x / y, 7); }
});
crate::h!(h_interval_div_mdn {
    let a = mdn();
    let b = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (0, 0, -1), (-1, 30, 0), (0, -7, 3), (2, 3, 5)][any_fixed(0, 7) as usize];
    let b = IntervalMonthDayNano { months: b.0, days: b.1, nanoseconds: b.2 };
    let (x, y) = (a.months as i128 * 30 * DAY + a.days as i128 * DAY + a.nanoseconds as i128, b.months as i128 * 30 * DAY + b.days as i128 * DAY + b.nanoseconds as i128);
    let Ok(o) = run(&SparkIntervalDiv::new(), vec![col::<Mdn>(&[Some(a), None]), col::<Mdn>(&[Some(b), Some(b)])], DataType::Int64, 0) else {
        check(y != 0, 8);
        check((x / y) as i64 as i128 != x / y, 9);
        return;
    };
    let o = o.as_primitive::<Int64Type>();
    check(o.is_null(1), 4);
    if y == 0 { check(o.is_null(0), 5); } else { check(o.is_valid(0), 6); check(o.value(0) as i128 == x / y, 7); }
});
//@ bound: every timestamp and duration (microseconds)
//@ says: timestamp +- duration is exact or NULL
crate::h!(h_ts_dur {
    let sub = any_bool();
    let (a, b) = (any_i64(), any_i64());
    let cols = vec![col::<TimestampMicrosecondType>(&[Some(a), None, Some(a)]), col::<DurationMicrosecondType>(&[Some(b), Some(b), None])];
    let t = DataType::Timestamp(TimeUnit::Microsecond, None);
    let o = if sub { run(&SparkTrySubtract::new(), cols, t, 0) } else { run(&SparkTryAdd::new(), cols, t, 0) };
    let Ok(o) = o else { check(false, 1); return };
    let o = o.as_primitive::<TimestampMicrosecondType>();
    check(o.is_null(1) & o.is_null(2), 4);
    let w = if sub { a as i128 - b as i128 } else { a as i128 + b as i128 };
    check(o.is_valid(0) == fit64(w).is_some(), 2);
    if o.is_valid(0) { check(o.value(0) as i128 == w, 3); }
});
//@ bound: every date and day count
//@ says: date +- days is exact or NULL
crate::h!(h_date_days {
    let sub = any_bool();
    let (a, b) = (any_i32(), any_i32());
    let cols = vec![col::<Date32Type>(&[Some(a), None, Some(a)]), col::<Int32Type>(&[Some(b), Some(b), None])];
    let o = if sub { run(&SparkTrySubtract::new(), cols, DataType::Date32, 0) } else { run(&SparkTryAdd::new(), cols, DataType::Date32, 0) };
    let Ok(o) = o else { check(false, 1); return };
    let o = o.as_primitive::<Date32Type>();
    check(o.is_null(1) & o.is_null(2), 4);
    let w = if sub { a as i128 - b as i128 } else { a as i128 + b as i128 };
    check(o.is_valid(0) == fit32(w).is_some(), 2);
    if o.is_valid(0) { check(o.value(0) as i128 == w, 3); }
});
