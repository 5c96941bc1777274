// Delta scan planning: a file that may hold a matching row is never skipped, and filters reported as exact are.
//@@ keep: arrow_ord
//@@ cut: arrow_cast !arrow_cast::cast::string* !arrow_cast::parse* !<arrow_cast::parse* !<arrow_array::types* !arrow_cast::cast::cast_with_options !<arrow_cast::cast::CastOptions* !arrow_cast::cast::cast !arrow_cast::display::FormatOptions* !<arrow_cast::display::FormatOptions*
//@@ cut: parquet tokio datafusion_common_runtime serde_arrow arrow_ipc arrow_csv arrow_json datafusion_physical_plan datafusion_functions datafusion_functions_nested datafusion_functions_aggregate
//@@ cut: regex regex_automata regex_syntax arrow_string arrow_row datafusion_datasource datafusion_execution apache_avro object_store reqwest hyper sqlparser datafusion_sql datafusion_optimizer datafusion_catalog
//@@ cut: arrow_arith::numeric* arrow_arith::aggregate* arrow_arith::temporal* arrow_select::dictionary* arrow_select::take* arrow_select::interleave* arrow_select::zip* arrow_select::merge* arrow_select::coalesce* arrow_select::concat* arrow_select::filter*
//@@ cut: arrow_ord::sort* arrow_ord::rank* arrow_ord::partition* arrow_ord::ord* datafusion_physical_expr::expressions::case* datafusion_physical_expr::expressions::like*
use crate::rt::*;
use arrow::datatypes::{DataType, Field, Schema, TimeUnit};
use datafusion::common::{DFSchema, ScalarValue};
use datafusion::logical_expr::execution_props::ExecutionProps;
use datafusion::logical_expr::{col, lit, Between, BinaryExpr, Expr, Operator, TableProviderFilterPushDown};
use sail_delta_lake::datasource::expressions::get_pushdown_filters;
use sail_delta_lake::datasource::pruning::prune_adds_by_physical_predicate;
use sail_delta_lake::spec::{Add, ColumnMappingMode};
use std::collections::HashMap;
use std::sync::Arc;

fn add(parts: &[(&str, Option<String>)], stats: Option<String>) -> Add {
    Add {
        path: "f".to_string(), partition_values: parts.iter().map(|(k, v)| (k.to_string(), v.clone())).collect(), size: 1, modification_time: 0, data_change: true, stats, tags: None,
        deletion_vector: None, base_row_id: None, default_row_commit_version: None, clustering_provider: None, commit_version: None, commit_timestamp: None,
    }
}
fn prune(adds: &[Add], s: &Arc<Schema>, e: &Expr) -> Option<Vec<bool>> {
    let d = DFSchema::try_from(s.as_ref().clone()).ok()?;
    let p = datafusion::physical_expr::create_physical_expr(e, &d, &ExecutionProps::new()).ok()?;
    prune_adds_by_physical_predicate(adds, s.clone(), p, ColumnMappingMode::None).ok()
}
const OPS: [Operator; 6] = [Operator::Eq, Operator::Lt, Operator::LtEq, Operator::Gt, Operator::GtEq, Operator::NotEq];
#[inline(never)]
fn holds(op: usize, a: i64, b: i64) -> bool { match op { 0 => a == b, 1 => a < b, 2 => a <= b, 3 => a > b, 4 => a >= b, _ => a != b } }
fn binary(l: Expr, op: usize, r: Expr) -> Expr { Expr::BinaryExpr(BinaryExpr::new(Box::new(l), OPS[op], Box::new(r))) }
fn cmp(n: &str, op: usize, c: Expr, swap: bool) -> Expr { if swap { binary(c, [0, 3, 4, 1, 2, 5][op], col(n)) } else { binary(col(n), op, c) } }
/// A number of one or two digits, as text and value.
fn number() -> (String, i64) {
    let mut t = vec![];
    let neg = fix(any_bool() as u64) == 1;
    if neg { t.push(b'-'); }
    let a = any_in(1, 9) as u8;
    t.push(b'0' + a);
    let mut v = a as i64;
    if fix(any_bool() as u64) == 1 { let b = any_in(0, 9) as u8; t.push(b'0' + b); v = v * 10 + b as i64; }
    (as_str(&t).to_string(), if neg { -v } else { v })
}
/// A nullable value and the truth of a predicate: 0 false, 1 true, 2 unknown.
#[derive(Clone, Copy)]
struct V { null: bool, v: i64 }
fn truth(v: V, b: bool) -> u8 { if v.null { 2 } else { b as u8 } }
fn and(a: u8, b: u8) -> u8 { if (a == 0) | (b == 0) { 0 } else if (a == 1) & (b == 1) { 1 } else { 2 } }
fn or(a: u8, b: u8) -> u8 { if (a == 1) | (b == 1) { 1 } else if (a == 0) & (b == 0) { 0 } else { 2 } }
fn not(a: u8) -> u8 { if a == 2 { 2 } else { 1 - a } }
/// A literal: predicates are rewritten by hashing their literals, so each is a concrete case.
fn literal() -> i32 { [-10, -9, 0, 1, 9, 10, 45][any_fixed(0, 6) as usize] }
/// One predicate on column n with its truth for value v.
fn leaf(n: &str, v: V, c: i32, kinds: u64) -> (Expr, u8) {
    match any_fixed(0, kinds) {
        0 => { let op = any_fixed(0, 5) as usize; (cmp(n, op, lit(c), false), truth(v, holds(op, v.v, c as i64))) }
        1 => (col(n).is_null(), v.null as u8),
        2 => (col(n).is_not_null(), !v.null as u8),
        3 => (col(n).in_list(vec![lit(c), lit(-3), lit(40)], false), truth(v, (v.v == c as i64) | (v.v == -3) | (v.v == 40))),
        4 => (col(n).in_list(vec![lit(c), lit(7)], true), truth(v, (v.v != c as i64) & (v.v != 7))),
        5 => (Expr::Between(Between::new(Box::new(col(n)), false, Box::new(lit(-5)), Box::new(lit(c)))), truth(v, (v.v >= -5) & (v.v <= c as i64))),
        6 => { let op = any_fixed(0, 5) as usize; (cmp(n, op, lit(c), true), truth(v, holds(op, v.v, c as i64))) }
        _ => (Expr::Not(Box::new(cmp(n, 0, lit(c), false))), not(truth(v, v.v == c as i64))),
    }
}
fn part() -> (Option<String>, V) {
    match any_fixed(0, 2) { 0 => (None, V { null: true, v: 0 }), 1 => (Some(String::new()), V { null: true, v: 0 }), _ => { let (t, v) = number(); (Some(t), V { null: false, v }) } }
}
fn stats() -> Option<String> { if fix(any_bool() as u64) == 1 { Some(r#"{"numRecords":4}"#.to_string()) } else { None } }
fn judge(adds: &[Add], s: &Arc<Schema>, e: &Expr, t: u8, parts: &[&str]) {
    let exact = matches!(get_pushdown_filters(&[e], &parts.iter().map(|p| p.to_string()).collect::<Vec<_>>())[0], TableProviderFilterPushDown::Exact);
    let Some(k) = prune(adds, s, e) else { check(false, 1); return };
    check(k.len() == adds.len(), 2);
    check((t != 1) | k[0], 3);
    if exact { check((t == 1) | !k[0], 4); reach(3); }
    reach(if k[0] { 1 } else { 2 });
}
fn ints() -> Arc<Schema> { Arc::new(Schema::new(vec![Field::new("x", DataType::Int32, true), Field::new("p", DataType::Int32, true), Field::new("q", DataType::Int32, true)])) }

//@ bound: int partition column: NULL written as null or empty, or any number of up to two digits; eight kinds of predicate with literals from a list; with and without statistics
//@ says: a partition is scanned if its rows match, and not scanned if the filter is reported as exact and they do not
crate::h!(h_part {
    let (p, v) = part();
    let (e, t) = leaf("p", v, literal(), 7);
    judge(&[add(&[("p", p)], stats())], &ints(), &e, t, &["p"]);
});
//@ bound: two int partition columns, one with any number of up to two digits, NULL or empty, one with three values, conjunctions and disjunctions of two predicates with two literals, comparisons of the columns with each other and with a computed value
crate::h!(h_part_two {
    let (p, v) = part();
    let (q, w) = match any_fixed(0, 2) { 0 => (None, V { null: true, v: 0 }), 1 => (Some("12".to_string()), V { null: false, v: 12 }), _ => (Some("-3".to_string()), V { null: false, v: -3 }) };
    let c = [-9, 10][any_fixed(0, 1) as usize];
    let (e, t) = match any_fixed(0, 3) {
        0 => { let op = any_fixed(0, 5) as usize; (binary(col("p"), op, col("q")), if v.null | w.null { 2 } else { holds(op, v.v, w.v) as u8 }) }
        1 => (binary(binary_plus(col("p"), lit(1)), 0, lit(10)), truth(v, v.v == 9)),
        k => {
            let (a, s) = leaf("p", v, c, 2);
            let (b, t) = leaf("q", w, 12, 0);
            if k == 2 { (a.and(b), and(s, t)) } else { (a.or(b), or(s, t)) }
        }
    };
    judge(&[add(&[("p", p), ("q", q)], None)], &ints(), &e, t, &["p", "q"]);
});
fn binary_plus(l: Expr, r: Expr) -> Expr { Expr::BinaryExpr(BinaryExpr::new(Box::new(l), Operator::Plus, Box::new(r))) }
//@ bound: lists of 19 to 24 values, any partition value
//@ says: long IN lists likewise
crate::h!(h_part_list {
    let (p, v) = part();
    let n = any_fixed(19, 24) as i32;
    let neg = fix(any_bool() as u64) == 1;
    let l: Vec<Expr> = (0..n).map(lit).collect();
    let inside = (v.v >= 0) & (v.v < n as i64);
    judge(&[add(&[("p", p)], stats())], &ints(), &col("p").in_list(l, neg), truth(v, inside != neg), &["p"]);
});
//@ bound: boolean partition column true, false or NULL; the column, its negation and null tests as filters
crate::h!(h_part_bool {
    let s = Arc::new(Schema::new(vec![Field::new("p", DataType::Boolean, true)]));
    let (p, v) = match any_fixed(0, 2) { 0 => (None, V { null: true, v: 0 }), 1 => (Some("true".to_string()), V { null: false, v: 1 }), _ => (Some("false".to_string()), V { null: false, v: 0 }) };
    let (e, t) = match any_fixed(0, 5) {
        0 => (col("p"), truth(v, v.v == 1)), 1 => (Expr::Not(Box::new(col("p"))), truth(v, v.v == 0)), 2 => (col("p").is_null(), v.null as u8), 3 => (col("p").is_not_null(), !v.null as u8),
        4 => (col("p").and(col("p").is_not_null()), truth(v, v.v == 1)), _ => (binary(col("p"), 0, lit(true)), truth(v, v.v == 1)),
    };
    judge(&[add(&[("p", p)], stats())], &s, &e, t, &["p"]);
});
//@ bound: string partition column with any ASCII value up to 2 characters, or NULL; five literals; six comparisons and null tests
crate::h!(h_part_str {
    let s = Arc::new(Schema::new(vec![Field::new("p", DataType::Utf8, true)]));
    let c = ["", "a", "B", "ab", "a%"][any_fixed(0, 4) as usize].as_bytes().to_vec();
    let (p, null, b) = if any_fixed(0, 1) == 0 { (None, true, vec![]) } else { let b = ascii(any_fixed(0, 2) as usize); (Some(as_str(&b).to_string()), b.is_empty(), b) };
    let mut o = 0i64;
    let mut i = 2;
    while i > 0 { i -= 1; let (x, y) = (if i < b.len() { b[i] as i64 } else { -1 }, if i < c.len() { c[i] as i64 } else { -1 }); o = if x < y { -1 } else if x > y { 1 } else { o }; }
    let v = V { null, v: o };
    let (e, t) = match any_fixed(0, 7) { 6 => (col("p").is_null(), null as u8), 7 => (col("p").is_not_null(), !null as u8), op => (cmp("p", op as usize, lit(as_str(&c)), false), truth(v, holds(op as usize, o, 0))) };
    judge(&[add(&[("p", p)], stats())], &s, &e, t, &["p"]);
});
fn with_stats(deep: bool) {
    let null = fix(any_bool() as u64) == 1;
    let have = any_fixed(0, 3);
    let mut st = String::from(r#"{"numRecords":4"#);
    let mut v = any_i32();
    if have & 1 == 1 {
        const B: [(i64, i64); 4] = [(-9, 12), (10, 10), (0, 0), (10, 45)];
        let (lo, hi) = B[any_fixed(0, if deep { 3 } else { 1 }) as usize];
        let (a, b) = (lo.to_string(), hi.to_string());
        assume((lo <= v as i64) & (v as i64 <= hi));
        st.push_str(r#","minValues":{"x":"#); st.push_str(&a); st.push_str(r#"},"maxValues":{"x":"#); st.push_str(&b); st.push('}');
    }
    if null { v = 0; }
    if have & 2 == 2 { st.push_str(r#","nullCount":{"x":"#); let n = if fix(any_bool() as u64) == 1 { if null { 4 } else { 3 } } else { null as u64 }; st.push((b'0' + n as u8) as char); st.push('}'); if have == 3 && fix(any_bool() as u64) == 1 { st.push_str(r#","tightBounds":false"#); } }
    st.push('}');
    let (e, t) = leaf("x", V { null, v: v as i64 }, if deep { literal() } else { [0, 10][any_fixed(0, 1) as usize] }, 7);
    let other = if fix(any_bool() as u64) == 1 { Some(r#"{"numRecords":1,"minValues":{"x":5},"maxValues":{"x":5},"nullCount":{"x":0}}"#.to_string()) } else { None };
    judge(&[add(&[], Some(st)), add(&[], other)], &ints(), &e, t, &[]);
}
//@ bound: int column, two pairs of bounds, any row value within them or NULL, eight kinds of predicate with two literals; bounds, null count or all statistics missing; another file with or without statistics
//@ says: a file is scanned whenever its statistics admit a matching row
crate::h!(h_stats { with_stats(false) });
//@ tier: thorough
//@ time: 800
//@ bound: the same with four pairs of bounds and seven literals
crate::h!(h_stats_deep { with_stats(true) });
//@ bound: timestamp column with millisecond statistics in any second, row values anywhere within them to the microsecond, ten literals around them, six comparisons
//@ says: statistics cut to milliseconds do not exclude the microseconds behind them
crate::h!(h_stats_ts {
    let tz: Option<Arc<str>> = if fix(any_bool() as u64) == 1 { Some("UTC".into()) } else { None };
    let s = Arc::new(Schema::new(vec![Field::new("x", DataType::Timestamp(TimeUnit::Microsecond, tz.clone()), true)]));
    let (sec, ms) = (any_in(0, 9) as i64, any_in(0, 9) as i64);
    let base = 1_577_836_800_000_000i64; // 2020-01-01T00:00:00Z
    let hi = base + sec * 1_000_000 + (100 + ms) * 1000;
    let v = any_i64();
    assume((v >= base) & (v < hi + 1000));
    let z = if tz.is_some() { "Z" } else { "" };
    let mut m = format!("2020-01-01T00:00:0_.10_{z}").into_bytes();
    m[18] = b'0' + sec as u8;
    m[22] = b'0' + ms as u8;
    let st = format!(r#"{{"numRecords":2,"minValues":{{"x":"2020-01-01T00:00:00.000{z}"}},"maxValues":{{"x":"{}"}},"nullCount":{{"x":0}}}}"#, as_str(&m));
    let c = base + [-1, 0, 1, 99_999, 100_000, 5_104_000, 5_104_999, 5_105_000, 9_109_999, 9_110_000][any_fixed(0, 9) as usize];
    let op = any_fixed(0, 5) as usize;
    judge(&[add(&[], Some(st))], &s, &cmp("x", op, lit(ScalarValue::TimestampMicrosecond(Some(c), tz)), false), holds(op, v, c) as u8, &[]);
});
