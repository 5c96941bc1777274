// Delta DELETE, UPDATE and MERGE: the metadata filter keeps every file with an affected row.
//@@ cut: arrow_cast arrow_select arrow_string arrow_arith arrow_row arrow_ipc arrow_csv arrow_json parquet tokio datafusion_common_runtime serde_arrow datafusion_physical_plan datafusion_physical_expr
//@@ cut: datafusion_functions !datafusion_functions::core::get_field* !datafusion_functions::core::getfield* !<datafusion_functions::core* !datafusion_functions::core datafusion_functions_nested datafusion_functions_aggregate regex regex_automata regex_syntax datafusion_datasource datafusion_execution apache_avro object_store reqwest hyper sqlparser datafusion_sql datafusion_optimizer datafusion_catalog
use crate::rt::*;
use arrow::datatypes::DataType;
use datafusion::common::ScalarValue;
use datafusion::logical_expr::expr::Cast;
use datafusion::logical_expr::{col, lit, Between, BinaryExpr, Expr, Operator};
use sail_delta_lake::physical_plan::planner::metadata_predicate::{predicate_requires_stats, rewrite_predicate_for_metadata};
use std::collections::HashMap;

const OPS: [Operator; 6] = [Operator::Eq, Operator::Lt, Operator::LtEq, Operator::Gt, Operator::GtEq, Operator::NotEq];
#[inline(never)]
fn holds(op: usize, a: i64, b: i64) -> bool { match op { 0 => a == b, 1 => a < b, 2 => a <= b, 3 => a > b, 4 => a >= b, _ => a != b } }
fn bin(l: Expr, op: usize, r: Expr) -> Expr { Expr::BinaryExpr(BinaryExpr::new(Box::new(l), OPS[op], Box::new(r))) }
/// A nullable value, and truth values: 0 false, 1 true, 2 unknown.
#[derive(Clone, Copy)]
struct V { null: bool, v: i64 }
const NULL: V = V { null: true, v: 0 };
fn some(v: i64) -> V { V { null: false, v } }
fn truth(v: V, b: bool) -> u8 { if v.null { 2 } else { b as u8 } }
fn and(a: u8, b: u8) -> u8 { if (a == 0) | (b == 0) { 0 } else if (a == 1) & (b == 1) { 1 } else { 2 } }
fn or(a: u8, b: u8) -> u8 { if (a == 1) | (b == 1) { 1 } else if (a == 0) & (b == 0) { 0 } else { 2 } }
fn not(a: u8) -> u8 { if a == 2 { 2 } else { 1 - a } }

/// What the log says of a file.
#[derive(Clone, Copy)]
struct File { n: V, nulls: V, min: V, max: V, p: V }
struct Env<'a> { f: File, column: &'a [&'a str] }
fn path(e: &Expr, out: &mut Vec<String>) -> bool {
    match e {
        Expr::Column(c) => { out.push(c.name.clone()); true }
        Expr::ScalarFunction(g) if g.func.name() == "get_field" => path(&g.args[0], out) && matches!(&g.args[1], Expr::Literal(ScalarValue::Utf8(Some(s)), _) if { out.push(s.clone()); true }),
        _ => false,
    }
}
/// The value of an expression over the metadata of the file; None for what the metadata does not have.
fn value(e: &Expr, s: &Env) -> Option<V> {
    match e {
        Expr::Literal(ScalarValue::Int32(x), _) => Some(x.map_or(NULL, |x| some(x as i64))),
        Expr::Literal(ScalarValue::Int64(x), _) => Some(x.map_or(NULL, some)),
        Expr::Cast(c) => value(&c.expr, s),
        _ => {
            let mut p = vec![];
            if !path(e, &mut p) { return None; }
            let p: Vec<&str> = p.iter().map(|x| x.as_str()).collect();
            match &p[..] {
                ["p"] => Some(s.f.p),
                ["stats_parsed", "numRecords"] => Some(s.f.n),
                ["stats_parsed", "minValues", c @ ..] if c == s.column => Some(s.f.min),
                ["stats_parsed", "maxValues", c @ ..] if c == s.column => Some(s.f.max),
                ["stats_parsed", "nullCount", c @ ..] if c == s.column => Some(s.f.nulls),
                _ => None,
            }
        }
    }
}
fn compare(op: usize, a: V, b: V) -> u8 { truth(V { null: a.null | b.null, v: 0 }, holds(op, a.v, b.v)) }
fn eval(e: &Expr, s: &Env) -> Option<u8> {
    Some(match e {
        Expr::Literal(ScalarValue::Boolean(Some(b)), _) => *b as u8,
        Expr::BinaryExpr(b) => match b.op {
            Operator::And => and(eval(&b.left, s)?, eval(&b.right, s)?),
            Operator::Or => or(eval(&b.left, s)?, eval(&b.right, s)?),
            o => { let i = OPS.iter().position(|x| *x == o)?; compare(i, value(&b.left, s)?, value(&b.right, s)?) }
        },
        Expr::IsNull(e) => value(e, s)?.null as u8,
        Expr::IsNotNull(e) => !value(e, s)?.null as u8,
        Expr::Not(e) => not(eval(e, s)?),
        Expr::Between(b) => { let v = value(&b.expr, s)?; let t = and(compare(4, v, value(&b.low, s)?), compare(2, v, value(&b.high, s)?)); if b.negated { not(t) } else { t } }
        Expr::InList(l) => {
            let v = value(&l.expr, s)?;
            let mut t = 0;
            for x in &l.list { t = or(t, compare(0, v, value(x, s)?)); }
            if l.negated { not(t) } else { t }
        }
        _ => return None,
    })
}
fn any(null: bool) -> V { V { null, v: any_i32() as i64 } }
fn flag() -> bool { fix(any_bool() as u64) == 1 }
/// A file that holds a row with value v in x.
fn file(v: V, some: bool) -> File {
    let missing = if some { 1 << any_fixed(0, 3) } else { any_fixed(0, 15) };
    let f = File { n: any(missing & 1 != 0), nulls: any(missing & 2 != 0), min: any(missing & 4 != 0), max: any(missing & 8 != 0), p: NULL };
    assume((f.n.null | (f.n.v >= 1)) & (f.nulls.null | (f.nulls.v >= 0)));
    assume(f.n.null | f.nulls.null | (f.nulls.v <= f.n.v - !v.null as i64));
    assume(f.nulls.null | !v.null | (f.nulls.v >= 1));
    assume(v.null | ((f.min.null | (f.min.v <= v.v)) & (f.max.null | (v.v <= f.max.v))));
    f
}
/// One predicate over column c with its truth for value v.
fn leaf(c: &Expr, v: V, kinds: u64, ops: u64) -> (Expr, u8) {
    let k = any_fixed(0, kinds);
    let a = any_i32();
    let b = any_i32();
    let (la, lb) = (lit(a), lit(b));
    let (a, b) = (a as i64, b as i64);
    match k {
        0 => { let op = any_fixed(0, ops) as usize; (bin(c.clone(), op, la), truth(v, holds(op, v.v, a))) }
        1 => { let op = any_fixed(0, ops) as usize; (bin(la, [0, 3, 4, 1, 2, 5][op], c.clone()), truth(v, holds(op, v.v, a))) }
        2 => (c.clone().is_null(), v.null as u8),
        3 => (c.clone().is_not_null(), !v.null as u8),
        4 => (c.clone().in_list(vec![la, lb], false), truth(v, (v.v == a) | (v.v == b))),
        5 => (c.clone().in_list(vec![la, lb], true), truth(v, (v.v != a) & (v.v != b))),
        6 => (Expr::Between(Between::new(Box::new(c.clone()), false, Box::new(la), Box::new(lb))), truth(v, (v.v >= a) & (v.v <= b))),
        7 => (Expr::Between(Between::new(Box::new(c.clone()), true, Box::new(la), Box::new(lb))), truth(v, (v.v < a) | (v.v > b))),
        8 => { let op = any_fixed(0, ops) as usize; (Expr::Not(Box::new(bin(c.clone(), op, la))), not(truth(v, holds(op, v.v, a)))) }
        9 => (Expr::Not(Box::new(c.clone().is_null())), !v.null as u8),
        10 => (Expr::Not(Box::new(c.clone().is_not_null())), v.null as u8),
        11 => (bin(c.clone(), [1, 2, 3, 4, 5][any_fixed(0, ops.min(4)) as usize], Expr::Literal(ScalarValue::Int32(None), None)), 2),
        _ => { let op = any_fixed(0, ops) as usize; (bin(Expr::Cast(Cast::new(Box::new(c.clone()), DataType::Int64)), op, lit(a)), truth(v, holds(op, v.v, a))) }
    }
}
fn paths(to: &[&str], from: &[&str]) -> HashMap<Vec<String>, Vec<String>> {
    let v = |s: &[&str]| s.iter().map(|x| x.to_string()).collect::<Vec<_>>();
    HashMap::from([(v(from), v(to)), (vec!["p".to_string()], vec!["p".to_string()])])
}
fn judge(e: Expr, t: u8, f: File, to: &[&str], from: &[&str]) {
    let r = rewrite_predicate_for_metadata(e, &["p".to_string()], &paths(to, from));
    match eval(&r, &Env { f, column: to }) { Some(k) => { check((t != 1) | (k == 1), 1); reach(if k == 1 { 1 } else { 2 }) } None => check(false, 2) }
}
fn row() -> V { any(flag()) }

//@ fmt: real
//@ bound: one row with any INT or NULL; any statistics that admit it, each of them present or absent; thirteen kinds of predicates with any literals; plain, mapped and nested columns
//@ says: a file that holds a row the predicate selects stays in the plan
crate::h!(h_leaf {
    let v = row();
    let (c, to, from): (Expr, &[&str], &[&str]) = match any_fixed(0, 2) {
        0 => (col("x"), &["x"], &["x"]),
        1 => (col("x"), &["col-7"], &["x"]),
        _ => (datafusion::logical_expr::ScalarUDF::call(&datafusion::functions::core::get_field(), vec![col("s"), lit("x")]), &["s", "y"], &["s", "x"]),
    };
    let f = file(v, false);
    let (e, t) = leaf(&c, v, 12, 5);
    judge(e, t, f, to, from);
});
//@ fmt: real
//@ bound: conjunctions and disjunctions of two predicates on one column, out of three and six kinds, with any literals, one statistic missing, and their negations
crate::h!(h_two {
    let v = row();
    let f = file(v, true);
    let (a, s) = leaf(&col("x"), v, 2, 1);
    let (b, t) = leaf(&col("x"), v, 5, 5);
    let (e, t) = if any_fixed(0, 1) == 0 { (a.and(b), and(s, t)) } else { (a.or(b), or(s, t)) };
    let (e, t) = if any_fixed(0, 1) == 0 { (e, t) } else { (Expr::Not(Box::new(e)), not(t)) };
    judge(e, t, f, &["x"], &["x"]);
});
//@ fmt: real
//@ bound: a partition column with any INT or NULL, alone or combined with the other column
//@ says: predicates on partition columns need no statistics and keep exactly the partitions that match
crate::h!(h_partition {
    let p = row();
    let v = row();
    let mut f = file(v, true);
    f.p = p;
    let how = any_fixed(0, 2);
    let (a, s) = if how == 0 { leaf(&col("p"), p, 12, 5) } else { leaf(&col("p"), p, 5, 1) };
    let names = ["p".to_string()];
    check(!predicate_requires_stats(&a, &names), 3);
    match how {
        0 => {
            let known = !matches!(&a, Expr::Not(_));
            let r = rewrite_predicate_for_metadata(a, &names, &paths(&["x"], &["x"]));
            match eval(&r, &Env { f, column: &["x"] }) { Some(k) => { check((s != 1) | (k == 1), 4); check(!known | (k == s), 5) } None => check(false, 6) }
        }
        1 => { let (b, t) = leaf(&col("x"), v, 0, 5); let e = a.and(b); check(predicate_requires_stats(&e, &names), 7); judge(e, and(s, t), f, &["x"], &["x"]) }
        _ => { let (b, t) = leaf(&col("x"), v, 0, 5); judge(b.or(a), or(s, t), f, &["x"], &["x"]) }
    }
});
